"""Workload programs: a small SSA language of array programs.

A program is plain JSON.  Every random choice comes from the ``random.Random``
handed in; every constant is rebuilt from a seed stored in the program, so the
JSON alone replays the program.  While a program is generated its values are
evaluated in numpy, so that operations are only applied where they are smooth
and well scaled (no kinks, poles or blow-ups): derivatives then exist and the
comparison against the reference is well conditioned.
"""
import functools
import math
import random

import numpy as np

LIM = 30.0  # largest magnitude of any intermediate value
MARGIN = 0.05  # smallest distance from a kink / pole
class Limit:
    size = 40  # elements per value; more for programs with large inputs


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------
def make_const(spec):
    return np.asarray(_make_const(spec))


def _make_const(spec):
    """spec: {shape, seed, kind, [lo, hi]} -> numpy array (float64/int64/bool)."""
    r = np.random.RandomState(spec['seed'] & 0x7FFFFFFF)
    shape = tuple(spec['shape'])
    kind = spec['kind']
    if kind == 'normal':
        return r.normal(size=shape)
    if kind == 'pos':
        return r.uniform(0.5, 1.5, size=shape)
    if kind == 'away':  # away from zero, both signs
        return r.uniform(0.4, 1.4, size=shape) * r.choice([-1.0, 1.0], size=shape)
    if kind == 'complex':
        return r.normal(size=shape) + 1j * r.normal(size=shape)
    if kind == 'bool':
        return r.rand(*shape) < spec.get('p', 0.5)
    if kind == 'int':
        return r.randint(spec['lo'], spec['hi'], size=shape)
    if kind == 'perm':
        return r.permutation(spec['hi'])
    raise ValueError(kind)


class Val:
    """A value while generating: numpy value, kind, does it depend on input."""

    __slots__ = ('v', 'kind', 'dep')

    def __init__(self, v, dep):
        self.v = np.asarray(v)
        k = self.v.dtype.kind
        self.kind = {'f': 'f', 'c': 'c', 'b': 'b', 'i': 'i', 'u': 'i'}[k]
        self.dep = dep

    @property
    def shape(self):
        return self.v.shape

    @property
    def ndim(self):
        return self.v.ndim

    @property
    def size(self):
        return self.v.size


OPS = {}


class Op:
    def __init__(self, name, gen, run, weight=1.0, group='misc'):
        self.name, self.gen, self.run = name, gen, run
        self.weight, self.group = weight, group


def op(name, group, weight=1.0):
    """Decorator on run(xp, L, p, *args); gen is set by .gen()."""

    def deco(run):
        o = Op(name, None, run, weight, group)
        OPS[name] = o

        def setgen(g):
            o.gen = g
            return g

        run.gen = setgen
        return run

    return deco


class Lib:
    """Operations that differ between numpy and jax."""

    def __init__(self, jax_mode):
        self.jax_mode = jax_mode


class NpLib(Lib):
    def __init__(self):
        super().__init__(False)


def _erf(x):
    return np.vectorize(math.erf, otypes=[float])(x)


# --------------------------------------------------------------------------
# helpers for generation
# --------------------------------------------------------------------------
class G:
    """Generation context."""

    def __init__(self, rng, vals, opts):
        self.rng, self.vals, self.opts = rng, vals, opts

    def pick(self, pred):
        """Index of a value satisfying pred, biased to recent values."""
        c = [i for i, v in enumerate(self.vals) if pred(v)]
        if not c:
            return None
        if self.rng.random() < 0.6:
            return c[-1 - min(int(self.rng.expovariate(0.8)), len(c) - 1)]
        return self.rng.choice(c)

    def fval(self, pred=lambda v: True, dep=True):
        return self.pick(lambda v: v.kind == 'f' and (v.dep or not dep) and pred(v))

    def seed(self):
        return self.rng.randrange(1 << 30)

    def const(self, shape, kind='normal', **kw):
        return ['c', dict(shape=[int(s) for s in shape], seed=self.seed(), kind=kind, **kw)]

    def axis(self, v, neg=True):
        a = self.rng.randrange(v.ndim)
        return a - v.ndim if neg and self.rng.random() < 0.3 else a

    def bshape(self, shape):
        """A shape that broadcasts with `shape`."""
        r = self.rng
        s = list(shape)
        m = r.random()
        if m < 0.5:
            return tuple(s)
        if m < 0.75:
            return tuple(1 if r.random() < 0.5 else d for d in s)
        return tuple(s[r.randrange(len(s) + 1):])


def resolve(g, ref):
    if ref[0] == 'v':
        return g.vals[ref[1]].v
    return make_const(ref[1])


# --------------------------------------------------------------------------
# unary elementwise
# --------------------------------------------------------------------------
def unary(name, fn, dom=lambda v: True, weight=1.0, group='unary', kinds=('f',), deponly=True):
    def run(xp, L, p, x):
        return fn(xp, L, x)

    def gen(g):
        i = g.pick(lambda v: v.kind in kinds and (v.dep or not deponly) and bool(np.all(dom(v.v))))
        if i is None:
            return None
        return [['v', i]], {}

    OPS[name] = Op(name, gen, run, weight, group)


def _jx(L):
    import jax

    return jax


unary('sin', lambda xp, L, x: xp.sin(x))
unary('cos', lambda xp, L, x: xp.cos(x))
unary('tan', lambda xp, L, x: xp.tan(x), lambda v: np.abs(np.cos(v)) > 0.35, 0.5)
unary('tanh', lambda xp, L, x: xp.tanh(x), weight=1.5)
unary('exp', lambda xp, L, x: xp.exp(x), lambda v: v < 2.5)
unary('exp2', lambda xp, L, x: xp.exp2(x), lambda v: v < 2.5, 0.3)
unary('expm1', lambda xp, L, x: xp.expm1(x), lambda v: v < 2.5, 0.5)
unary('log', lambda xp, L, x: xp.log(x), lambda v: v > 0.2)
unary('log1p', lambda xp, L, x: xp.log1p(x), lambda v: v > -0.7, 0.5)
unary('sqrt', lambda xp, L, x: xp.sqrt(x), lambda v: v > 0.2)
unary('rsqrt', lambda xp, L, x: L.lax.rsqrt(x) if L.jax_mode else 1 / np.sqrt(x), lambda v: v > 0.25, 0.6)
unary('abs', lambda xp, L, x: xp.abs(x), lambda v: np.abs(v) > MARGIN)
unary('neg', lambda xp, L, x: -x, weight=0.5)
unary('sign', lambda xp, L, x: xp.sign(x), lambda v: np.abs(v) > MARGIN, 0.3)
unary('square', lambda xp, L, x: xp.square(x), lambda v: np.abs(v) < 5)
unary('recip', lambda xp, L, x: 1.0 / x, lambda v: np.abs(v) > 0.3, 0.6)
unary('acos', lambda xp, L, x: xp.arccos(x), lambda v: np.abs(v) < 0.85, 0.3)
unary('asin', lambda xp, L, x: xp.arcsin(x), lambda v: np.abs(v) < 0.85, 0.3)
unary('atan', lambda xp, L, x: xp.arctan(x), weight=0.5)
unary('sinh', lambda xp, L, x: xp.sinh(x), lambda v: np.abs(v) < 2.5, 0.25)
unary('cosh', lambda xp, L, x: xp.cosh(x), lambda v: np.abs(v) < 2.5, 0.25)
unary('asinh', lambda xp, L, x: xp.arcsinh(x), weight=0.2)
unary('cbrt', lambda xp, L, x: xp.cbrt(x), lambda v: np.abs(v) > 0.3, 0.2)
unary('erf', lambda xp, L, x: L.lax.erf(x) if L.jax_mode else _erf(x), weight=0.3)
unary('sigmoid', lambda xp, L, x: L.jax.nn.sigmoid(x) if L.jax_mode else 1 / (1 + np.exp(-x)))
unary('softplus', lambda xp, L, x: L.jax.nn.softplus(x) if L.jax_mode else np.logaddexp(x, 0))
unary('silu', lambda xp, L, x: L.jax.nn.silu(x) if L.jax_mode else x / (1 + np.exp(-x)))
unary('relu', lambda xp, L, x: L.jax.nn.relu(x) if L.jax_mode else np.maximum(x, 0), lambda v: np.abs(v) > MARGIN)
unary('gelu', lambda xp, L, x: L.jax.nn.gelu(x) if L.jax_mode else 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x**3))), weight=0.3)
unary('elu', lambda xp, L, x: L.jax.nn.elu(x) if L.jax_mode else np.where(x > 0, x, np.expm1(np.minimum(x, 0))), lambda v: np.abs(v) > MARGIN, 0.3)
unary('stop_gradient', lambda xp, L, x: L.lax.stop_gradient(x) if L.jax_mode else x, weight=0.3)
unary('logistic', lambda xp, L, x: L.lax.logistic(x) if L.jax_mode else 1 / (1 + np.exp(-x)), weight=0.5)
# complex
unary('real', lambda xp, L, x: xp.real(x), weight=1.2, group='complex', kinds=('c',))
unary('imag', lambda xp, L, x: xp.imag(x), weight=1.2, group='complex', kinds=('c',))
unary('conj', lambda xp, L, x: xp.conj(x), weight=0.8, group='complex', kinds=('c',))
unary('cabs', lambda xp, L, x: xp.abs(x), lambda v: np.abs(v) > 0.3, 1.2, 'complex', ('c',))
unary('cexp', lambda xp, L, x: xp.exp(x), lambda v: v.real < 2.5, 0.8, 'complex', ('c',))
unary('csin', lambda xp, L, x: xp.sin(x), lambda v: np.abs(v.imag) < 2, 0.8, 'complex', ('c',))
unary('ctanh', lambda xp, L, x: xp.tanh(x), lambda v: np.abs(np.cosh(v)) > 0.5, 0.8, 'complex', ('c',))
unary('csquare', lambda xp, L, x: x * x, lambda v: np.abs(v) < 5, 0.8, 'complex', ('c',))


@op('to_complex', 'complex', 0.7)
def _(xp, L, p, x, c):
    return x * c


@_.gen
def _(g):
    i = g.fval()
    if i is None:
        return None
    return [['v', i], g.const(g.vals[i].shape, 'complex')], {}


@op('cmix', 'complex', 1.0)
def _(xp, L, p, x, y):
    return [x + y, x * y, x - y, y * x][p['k']]


@_.gen
def _(g):
    i = g.pick(lambda v: v.kind == 'c')
    if i is None:
        return None
    j = g.pick(lambda v: v.kind in 'fc' and v.shape == g.vals[i].shape)
    return [['v', i], ['v', j]], {'k': g.rng.randrange(4)}


@op('cexpi', 'complex', 0.7)
def _(xp, L, p, x):
    return xp.exp(1j * x)


@_.gen
def _(g):
    i = g.fval()
    return None if i is None else ([['v', i]], {})


@op('ipow', 'unary', 1.0)
def _(xp, L, p, x):
    return L.lax.integer_pow(x, p['k']) if L.jax_mode else x ** float(p['k'])


@_.gen
def _(g):
    k = g.rng.choice([-2, -1, 2, 3, 4])
    i = g.fval(lambda v: np.all(np.abs(v.v) < 2.5) and (k > 0 or np.all(np.abs(v.v) > 0.4)))
    return None if i is None else ([['v', i]], {'k': k})


@op('fpow', 'unary', 0.5)
def _(xp, L, p, x):
    return x ** p['k']


@_.gen
def _(g):
    k = g.rng.choice([0.5, 1.5, -0.5, 2.5])
    i = g.fval(lambda v: np.all(v.v > 0.3) and np.all(v.v < 4))
    return None if i is None else ([['v', i]], {'k': k})


@op('affine', 'unary', 1.0)
def _(xp, L, p, x):
    return [p['a'] * x + p['b'], (x - p['b']) / p['a'], p['b'] - p['a'] * x][p['k']]


@_.gen
def _(g):
    i = g.fval()
    a = round(g.rng.uniform(0.3, 1.3), 3)
    b = round(g.rng.uniform(-1.5, 1.5), 3)
    return None if i is None else ([['v', i]], {'a': a, 'b': b, 'k': g.rng.randrange(3)})


# --------------------------------------------------------------------------
# binary with broadcasting
# --------------------------------------------------------------------------
def binary(name, fn, ok=lambda a, b: True, weight=1.0):
    def run(xp, L, p, x, y):
        return fn(xp, L, x, y)

    def gen(g):
        i = g.fval()
        if i is None:
            return None
        x = g.vals[i]
        a = ['v', i]
        if g.rng.random() < 0.6:

            def compat(v):
                try:
                    return int(np.prod(np.broadcast_shapes(v.shape, x.shape))) <= Limit.size
                except ValueError:
                    return False

            j = g.fval(compat)
            b = ['v', j]
        else:
            b = g.const(g.bshape(x.shape), g.rng.choice(['normal', 'pos', 'away']))
        if g.rng.random() < 0.5:
            a, b = b, a
        va, vb = resolve(g, a), resolve(g, b)
        if not np.all(ok(va, vb)):
            a, b, va, vb = b, a, vb, va
            if not np.all(ok(va, vb)):
                return None
        return [a, b], {}

    OPS[name] = Op(name, gen, run, weight, 'binary')


def _gap(a, b):
    return np.abs(a - b) > MARGIN


binary('add', lambda xp, L, x, y: x + y, weight=1.5)
binary('sub', lambda xp, L, x, y: x - y, weight=1.2)
binary('mul', lambda xp, L, x, y: x * y, weight=2.5)
binary('div', lambda xp, L, x, y: x / y, lambda a, b: np.abs(b) > 0.35, 2.0)
binary('max', lambda xp, L, x, y: xp.maximum(x, y), _gap)
binary('min', lambda xp, L, x, y: xp.minimum(x, y), _gap)
binary('pow', lambda xp, L, x, y: x ** y, lambda a, b: (np.all(a > 0.35) and np.all(a < 3) and np.all(np.abs(b) < 2.5)), 0.8)
binary('atan2', lambda xp, L, x, y: xp.arctan2(x, y), lambda a, b: (a * a + b * b > 0.3) & (np.abs(a) > MARGIN), 0.6)
binary('logaddexp', lambda xp, L, x, y: xp.logaddexp(x, y), weight=0.8)
binary('hypot', lambda xp, L, x, y: xp.sqrt(x * x + y * y), lambda a, b: a * a + b * b > 0.2, 0.6)
binary('where_gt', lambda xp, L, x, y: xp.where(x > y, x * 1.5, y), _gap, 0.8)


@op('where', 'select', 1.0)
def _(xp, L, p, c, x, y):
    return xp.where(c > 0 if c.dtype.kind == 'f' else c, x, y)


@_.gen
def _(g):
    i = g.fval()
    if i is None:
        return None
    s = g.vals[i].shape
    r = g.rng.random()
    y = g.const(s, 'normal')
    if r < 0.6:
        j = g.fval(lambda v: v.shape == s)
        y = ['v', j]
    m = g.rng.random()
    if m < 0.08:  # everything from one of the two
        c = g.const(s, 'bool', p=g.rng.choice([0, 1]))
    elif m < 0.5:
        c = g.const(s, 'bool')
    else:
        j = g.fval(lambda v: v.shape == s and np.all(np.abs(v.v) > MARGIN), dep=m < 0.85)
        if j is None:
            c = g.const(s, 'bool')
        else:
            c = ['v', j]
    a, b = ['v', i], y
    if g.rng.random() < 0.5:
        a, b = b, a
    return [c, a, b], {}


@op('clip', 'select', 0.6)
def _(xp, L, p, x):
    return xp.clip(x, p['lo'], p['hi'])


@_.gen
def _(g):
    lo, hi = -round(g.rng.uniform(0.2, 1.2), 3), round(g.rng.uniform(0.2, 1.2), 3)
    i = g.fval(lambda v: np.all(np.abs(v.v - lo) > MARGIN) and np.all(np.abs(v.v - hi) > MARGIN))
    return None if i is None else ([['v', i]], {'lo': lo, 'hi': hi})


@op('select_n3', 'select', 0.5)
def _(xp, L, p, w, x, y, z):
    if L.jax_mode:
        return L.lax.select_n(L.jnp.asarray(w, 'int32'), x, y, z)
    return np.choose(w, [x, y, z])


@_.gen
def _(g):
    i = g.fval()
    if i is None:
        return None
    s = g.vals[i].shape
    refs = [['v', g.fval(lambda v: v.shape == s)] for _ in range(3)]
    if g.rng.random() < 0.4:
        refs[g.rng.randrange(3)] = g.const(s)
    return [g.const(s, 'int', lo=0, hi=3)] + refs, {}


# --------------------------------------------------------------------------
# structure
# --------------------------------------------------------------------------
def _anyf(g, pred=lambda v: True, cplx=True):
    return g.pick(lambda v: v.dep and (v.kind == 'f' or (cplx and v.kind == 'c')) and pred(v))


@op('reshape', 'index', 1.2)
def _(xp, L, p, x):
    return xp.reshape(x, tuple(p['shape']))


@_.gen
def _(g):
    i = _anyf(g)
    if i is None:
        return None
    n = g.vals[i].size
    opts = [[n], [1, n], [n, 1]]
    for a in range(2, n):
        if n % a == 0:
            opts.append([a, n // a])
            opts.append([a, 1, n // a])
    if n == 1:
        opts.append([])
    return [['v', i]], {'shape': g.rng.choice(opts)}


@op('transpose', 'index', 1.0)
def _(xp, L, p, x):
    return xp.transpose(x, p['perm'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 2)
    if i is None:
        return None
    perm = list(range(g.vals[i].ndim))
    g.rng.shuffle(perm)
    return [['v', i]], {'perm': perm}


@op('expand', 'index', 0.8)
def _(xp, L, p, x):
    return xp.expand_dims(x, p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim <= 2)
    if i is None:
        return None
    return [['v', i]], {'axis': g.rng.randrange(g.vals[i].ndim + 1)}


@op('squeeze', 'index', 0.8)
def _(xp, L, p, x):
    return xp.squeeze(x, p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: 1 in v.shape)
    if i is None:
        return None
    return [['v', i]], {'axis': g.rng.choice([a for a, s in enumerate(g.vals[i].shape) if s == 1])}


@op('broadcast', 'index', 0.8)
def _(xp, L, p, x):
    return xp.broadcast_to(x, tuple(p['shape']))


@_.gen
def _(g):
    i = _anyf(g)
    if i is None:
        return None
    s = list(g.vals[i].shape)
    t = [g.rng.choice([1, 2, 3]) if d == 1 else d for d in s]
    if g.rng.random() < 0.5 and len(t) <= 2:
        t = [g.rng.choice([1, 2, 3])] + t
    if int(np.prod(t)) > Limit.size:
        return None
    return [['v', i]], {'shape': t}


@op('slice', 'index', 1.2)
def _(xp, L, p, x):
    return x[tuple(slice(*s) for s in p['sl'])]


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1 and max(v.shape) >= 2)
    if i is None:
        return None
    sl = []
    for d in g.vals[i].shape:
        if d == 1 or g.rng.random() < 0.4:
            sl.append([None, None, None])
        else:
            a = g.rng.randrange(d)
            b = g.rng.randrange(a + 1, d + 1)
            st = g.rng.choice([1, 1, 2])
            if g.rng.random() < 0.2:
                sl.append([None, None, -1])
            else:
                sl.append([a, b, st])
    return [['v', i]], {'sl': sl}


@op('index_int', 'index', 1.0)
def _(xp, L, p, x):
    return x[(slice(None),) * p['axis'] + (p['i'],)]


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1)
    if i is None:
        return None
    v = g.vals[i]
    a = g.rng.randrange(v.ndim)
    d = v.shape[a]
    return [['v', i]], {'axis': a, 'i': g.rng.randrange(-d, d)}


@op('take', 'index', 1.2)
def _(xp, L, p, x, idx):
    return xp.take(x, idx, axis=p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1)
    if i is None:
        return None
    v = g.vals[i]
    a = g.rng.randrange(v.ndim)
    d = v.shape[a]
    m = g.rng.choice([1, 2, 3])
    if v.size // d * m > Limit.size:
        return None
    return [['v', i], g.const([m], 'int', lo=0, hi=d)], {'axis': a}


@op('perm', 'index', 0.6)
def _(xp, L, p, x, idx):
    return x[idx]


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1 and v.shape[0] > 1)
    if i is None:
        return None
    d = g.vals[i].shape[0]
    return [['v', i], g.const([d], 'perm', hi=d)], {}


@op('take2', 'index', 0.6)
def _(xp, L, p, x, i, j):
    return x[i, j]


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim == 2)
    if i is None:
        return None
    d0, d1 = g.vals[i].shape
    m = g.rng.choice([1, 2, 4])
    return [['v', i], g.const([m], 'int', lo=0, hi=d0), g.const([m], 'int', lo=0, hi=d1)], {}


@op('flip', 'index', 0.8)
def _(xp, L, p, x):
    return xp.flip(x, p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i]], {'axis': g.axis(g.vals[i], False)})


@op('roll', 'index', 0.5)
def _(xp, L, p, x):
    return xp.roll(x, p['k'], p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i]], {'axis': g.axis(g.vals[i]), 'k': g.rng.choice([1, 2, -1])})


@op('tril', 'index', 0.4)
def _(xp, L, p, x):
    return xp.tril(x, p['k'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim == 2)
    return None if i is None else ([['v', i]], {'k': g.rng.choice([-1, 0, 1])})


@op('diag', 'index', 0.4)
def _(xp, L, p, x):
    return xp.diagonal(x)


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim == 2)
    return None if i is None else ([['v', i]], {})


@op('tile', 'index', 0.5)
def _(xp, L, p, x):
    return xp.tile(x, p['r'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1 and v.size * 2 <= Limit.size)
    if i is None:
        return None
    r = [1] * g.vals[i].ndim
    r[g.rng.randrange(len(r))] = 2
    return [['v', i]], {'r': r}


@op('pad', 'index', 0.3)
def _(xp, L, p, x):
    return xp.pad(x, [tuple(a) for a in p['pad']])


@_.gen
def _(g):
    i = _anyf(g, lambda v: 1 <= v.ndim <= 2 and v.size <= 12)
    if i is None:
        return None
    return [['v', i]], {'pad': [[g.rng.randrange(2), g.rng.randrange(2)] for _ in g.vals[i].shape]}


@op('concat', 'index', 1.2)
def _(xp, L, p, *xs):
    return xp.concatenate(xs, axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    v = g.vals[i]
    a = g.rng.randrange(v.ndim)

    def compat(w):
        return w.ndim == v.ndim and all(x == y for k, (x, y) in enumerate(zip(w.shape, v.shape)) if k != a)

    refs = [['v', i]]
    for _ in range(g.rng.choice([1, 1, 2])):
        if g.rng.random() < 0.3:
            s = list(v.shape)
            s[a] = g.rng.choice([1, 2])
            refs.append(g.const(s))
        else:
            refs.append(['v', g.fval(compat)])
    g.rng.shuffle(refs)
    tot = sum(resolve(g, r).shape[a] for r in refs) * v.size // v.shape[a]
    return None if tot > Limit.size else (refs, {'axis': a})


@op('stack', 'index', 0.8)
def _(xp, L, p, *xs):
    return xp.stack(xs, axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim <= 2 and v.size <= 18)
    if i is None:
        return None
    v = g.vals[i]
    refs = [['v', i], ['v', g.fval(lambda w: w.shape == v.shape)]]
    if g.rng.random() < 0.3:
        refs[1] = g.const(v.shape)
    return refs, {'axis': g.rng.randrange(v.ndim + 1)}


@op('dynslice', 'index', 0.8)
def _(xp, L, p, x, i):
    if L.jax_mode:
        return L.lax.dynamic_slice_in_dim(x, i, p['n'], axis=p['axis'])
    d = x.shape[p['axis']]
    s = min(max(int(i), 0), d - p['n'])
    return np.take(x, range(s, s + p['n']), axis=p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1 and max(v.shape) >= 2)
    if i is None:
        return None
    v = g.vals[i]
    a = g.rng.choice([k for k, s in enumerate(v.shape) if s >= 2])
    d = v.shape[a]
    n = g.rng.randrange(1, d)
    ref = g.const([], 'int', lo=0, hi=d - n + 1)
    return [['v', i], ref], {'axis': a, 'n': n}


def _distinct(v):
    return v.size >= 2 and np.min(np.diff(np.sort(v.v.ravel()))) > MARGIN


@op('dyngather', 'index', 0.6)
def _(xp, L, p, x, y):
    # data dependent index: the sparsity pattern cannot be known when tracing
    i = xp.argmax(y) % x.shape[p['axis']]
    if p['k'] == 0:
        return xp.take(x, i, axis=p['axis'])
    if L.jax_mode:
        return L.lax.dynamic_slice_in_dim(x, i, 1, axis=p['axis'])
    return np.take(x, [i], axis=p['axis'])


@_.gen
def _(g):
    i = _anyf(g, lambda v: v.ndim >= 1)
    k = g.fval(_distinct)
    if i is None or k is None:
        return None
    return [['v', i], ['v', k]], {'axis': g.rng.randrange(g.vals[i].ndim), 'k': g.rng.randrange(2)}


def _scatter(kind):
    def run(xp, L, p, x, u, idx):
        if L.jax_mode:
            x = L.jnp.asarray(x)
            return getattr(x.at[idx], kind)(u, unique_indices=(kind == 'mul'), mode=p.get('mode'))
        x = np.array(x, dtype=float)
        if p.get('mode') == 'clip':
            idx = np.clip(idx, 0, x.shape[0] - 1)
        u = np.broadcast_to(u, (*np.shape(idx), *x.shape[1:]))
        if p.get('mode') == 'drop':
            u, idx = u[idx < x.shape[0]], idx[idx < x.shape[0]]
        f = {'add': np.add, 'max': np.maximum, 'min': np.minimum, 'mul': np.multiply}.get(kind)
        if kind == 'set':
            x[idx] = u
        else:
            f.at(x, idx, u)
        return x

    def gen(g):
        i = g.fval(lambda v: v.ndim >= 1)
        if i is None:
            return None
        v = g.vals[i]
        d = v.shape[0]
        if kind in ('set', 'max', 'min', 'mul'):
            # no duplicate targets: ties / write order are not differentiable
            idx = g.const([d], 'perm', hi=d) if d > 1 and g.rng.random() < 0.3 else g.const([1], 'int', lo=0, hi=d)
        else:
            idx = g.const([g.rng.choice([1, 2, 3])], 'int', lo=0, hi=d)
        mode = None
        if kind == 'add' and g.rng.random() < 0.35:
            mode = g.rng.choice([None, 'clip', 'drop'])
            idx = g.const([m for m in g.rng.choice([[2], [3], [1, 2], [2, 2], [2, 1]])], 'int', lo=0, hi=d + (2 if mode else 0))
        us = (*idx[1]['shape'], *v.shape[1:])
        x = ['v', i]
        u = g.const(us)
        j = g.fval(lambda w: w.shape == us)
        r = g.rng.random()
        if j is not None and r < 0.7:
            u = ['v', j]
            if r < 0.25:
                x = g.const(v.shape)
        if kind in ('max', 'min'):
            a, b = resolve(g, x), resolve(g, u)
            ii = make_const(idx[1])
            if not np.all(np.abs(a[ii] - b) > MARGIN):
                return None
        return [x, u, idx], {'mode': mode} if mode else {}

    OPS['scatter_' + kind] = Op('scatter_' + kind, gen, run, {'add': 0.7, 'set': 0.7, 'mul': 0.15}.get(kind, 0.3), 'scatter')


for _k in ('set', 'add', 'max', 'min', 'mul'):
    _scatter(_k)


@op('segment_sum', 'scatter', 0.6)
def _(xp, L, p, x, idx):
    if L.jax_mode:
        return L.jax.ops.segment_sum(x, idx, p['n'])
    out = np.zeros((p['n'], *x.shape[1:]))
    np.add.at(out, idx, x)
    return out


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    n = g.rng.choice([1, 2, 3])
    return [['v', i], g.const([g.vals[i].shape[0]], 'int', lo=0, hi=n)], {'n': n}


@op('dyn_update', 'scatter', 0.25)
def _(xp, L, p, x, u):
    if L.jax_mode:
        return L.lax.dynamic_update_slice(L.jnp.asarray(x), u, tuple(p['at']))
    x = np.array(x)
    x[tuple(slice(a, a + s) for a, s in zip(p['at'], u.shape))] = u
    return x


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    v = g.vals[i]
    j = g.fval(lambda w: w.ndim == v.ndim and all(a <= b for a, b in zip(w.shape, v.shape)))
    w = g.vals[j]
    return [['v', i], ['v', j]], {'at': [g.rng.randrange(b - a + 1) for a, b in zip(w.shape, v.shape)]}


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def _axes(g, v):
    r = g.rng.random()
    if r < 0.25:
        return None
    if r < 0.75:
        return [g.axis(v)]
    k = g.rng.randrange(1, v.ndim + 1)
    return sorted(g.rng.sample(range(v.ndim), k))


def reduction(name, fn, ok=lambda v, ax: True, weight=1.0, cplx=False):
    def run(xp, L, p, x):
        ax = None if p['axes'] is None else tuple(p['axes'])
        return fn(xp, L, x, ax, p['keep'])

    def gen(g):
        i = _anyf(g, lambda v: v.ndim >= 1, cplx)
        if i is None:
            return None
        v = g.vals[i]
        ax = _axes(g, v)
        t = tuple(range(v.ndim)) if ax is None else tuple(a % v.ndim for a in ax)
        if not ok(v.v, t):
            return None
        return [['v', i]], {'axes': ax, 'keep': g.rng.random() < 0.25}

    OPS[name] = Op(name, gen, run, weight, 'reduce')


def _gapped(v, ax):
    rest = [a for a in range(v.ndim) if a not in ax]
    m = np.transpose(v, rest + list(ax)).reshape(int(np.prod([v.shape[a] for a in rest], dtype=int)), -1)
    if m.shape[1] < 2:
        return True
    return bool(np.min(np.diff(np.sort(m, axis=1), axis=1)) > MARGIN)


reduction('sum', lambda xp, L, x, a, k: xp.sum(x, axis=a, keepdims=k), weight=2.0, cplx=True)
reduction('mean', lambda xp, L, x, a, k: xp.mean(x, axis=a, keepdims=k), weight=0.6)
reduction('rmax', lambda xp, L, x, a, k: xp.max(x, axis=a, keepdims=k), _gapped)
reduction('rmin', lambda xp, L, x, a, k: xp.min(x, axis=a, keepdims=k), _gapped)
reduction('prod', lambda xp, L, x, a, k: xp.prod(x, axis=a, keepdims=k), lambda v, a: np.all(np.abs(v) < 3) and np.all(np.abs(v) > 0.05), 0.8)
reduction('logsumexp', lambda xp, L, x, a, k: L.jax.nn.logsumexp(x, axis=a, keepdims=k) if L.jax_mode else np.log(np.sum(np.exp(x), axis=a, keepdims=k)), _gapped, weight=0.8)
reduction('var', lambda xp, L, x, a, k: xp.var(x, axis=a, keepdims=k), weight=0.4)
reduction('norm', lambda xp, L, x, a, k: xp.sqrt(xp.sum(x * x, axis=a, keepdims=k)), lambda v, a: np.all(np.sum(v * v, axis=a) > 0.1), 0.7)


@op('softmax', 'reduce', 0.8)
def _(xp, L, p, x):
    if L.jax_mode:
        return L.jax.nn.softmax(x, axis=p['axis'])
    e = np.exp(x - x.max(p['axis'], keepdims=True))
    return e / e.sum(p['axis'], keepdims=True)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    a = g.axis(g.vals[i])
    if not _gapped(g.vals[i].v, (a % g.vals[i].ndim,)):
        return None
    return [['v', i]], {'axis': a}


@op('cumsum', 'reduce', 0.8)
def _(xp, L, p, x):
    if L.jax_mode:
        return L.lax.cumsum(x, axis=p['axis'], reverse=p['rev'])
    if p['rev']:
        return np.flip(np.cumsum(np.flip(x, p['axis']), p['axis']), p['axis'])
    return np.cumsum(x, p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i]], {'axis': g.axis(g.vals[i], False), 'rev': g.rng.random() < 0.3})


@op('cumprod', 'reduce', 0.2)
def _(xp, L, p, x):
    return xp.cumprod(x, axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1 and np.all(np.abs(v.v) < 2) and np.all(np.abs(v.v) > 0.05))
    return None if i is None else ([['v', i]], {'axis': g.axis(g.vals[i], False)})


@op('sort', 'reduce', 0.25)
def _(xp, L, p, x):
    return xp.sort(x, axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    a = g.axis(g.vals[i], False)
    return ([['v', i]], {'axis': a}) if _gapped(g.vals[i].v, (a,)) else None


# --------------------------------------------------------------------------
# contractions
# --------------------------------------------------------------------------
@op('matmul', 'dot', 1.8)
def _(xp, L, p, x, y):
    return xp.matmul(x, y)


@_.gen
def _(g):
    i = g.fval(lambda v: 1 <= v.ndim <= 3)
    if i is None:
        return None
    v = g.vals[i]
    k = v.shape[-1]
    if g.rng.random() < 0.5:
        y = g.const([k] if g.rng.random() < 0.2 else [k, g.rng.choice([1, 2, 3])])
    else:
        j = g.fval(lambda w: w.ndim in (1, 2) and w.shape[0] == k)
        if j is None:
            return None
        y = ['v', j]
    if g.rng.random() < 0.3 and v.ndim == 2:
        return [g.const([g.rng.choice([1, 2]), v.shape[0]]), ['v', i]], {}
    return [['v', i], y], {}


EINS = [
    'ij,ij->', 'ij,ij->i', 'ij,ij->j', 'ij,kj->ik', 'ij,ik->jk', 'ij,jk->ki', 'i,j->ij', 'i,i->', 'ij,j->i',
    'ij,i->j', 'ij,ij->ij', 'ij,kj->ki', 'ij,ji->', 'ij,ji->j', 'i,ij->ij', 'bij,bjk->bik', 'bij,bij->b',
    'bi,bj->bij', 'ij,kl->ikjl', 'bij,bj->bi', 'ib,jb->bij', 'ijb,jb->bi',
]


@op('einsum', 'dot', 1.8)
def _(xp, L, p, x, y):
    return xp.einsum(p['s'], x, y)


@_.gen
def _(g):
    s = g.rng.choice(EINS)
    ins, out = s.split('->')
    a, b = ins.split(',')
    i = g.fval(lambda v: v.ndim == len(a))
    if i is None:
        return None
    dims = dict(zip(a, g.vals[i].shape))
    x = ['v', i]

    def ok(w):
        return w.ndim == len(b) and all(dims.get(c, d) == d for c, d in zip(b, w.shape)) and len({c: d for c, d in zip(b, w.shape)}) == len(set(b))

    j = g.fval(ok)
    if j is not None and g.rng.random() < 0.7:
        y = ['v', j]
    else:
        y = g.const([dims.get(c, 2) for c in b])
    sh = dict(dims)
    sh.update(zip(b, resolve(g, y).shape))
    if int(np.prod([sh[c] for c in out], dtype=int)) > Limit.size or int(np.prod(list(sh.values()))) > 108:
        return None
    return [x, y], {'s': s}


@op('gram', 'dot', 0.8)
def _(xp, L, p, x):
    return x @ x.T if p['k'] == 0 else x.T @ x


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim == 2)
    return None if i is None else ([['v', i]], {'k': g.rng.randrange(2)})


@op('pairdist', 'dot', 0.8)
def _(xp, L, p, x):
    d = x[:, None] - x[None]
    return xp.sqrt((d ** 2).sum(-1) + 0.5)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim == 2 and v.shape[0] ** 2 * v.shape[1] <= 54)
    return None if i is None else ([['v', i]], {})


@op('dot_highprec', 'dot', 0.4)
def _(xp, L, p, x, y):
    if L.jax_mode:
        return L.lax.dot_general(x, y, (((x.ndim - 1,), (y.ndim - 1,)), ((), ())), precision=L.lax.Precision.HIGHEST, preferred_element_type=L.jnp.result_type(x, y))
    return np.tensordot(x, y, axes=((x.ndim - 1,), (y.ndim - 1,)))


@_.gen
def _(g):
    i = g.fval(lambda v: 1 <= v.ndim <= 2)
    if i is None:
        return None
    j = g.fval(lambda w: 1 <= w.ndim <= 2 and w.shape[-1] == g.vals[i].shape[-1])
    return [['v', i], ['v', j]], {}


# --------------------------------------------------------------------------
# linear algebra
# --------------------------------------------------------------------------
def _wellcond(v):
    if v.ndim < 2 or v.shape[-1] != v.shape[-2] or v.shape[-1] > 3:
        return False
    with np.errstate(all='ignore'):
        c = np.linalg.cond(v)
    return bool(np.all(np.isfinite(c)) and np.all(c < 12) and np.all(np.abs(np.linalg.det(v)) > 0.2))


@op('slogdet', 'linalg', 1.0)
def _(xp, L, p, x):
    s, l = xp.linalg.slogdet(x)
    return (s, l)


@_.gen
def _(g):
    i = g.fval(lambda v: _wellcond(v.v))
    return None if i is None else ([['v', i]], {})


@op('cslogdet', 'complex', 1.0)
def _(xp, L, p, x):
    s, l = xp.linalg.slogdet(x)
    return (s, l)


@_.gen
def _(g):
    i = g.pick(lambda v: v.kind == 'c' and v.dep and _wellcond(v.v))
    return None if i is None else ([['v', i]], {})


@op('det', 'linalg', 0.4)
def _(xp, L, p, x):
    return xp.linalg.det(x)


@_.gen
def _(g):
    i = g.fval(lambda v: _wellcond(v.v))
    return None if i is None else ([['v', i]], {})


@op('eyeshift', 'linalg', 0.8)
def _(xp, L, p, x):
    e = p['c'] * xp.eye(x.shape[-1])
    return x + (e.astype(x.dtype) if L.jax_mode else e)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim in (2, 3) and v.shape[-1] == v.shape[-2] and v.shape[-1] in (2, 3))
    return None if i is None else ([['v', i]], {'c': round(g.rng.uniform(1.5, 4), 2)})


@op('inv', 'linalg', 0.25)
def _(xp, L, p, x):
    return xp.linalg.inv(x)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim == 2 and _wellcond(v.v))
    return None if i is None else ([['v', i]], {})


# --------------------------------------------------------------------------
# control flow and nested functions
# --------------------------------------------------------------------------
@op('scan', 'control', 1.0)
def _(xp, L, p, x, w, xs):
    k = p['k']

    def body(c, s):
        if k == 0:
            c2 = xp.tanh(c * w + s)
        elif k == 1:
            c2 = c + 0.3 * xp.sin(c * s + w)
        elif k == 2:
            c2 = xp.tanh(c @ w) + 0.1 * s
        else:
            c2 = c * 0.5 + 0.2 * s * c * c / (1 + c * c)
        if p.get('move'):  # the carry depends on other inputs every time
            c2 = xp.roll(c2, 1, -1) if p['move'] == 'roll' else xp.flip(c2, 0)
        return c2, c2 * s

    if L.jax_mode:
        c, ys = L.lax.scan(body, x, xs, reverse=p['rev'], unroll=p['unroll'])
        return (c, ys)
    ys = []
    c = x
    order = list(range(len(xs)))
    if p['rev']:
        order.reverse()
    for t in order:
        c, y = body(c, xs[t])
        ys.append(y)
    if p['rev']:
        ys.reverse()
    return (c, np.stack(ys))


@_.gen
def _(g):
    k = g.rng.randrange(4)
    i = g.fval(lambda v: 1 <= v.ndim <= 2 and v.size <= 12)
    if i is None:
        return None
    v = g.vals[i]
    T = g.rng.choice([1, 2, 3])
    w = g.const([v.shape[-1]] * 2 if k == 2 else v.shape)
    if k in (0, 1, 2) and g.rng.random() < 0.3:
        ws = tuple(w[1]['shape'])
        j = g.fval(lambda u: u.shape == ws)
        if j is not None:
            w = ['v', j]
    q = {'k': k, 'rev': g.rng.random() < 0.4, 'unroll': g.rng.choice([1, 1, 2])}
    if g.rng.random() < 0.25:
        q['move'] = g.rng.choice(['roll', 'flip'])
    return [['v', i], w, g.const([T])], q


@op('fori', 'control', 0.5)
def _(xp, L, p, x):
    def body(i, c):
        return xp.sin(c) * 0.9 + 0.1 * i

    if L.jax_mode:
        return L.lax.fori_loop(0, p['n'], body, x)
    for i in range(p['n']):
        x = body(i, x)
    return x


@_.gen
def _(g):
    i = g.fval(lambda v: v.size <= 12)
    return None if i is None else ([['v', i]], {'n': g.rng.choice([1, 2, 3])})


def _nested(xp, L, p, x, y):
    k = p['k']
    if k == 0:
        return xp.sin(x) * y
    if k == 1:
        return x * y + xp.tanh(x)
    if k == 2:
        return (x / (2.5 + xp.cos(y))).sum() + x
    return xp.exp(-x * x) - y


@op('jitted', 'control', 1.0)
def _(xp, L, p, x, y):
    if L.jax_mode:
        def user_fn(a, b):
            return _nested(xp, L, p, a, b)

        return L.jax.jit(user_fn)(x, y)
    return _nested(xp, L, p, x, y)


@_.gen
def _(g):
    i = g.fval()
    if i is None:
        return None
    j = g.fval(lambda v: v.shape == g.vals[i].shape)
    y = ['v', j] if g.rng.random() < 0.6 else g.const(g.vals[i].shape)
    return [['v', i], y], {'k': g.rng.randrange(4)}


@op('remat', 'control', 0.3)
def _(xp, L, p, x, y):
    if L.jax_mode:
        return L.jax.checkpoint(lambda a, b: _nested(xp, L, p, a, b))(x, y)
    return _nested(xp, L, p, x, y)


OPS['remat'].gen = OPS['jitted'].gen


@op('custom_jvp', 'control', 0.6)
def _(xp, L, p, x):
    f = [xp.sin, xp.tanh, lambda z: z * z][p['k']]
    if not L.jax_mode:
        return f(x)
    fac = p['fac']

    @L.jax.custom_jvp
    def fn(z):
        return f(z)

    @fn.defjvp
    def _rule(pr, tn):
        (z,), (t,) = pr, tn
        return fn(z), fac * t * xp.cos(z)

    return fn(x)


@_.gen
def _(g):
    i = g.fval(lambda v: v.size <= 9)
    return None if i is None else ([['v', i]], {'k': g.rng.randrange(3), 'fac': round(g.rng.uniform(0.5, 2), 2)})


@op('cond', 'control', 0.3)
def _(xp, L, p, c, x):
    if L.jax_mode:
        return L.lax.cond(L.jnp.sum(c) > 0, xp.sin, lambda z: z * z, x)
    return np.sin(x) if np.sum(c) > 0 else x * x


@_.gen
def _(g):
    i = g.fval(lambda v: v.size <= 9)
    if i is None:
        return None
    if g.rng.random() < 0.5:
        return [g.const([2], 'away'), ['v', i]], {}
    j = g.fval(lambda v: abs(np.sum(v.v)) > MARGIN)
    return None if j is None else ([['v', j], ['v', i]], {})


@op('constcalc', 'control', 0.8)
def _(xp, L, p, x, c):
    # arithmetic on values that do not depend on the input (evaluated eagerly
    # when sparsity is on), then used with the input
    d = xp.tanh(c) * 0.5 + 1.0
    if p['k'] == 0:
        return x * d
    if p['k'] == 1:
        return x * xp.sum(d) / d.size
    if L.jax_mode:
        idx = L.jnp.argsort(L.jnp.asarray(c).ravel())[:1] % max(x.shape[0], 1)
    else:
        idx = np.argsort(np.asarray(c).ravel())[:1] % max(x.shape[0], 1)
    return x[idx] * 1.0 + xp.sum(d)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i], g.const(g.vals[i].shape)], {'k': g.rng.randrange(3)})


@op('noise', 'control', 0.5)
def _(xp, L, p, x):
    # random numbers: typed keys, bit generation, loops over constants
    import jax

    key = jax.random.key(p['k']) if p['typed'] else jax.random.PRNGKey(p['k'])
    if p['split']:
        key = jax.random.split(key)[1]
    r = jax.random.uniform(key, x.shape, 'float64', 0.5, 1.5)
    return x * (r if L.jax_mode else np.asarray(r)).astype(x.real.dtype)


@_.gen
def _(g):
    i = g.fval(lambda v: v.size <= 12)
    return None if i is None else ([['v', i]], {'k': g.rng.randrange(4), 'typed': g.rng.random() < 0.5, 'split': g.rng.random() < 0.3})


@op('solve', 'linalg', 0.7)
def _(xp, L, p, a, b):
    if b.ndim == a.ndim - 1:
        return xp.linalg.solve(a, b[..., None])[..., 0]
    return xp.linalg.solve(a, b)


@_.gen
def _(g):
    k = g.rng.randrange(3)  # which of the two depend on the input
    if k < 2:
        i = g.fval(lambda v: v.ndim <= 3 and _wellcond(v.v))
        if i is None:
            return None
        sh = g.vals[i].shape
        b = sh[:-1] + (() if g.rng.random() < 0.4 else (g.rng.choice([1, 2]),))
        if k == 0:
            return [['v', i], g.const(b)], {}
        j = g.fval(lambda v: v.shape == b or v.shape == sh)
        return None if j is None else ([['v', i], ['v', j]], {})
    j = g.fval(lambda v: v.ndim >= 1 and v.shape[0] in (2, 3) and v.ndim <= 2)
    if j is None:
        return None
    n = g.vals[j].shape[0]
    c = g.const([n, n])
    return ([c, ['v', j]], {}) if _wellcond(make_const(c[1])) else None


@op('chol', 'linalg', 0.3)
def _(xp, L, p, x):
    return xp.linalg.cholesky(x @ xp.swapaxes(x, -1, -2) + (1.5 * xp.eye(x.shape[-2])).astype(x.dtype))


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim in (2, 3) and v.shape[-2] in (1, 2, 3) and v.size <= 12 and np.all(np.abs(v.v) < 3))
    return None if i is None else ([['v', i]], {})


@op('eigvals', 'linalg', 0.25)
def _(xp, L, p, x):
    return xp.linalg.eigvalsh(x @ xp.swapaxes(x, -1, -2) + xp.diag(xp.arange(x.shape[-2]) * 1.0))


@_.gen
def _(g):
    def ok(v):
        if v.ndim != 2 or v.shape[-2] not in (2, 3) or not np.all(np.abs(v.v) < 3):
            return False
        e = np.linalg.eigvalsh(v.v @ v.v.T + np.diag(np.arange(v.shape[-2]) * 1.0))
        return bool(np.min(np.diff(e)) > 0.25)

    i = g.fval(ok)
    return None if i is None else ([['v', i]], {})


# --------------------------------------------------------------------------
# operations with integer results, Python scalars and other corners
# --------------------------------------------------------------------------
@op('argsort_take', 'corner', 0.8)
def _(xp, L, p, x):
    i = xp.argsort(x, axis=p['axis'])
    return xp.take_along_axis(x, i, axis=p['axis'])


OPS['argsort_take'].gen = OPS['sort'].gen


@op('topk', 'corner', 0.8)
def _(xp, L, p, x):
    if L.jax_mode:
        v, i = L.lax.top_k(x, p['k'])
    else:
        i = np.argsort(-x, axis=-1)[..., :p['k']]
        v = np.take_along_axis(x, i, -1)
    return v * (1 + i) if p['mix'] else v


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1 and _gapped(v.v, (v.ndim - 1,)))
    return None if i is None else ([['v', i]], {'k': g.rng.randint(1, g.vals[i].shape[-1]), 'mix': g.rng.random() < 0.5})


@op('sort_by', 'corner', 0.8)
def _(xp, L, p, x, y):
    if L.jax_mode:
        return L.lax.sort((x, y), dimension=p['axis'], num_keys=1)[1]
    return np.take_along_axis(y, np.argsort(x, axis=p['axis']), axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    if i is None:
        return None
    a = g.rng.randrange(g.vals[i].ndim)
    if not _gapped(g.vals[i].v, (a,)):
        return None
    j = g.fval(lambda v: v.shape == g.vals[i].shape)
    return [['v', i], ['v', j] if g.rng.random() < 0.7 else g.const(g.vals[i].shape)], {'axis': a}


@op('while_n', 'corner', 0.6)
def _(xp, L, p, x):
    def body(c):
        return c[0] + 1, xp.sin(c[1]) * 1.1 + 0.1 * c[0]

    c = (0, x)
    if L.jax_mode:
        return L.lax.while_loop(lambda c: c[0] < p['n'], body, c)[1]
    while c[0] < p['n']:
        c = body(c)
    return c[1]


@_.gen
def _(g):
    i = g.fval(lambda v: v.size <= 9)
    return None if i is None else ([['v', i]], {'n': g.rng.choice([1, 2, 3])})


def S(x, v):
    """A Python scalar where jax takes one: it is not converted to float32 by lax."""
    return v if x.dtype == np.float64 else np.asarray(v, x.dtype)[()]


_SCALAR = [
    (lambda xp, L, x: L.lax.pow(x, S(x, 2.5)) if L.jax_mode else np.power(x, 2.5), lambda v: np.all(v > 0.2) and np.all(v < 3)),
    (lambda xp, L, x: L.lax.pow(S(x, 2.5), x) if L.jax_mode else np.power(2.5, x), lambda v: np.all(np.abs(v) < 2.5)),
    (lambda xp, L, x: L.lax.atan2(x, S(x, 1.5)) if L.jax_mode else np.arctan2(x, 1.5), lambda v: True),
    (lambda xp, L, x: L.lax.rem(x, S(x, 0.7)) if L.jax_mode else np.fmod(x, 0.7), lambda v: np.all(np.abs(np.fmod(np.abs(v), 0.7) - 0.35) < 0.3)),
    (lambda xp, L, x: L.lax.clamp(S(x, -0.5), x, S(x, 0.8)) if L.jax_mode else np.clip(x, -0.5, 0.8), lambda v: np.all(np.abs(v + 0.5) > MARGIN) and np.all(np.abs(v - 0.8) > MARGIN)),
    (lambda xp, L, x: L.lax.cond(L.jnp.sum(x) > 0, lambda z, k: (z * z * k, k + 1), lambda z, k: (xp.sin(z), k), x, 2)[0] if L.jax_mode else (x * x * 2 if np.sum(x) > 0 else np.sin(x)), lambda v: abs(np.sum(v)) > MARGIN and v.size <= 9),
    (lambda xp, L, x: L.lax.div(S(x, 2.5), x) if L.jax_mode else 2.5 / x, lambda v: np.all(np.abs(v) > 0.3)),
    (lambda xp, L, x: L.lax.sub(L.lax.mul(S(x, 0.5), x), S(x, 1.25)) if L.jax_mode else 0.5 * x - 1.25, lambda v: True),
]


@op('scalar_arg', 'corner', 1.2)
def _(xp, L, p, x):
    return _SCALAR[p['k']][0](xp, L, x)


@_.gen
def _(g):
    k = g.rng.randrange(len(_SCALAR))
    # jax.lax does not promote: Python scalars go with 0-d values or broadcast explicitly
    i = g.fval(lambda v: bool(_SCALAR[k][1](v.v)) and (v.ndim == 0 or k in (4, 5)))
    return None if i is None else ([['v', i]], {'k': k})


@op('lax_pad', 'corner', 0.7)
def _(xp, L, p, x):
    if L.jax_mode:
        return L.lax.pad(x, np.asarray(p['v'], x.dtype), [tuple(c) for c in p['cfg']])
    out = x
    for a, (lo, hi, it) in enumerate(p['cfg']):
        n = out.shape[a]
        m = n + max(n - 1, 0) * it
        sh = list(out.shape)
        sh[a] = m
        new = np.full(sh, p['v'])
        sl = [slice(None)] * out.ndim
        sl[a] = slice(None, None, it + 1)
        new[tuple(sl)] = out
        out = np.pad(new, [(lo, hi) if b == a else (0, 0) for b in range(out.ndim)], constant_values=p['v'])
    return out


@_.gen
def _(g):
    i = g.fval(lambda v: 1 <= v.ndim <= 2 and min(v.shape) >= 1)
    return None if i is None else ([['v', i]], {'v': g.rng.choice([0.0, 0.5]), 'cfg': [[g.rng.choice([0, 1]), g.rng.choice([0, 1]), g.rng.choice([0, 0, 1])] for _ in g.vals[i].shape]})


@op('roll_dyn', 'corner', 0.6)
def _(xp, L, p, x, y):
    return xp.roll(x, xp.argmax(y), axis=p['axis'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1)
    j = g.fval(lambda v: v.ndim >= 1 and _gapped(v.v, tuple(range(v.ndim))))
    return None if i is None or j is None else ([['v', i], ['v', j]], {'axis': g.rng.randrange(g.vals[i].ndim)})


@op('any_where', 'corner', 0.6)
def _(xp, L, p, x):
    c = xp.any(x > p['t'], axis=-1, keepdims=True) if p['k'] else ~xp.all(x > p['t'])
    return xp.where(c, x * x, xp.sin(x))


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1 and np.all(np.abs(v.v - 0.4) > MARGIN))
    return None if i is None else ([['v', i]], {'t': 0.4, 'k': g.rng.randrange(2)})


@op('assoc_scan', 'corner', 0.5)
def _(xp, L, p, x):
    if L.jax_mode:
        return L.lax.associative_scan(L.jnp.multiply if p['k'] else L.jnp.add, x, reverse=p['rev'], axis=p['axis'])
    f = np.cumprod if p['k'] else np.cumsum
    a = p['axis']
    return np.flip(f(np.flip(x, a), axis=a), a) if p['rev'] else f(x, axis=a)


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1 and np.all(np.abs(v.v) < 2.5))
    return None if i is None else ([['v', i]], {'k': g.rng.randrange(2), 'rev': g.rng.random() < 0.3, 'axis': g.rng.randrange(g.vals[i].ndim)})


@op('window', 'corner', 0.4)
def _(xp, L, p, x):
    n = p['n']
    if L.jax_mode:
        return L.lax.reduce_window(x, 0.0, L.lax.add, (n,), (1,), 'VALID')
    return np.stack([x[k:k + n].sum() for k in range(x.shape[0] - n + 1)])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim == 1 and v.shape[0] >= 2)
    return None if i is None else ([['v', i]], {'n': g.rng.randint(1, g.vals[i].shape[0])})


@op('convolve', 'corner', 0.4)
def _(xp, L, p, x, y):
    return xp.convolve(x, y, mode=p['mode'])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim == 1 and 1 <= v.shape[0] <= 5)
    if i is None:
        return None
    j = g.fval(lambda v: v.ndim == 1 and 1 <= v.shape[0] <= 5)
    y = ['v', j] if j is not None and g.rng.random() < 0.5 else g.const([g.rng.choice([1, 2, 3])])
    return [['v', i], y], {'mode': g.rng.choice(['full', 'same', 'valid'])}


@op('empty_mix', 'corner', 0.5)
def _(xp, L, p, x, y):
    e = x[:0]
    k = p['k']
    if k == 0:
        return xp.concatenate([xp.sin(e) * e, y])
    if k == 1:
        return xp.sum(e) + xp.prod(e * 2.0) * y
    if k == 2:
        return e.reshape(0, -1).sum(0).sum() + y * y
    return xp.concatenate([y, (e + 1.0) @ xp.ones((x.shape[-1], 2)) if x.ndim > 1 and y.ndim == 2 and y.shape[1] == 2 else y[:0] * y[:0]])


@_.gen
def _(g):
    i = g.fval(lambda v: v.ndim >= 1 and v.size > 0)
    if i is None:
        return None
    k = g.rng.randrange(4)
    j = i if k in (0,) else g.fval(lambda v: v.ndim >= 1)
    return [['v', i], ['v', j]], {'k': k}


@op('lgamma', 'corner', 0.2)
def _(xp, L, p, x):
    return L.lax.lgamma(x) if L.jax_mode else np.vectorize(math.lgamma, otypes=[float])(x)


@_.gen
def _(g):
    i = g.fval(lambda v: np.all(v.v > 0.4))
    return None if i is None else ([['v', i]], {})


@op('fft', 'complex', 0.4)
def _(xp, L, p, x):
    return xp.fft.fft(x, axis=-1)


@_.gen
def _(g):
    i = g.pick(lambda v: v.kind in 'fc' and v.dep and v.ndim >= 1 and v.shape[-1] <= 6)
    return None if i is None else ([['v', i]], {})


# --------------------------------------------------------------------------
# program generation
# --------------------------------------------------------------------------
NP = NpLib()
# Derivatives of these compare two separately compiled copies of one value for
# equality, which XLA does not guarantee to be bitwise equal inside of a jit.
EQUALITY_OPS = frozenset(
    'max min rmax rmin clip scatter_max scatter_min cummax sort logaddexp'.split()
)
GROUPS = sorted({o.group for o in OPS.values()})


def np_values(prog, upto=None):
    vals = [make_const(s) for s in prog['inputs']]
    with np.errstate(all='ignore'):
        for nd in prog['nodes'][:upto]:
            args = [vals[r[1]] if r[0] == 'v' else make_const(r[1]) for r in nd['args']]
            out = OPS[nd['op']].run(np, NP, nd['p'], *args)
            vals.extend(np.asarray(o) for o in (out if isinstance(out, tuple) else (out,)))
    return vals


# beyond the sizes for which an implementation might switch its strategy
BIG = [[[17]], [[33]], [[40]], [[65]], [[6, 7]], [[9, 9]], [[20, 2]], [[3, 33]], [[5, 4, 3]], [[30], [4]], [[2], [35]]]


def gen_inputs(rng, opts):
    shapes = opts.get('shapes') or [
        [[2]], [[3]], [[4]], [[3, 2]], [[2, 3]], [[2, 2]], [[3, 1]], [[2, 2, 2]], [[4, 2]], [[6]],
        [[2], [2]], [[3, 2], [2]], [[2, 2], [2, 2]], [[3], [1]], [[]], [[2], [2], [2]], [[1]], [[2, 1, 3]],
    ]
    shp = rng.choice(shapes)
    if rng.random() < opts.get('big', 0.05):
        shp = rng.choice([s for s in BIG if len(s) == 1] if opts.get('shapes') else BIG)
    return [
        {'shape': list(s), 'seed': rng.randrange(1 << 30), 'kind': rng.choice(['normal', 'normal', 'pos', 'away'])}
        for s in shp
    ]


def generate(rng, opts=None):
    """Generate one program.  opts: groups (dict group->multiplier), n_ops."""
    opts = opts or {}
    inputs = gen_inputs(rng, opts)
    vals = [Val(make_const(s), True) for s in inputs]
    Limit.size = max(40, int(1.3 * max(v.size for v in vals)))
    prog = {'inputs': inputs, 'nodes': [], 'outs': None}
    mult = dict(opts.get('groups') or {})
    if not opts.get('groups'):
        # swarm: every program favours a random subset of operation groups
        for grp in GROUPS:
            mult[grp] = rng.choice([0.0, 0.3, 1.0, 1.0, 3.0])
        mult['complex'] = rng.choice([0, 0, 0, 0, 0, 4.0])
        mult['corner'] = rng.choice([0, 0, 0.5, 2.0])
        mult['control'] = rng.choice([0, 0, 0.5, 2.0])
        mult['linalg'] = rng.choice([0, 0, 1.0, 4.0])
    ban = set(opts.get('ban') or ())
    names = [n for n, o in OPS.items() if o.weight * mult.get(o.group, 1.0) > 0 and n not in ban]
    if not names:
        names = ['sin', 'mul', 'sum']
    wts = [OPS[n].weight * mult.get(OPS[n].group, 1.0) or 1.0 for n in names]
    n_ops = opts.get('n_ops') or rng.choice([1, 2, 3, 4, 5, 6, 8])
    if Limit.size > 40:
        n_ops = min(n_ops, 3)
    g = G(rng, vals, opts)
    tries = 0
    while len(prog['nodes']) < n_ops and tries < 60:
        tries += 1
        name = rng.choices(names, wts)[0]
        got = OPS[name].gen(g)
        if got is None:
            continue
        args, p = got
        if any(r[0] == 'v' and r[1] is None for r in args):
            continue
        a = [np.asarray(resolve(g, r)) for r in args]
        dep = any(r[0] == 'v' and vals[r[1]].dep for r in args)
        try:
            with np.errstate(all='ignore'):
                out = OPS[name].run(np, NP, p, *a)
        except (ValueError, IndexError):
            continue
        outs = out if isinstance(out, tuple) else (out,)
        outs = [np.asarray(o) for o in outs]
        if any(o.size == 0 or o.size > Limit.size or o.ndim > 4 for o in outs):
            continue
        if any(not np.all(np.isfinite(o)) or np.max(np.abs(o)) > LIM for o in outs):
            continue
        prog['nodes'].append({'op': name, 'args': args, 'p': p})
        vals.extend(Val(o, dep) for o in outs)
    # outputs
    cand = [i for i, v in enumerate(vals) if i >= len(inputs) and v.kind in 'fc' and v.dep]
    if not cand:
        prog['nodes'].append({'op': 'sin', 'args': [['v', 0]], 'p': {}})
        prog['outs'] = [len(vals)]
        return prog
    best = max(cand[-4:], key=lambda i: (len(dce(dict(prog, outs=[i]))['nodes']), i))
    outs = [best]
    rest = [i for i in cand if i != best]
    if rest and rng.random() < 0.3:
        outs.append(rng.choice(rest))
    if rng.random() < 0.05:
        outs.append(0)
    prog['outs'] = outs
    return dce(prog)


def dce(prog):
    """Drop nodes that no output needs; renumber."""
    n_in = len(prog['inputs'])
    counts, starts = [], []
    pos = n_in
    for nd in prog['nodes']:
        c = 2 if nd['op'] in ('slogdet', 'cslogdet', 'scan') else 1
        starts.append(pos)
        counts.append(c)
        pos += c
    need = set(prog['outs'])
    keep = []
    for k in reversed(range(len(prog['nodes']))):
        if any(starts[k] + j in need for j in range(counts[k])):
            keep.append(k)
            need.update(r[1] for r in prog['nodes'][k]['args'] if r[0] == 'v')
    keep.reverse()
    remap = {i: i for i in range(n_in)}
    pos = n_in
    nodes = []
    for k in keep:
        nd = prog['nodes'][k]
        nodes.append({
            'op': nd['op'], 'p': nd['p'],
            'args': [['v', remap[r[1]]] if r[0] == 'v' else r for r in nd['args']],
        })
        for j in range(counts[k]):
            remap[starts[k] + j] = pos + j
        pos += counts[k]
    out = dict(prog)
    out['nodes'] = nodes
    out['outs'] = [remap[o] for o in prog['outs']]
    return out


def shrink_candidates(prog):
    """Simpler programs, for minimisation."""
    if len(prog['outs']) > 1:
        for o in prog['outs']:
            yield dce(dict(prog, outs=[o]))
    n_in = len(prog['inputs'])
    try:
        vals = np_values(prog)
    except Exception:
        return
    pos = n_in
    starts = []
    for nd in prog['nodes']:
        starts.append(pos)
        pos += 2 if nd['op'] in ('slogdet', 'cslogdet', 'scan') else 1
    # cut the tail: output an earlier value
    for k in reversed(range(len(prog['nodes']))):
        if starts[k] not in prog['outs'] and vals[starts[k]].dtype.kind in 'fc':
            yield dce(dict(prog, outs=[starts[k]]))
    # bypass: replace a node's result by an earlier value of the same shape
    for k in range(len(prog['nodes'])):
        for j in range(starts[k]):
            if vals[j].shape == vals[starts[k]].shape and vals[j].dtype.kind == vals[starts[k]].dtype.kind:
                nodes = []
                for i, nd in enumerate(prog['nodes']):
                    if i > k:
                        nd = dict(nd, args=[['v', j] if r == ['v', starts[k]] else r for r in nd['args']])
                    nodes.append(nd)
                outs = [j if o == starts[k] else o for o in prog['outs']]
                q = dce(dict(prog, nodes=nodes, outs=outs))
                if q['nodes'] and len(q['nodes']) < len(prog['nodes']):
                    yield q
                break


def describe(prog):
    n_in = len(prog['inputs'])
    s = [f'x{i}:{prog.get("dtype", "")}{tuple(sp["shape"])}' for i, sp in enumerate(prog['inputs'])]
    pos = n_in
    names = [f'x{i}' for i in range(n_in)]
    for nd in prog['nodes']:
        a = ','.join(names[r[1]] if r[0] == 'v' else f'const{tuple(r[1]["shape"])}' for r in nd['args'])
        p = ','.join(f'{k}={v}' for k, v in nd['p'].items())
        t = f'v{pos}={nd["op"]}({a}{";" + p if p else ""})'
        s.append(t)
        c = 2 if nd['op'] in ('slogdet', 'cslogdet', 'scan') else 1
        for j in range(c):
            names.append(f'v{pos + j}')
        pos += c
    return ' '.join(s) + ' -> ' + ','.join(names[o] for o in prog['outs'])


# --------------------------------------------------------------------------
# execution under jax
# --------------------------------------------------------------------------
class JxLib(Lib):
    def __init__(self):
        super().__init__(True)
        import jax
        import jax.numpy as jnp

        self.jax, self.jnp, self.lax = jax, jnp, jax.lax


@functools.lru_cache(maxsize=None)
def jxlib():
    return JxLib()


def input_values(prog):
    dtype = prog.get('dtype', 'float64')
    return [np.asarray(make_const(s), dtype=dtype) for s in prog['inputs']]


def build(prog, on_node=None, start=0, stop=None, outs=None):
    """The jax callable fn(*values).  `start`/`stop` select a stage of nodes."""
    L = jxlib()
    dtype = prog.get('dtype', 'float64')
    consts = [[None if r[0] == 'v' else make_const(r[1]) for r in nd['args']] for nd in prog['nodes']]
    for cs in consts:
        for i, c in enumerate(cs):
            if c is not None and c.dtype.kind in 'fc' and dtype == 'float32':
                cs[i] = c.astype('float32' if c.dtype.kind == 'f' else 'complex64')
    outs = prog['outs'] if outs is None else outs

    def fn(*xs):
        vals = list(xs)
        for k, nd in enumerate(prog['nodes'][start:stop], start):
            if on_node is not None:
                on_node(k, nd)
            args = [vals[r[1]] if r[0] == 'v' else L.jnp.asarray(consts[k][i]) for i, r in enumerate(nd['args'])]
            out = OPS[nd['op']].run(L.jnp, L, nd['p'], *args)
            vals.extend(tuple(out) if isinstance(out, tuple) else (out,))
        res = tuple(vals[o] for o in outs)
        return res[0] if len(res) == 1 else res

    return fn
