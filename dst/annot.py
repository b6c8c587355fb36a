"""User functions whose structure is declared to folx (wrap_forward_laplacian).

Every entry is a function together with declarations that are all true of it:
which axes it needs, in which arguments it is linear, whether it only moves
elements, or a hand written trace of J^T H J.  The functions are called through
jitted functions of fixed names; without a registered rule they are ordinary
jax functions, which is what the reference uses."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import folx
from folx.api import FunctionFlags as F
from folx.utils import get_reduced_jacobians

from . import programs as P
from .core import Injected
from .programs import LIM  # noqa: F401


class State:
    calls = 0  # rule calls of this case
    fail_at = None
    where = 'rule'  # or 'jhj'
    fired = []
    sim = None


def arm(sim=None, fail_at=None, where='rule'):
    State.calls, State.fail_at, State.where, State.fired, State.sim = 0, fail_at, where, [], sim


def tick(where):
    if State.where != where:
        return
    State.calls += 1
    if State.fail_at is not None and State.calls == State.fail_at:
        e = Injected(f'custom {where} failed')
        State.fired.append(e)
        if State.sim is not None:
            State.sim.event('rule-fault', where, State.calls)
            State.sim.count(f'fault:custom-{where}')
        raise e


def _jac(args, i, idx):
    return args.jacobian[i].construct_jac_for(idx)


def _softmax(xp, x, ax):
    e = xp.exp(x - 1.0)
    return e / e.sum(ax, keepdims=True)


ANN = {}


def ann(name, fn, args, *decls, post=None, weight=1.0):
    """args: description of the arguments, see gen; decls: true declarations."""
    ANN[name] = dict(fn=fn, args=args, decls=decls, post=post)
    _make_op(name, weight)


@functools.lru_cache(maxsize=None)
def jitted(name, d):
    fn = ANN[name]['fn']

    def f(*args):
        return fn(jnp, *args)

    f.__name__ = f'dst_ann_{name}_{d}'
    return jax.jit(f)


def _make_op(name, weight):
    @P.op(f'ann_{name}', 'annot', weight)
    def run(xp, L, p, *args):
        e = ANN[name]
        out = jitted(name, p['d'])(*args) if L.jax_mode else e['fn'](np, *args)
        return e['post'](xp, out) if e['post'] else out

    @run.gen
    def _(g):
        kinds = ANN[name]['args']
        lo, hi = kinds[0]
        i = g.fval(lambda v: lo <= v.ndim <= hi and v.size <= 16 and (len(kinds[0]) < 2 or np.abs(v.v).max() < 6))
        if i is None:
            return None
        refs, sh = [['v', i]], g.vals[i].shape
        for k in kinds[1:]:
            r = g.rng.random()
            if k == 'same':
                shapes = [sh]
            elif k == 'bcast':  # as many axes, some of length one
                shapes = [sh, tuple(1 if g.rng.random() < 0.5 else n for n in sh)]
            elif k == 'last':
                shapes = [sh[-1:]]
            elif k == 'pair':
                shapes = [(n, sh[-1]) for n in (1, 2, 3)]
            if k == 'index':
                refs.append(['c', {'shape': [g.rng.choice([1, 2, 3])], 'seed': g.seed(), 'kind': 'int', 'lo': 0, 'hi': sh[-1]}])
                continue
            shape = g.rng.choice(shapes)
            j = g.fval(lambda v: v.shape == shape and np.abs(v.v).max() < 6)
            if j is not None and r < (0.65 if len(kinds) < 3 else 0.8):
                refs.append(['v', j])
            else:
                refs.append(g.const(shape, 'away'))
        if len(refs) > 1 and 'last' not in kinds and 'pair' not in kinds and 'index' not in kinds and g.rng.random() < 0.4:
            refs.reverse()
        return refs, {'d': g.rng.randrange(len(ANN[name]['decls']))}


A = (0, 3)  # any number of axes
V = (1, 3)  # at least one
M = (2, 3)  # at least two

# ---- elementwise
ann('el', lambda xp, x: xp.sin(x) * x, [A], dict(in_axes=()), dict(), dict(flags=F.JOIN_JVP), dict(in_axes=(), flags=F.JOIN_JVP), weight=1.5)
ann('el_last', lambda xp, x: xp.tanh(x) + 0.1 * x, [V], dict(in_axes=-1), dict(in_axes=0), dict(in_axes=(0,)), dict(in_axes=()))
ann('elbin', lambda xp, x, y: xp.sin(x * y) + x, [A, 'bcast'], dict(in_axes=()), dict(), dict(in_axes=(), flags=F.JOIN_JVP), weight=1.5)
ann('elter', lambda xp, x, y, z: x * xp.cos(y) * z + y, [A, 'same', 'same'], dict(in_axes=()), dict(), dict(in_axes=(), flags=F.JOIN_JVP), weight=1.5)
ann('elquad', lambda xp, x, y, z, w: x * xp.cos(y) * z + xp.sin(w * x), [A, 'same', 'same', 'same'], dict(in_axes=()), dict(), dict(flags=F.JOIN_JVP))
ann('tri', lambda xp, x, y, z: x * y * z, [A, 'same', 'same'], dict(in_axes=()), dict(flags=F.LINEAR_IN_FIRST), dict())
ann('lin3', lambda xp, x, y, z: x - 2 * y + 3 * z, [A, 'same', 'same'], dict(in_axes=(), flags=F.LINEAR), dict(flags=F.LINEAR), dict())
ann('mul', lambda xp, x, y: x * y, [A, 'bcast'], dict(in_axes=(), flags=F.MULTIPLICATION), dict(in_axes=(), flags=F.LINEAR_IN_ONE), dict(in_axes=()),
    dict(in_axes=(), flags=F.LINEAR_IN_FIRST), dict(in_axes=(), flags=F.MULTIPLICATION | F.JOIN_JVP), weight=1.5)
ann('lin1', lambda xp, x, y: x * xp.cos(y), [A, 'same'], dict(in_axes=(), flags=F.LINEAR_IN_FIRST), dict(in_axes=()), dict(flags=F.LINEAR_IN_FIRST))
ann('lin', lambda xp, x, y: 2 * x - 3 * y, [A, 'bcast'], dict(in_axes=(), flags=F.LINEAR), dict(flags=F.LINEAR), dict(in_axes=()))
ann('tup', lambda xp, x: (xp.sin(x), {'b': x * x}), [A], dict(in_axes=()), dict(), dict(in_axes=(), flags=F.JOIN_JVP), post=lambda xp, o: o[0] - 0.5 * o[1]['b'])
ann('fwd', lambda xp, x: (x, xp.sin(x)), [A], dict(in_axes=()), dict(), post=lambda xp, o: o[0] * 0.5 + o[1])
ann('dup', lambda xp, x: [xp.sin(x)] * 2, [A], dict(in_axes=()), dict(), post=lambda xp, o: o[0] * o[1])
ann('gather', lambda xp, x, i: xp.sin(x)[..., i], [V, 'index'], dict(), dict(flags=F.JOIN_JVP))
ann('gather_lin', lambda xp, x, i: x[..., i], [V, 'index'], dict(flags=F.LINEAR), dict(), dict(flags=F.LINEAR_IN_FIRST))
# ---- along one axis
ann('softmax', lambda xp, x: _softmax(xp, x, -1), [V], dict(in_axes=-1), dict(in_axes=(-1,)), dict())
ann('softmax0', lambda xp, x: _softmax(xp, x, 0), [V], dict(in_axes=0), dict(in_axes=(0,)), dict())
ann('layernorm', lambda xp, x: (x - x.mean(-1, keepdims=True)) / xp.sqrt(((x - x.mean(-1, keepdims=True)) ** 2).mean(-1, keepdims=True) + 1), [V], dict(in_axes=-1), dict(), dict(in_axes=-1, flags=F.SPARSE_JHJ))
ann('norm', lambda xp, x: xp.sqrt((x**2).sum(-1) + 1), [V], dict(in_axes=-1), dict(in_axes=(-1,)), dict(), dict(in_axes=-1, flags=F.REDUCTION), dict(in_axes=-1, flags=F.JOIN_JVP), weight=1.5)
ann('norm0', lambda xp, x: xp.sqrt((x**2).sum(0) + 1), [V], dict(in_axes=0), dict(in_axes=(0,)), dict(), dict(in_axes=0, flags=F.REDUCTION))
ann('normk', lambda xp, x: xp.sqrt((x**2).sum(-1, keepdims=True) + 1), [V], dict(in_axes=-1), dict())
ann('lse', lambda xp, x: xp.log(xp.exp(x).sum(-1)), [V], dict(in_axes=-1, flags=F.REDUCTION), dict(in_axes=(-1,)), dict(flags=F.REDUCTION))
ann('sum', lambda xp, x: x.sum(-1), [V], dict(in_axes=-1, flags=F.LINEAR), dict(in_axes=-1, flags=F.LINEAR | F.REDUCTION), dict(flags=F.LINEAR), dict(flags=F.REDUCTION | F.LINEAR), dict(in_axes=-1))
ann('sum0', lambda xp, x: x.sum(0), [V], dict(in_axes=0, flags=F.LINEAR), dict(in_axes=0, flags=F.LINEAR | F.REDUCTION), dict(flags=F.LINEAR))
ann('cum', lambda xp, x: xp.cumsum(x, -1), [V], dict(in_axes=-1, flags=F.LINEAR), dict(flags=F.LINEAR), dict(in_axes=-1))
ann('dot', lambda xp, x, y: (x * y).sum(-1), [V, 'same'], dict(in_axes=-1, flags=F.DOT_PRODUCT), dict(in_axes=(-1,), flags=F.DOT_PRODUCT | F.JOIN_JVP | F.SPARSE_JHJ), dict(in_axes=-1),
    dict(in_axes=-1, flags=F.LINEAR_IN_ONE), dict(flags=F.LINEAR_IN_ONE), dict(flags=F.LINEAR_IN_FIRST), weight=2.0)
ann('rowbin', lambda xp, x, y: xp.sin((x * y).sum(-1)), [V, 'same'], dict(in_axes=-1), dict(), dict(in_axes=-1, flags=F.JOIN_JVP), weight=1.5)
ann('rowter', lambda xp, x, y, z: xp.sin((x * y).sum(-1)) + (y * xp.cos(z)).sum(-1), [V, 'same', 'same'], dict(in_axes=-1), dict(), dict(in_axes=-1, flags=F.JOIN_JVP), weight=1.5)
ann('wdot', lambda xp, x, y, z: (x * y * z).sum(-1), [V, 'same', 'same'], dict(in_axes=-1), dict(), dict(in_axes=-1, flags=F.LINEAR_IN_FIRST))
ann('tup2', lambda xp, x: (xp.sin(x).sum(-1), x * x), [V], dict(in_axes=-1), dict(), post=lambda xp, o: o[0][..., None] + 0.3 * o[1])
ann('outer', lambda xp, x: (x[..., :, None] * xp.sin(x)[..., None, :]).sum(-1), [(1, 2)], dict(), dict(in_axes=-1), dict(in_axes=-1, flags=F.SPARSE_JHJ))
# ---- several axes
ann('two', lambda xp, x: xp.tanh((x**2).sum((-2, -1))), [M], dict(in_axes=(-2, -1)), dict(in_axes=(-1, -2)), dict())
ann('logdet', lambda xp, x: xp.log(1.0 + ((x @ xp.swapaxes(x, -1, -2)) ** 2).sum((-2, -1))), [M], dict(in_axes=(-2, -1)), dict(), dict(in_axes=(-2, -1), flags=F.SPARSE_JHJ))
ann('mat', lambda xp, x: xp.sin(x @ x.T), [(2, 2)], dict(), dict(flags=F.JOIN_JVP), dict(flags=F.SPARSE_JHJ))
ann('matvec', lambda xp, x, w: x @ w, [V, 'last'], dict(flags=F.LINEAR_IN_ONE), dict(), dict(flags=F.LINEAR_IN_FIRST), dict(flags=F.LINEAR_IN_ONE | F.JOIN_JVP))
ann('attn', lambda xp, q, k: _softmax(xp, q @ k.T, -1) @ k, [(2, 2), 'pair'], dict(), dict(flags=F.JOIN_JVP))
# ---- moving elements around
ann('rev', lambda xp, x: x[..., ::-1], [V], dict(flags=F.INDEXING), dict(flags=F.LINEAR), dict(in_axes=-1, flags=F.LINEAR), dict())
ann('T', lambda xp, x: x.T, [(0, 3)], dict(flags=F.INDEXING), dict(flags=F.LINEAR), dict())
ann('take', lambda xp, x: x[..., np.array([0, -1, 0])], [V], dict(flags=F.INDEXING), dict(flags=F.LINEAR), dict())
ann('blocks', lambda xp, x: xp.concatenate([x, x[..., :1]], -1), [V], dict(flags=F.INDEXING), dict(flags=F.LINEAR))

ann('halves', lambda xp, x: (x[..., :1], {'r': x[..., ::-1]}), [V], dict(flags=F.INDEXING), dict(flags=F.LINEAR), dict(), post=lambda xp, o: o[0] * o[1]['r'])
ann('join', lambda xp, x, y: xp.concatenate([x, y, x[..., :1]], -1), [V, 'same'], dict(flags=F.INDEXING, index_static_args=()), dict(flags=F.LINEAR), dict())
ann('pick', lambda xp, x, i: x[..., i], [V, 'index'], dict(flags=F.INDEXING, index_static_args=(1,)), dict(flags=F.INDEXING, index_static_args=slice(1, None)), dict(flags=F.INDEXING), dict(flags=F.LINEAR), weight=1.5)
ann('pickjoin', lambda xp, x, i, y: xp.concatenate([x[..., i], y], -1), [V, 'index', 'same'], dict(flags=F.INDEXING, index_static_args=(1,)), dict(flags=F.INDEXING, index_static_args=slice(1, 2)), dict(flags=F.LINEAR))


# ---- hand written traces of J^T H J (declared axes: trailing ones or none)
def jhj(fn):
    def rule(args, extra_args, merge, materialize_idx):
        tick('jhj')
        return fn(args, extra_args, merge, materialize_idx)

    return rule


def _cmul(a, e, m, i):
    if len(a) < 2:
        return jnp.zeros((), a.x[0].dtype)
    p, q = get_reduced_jacobians(*a.jacobian, idx=i)
    return 2 * (p * q).sum()


ann('csin', lambda xp, x: xp.sin(x), [A], dict(in_axes=(), custom_jac_hessian_jac=jhj(lambda a, e, m, i: -jnp.sin(a.x[0]) * (_jac(a, 0, i) ** 2).sum(0))), weight=2.0)
ann('cnorm', lambda xp, x: (x**2).sum(-1), [V], dict(in_axes=-1, custom_jac_hessian_jac=jhj(lambda a, e, m, i: 2 * (_jac(a, 0, i) ** 2).sum())), weight=2.0)
ann('call', lambda xp, x: (x**2).sum(), [A], dict(custom_jac_hessian_jac=jhj(lambda a, e, m, i: 2 * (_jac(a, 0, i) ** 2).sum())), weight=2.0)
ann('cmul', lambda xp, x, y: x * y, [A, 'same'], dict(in_axes=(), custom_jac_hessian_jac=jhj(_cmul)), weight=2.0)
ann('ctup', lambda xp, x: (xp.sin(x), x**2), [A], dict(in_axes=(), custom_jac_hessian_jac=jhj(lambda a, e, m, i: (-jnp.sin(a.x[0]) * (_jac(a, 0, i) ** 2).sum(0), 2 * (_jac(a, 0, i) ** 2).sum(0)))), post=lambda xp, o: o[0] + o[1])
P.GROUPS = sorted({o.group for o in P.OPS.values()})


# ---- rules
def rule_for(name, d, style=None):
    decl = ANN[name]['decls'][d]
    fn = ANN[name]['fn']

    def base(*args):
        return fn(jnp, *args)

    if style == 'jit':
        base = jitted(name, d)
    wrapped = folx.wrap_forward_laplacian(base, name=f'ann_{name}' if style == 'named' else None, **decl)

    def rule(args, kwargs, sparsity_threshold):
        tick('rule')
        if State.sim is not None:
            State.sim.count(f'rule:{name}/{d}')
        if style == 'keyword':
            return wrapped(args=args, kwargs=kwargs, sparsity_threshold=sparsity_threshold)
        return wrapped(args, kwargs, sparsity_threshold)

    return rule


RULE_STYLES = [None, None, 'jit', 'named', 'keyword']


def used(prog):
    return sorted({(nd['op'][4:], nd['p']['d']) for nd in prog['nodes'] if nd['op'].startswith('ann_')})


class registered:
    """Rules for the functions that a program uses.  `swap` registers other
    (equally true) declarations of the same functions."""

    def __init__(self, prog, style=None, swap=0):
        self.names = []
        self.todo = [(n, d, (d + swap) % len(ANN[n]['decls'])) for n, d in used(prog)]
        self.style = style

    def __enter__(self):
        for n, d, e in self.todo:
            key = f'dst_ann_{n}_{d}'
            folx.register_function(key, rule_for(n, e, self.style))
            self.names.append(key)

    def __exit__(self, *a):
        for key in self.names:
            folx.deregister_function(key)


# ---- built-in operations, declared differently but as truly
_lax = jax.lax
_POINTWISE = (dict(), dict(in_axes=()), dict(in_axes=(), flags=F.JOIN_JVP))
_MOVES = (dict(flags=F.LINEAR), dict(), dict(flags=F.INDEXING))
OVERRIDES = {
    'scatter_add': (_lax.scatter_add_p, (dict(flags=F.LINEAR | F.SCATTER), dict(), dict(flags=F.LINEAR | F.SCATTER | F.JOIN_JVP))),
    'sin': (_lax.sin_p, _POINTWISE),
    'tanh': (_lax.tanh_p, _POINTWISE),
    'exp': (_lax.exp_p, _POINTWISE),
    'add': (_lax.add_p, (dict(in_axes=()), dict(flags=F.LINEAR), dict(in_axes=(), flags=F.LINEAR | F.JOIN_JVP))),
    'mul': (_lax.mul_p, (dict(in_axes=()), dict(in_axes=(), flags=F.LINEAR_IN_ONE), dict(in_axes=(), flags=F.LINEAR_IN_FIRST), dict())),
    'div': (_lax.div_p, (dict(in_axes=()), dict(in_axes=(), flags=F.LINEAR_IN_FIRST), dict())),
    'sum': (_lax.reduce_sum_p, (dict(flags=F.LINEAR), dict(flags=F.LINEAR | F.REDUCTION), dict())),
    'prod': (_lax.reduce_prod_p, (dict(), dict(flags=F.SPARSE_JHJ | F.REDUCTION))),
    'rev': (_lax.rev_p, _MOVES),
    'transpose': (_lax.transpose_p, _MOVES),
    'reshape': (_lax.reshape_p, _MOVES),
    'slice': (_lax.slice_p, _MOVES),
    'squeeze': (_lax.squeeze_p, _MOVES),
    'broadcast': (_lax.broadcast_in_dim_p, _MOVES),
    'gather': (_lax.gather_p, _MOVES),
    'concatenate': (_lax.concatenate_p, (dict(flags=F.LINEAR), dict(), dict(flags=F.INDEXING, index_static_args=()))),
}


class overridden:
    """Other rules for operations of jax.  todo: [[name, declaration], ...]"""

    def __init__(self, todo):
        self.todo = todo or []
        self.old = []

    def __enter__(self):
        for name, d in self.todo:
            prim, decls = OVERRIDES[name]
            self.old.append((prim, folx.wrapped_functions.get_laplacian(prim)))
            inner = folx.wrap_forward_laplacian(prim.bind, name=prim.name, **decls[d % len(decls)])

            def rule(args, kwargs, sparsity_threshold, inner=inner, name=name):
                if State.sim is not None:
                    State.sim.count(f'override:{name}')
                return inner(args, kwargs, sparsity_threshold)

            folx.register_function(prim, rule)

    def __exit__(self, *a):
        for prim, rule in self.old:
            folx.register_function(prim, rule)
