"""C09: the memory estimate against an independent model of the program; no side effects."""
import contextlib
import io
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax import core as jcore

import folx
from folx.experimental.memory import compute_memory

from .. import device, env, sched
from .. import programs as P
from ..core import Injected
from . import c07, lapl


# ---------------------------------------------------------------- the model
def nbytes(aval):
    return int(np.prod(aval.shape, dtype=int)) * aval.dtype.itemsize


def peak(jaxpr):
    """Peak bytes of values alive while the operations run one after the other."""
    last = {}
    for k, e in enumerate(jaxpr.eqns):
        for v in e.invars:
            if isinstance(v, jcore.Var):
                last[v] = k
    keep = {v for v in [*jaxpr.invars, *jaxpr.constvars, *jaxpr.outvars] if isinstance(v, jcore.Var)}
    alive = {v: nbytes(v.aval) for v in [*jaxpr.invars, *jaxpr.constvars]}
    best = 0
    for k, e in enumerate(jaxpr.eqns):
        inner = 0
        if e.primitive.name in ('pjit', 'scan'):
            inner = peak(e.params['jaxpr'].jaxpr)
        for v in e.outvars:
            if v in last or v in keep:
                alive[v] = nbytes(v.aval)
        best = max(best, sum(alive.values()) + inner)
        for v in e.invars:
            if isinstance(v, jcore.Var) and last[v] == k and v not in keep:
                alive.pop(v, None)
    return best


# ---------------------------------------------------------------- cases
def gen_est(rng):
    kind = rng.choice(['prog', 'prog', 'prog', 'bvmap', 'lapl', 'chain', 'scan', 'rand', 'lits'])
    e = {'kind': kind, 'seed': rng.randrange(1 << 30)}
    if kind in ('prog', 'lapl'):
        e['prog'] = P.generate(rng, {'ban': list(lapl.FLAKY)})
        e['thr'] = rng.choice([0, 0, 2, 1000])
        e['form'] = rng.choice(['flat', 'kw', 'static', 'tree'])
    elif kind == 'bvmap':
        e['call'] = c07.gen_call(rng)
        e['call']['kw'] = None
    else:
        e['n'] = rng.choice([1, 2, 4, 7])
        e['k'] = rng.randrange(1 << 20)
        e['dtype'] = rng.choice(['float32', 'float64', 'int32', 'complex128', 'int8'])
    return e


def gen(rng, i, tier):
    case = {'ests': [gen_est(rng) for _ in range(rng.choice([1, 2, 3]))]}
    r = rng.random()
    if r < 0.35:
        case['mode'] = 'threads'
        case['spec'] = sched.make_spec(rng, threads=len(case['ests']) + 1)
        case['gran'] = rng.choice(['line', 'line', 'instr'])
    elif r < 0.55:
        case['mode'] = 'fault'
        case['fault'] = {'kind': rng.choice(['user', 'interrupt', 'async']), 'u': rng.random()}
    else:
        case['mode'] = 'plain'
        case['print'] = rng.random() < 0.3
    return case


class Est:
    """One call of the estimator."""

    def __init__(self, e):
        self.e, self.fault, self.fired = e, None, []
        self.kw, self.static, self.args = {}, (), []
        getattr(self, '_' + e['kind'])()

    def hit(self):
        if self.fault is not None:
            e, self.fault = self.fault, None
            self.fired.append(e)
            raise e

    def _prog(self):
        e = self.e
        inner = P.build(e['prog'])
        xs = P.input_values(e['prog'])
        self._form(inner, xs)

    def _form(self, inner, xs):
        form = self.e['form']

        def f(*a):
            self.hit()
            return inner(*a)

        if form == 'kw':
            self.fn = lambda *a, gain: f(a[0] * gain, *a[1:])
            self.args, self.kw = xs, {'gain': np.ones(xs[0].shape)}
        elif form == 'static':
            self.fn = lambda *a: f(*a[:-1]) if a[-1] == 'on' else None
            self.args, self.static = [*xs, 'on'], (len(xs),) if self.e['seed'] % 2 else len(xs)
        elif form == 'tree':
            self.fn = lambda t: {'out': f(t['a'], *t['b'])}
            self.args = [lapl.pack_tree(xs)]
        else:
            self.fn, self.args = f, xs

    def _lapl(self):
        e = self.e
        prog = e['prog']
        inner = P.build(prog)
        disable = bool(e['seed'] % 3)
        fwd = folx.forward_laplacian(lambda *a: inner(*a), e['thr'], disable_jit=disable)

        def g(*a):
            out = fwd(*a)
            return [x.laplacian if hasattr(x, 'laplacian') else x for x in lapl.flat_outputs(out)]

        self._form(g, P.input_values(prog))

    def _bvmap(self):
        c = self.e['call']
        fn = c07.make(c, c07.RowFn(c))

        def f(*a):
            self.hit()
            return fn(*a)

        self.fn, self.args = f, c07.arg_values(c)

    def _chain(self):
        e = self.e
        n, k, dt = e['n'], e['k'], e['dtype']

        def f(x, y):
            self.hit()
            vals = [x, y]
            r = np.random.RandomState(k)
            for _ in range(n + 1):
                a, b = vals[r.randint(len(vals))], vals[r.randint(len(vals))]
                op = r.randint(6)
                if op == 0:
                    vals.append(a + a)
                elif op == 1:
                    vals.append(jnp.concatenate([a, b, a])[: 3 * (1 + r.randint(3))])
                elif op == 2:
                    vals.append(jnp.broadcast_to(a[:1], (1 + r.randint(5),)))
                elif op == 3:
                    vals.append(jax.jit(lambda z, w: (z[:1] * w[:1], w * w))(a, b)[r.randint(2)])
                elif op == 4:
                    vals.append(jnp.where(a[:1] == b[:1], a[:1], b[:1]))
                else:
                    vals.append(a.astype('float32') if dt != 'complex128' else a.real.astype(dt))
            return [vals[i] for i in sorted(set(r.randint(len(vals), size=2)))]

        self.fn, self.args = f, [np.ones(3, dt), np.ones(2, dt)]

    def _scan(self):
        e = self.e
        n, dt, k = e['n'], e['dtype'], e['k']
        use_x = bool(k & 1)

        def f(x, ys):
            self.hit()

            def body(c, y):
                h = c + (y if use_x else 1)
                z = jnp.concatenate([h, h, c])
                return h if k & 2 else (z[:2] * 1).astype(dt), (z if k & 4 else z.sum())

            c, out = jax.lax.scan(body, x, ys if use_x else None, length=n, reverse=bool(k & 8))
            return (c, out) if k & 16 else c

        self.fn, self.args = f, [np.ones(2, dt), np.ones((n, 2), dt)]

    def _rand(self):
        # random keys are values too
        k, n = self.e['k'], self.e['n']
        key = jax.random.PRNGKey(k) if k & 1 else jax.random.key(k)

        def f(x, *key_):
            self.hit()
            (z,) = key_ or (key,)
            if k & 2:
                z, _ = jax.random.split(z)
            y = x * (jax.random.normal(z, x.shape) if k & 4 else jax.random.bernoulli(z, 0.5, (x.size * n,))[:x.size])
            if k & 8:
                _, zs = jax.lax.scan(lambda c, _: (jax.random.split(c)[0], c), z, None, length=n)
                return y, zs
            return y if k & 16 else (y, z)

        self.fn, self.args = f, [np.ones(4)] + ([key] if k & 32 else [])

    def _lits(self):
        # results that are plain numbers, of inner functions and loops
        k, n = self.e['k'], self.e['n']
        val = [1.0, 2, True, 1.5 + 1j][k & 3]

        def f(x):
            self.hit()
            a, b = jax.jit(lambda y: (val, y + 1))(x)
            c, d = jax.lax.scan(lambda c, y: (c * 2, (c, 3.0)), 1.0 if k & 4 else 1, x if k & 8 else None, length=n)
            out = [b * a, c] + ([d[0]] if k & 16 else []) + ([d[1]] if k & 32 else []) + ([4.0] if k & 64 else [])
            return out[k % 2:]

        self.fn, self.args = f, [np.ones(n)]

    def fresh(self):
        # jax remembers the trace of a function object
        return lambda *a, **k: self.fn(*a, **k)

    def model(self):
        f, self.fault = self.fault, None
        j = jax.make_jaxpr(self.fresh(), static_argnums=self.static if isinstance(self.static, tuple) else (self.static,))(*self.args, **self.kw)
        self.fault = f
        return peak(j.jaxpr)

    def call(self, **extra):
        return compute_memory(self.fresh(), *self.args, static_argnums=self.static, **extra, **self.kw)

    def describe(self):
        e = self.e
        return P.describe(e['prog']) + f' {e["kind"]} {e["form"]} thr={e["thr"]}' if 'prog' in e else str(e)[:400]


def check(est, got, want, sim, what):
    if type(got) is not int or got != want:
        sim.fail('estimate', f'{what}: {got!r} instead of {want} bytes | {est.describe()}')
        return False
    return True


def run(case, sim):
    ests = [Est(e) for e in case['ests']]
    want = []
    live = []
    for est in ests:
        try:
            want.append(est.model())
            live.append(est)
        except Exception as e:
            if est.e['kind'] in ('lapl', 'bvmap'):  # refusals of what is estimated
                sim.count('skipped')
            else:
                raise
    ests = live
    for est, w in zip(ests, want):
        sim.sig(est.e['kind'], w)
    mode = case['mode']
    if mode == 'threads' and ests:
        return threads(case, sim, ests, want)
    for est, w in zip(ests, want):
        if mode == 'fault':
            fl = case['fault']
            if fl['kind'] == 'async':
                n = single(lambda: est.call(), sim, None)[2]
                exc = KeyboardInterrupt('[injected]')
                got, e, _ = single(lambda: est.call(), sim, (1 + int(fl['u'] * n), exc))
                if e is None:
                    check(est, got, w, sim, 'interrupt too late')
                elif e is not exc:
                    sim.fail('wrong-exception', f'{type(e).__name__}: {e} instead of the interrupt | {est.describe()}')
                    return
            elif est.e['kind'] != 'lapl' or est.e['seed'] % 3:
                est.fault = Injected('user') if fl['kind'] == 'user' else KeyboardInterrupt('[injected]')
                sim.count(f'fault:callback-{fl["kind"]}')
                got, e = lapl.guarded(est.call)
                if not est.fired or e is not est.fired[0]:
                    sim.fail('wrong-exception', f'{type(e).__name__}: {e} instead of the injected failure | {est.describe()}')
                    return
        prn = case.get('print')
        buf = io.StringIO()
        with device.Device(None, sim) as dev, contextlib.redirect_stdout(buf):
            got, e = lapl.guarded(lambda: est.call(**({'print_top_tensors': True} if prn else {})))
        sim.event('estimate', got, w, dev.n)
        if e is not None:
            sim.fail('error', f'{type(e).__name__}: {str(e)[:300]} | {est.describe()}')
            return
        if not check(est, got, w, sim, mode):
            return
        if dev.n and not (est.e['kind'] == 'lapl' and est.e['thr']):  # sparsity is analysed while tracing
            sim.fail('executes', f'{dev.n} device executions: {dev.sites[:5]} | {est.describe()}')
            return
        if bool(buf.getvalue()) != bool(prn) and not (prn and w == 0):
            sim.fail('output', f'printed {buf.getvalue()[:100]!r}, asked for: {bool(prn)} | {est.describe()}')
            return
        sim.count('estimates')


def single(fn, sim, intr):
    """One caller, stepped line by line, possibly interrupted at a step."""
    s = sched.Scheduler(sim, {'kind': 'serial'}, 'line')
    t = s.spawn(fn)
    t.intr = intr
    s.run()
    return t.result, t.exc, t.step


def threads(case, sim, ests, want):
    s = sched.Scheduler(sim, case['spec'], case['gran'])
    ts = [s.spawn(est.call) for est in ests]
    out = sys.stdout
    lines = []

    class Out(io.StringIO):
        def write(self, x):
            lines.append(x)
            return len(x)

    # a thread of the host that prints while estimates run
    def printer():
        for k in range(6):
            s.point('host')
            print(f'host {k}', file=sys.stdout)
            s.point('host')

    s.spawn(printer)
    sys.stdout = o = Out()
    try:
        s.run()
        same = sys.stdout is o
    finally:
        sys.stdout = out
    case['recorded'] = s.pre
    for t, est, w in zip(ts, ests, want):
        if t.exc is not None:
            sim.fail('error', f'{type(t.exc).__name__}: {str(t.exc)[:300]} | {est.describe()}')
            return
        if not check(est, t.result, w, sim, 'threads'):
            return
    text = ''.join(lines)
    if not same or text != ''.join(f'host {k}\n' for k in range(6)):
        sim.fail('output', f'standard output of another thread: {text!r}')
    sim.count('threads-ok')


def explicit(case):
    return sched.explicit(case, run)


def shrink(case):
    for k in range(len(case['ests'])):
        if len(case['ests']) > 1:
            yield dict(case, ests=case['ests'][:k] + case['ests'][k + 1:])
    for k, e in enumerate(case['ests']):
        if 'prog' in e:
            for q in P.shrink_candidates(e['prog']):
                yield dict(case, ests=case['ests'][:k] + [dict(e, prog=q)] + case['ests'][k + 1:])
        if e.get('n', 0) > 1:
            yield dict(case, ests=case['ests'][:k] + [dict(e, n=e['n'] - 1)] + case['ests'][k + 1:])
    if case.get('spec'):
        for sp in sched.shrink_specs(case['spec']):
            yield dict(case, spec=sp)
    if case['mode'] != 'plain':
        yield {'ests': case['ests'], 'mode': 'plain', 'print': False}
