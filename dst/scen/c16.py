"""C16: the differentiation helpers of folx.ad on real, complex and mixed functions."""
import jax
import jax.flatten_util
import jax.numpy as jnp
import numpy as np

from folx import ad

from .. import device, flaky, host
from .. import programs as P
from ..core import STYLES, styled
from . import lapl

# derivatives of these exist in the complex sense
HOLOMORPHIC = '''sin exp square matmul add sub mul sum reshape transpose slice expand squeeze concat stack flip roll take
index_int tile broadcast tril diag scale einsum neg mean prod cos tanh'''.split()


def gen(rng, i, tier):
    kind = rng.choice(['rr', 'rr', 'rc', 'rc', 'cc', 'cr'])
    mode = 'eager' if rng.random() < 0.3 else 'jit'
    if kind == 'rr':
        ban = set(lapl.FLAKY) | P.EQUALITY_OPS | {'while_n'} | {n for n, o in P.OPS.items() if o.group == 'complex'}
    else:
        ban = set(P.OPS) - set(HOLOMORPHIC)
    for _ in range(30):
        prog = P.generate(rng, {'ban': sorted(ban), 'n_ops': rng.choice([1, 2, 2, 3]), 'big': 0})
        prog['outs'] = prog['outs'][:1]
        prog = P.dce(prog)
        N = lapl.n_inputs(prog)
        if N <= 7:
            break
    case = {'prog': prog, 'kind': kind, 'mode': mode, 'fn': rng.choice(['jacfwd', 'jacrev', 'hessian', 'hessian', 'vjp']), 'style': rng.choice(STYLES), 'seed': rng.randrange(1 << 20)}
    if rng.random() < 0.2:
        case['prog']['dtype'] = 'float32'
        case['x32'] = rng.random() < 0.6
    r = rng.random()
    if r < 0.4:
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'host_oom', 'interrupt', 'exit']), 'u': rng.random(), 'len': rng.choice([1, 1, 2, 1000])}
    elif r < 0.65:
        case['fault'] = {'src': 'user', 'kind': rng.choice(['user', 'interrupt']), 'node': rng.randrange(64), 'trace': rng.choice([1, 1, 2, 3])}
    return case


def wrap(case, base):
    """The function of the case's kind, and its arguments."""
    prog, kind = case['prog'], case['kind']
    xs = P.input_values(prog)
    r = np.random.RandomState(case['seed'])
    single = prog.get('dtype') == 'float32'
    ct = np.complex64 if single else np.complex128
    phase = ct(np.exp(0.4j))
    if kind[0] == 'c':
        xs = [(x * (1 + 0.2j * r.uniform(0.5, 1, size=x.shape))).astype(ct) for x in xs]
    if kind == 'rc':
        f = lambda *a: jnp.sin(base(*[x * phase for x in a]) * 0.5)
    elif kind == 'cr':
        f = lambda *a: (lambda y: y.real * y.imag + jnp.cos(y.real))(base(*a) * 0.3)
    else:
        f = base
    return f, xs


def true(case, f, xs):
    """By jax on the flattened arguments, twice forward."""
    flat, unravel = jax.flatten_util.ravel_pytree(tuple(xs))
    g = lambda z: jnp.ravel(f(*unravel(z)))
    kind = case['kind']
    if kind == 'cr':
        # the gradient convention of jax: d/dx - i d/dy
        re = lambda a, b: g(a + 1j * b)
        a, b = flat.real, flat.imag
        return lambda: jax.jacfwd(re, 0)(a, b) - 1j * jax.jacfwd(re, 1)(a, b), None, g(flat)
    h = kind == 'cc'
    J = jax.jacfwd(g, holomorphic=h)
    H = jax.jacfwd(jax.jacfwd(g, holomorphic=h), holomorphic=h)
    return (lambda: J(flat)), (lambda: H(flat)), g(flat)


def split(case, flat, xs, axis):
    """The flat input axis cut into one part per argument, each of the argument's shape."""
    out, k = [], 0
    for x in xs:
        part = np.take(flat, range(k, k + x.size), axis)
        out.append(part.reshape((*flat.shape[:axis], *x.shape, *flat.shape[axis + 1:])))
        k += x.size
    return tuple(out)


def run(case, sim):
    flaky.arm(None)
    host.HANDLER.fail = 0
    prog, kind, what = case['prog'], case['kind'], case['fn']
    f, xs = wrap(case, P.build(prog))
    sim.sig(kind, what, case['mode'], len(xs), (case.get('fault') or {}).get('src'), sorted({n['op'] for n in prog['nodes']}))
    J, H, y = true(case, f, xs)
    y = np.asarray(y)
    if kind == 'cr' and what in ('jacfwd', 'hessian'):
        what = 'jacrev'
    J = np.asarray(J())
    H = np.asarray(H()) if what == 'hessian' else None
    if not (np.isfinite(J).all() and np.isfinite(y).all() and (H is None or np.isfinite(H).all())):
        sim.count('skipped:not-finite')
        return
    r = np.random.RandomState(case['seed'] + 1)
    v = r.normal(size=np.shape(f(*xs)))
    if np.iscomplexobj(y):
        v = v + 1j * r.normal(size=v.shape)
    v = jnp.asarray(v, y.dtype)

    def target(fn):
        if what == 'vjp':
            return lambda *a: ad.vjp(fn, *a)(v)
        return getattr(ad, what)(fn)

    def expected():
        out_shape = v.shape
        if what == 'jacfwd':
            return (J.reshape(*out_shape, J.shape[1]),)
        if what == 'jacrev':
            return split(case, J, xs, 1)
        if what == 'hessian':
            return split(case, H, xs, 1)
        return split(case, np.tensordot(np.asarray(v).ravel(), J, 1), xs, 0)

    want = expected()
    fault = case.get('fault')

    def attempt(name, plan, uf):
        user = lapl.UserFn(prog, uf, sim)
        fn = styled(wrap(case, user)[0], case.get('style'))
        t = target(fn)
        if case['mode'] == 'jit':
            t = jax.jit(t)
        return judge(name, t, plan, user)

    def judge(name, t, plan, user):
        with device.Device(plan, sim) as dev:
            out, exc = lapl.guarded(lambda: jax.block_until_ready(t(*xs)))
        fired = [e for _, _, e in dev.fired] + user.fired
        if exc is not None:
            if any(exc is e for e in fired):
                sim.event(name, 'raised')
                sim.count(f'{name}:raised')
                return True, dev, t, user
            sim.fail('wrong-exception' if fired else 'error', f'{name}: {type(exc).__name__}: {str(exc)[:300]} | {show(case)}')
            return False, dev, t, user
        if fired:
            sim.fail('swallowed', f'{name}: {type(fired[0]).__name__} did not reach the caller | {show(case)}')
            return False, dev, t, user
        got = out if isinstance(out, tuple) else (out,)
        c = compare(case, got, want, H if H is not None else J)
        if c:
            sim.fail('inexact', f'{name}: {c} | {show(case)}')
            return False, dev, t, user
        sim.event(name, 'exact', [float(np.abs(np.asarray(g)).sum()) for g in got])
        sim.count(f'{name}:exact')
        return True, dev, t, user

    ok, dev, t, user = attempt('plain', None, None)
    if not ok or not fault:
        return
    plan = uf = None
    if fault['src'] == 'device':
        if not dev.n:
            return
        plan = {'kind': fault['kind'], 'at': 1 + int(fault['u'] * dev.n), 'len': fault['len']}
    else:
        uf = {k: fault[k] for k in ('kind', 'node', 'trace')}
    ok, _, t, user = attempt('faulted', plan, uf)
    if ok:
        user.fault = None
        judge('again', t, None, lapl.UserFn(prog))


def compare(case, got, want, scale):
    if len(got) != len(want):
        return f'{len(got)} results instead of {len(want)}'
    tol = 3e-3 if case['prog'].get('dtype') == 'float32' else 1e-8
    sc = 1 + float(np.abs(scale).max(initial=0)) ** 2
    for g, w in zip(got, want):
        g = np.asarray(g)
        if g.shape != w.shape:
            return f'shape {g.shape} instead of {w.shape}'
        if np.iscomplexobj(g) != np.iscomplexobj(w) and np.abs(np.imag(g)).max(initial=0) > tol * sc:
            return f'{g.dtype} instead of {w.dtype}'
        e = float(np.abs(g - w).max(initial=0))
        if not e <= tol * sc:
            return f'off by {e:.3g} (scale {sc:.3g}): {g.ravel()[:6]} instead of {w.ravel()[:6]}'
    return None


def show(case):
    return f'{case["fn"]} of a {case["kind"]} function: {P.describe(case["prog"])} { {k: case[k] for k in ("mode", "style", "fault", "x32") if case.get(k)} }'


def shrink(case):
    if case.get('fault'):
        yield {k: v for k, v in case.items() if k != 'fault'}
    for k in ('style', 'x32'):
        if case.get(k):
            yield dict(case, **{k: None})
    for q in P.shrink_candidates(case['prog']):
        if len(q['outs']) == 1:
            yield dict(case, prog=q)
    if case['mode'] == 'jit':
        yield dict(case, mode='eager')
