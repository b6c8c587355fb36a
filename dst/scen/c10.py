"""C10: the Laplacian operators are interchangeable, also as replacements of each other."""
import jax
import jax.numpy as jnp
import numpy as np

import folx

from .. import device, oracle, sched
from .. import programs as P
from ..core import STYLES, Injected, digest_arrays, styled
from . import lapl

SHAPES = [[[1]], [[2]], [[3]], [[5]], [[2, 2]], [[3, 2]], [[2, 1, 2]], [[]], [[4, 1]]]


def gen_fn(rng):
    opts = dict(lapl.prog_opts(rng, 'jit'), shapes=SHAPES)
    return {'prog': P.generate(rng, opts), 'cplx': rng.random() < 0.5, 'part': rng.random() < 0.15, 'const': rng.random() < 0.03}


def gen_op(rng, N):
    k = rng.choice(['forward', 'forward', 'loop', 'parallel'])
    thr = rng.choice([0, 0, 1, 2, N, N + 1, 0.3, 0.6, 0.9, 1000]) if k == 'forward' else None
    return {'op': k, 'thr': thr, 'ctx': rng.choice(['plain', 'plain', 'jit', 'vmap']), 'np': rng.random() < 0.3, 'fn': rng.choice([0, 0, 1, 2])}


def gen(rng, i, tier):
    case = gen_fn(rng)
    N = lapl.n_inputs(case['prog'])
    steps = []
    kinds = [gen_op(rng, N) for _ in range(rng.choice([2, 3, 4]))]
    kinds += [dict(gen_op(rng, N), op=k, thr=None) for k in ('loop', 'parallel') if rng.random() < 0.7]
    rng.shuffle(kinds)
    for k in kinds:
        s = dict(k)
        r = rng.random()
        if r < 0.12:
            s['fault'] = {'src': 'user', 'node': rng.randrange(64), 'kind': rng.choice(['user', 'interrupt'])}
        elif r < 0.24:
            s['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'interrupt']), 'u': rng.random()}
        steps.append(s)
    case['steps'] = steps
    case['style'] = rng.choice(STYLES)
    if rng.random() < 0.25:
        case['threads'] = True
        case['spec'] = sched.make_spec(rng, threads=len(steps))
        case['gran'] = rng.choice(['line', 'instr'])
    return case


class Fn(lapl.UserFn):
    """Scalar function of one array."""

    def __init__(self, case, fault=None, sim=None, twin=0):
        super().__init__(case['prog'], fault, sim)
        self.case, self.twin = case, twin

    def __call__(self, x):
        out = self.value(x)
        return out + self.twin * jnp.sum(x * x) if self.twin else out

    def value(self, x):
        self.traces += 1
        if self.case['const']:
            return jnp.asarray(2.5)
        if self.case['part'] and x.ndim and x.shape[0] > 1:
            # depends on the leading inputs only
            z = jnp.concatenate([x[:1], jnp.zeros_like(x[1:]) + 0.5])
            return jnp.sum(jnp.sin(z[:1]) * 1.5)
        out = self.fn(x)
        out = out if isinstance(out, tuple) else (out,)
        s = 0.0
        for k, o in enumerate(out):
            o = jnp.real(o) + 0.5 * jnp.imag(o) if jnp.iscomplexobj(o) else o
            s = s + (k + 1) * jnp.sum(o * (1 + 0.1 * np.arange(o.size).reshape(o.shape)))
        return s


def operator(s):
    if s['op'] == 'forward':
        return folx.ForwardLaplacianOperator(s['thr'])
    return {'loop': folx.LoopLaplacianOperator, 'parallel': folx.ParallelLaplacianOperator}[s['op']]()


def call(s, lap, x):
    if s['ctx'] == 'jit':
        out = jax.jit(lambda z: lap(z))(x)
    elif s['ctx'] == 'vmap':
        out = jax.vmap(lap)(np.stack([x, x * 1.002]))
    else:
        out = lap(x if s['np'] else jnp.asarray(x))
    return jax.block_until_ready(out)


def twin(ref, j, x):
    return [(J + 2 * j * (x * f).reshape(J.shape), L + 2 * j * x.size) for (J, L), f in zip(ref, (1, 1.002))]


def compare(s, out, refs):
    if not (isinstance(out, tuple) and len(out) == 2):
        return f'returned {type(out)}'
    for r, (J, L) in enumerate(refs if s['ctx'] == 'vmap' else refs[:1]):
        lap, grad = (np.asarray(o)[r] if s['ctx'] == 'vmap' else np.asarray(o) for o in out)
        sc = 1 + float(np.abs(J).max(initial=0)) ** 2 + abs(float(L))
        for what, a, b in (('laplacian', lap, L), ('gradient', grad, J)):
            if a.shape != b.shape or a.dtype != b.dtype:
                return f'{what} is {a.dtype}{a.shape} instead of {b.dtype}{b.shape}'
            e = float(np.abs(a - b).max(initial=0))
            if not e <= 1e-7 * sc:
                return f'{what} is off by {e:.3g}: {a.ravel()[:5]} instead of {b.ravel()[:5]}'
    return None


def describe(case, s):
    return f'{s} part={case["part"]} const={case["const"]} {P.describe(case["prog"])}'


def references(case):
    x = P.input_values(case['prog'])[0]
    out = []
    for y in (x, x * 1.002):
        (_, J, L), = oracle.reference(case['prog'], [y], None, Fn(case))
        out.append((J, L))
    return x, out


def run(case, sim):
    x, refs = references(case)
    if not all(np.all(np.isfinite(a)) for r in refs for a in r):
        sim.count('skipped:not-finite')
        return
    x0 = x.copy()
    refs = [twin(refs, j, x) for j in range(3)]
    laps, ops = {}, {}
    if case.get('threads'):
        return threads(case, sim, x, refs)
    for k, s in enumerate(case['steps']):
        fault = s.get('fault')
        sim.sig(s['op'], s['thr'] is not None and s['thr'] > 0, s['ctx'], sorted({n['op'] for n in case['prog']['nodes']})[:3], fault and fault['src'])
        user = Fn(case, dict(fault, trace=1) if fault and fault['src'] == 'user' else None, sim, s.get('fn', 0))
        fn = styled(user, case.get('style'))
        key = (s['op'], s['thr'], s.get('fn', 0))
        op = ops.setdefault(key[:2], operator(s))
        plan = {'kind': fault['kind'], 'at': 1 + int(fault['u'] * 4)} if fault and fault['src'] == 'device' else None
        if fault and fault['src'] == 'user':
            lap = op(fn)
        else:
            if key not in laps:
                laps[key] = op(fn)
            lap = laps[key]
        with device.Device(plan, sim) as dev:
            out, exc = lapl.guarded(call, s, lap, x)
        injected = [e for _, _, e in dev.fired] + user.fired
        if not decide(case, s, sim, out, exc, injected, refs):
            return
        if exc is not None and injected:
            # the same operator again, then a replacement
            for other in (s, dict(s, op='parallel', thr=None), dict(s, op='forward', thr=0)):
                with device.Device(None, sim):
                    lap2 = lap if other is s else operator(other)(styled(Fn(case, twin=s.get('fn', 0)), case.get('style')))
                    out, exc = lapl.guarded(call, other, lap2, x)
                if not decide(case, dict(other, after='failure'), sim, out, exc, [], refs):
                    return
        if not np.array_equal(x, x0):
            sim.fail('mutated', f'input changed | {describe(case, s)}')
            return


def decide(case, s, sim, out, exc, injected, refs):
    if exc is None:
        if any(isinstance(e, KeyboardInterrupt) for e in injected):
            sim.fail('swallowed', f'interrupt did not reach the caller | {describe(case, s)}')
            return False
        c = compare(s, out, refs[s.get('fn', 0)])
        if c:
            sim.fail('differs', f'{c} | {describe(case, s)}')
            return False
        sim.event(s['op'], s['thr'], digest_arrays(*out))
        sim.count(f'{s["op"]}:ok')
        return True
    if any(exc is e for e in injected):
        sim.event('raised', type(exc).__name__)
        sim.count('raised')
        return True
    if oracle.is_refusal(exc, case['prog'], bool(s['thr'])):
        sim.count('refused')
        return True
    sim.fail('wrong-exception' if injected else 'error', f'{type(exc).__name__}: {str(exc)[:300]} | {describe(case, s)}')
    return False


def threads(case, sim, x, refs):
    sc = sched.Scheduler(sim, case['spec'], case['gran'])
    users = []
    for s in case['steps']:
        f = s.get('fault')
        u = Fn(case, dict(f, trace=1) if f and f['src'] == 'user' else None, sim, s.get('fn', 0))
        users.append(u)
        lap = operator(s)(styled(u, case.get('style')))
        sc.spawn(lambda s=s, lap=lap: call(s, lap, x))
    sc.run()
    case['recorded'] = sc.pre
    for t, s, u in zip(sc.threads, case['steps'], users):
        if not decide(case, s, sim, t.result, t.exc, u.fired, refs):
            return
    sim.count('threads-ok')


def explicit(case):
    return sched.explicit(case, run)


def shrink(case):
    for k in range(len(case['steps'])):
        if len(case['steps']) > 1:
            yield dict(case, steps=case['steps'][:k] + case['steps'][k + 1:])
    if case.get('threads'):
        yield {k: v for k, v in case.items() if k not in ('threads', 'spec', 'gran')}
        for sp in sched.shrink_specs(case['spec']):
            yield dict(case, spec=sp)
    for k, s in enumerate(case['steps']):
        if s.get('fault'):
            yield dict(case, steps=case['steps'][:k] + [{a: b for a, b in s.items() if a != 'fault'}] + case['steps'][k + 1:])
        if s.get('fn'):
            yield dict(case, steps=case['steps'][:k] + [dict(s, fn=0)] + case['steps'][k + 1:])
        if s['ctx'] != 'plain':
            yield dict(case, steps=case['steps'][:k] + [dict(s, ctx='plain')] + case['steps'][k + 1:])
    if case.get('style'):
        yield dict(case, style=None)
    for q in P.shrink_candidates(case['prog']):
        yield dict(case, prog=q)
