"""Shared by the properties about one caller of forward_laplacian: build a case,
run it under injected failures, decide it against the reference."""
import warnings

import jax
import jax.tree_util as jtu
import numpy as np

import folx
from folx.api import FwdLaplArray

from .. import device, flaky, host, oracle
from .. import programs as P
from ..core import STYLES, Injected, digest_arrays, styled


# ill conditioned in single precision
SINGLE_BAN = frozenset()
FLAKY = ('flaky_const', 'flaky_take', 'flaky_flip')


def prog_opts(rng, mode, ban=FLAKY):
    """Eager runs execute (and compile) operation by operation: keep them short.
    Inside of a jit, XLA does not promise that two copies of one value are
    bitwise equal, which derivatives of max, sort and the like rely on."""
    if mode == 'eager':
        return {'ban': list(ban), 'n_ops': rng.choice([1, 1, 2, 2, 3, 4])}
    return {'ban': list(ban) + sorted(P.EQUALITY_OPS)}


def flat_outputs(out):
    return jtu.tree_leaves(out, is_leaf=lambda x: isinstance(x, (FwdLaplArray, jax.Array, np.ndarray)))


def result_digest(out):
    arrs = []
    for o in flat_outputs(out):
        if isinstance(o, FwdLaplArray):
            arrs += [o.x, o.jacobian.data, o.laplacian]
            if o.jacobian.x0_idx is not None:
                arrs.append(o.jacobian.x0_idx)
        else:
            arrs.append(o)
    return digest_arrays(*arrs)


def layout(out):
    return [
        (tuple(o.x.shape), str(o.x.dtype), tuple(o.jacobian.data.shape), o.jacobian.x0_idx is not None)
        if isinstance(o, FwdLaplArray)
        else (tuple(np.shape(o)), 'array')
        for o in flat_outputs(out)
    ]


class UserFn:
    """The user's function; raises at a chosen node of a chosen trace."""

    def __init__(self, prog, fault=None, sim=None):
        self.prog, self.fault, self.sim = prog, fault, sim
        self.__name__ = 'user_fn'
        self.traces = 0
        self.fired = []
        self.fn = P.build(prog, on_node=self.on_node)

    def on_node(self, k, nd):
        f = self.fault
        if f and self.traces == f['trace'] and k == f['node'] % len(self.prog['nodes']):
            self.fault = None
            e = device.make_error(f['kind']) if f['kind'] != 'user' else Injected('user function failed')
            self.fired.append(e)
            if self.sim:
                self.sim.event('user-fault', k, f['kind'])
                self.sim.count(f'fault:callback-{f["kind"]}@trace{f["trace"]}')
            raise e

    def __call__(self, *xs, gain=None):
        self.traces += 1
        if gain is not None:
            xs = (xs[0] * gain, *xs[1:])
        return self.fn(*xs)


def pack_tree(xs):
    return {'a': xs[0], 'b': tuple(xs[1:])}


def weight_values(case):
    """One weight per input array: a number, or an array of the input's shape."""
    wt = case.get('weights')
    if wt is None:
        return None
    shapes = [s['shape'] for s in case['prog']['inputs']]
    if len(wt) == 1:
        wt = wt * len(shapes)
    return [np.random.RandomState(w['seed']).uniform(0.3, 2.0, size=sh) if isinstance(w, dict) else w for w, sh in zip(wt, shapes)]


def gain_value(case):
    x = case['prog']['inputs'][0]
    return np.random.RandomState(7).uniform(0.99, 1.01, size=x['shape'])


def make(case, user):
    pack = case.get('pack', 'flat')
    fn = user
    if pack == 'tree':
        fn = lambda t: user(t['a'], *t['b'])
    w = folx.forward_laplacian(styled(fn, case.get('style')), case['thr'], disable_jit=case['mode'] == 'eager')
    kw = {}
    if case.get('weights') is not None:
        ws = weight_values(case)
        if case.get('scalar_weight'):
            kw['weights'] = ws[0]
        elif pack == 'tree':
            kw['weights'] = (pack_tree(ws),)
        else:
            kw['weights'] = tuple(ws)
    if pack == 'kw':
        kw['gain'] = gain_value(case)
    if pack == 'tree':
        return lambda *a: w(pack_tree(a), **kw)
    return (lambda *a: w(*a, **kw)) if kw else w


def call(case, fn, xs):
    ctx = case.get('ctx', 'plain')
    if ctx == 'plain':
        out = fn(*xs)
    elif ctx == 'vmap':
        rows = [np.stack([x * (1 + 0.002 * r) for r in range(2)]) for x in xs]
        out = jax.vmap(fn)(*rows)
    elif ctx == 'outerjit':
        out = jax.jit(fn)(*xs)
    else:
        raise ValueError(ctx)
    return jax.block_until_ready(out)


def check_out(case, out, refs):
    """None or a complaint."""
    prog = case['prog']
    if case.get('ctx') == 'vmap':
        for r, ref in enumerate(refs):
            row = jtu.tree_map(lambda a: np.asarray(a)[r], out)
            c = oracle.compare(oracle.outputs(row, prog), ref)
            if c:
                return f'row {r}: {c}'
        return None
    return oracle.compare(oracle.outputs(out, prog), refs[0])


def references(case):
    prog = case['prog']
    xs = P.input_values(prog)
    w = weight_values(case)
    fn = None
    if case.get('pack') == 'kw':
        gain, inner = gain_value(case), P.build(prog)
        fn = lambda *xs: inner(xs[0] * gain, *xs[1:])
    if case.get('ctx') == 'vmap':
        return [oracle.reference(prog, [x * (1 + 0.002 * r) for x in xs], w, fn) for r in range(2)]
    return [oracle.reference(prog, xs, w, fn)]


def decorate(case, rng):
    """How the call is made: weights, argument structure, calling context."""
    if rng.random() < 0.16 and not any(n['op'] in SINGLE_BAN for n in case['prog']['nodes']):
        case['prog']['dtype'] = 'float32'
        case['x32'] = rng.random() < 0.6
    r = rng.random()
    if r < 0.2:
        case['weights'] = [{'seed': rng.randrange(1 << 20)} if rng.random() < 0.3 else round(rng.uniform(0.3, 2.0), 2) for _ in case['prog']['inputs']]
    elif r < 0.27:
        case['weights'] = [round(rng.uniform(0.3, 2.0), 2)]
        case['scalar_weight'] = True
    case['style'] = rng.choice(STYLES)
    r = rng.random()
    if r < 0.1:
        case['pack'] = 'tree'
    elif r < 0.18:
        case['pack'] = 'kw'
    if not oracle.has_equality(case['prog']) and rng.random() < 0.13:
        case['ctx'] = rng.choice(['vmap', 'outerjit'])
    return case


def describe(case):
    extra = {k: case[k] for k in ('mode', 'thr', 'weights', 'style', 'pack', 'ctx', 'x32', 'fault') if case.get(k) not in (None, False, 'plain')}
    return f'{P.describe(case["prog"])} {extra}'


def guarded(fn, *a):
    """(result, exception): BaseException included, an injected interrupt is one."""
    try:
        return fn(*a), None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not getattr(e, 'injected', False) and '[injected]' not in str(e):
            raise
        return None, e


def agree(out, base):
    """A result that was obtained in another way is as accurate as the usual one."""
    for k, (a, b) in enumerate(zip(flat_outputs(out), flat_outputs(base))):
        if not isinstance(a, FwdLaplArray) or not isinstance(b, FwdLaplArray) or np.asarray(a.x).dtype not in ('float64', 'complex128'):
            continue
        p, q = [tuple(np.asarray(v) for v in (t.x, t.laplacian)) for t in (a, b)]
        sc = 1 + sum(float(np.abs(v).max(initial=0)) for v in q) + float(np.abs(np.asarray(b.jacobian.data)).max(initial=0)) ** 2
        for what, v, w in zip(('value', 'laplacian'), p, q):
            e = float(np.abs(v - w).max(initial=0))
            if e > 1e-10 * sc:
                return f'output {k}: {what} is off by {e:.3g} (scale {sc:.3g}) from the result without failures'
    return None


def judge(case, sim, what, out, exc, refs, allowed=(), must_succeed=False, base=None):
    """Exact, or one of the injected failures (the very object), or a documented refusal."""
    if exc is None:
        try:
            c = check_out(case, out, refs) or (base is not None and agree(out, base)) or None
        except Exception as e:
            c = f'unusable result: {type(e).__name__}: {e}'
        if c:
            sim.fail('inexact', f'{what}: {c} | {describe(case)}')
            return False
        sim.event(what, 'exact', result_digest(out), layout(out))
        sim.count(f'{what}:exact')
        return True
    if any(exc is e for e in allowed):
        sim.event(what, 'raised', type(exc).__name__)
        sim.count(f'{what}:raised')
        if must_succeed:
            sim.fail('not-recovered', f'{what}: {type(exc).__name__}: {exc} | {describe(case)}')
            return False
        return True
    if oracle.is_refusal(exc, case['prog'], case['thr'] > 0):
        sim.event(what, 'refused')
        sim.count('refused')
        return True
    kind = 'wrong-exception' if allowed else 'error'
    sim.fail(kind, f'{what}: {type(exc).__name__}: {str(exc)[:400]} (injected: {[type(a).__name__ for a in allowed]}) | {describe(case)}')
    return False


def run_case(case, sim):
    prog, fault = case['prog'], case.get('fault')
    flaky.arm(None)
    host.HANDLER.fail = 0
    refs = references(case)
    if not all(oracle.finite(r) for r in refs):
        sim.count('skipped:not-finite')
        return
    xs = P.input_values(prog)
    sim.sig(sorted({n['op'] for n in prog['nodes']}), case['mode'], case['thr'] > 0, case.get('ctx'), None if fault is None else (fault['src'], fault.get('kind'), fault.get('where')))
    src = fault['src'] if fault else None
    base = None
    if src is None or src == 'device':
        # fault-free first: it has to succeed, and tells how many executions there are
        with device.Device(None, sim) as dev:
            user = UserFn(prog, sim=sim)
            out, exc = guarded(call, case, make(case, user), xs)
        ok = judge(case, sim, 'plain', out, exc, refs)
        base = out
        sim.event('executions', dev.n)
        if ok and exc is None and case.get('also') and any(c == case['also'] for c, _ in dev.sites):
            # the same call when this part of the analysis always fails on the device
            with device.Device({'kind': 'oom', 'where': case['also']}, sim) as d2:
                out, exc = guarded(call, case, make(case, UserFn(prog, sim=sim)), xs)
            sim.sig('also', case['also'], sorted({n['op'] for n in prog['nodes']}))
            ok = judge(case, sim, f'without {case["also"]}', out, exc, refs, [e for _, _, e in d2.fired], True, base)
        if not ok or src is None or exc is not None:
            return
    if src == 'device':
        plan = {k: fault[k] for k in ('kind', 'where', 'len', 'n', 'skip') if fault.get(k) is not None}
        if 'where' not in plan:
            pool = list(range(1, dev.n + 1))
            if fault.get('bias'):
                pool = [i + 1 for i, (c, _) in enumerate(dev.sites) if c == fault['bias']] or pool
            if not pool:
                return
            plan['at'] = pool[int(fault['u'] * len(pool))]
        user = UserFn(prog, sim=sim)
        fn = make(case, user)
        with device.Device(plan, sim) as d2:
            out, exc = guarded(call, case, fn, xs)
        allowed = [e for _, _, e in d2.fired]
        classes = {c for _, c, _ in d2.fired}
        for k, c, _ in d2.fired:
            sim.sig('site', d2.sites[k - 1], plan['kind'], case['mode'])
        must = False
        if d2.fired and plan['kind'] not in ('interrupt', 'exit'):
            if classes == {'unique'} and plan['kind'] in ('oom', 'internal') and ('where' in plan or plan.get('len', 1) == 1):
                must = True
            elif case['mode'] == 'jit' and case.get('ctx', 'plain') != 'vmap' and classes <= {'const', 'mask'} and ('where' in plan or plan.get('len', 1) == 1):
                must = True
        if plan['kind'] in ('interrupt', 'exit') and d2.fired and exc is None:
            sim.fail('swallowed', f'{type(allowed[-1]).__name__} at execution {d2.fired[-1][0]} ({d2.sites[d2.fired[-1][0] - 1]}) did not reach the caller | {describe(case)}')
            return
        if not judge(case, sim, 'faulted', out, exc, refs, allowed, must, base):
            return
    elif src == 'user':
        user = UserFn(prog, dict(fault), sim)
        fn = make(case, user)
        with device.Device(None, sim):
            out, exc = guarded(call, case, fn, xs)
        if user.fired and exc is None:
            sim.fail('swallowed', f'{type(user.fired[0]).__name__} of the user function did not reach the caller | {describe(case)}')
            return
        if not judge(case, sim, 'faulted', out, exc, refs, user.fired):
            return
    elif src == 'flaky':
        flaky.arm(sim, fault.get('const', 0), fault.get('mask', 0))
        user = UserFn(prog, sim=sim)
        fn = make(case, user)
        with device.Device(None, sim):
            out, exc = guarded(call, case, fn, xs)
        allowed = list(flaky.State.fired)
        # one failing eager execution is covered by the fallback; in a jit the fallback never runs eagerly
        # (dense evaluations have none: a fraction of few inputs may be none)
        thr = case['thr'] if case['thr'] >= 1 else int(case['thr'] * n_inputs(prog))
        must = bool(allowed) and thr > 0 and (case['mode'] == 'jit' or len(allowed) == 1)
        if not judge(case, sim, 'faulted', out, exc, refs, allowed, must):
            return
    elif src == 'log':
        host.HANDLER.fail = fault['n']
        host.HANDLER.failed = []
        user = UserFn(prog, sim=sim)
        fn = make(case, user)
        with device.Device(None, sim):
            out, exc = guarded(call, case, fn, xs)
        if host.HANDLER.failed:
            sim.count('fault:log-handler', len(host.HANDLER.failed))
        host.HANDLER.fail = 0
        if not judge(case, sim, 'faulted', out, exc, refs):
            return
    # afterwards everything works again, on the same wrapped function
    flaky.arm(None)
    with device.Device(None, sim):
        out, exc = guarded(call, case, fn, xs)
    judge(case, sim, 'retry', out, exc, refs)


def shrink_case(case):
    f = case.get('fault')
    if case.get('also'):
        yield {k: v for k, v in case.items() if k != 'also'}
    if f:
        yield {k: v for k, v in case.items() if k != 'fault'}
    if case.get('ctx', 'plain') != 'plain':
        yield dict(case, ctx='plain')
    if case.get('style'):
        yield dict(case, style=None)
    if case.get('x32'):
        yield dict(case, x32=False)
    if case.get('pack', 'flat') != 'flat':
        yield {k: v for k, v in case.items() if k != 'pack'}
    if case.get('weights'):
        yield {k: v for k, v in case.items() if k not in ('weights', 'scalar_weight')}
    for q in P.shrink_candidates(case['prog']):
        if case.get('weights') and len(q['inputs']) != len(case['prog']['inputs']):
            continue
        yield dict(case, prog=q)
    if case['mode'] == 'jit':
        yield dict(case, mode='eager')
    if f and f.get('len', 1) and f.get('len', 1) > 1:
        yield dict(case, fault=dict(f, len=1))
    if isinstance(case['thr'], float) and case['thr'] > 0:
        n = sum(int(np.prod(s['shape'])) for s in case['prog']['inputs'])
        yield dict(case, thr=int(case['thr'] * n) if case['thr'] < 1 else int(case['thr']))


def n_inputs(prog):
    return sum(int(np.prod(s['shape'], dtype=int)) for s in prog['inputs'])
