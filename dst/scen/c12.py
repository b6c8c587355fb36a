"""C12: failures reach the caller unchanged; interrupts are never swallowed."""
import jax.numpy as jnp
import numpy as np

import folx
from folx.api import FwdLaplArray

from .. import device, flaky, host, jobs, kernel, memstats, oracle, sched
from ..core import Injected
from . import c07, lapl


class OddError(Exception):
    """Cannot be rebuilt from its args, compares equal to anything."""

    def __init__(self, a, b, *, c):
        super().__init__(a)
        self.b, self.c = b, c

    def __eq__(self, other):
        return isinstance(other, OddError)

    __hash__ = Exception.__hash__


class Stop(BaseException):
    """Neither an Exception nor a KeyboardInterrupt (e.g. asyncio.CancelledError)."""


class Mute(Exception):
    """Cannot be turned into text."""

    def __str__(self):
        raise RuntimeError('no text')

    __repr__ = __str__


def make_exc(kind):
    e = _make_exc(kind)
    e.injected = True
    return e


def _make_exc(kind):
    return {
        'user': lambda: Injected('user failure'),
        'odd': lambda: OddError('odd', 2, c=3),
        'value': lambda: ValueError('bad value [injected]'),
        'type': lambda: TypeError('bad type [injected]'),
        'assert': lambda: AssertionError('[injected]'),
        'key': lambda: KeyError('[injected]'),
        'index': lambda: IndexError('[injected]'),
        'attr': lambda: AttributeError('[injected]'),
        'notimpl': lambda: NotImplementedError('[injected]'),
        'memory': lambda: MemoryError('[injected]'),
        'os': lambda: OSError(28, 'No space left on device [injected]'),
        'oom': lambda: device.make_error('oom'),
        'stop-iteration': lambda: StopIteration('[injected]'),
        'group': lambda: ExceptionGroup('[injected]', [ValueError('a'), MemoryError()]),
        'timeout': lambda: TimeoutError(110, 'timed out'),
        'unicode': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, '[injected]'),
        'generator-exit': lambda: GeneratorExit('[injected]'),
        # as Python raises them: without arguments
        'bare': lambda: MemoryError(),
        'bare-assert': lambda: AssertionError(),
        'bare-interrupt': lambda: KeyboardInterrupt(),
        'bare-exit': lambda: SystemExit(),
        'bare-stop': lambda: Stop(),
        'mute': lambda: Mute(),
        'interrupt': lambda: KeyboardInterrupt('[injected]'),
        'exit': lambda: SystemExit('[injected]'),
        'stop': lambda: Stop('[injected]'),
    }[kind]()


ORDINARY = ['user', 'odd', 'value', 'type', 'assert', 'key', 'index', 'attr', 'notimpl', 'memory', 'os', 'oom', 'bare', 'bare', 'bare-assert', 'mute', 'stop-iteration', 'group', 'timeout', 'unicode']
HARD = ['interrupt', 'exit', 'stop', 'bare-interrupt', 'bare-exit', 'bare-stop']


def gen(rng, i, tier):
    src = rng.choice(['async', 'async', 'async', 'user', 'user', 'rule', 'device', 'device', 'flaky', 'log'])
    kinds = {'rule': ('lapl',), 'flaky': ('lapl',), 'log': ('lapl', 'lapl', 'auto')}.get(src, jobs.KINDS)
    mode = rng.choice(['eager', 'eager', 'jit']) if src in ('async', 'device', 'flaky') else None
    job = jobs.gen(rng, kinds, mode)
    if src == 'flaky':
        from .. import programs as P

        for _ in range(6):
            job['prog'] = P.generate(rng, {'groups': {'flaky': 4.0, 'complex': 0, 'linalg': 0}, 'n_ops': rng.choice([1, 2, 3]), **({} if job['mode'] == 'eager' else {'ban': sorted(P.EQUALITY_OPS)})})
            job.pop('weights', None)
            if any(n['op'].startswith('flaky') for n in job['prog']['nodes']):
                break
        job['thr'] = 1000
    hard = rng.random() < 0.6
    f = {'src': src, 'kind': rng.choice(HARD if hard else ORDINARY), 'u': rng.random()}
    if src == 'async':
        f['kind'] = rng.choice(HARD)
        f['n'] = rng.choice([1, 2, 3])  # several interrupted calls of one run
        f['us'] = [rng.random() for _ in range(6 if jobs.eager(job) else 3)]
    if src in ('user', 'rule') and rng.random() < 0.1:
        f['kind'] = 'generator-exit'
    if src == 'user':
        f['trace'] = rng.choice([1, 1, 1, 2, 3])
        f['node'] = rng.randrange(64)
        f['log'] = rng.random() < 0.3
    if src == 'rule':
        f['name'] = rng.random() < 0.4
        f['nest'] = rng.choice(['plain', 'jit', 'scan', 'twice'])
        f['at'] = rng.choice([1, 1, 2])
        f['log'] = rng.random() < 0.3
    if src == 'device':
        f['kind'] = rng.choice(['interrupt', 'exit', 'oom', 'internal', 'host_oom'])
        f['us'] = [rng.random() for _ in range(3)]
        f['log'] = rng.random() < 0.2
    if src == 'flaky':
        f['mask'] = rng.choice([0, 1])
        f['const'] = 1 - f['mask'] if rng.random() < 0.7 else 1
    return {'job': job, 'fault': f}


class RaisingFn:
    """Raises a chosen object at the n-th trace of the user function."""

    def __init__(self, inner, exc, at, sim):
        self.inner, self.exc, self.at, self.sim = inner, exc, at, sim
        self.n = 0
        self.raised = False
        self.__name__ = 'raising_fn'

    def __call__(self, *a, **k):
        self.n += 1
        out = self.inner(*a, **k)
        if self.n == self.at:
            self.raised = True
            self.sim.count(f'fault:callback-{type(self.exc).__name__}')
            raise self.exc
        return out


def decide(case, sim, what, out, exc, injected, refs, job, absorbed=False):
    """absorbed: an ordinary failure has a documented fallback here."""
    d = f'{what} | {case["fault"]} | {job.describe()}'
    if exc is None:
        hard = [e for e in injected if not isinstance(e, Exception)]
        if hard:
            sim.fail('swallowed', f'{type(hard[0]).__name__} did not reach the caller: {d}')
            return False
        if injected and not absorbed:
            sim.fail('swallowed', f'{type(injected[0]).__name__} did not reach the caller: {d}')
            return False
        c = job.exact(out, refs)
        if c:
            sim.fail('inexact', f'{c}: {d}')
            return False
        sim.event(what, jobs.digest(out))
        sim.count('completed')
        return True
    if any(exc is e for e in injected):
        sim.event(what, 'raised', type(exc).__name__)
        sim.count('reached-caller')
        return True
    if not injected and jobs.refusal(exc, job.spec):
        sim.count('refused')
        return True
    sim.fail('replaced' if injected else 'error', f'{text(exc)} reached the caller instead of {[type(e).__name__ for e in injected]}: {d}')
    return False


def text(e):
    try:
        return f'{type(e).__name__}: {str(e)[:300]}'
    except Exception:
        return type(e).__name__


def guarded(fn, *a):
    try:
        return fn(*a), None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not getattr(e, 'injected', False) and '[injected]' not in str(e):
            raise
        return None, e


def set_env(spec):
    if spec['kind'] == 'auto':
        memstats.set_env({'stats': None} if spec['rows'] is None else {'limit': int(1e4 * spec['rows'])})


def run(case, sim):
    flaky.arm(None)
    kernel.arm(None)
    kernel.State.chunks = None
    host.HANDLER.fail = 0
    try:
        _run(case, sim)
    finally:
        flaky.arm(None)
        memstats.set_env(None)
        host.HANDLER.fail = 0


def _run(case, sim):
    spec, f = case['job'], case['fault']
    src = f['src']
    base = jobs.Job(spec, sim)
    refs = base.refs()
    if refs is None:
        sim.count('skipped')
        return
    set_env(spec)
    sim.sig(spec['kind'], spec['mode'], jobs.sparse(spec), src, f['kind'], f.get('trace'), f.get('nest'))
    if f.get('log'):
        host.HANDLER.fail = 1000
        host.HANDLER.failed = []
    if src == 'async':
        job = jobs.Job(spec, sim)
        out, exc, n = single(lambda: jobs.Job(spec, sim).call(), sim, None)
        if not decide(case, sim, 'stepped', out, exc, [], refs, job) or exc is not None:
            return
        for u in f['us']:
            e = make_exc(f['kind'])
            job = jobs.Job(spec, sim)
            at = 1 + int(u * n)
            out, exc, _ = single(job.call, sim, (at, e))
            fired = single.fired
            if not decide(case, sim, f'interrupt at step {at}/{n} ({single.label})', out, exc, [e] if fired else [], refs, job):
                return
            if fired:
                sim.sig('interrupted', single.label)
                if jobs.eager(spec) or u < 0.5:
                    # the very same callable afterwards
                    out, exc = guarded(job.call)
                    if not decide(case, sim, 'afterwards', out, exc, [], refs, job):
                        return
        return
    if src == 'user':
        e = make_exc(f['kind'])
        hold = []

        def wrap(u):
            hold.append(RaisingFn(u, e, f['trace'], sim))
            return hold[0]

        job = jobs.Job(spec, sim, wrap=wrap)
        out, exc = guarded(job.call)
        absorbed = spec['kind'] == 'auto'
        if not decide(case, sim, 'callback', out, exc, [e] if hold[0].raised else [], refs, job, absorbed):
            return
    elif src == 'rule':
        return rule(case, sim)
    elif src == 'device':
        job = jobs.Job(spec, sim)
        with device.Device(None, sim) as d0:
            out, exc = guarded(job.call)
        if not decide(case, sim, 'plain', out, exc, [], refs, job) or exc is not None or not d0.n:
            return
        for u in f['us']:
            job = jobs.Job(spec, sim)
            with device.Device({'kind': f['kind'], 'at': 1 + int(u * d0.n)}, sim) as dev:
                out, exc = guarded(job.call)
            cls = {c for _, c, _ in dev.fired}
            for k, c, _ in dev.fired:
                sim.sig('site', dev.sites[k - 1], f['kind'])
            absorbed = spec['kind'] == 'auto' or (jobs.sparse(spec) and cls <= {'const', 'mask', 'unique'})
            if not decide(case, sim, f'device {dev.sites[dev.fired[0][0] - 1] if dev.fired else None}', out, exc, [x for _, _, x in dev.fired], refs, job, absorbed):
                return
    elif src == 'flaky':
        e = make_exc(f['kind'])
        flaky.arm(sim, f['const'], f['mask'], e)
        job = jobs.Job(spec, sim)
        out, exc = guarded(job.call)
        fired = list(flaky.State.fired)
        if not decide(case, sim, 'eager operation', out, exc, fired, refs, job, True):
            return
    elif src == 'log':
        # everything the library logs fails at the stream
        host.HANDLER.fail = 1000
        host.HANDLER.failed = []
        job = jobs.Job(spec, sim)
        out, exc = guarded(job.call)
        if host.HANDLER.failed:
            sim.count('fault:log-handler', len(host.HANDLER.failed))
        if not decide(case, sim, 'log stream fails', out, exc, [], refs, job):
            return
    host.HANDLER.fail = 0
    flaky.arm(None)
    out, exc = guarded(jobs.Job(spec, sim).call)
    decide(case, sim, 'afterwards', out, exc, [], refs, base)


def single(fn, sim, intr):
    s = sched.Scheduler(sim, {'kind': 'serial'}, 'line')
    t = s.spawn(fn)
    t.intr = intr
    s.run()
    single.fired, single.label = t.intr_fired, t.intr_label
    return t.result, t.exc, t.step


def rule(case, sim):
    """A custom rule fails, wherever the operation occurs."""
    import jax

    f, spec = case['fault'], case['job']
    e = make_exc(f['kind'])
    from .. import programs as P

    st = {'n': 0, 'raised': False}
    name = 'dst_named'
    inner = P.build(spec['prog'])

    def named(x):
        return x * 1.5 + 0.1

    named.__name__ = name
    sub = jax.jit(named)

    def tail(z):
        nest = f['nest']
        if nest == 'jit':
            return jax.jit(lambda v: apply(v) * 2)(z)
        if nest == 'scan':
            return jax.lax.scan(lambda c, _: (apply(c), None), z, None, length=2)[0]
        if nest == 'twice':
            return apply(apply(z))
        return apply(z)

    def apply(z):
        return sub(z) if f['name'] else flaky.flip_p.bind(z, axis=0)

    def fn(*xs):
        y = jnp.sin(xs[0].reshape(-1))
        y = tail(y)
        out = inner(*xs)
        return (y, *(out if isinstance(out, tuple) else (out,)))

    plain = folx.wrap_forward_laplacian(named) if f['name'] else None
    old = None if f['name'] else folx.wrapped_functions.get_laplacian(flaky.flip_p)

    def failing(args, kwargs, sparsity_threshold):
        st['n'] += 1
        if st['n'] == f['at']:
            st['raised'] = True
            sim.count(f'fault:rule-{f["kind"]}')
            raise e
        return (plain or old)(args, kwargs, sparsity_threshold)

    key = name if f['name'] else flaky.flip_p
    folx.register_function(key, failing)
    xs = P.input_values(spec['prog'])
    w = folx.forward_laplacian(fn, spec['thr'], disable_jit=spec['mode'] == 'eager')
    try:
        out, exc = guarded(lambda: jax.block_until_ready(w(*xs)))
        d = f'{f} | {jobs.describe(spec)}'
        if st['raised'] and exc is None:
            sim.fail('swallowed', f'{type(e).__name__} of the rule did not reach the caller: {d}')
        elif st['raised'] and exc is not e:
            sim.fail('replaced', f'{text(exc)} instead of the failure of the rule: {d}')
        elif exc is not None and exc is not e and not jobs.refusal(exc, spec) and not (f['nest'] == 'scan' and spec['thr'] and 'sparsity mismatch' in str(exc)):
            sim.fail('error', f'{text(exc)}: {d}')
        else:
            sim.count('reached-caller' if exc is not None else 'completed')
        if st['n'] == 0 and exc is None:
            sim.fail('rule', f'the registered rule was not used: {d}')
    finally:
        if old is None:
            folx.deregister_function(key)
        else:
            folx.register_function(key, old)


def shrink(case):
    f = case['fault']
    for s in jobs.shrink(case['job']):
        yield dict(case, job=s)
    if len(f.get('us', [])) > 1:
        for u in f['us']:
            yield dict(case, fault=dict(f, us=[u]))
    for k in ('log',):
        if f.get(k):
            yield dict(case, fault={a: b for a, b in f.items() if a != k})
    if f.get('nest', 'plain') != 'plain':
        yield dict(case, fault=dict(f, nest='plain'))


_ = (np, FwdLaplArray, oracle, c07, lapl)
