"""C11: values are freed at their last use, and nothing stays alive after a call."""
import gc

import jax
import jax.numpy as jnp
import numpy as np
from jax.core import Primitive
from jax.interpreters import ad, batching, mlir

import folx
from folx.api import FwdLaplArray

from .. import device, flaky, host, jobs, kernel, memstats, oracle
from .. import programs as P
from ..core import Injected
from . import c12, deep, lapl

# --------------------------------------------------------------------------
# sim_probe: identity; its rule sees the triple folx holds
# --------------------------------------------------------------------------
probe_p = Primitive('sim_probe')
_current = None


def _see(tag, *arrays):
    if _current is not None:
        _current.see(tag, arrays)


@probe_p.def_impl
def _(x, tag):
    _see(tag, x)
    return x


probe_p.def_abstract_eval(lambda x, tag: x)
mlir.register_lowering(probe_p, mlir.lower_fun(lambda x, tag: x, multiple_results=False))
ad.deflinear2(probe_p, lambda t, x, tag: [t])
batching.primitive_batchers[probe_p] = lambda args, dims, tag: (probe_p.bind(args[0], tag=tag), dims[0])


def _rule(args, kwargs, sparsity_threshold):
    (a,) = args
    if isinstance(a, FwdLaplArray):
        # a sparsity pattern may be a view of a device array
        _see(kwargs['tag'], a.x, a.jacobian.data, a.laplacian, root(a.jacobian.x0_idx))
    else:
        _see(kwargs['tag'], a)
    return a


folx.register_function(probe_p, _rule)


def root(a):
    while a is not None and not isinstance(a, jax.Array):
        a = a.obj if isinstance(a, memoryview) else getattr(a, 'base', None)
    return a


def is_array(a):
    return isinstance(a, jax.Array) and not isinstance(a, jax.core.Tracer)


class Watch:
    """Decides at every probe which arrays may be alive."""

    def __init__(self, prog, sim, need, fail=None):
        self.prog, self.sim, self.need, self.fail = prog, sim, need, fail
        self.base = None  # arrays that existed when the evaluation started
        self.refs = {}  # value -> ids and weak references of its arrays
        self.n = 0
        self.complaint = None
        self.peak = 0
        self.fired = []

    def start(self):
        """The trace is complete: what is alive now are arguments and constants."""
        gc.collect()
        self.base = {id(a): a for a in jax.live_arrays()}

    def see(self, tag, arrays):
        if self.base is None or self.complaint:
            return
        v, second = tag
        if not second:
            import weakref

            self.refs[v] = [weakref.ref(a) for a in arrays if is_array(a)]
            return
        self.n += 1
        if self.fail == self.n:
            e = Injected('probe failed')
            self.fired.append(e)
            self.sim.count('fault:operation')
            raise e
        allowed = {id(a) for a in arrays}
        for j, rs in self.refs.items():
            if j in self.need[v]:
                for r in rs:
                    a = r()
                    if a is not None:
                        allowed.add(id(a))
                    del a
        extra = self.extra(allowed)
        if extra:
            gc.collect()
            extra = self.extra(allowed)
        live = sum(1 for _ in jax.live_arrays())
        self.peak = max(self.peak, live - len(self.base))
        if extra:
            self.complaint = (v, extra)

    def extra(self, allowed):
        out = []
        for a in jax.live_arrays():
            if id(a) not in self.base and id(a) not in allowed:
                owner = next((j for j, rs in self.refs.items() if any(r() is a for r in rs)), None)
                out.append((owner, str(a.dtype), tuple(a.shape)))
        return sorted(out, key=str)


def probed(prog, nest):
    """The program with two probes at every value."""
    L = P.jxlib()
    # built once: every trace sees the very same constants
    consts = [[None if r[0] == 'v' else np.asarray(P.make_const(r[1])) for r in nd['args']] for nd in prog['nodes']]

    def body(*xs):
        vals = [first(jnp.asarray(x), i) for i, x in enumerate(xs)]
        for k, nd in enumerate(prog['nodes']):
            args = [vals[r[1]] if r[0] == 'v' else L.jnp.asarray(consts[k][i]) for i, r in enumerate(nd['args'])]
            out = P.OPS[nd['op']].run(L.jnp, L, nd['p'], *args)
            # all results of the operation first
            out = out if isinstance(out, tuple) else (out,)
            new = [first(o, len(vals) + i) for i, o in enumerate(out)]
            vals += [second(o, len(vals) + i) for i, o in enumerate(new)]
        res = tuple(vals[o] for o in prog['outs'])
        return res[0] if len(res) == 1 else res

    def first(x, v):
        x = jnp.asarray(x)
        return x if x.size == 0 else probe_p.bind(x, tag=(v, False))

    def second(x, v):
        return x if x.size == 0 else probe_p.bind(x, tag=(v, True))

    def user_body(*xs):
        return jax.jit(body)(*xs) if nest else body(*xs)

    return user_body


def outputs_of(prog):
    """Node of every value (None for inputs), by an abstract evaluation."""
    owner = [None] * len(prog['inputs'])
    fn = P.build(prog)
    counts = []
    L = P.jxlib()

    def body(*xs):
        vals = list(xs)
        for k, nd in enumerate(prog['nodes']):
            args = [vals[r[1]] if r[0] == 'v' else L.jnp.asarray(P.make_const(r[1])) for r in nd['args']]
            out = P.OPS[nd['op']].run(L.jnp, L, nd['p'], *args)
            out = out if isinstance(out, tuple) else (out,)
            counts.append(len(out))
            vals.extend(out)
        return 0

    jax.eval_shape(body, *P.input_values(prog))
    del fn
    for k, n in enumerate(counts):
        owner += [k] * n
    return owner


def needs(prog, owner):
    """value -> values that may be alive while it is probed (the second time)."""
    last = {}
    for k, nd in enumerate(prog['nodes']):
        for r in nd['args']:
            if r[0] == 'v':
                last[r[1]] = k
    n = len(owner)
    need = {}
    for v in range(n):
        ok = {v}
        for j in range(n):
            if j in prog['outs'] or owner[j] is None:
                ok.add(j)
            elif j <= v:
                # read by a later operation
                cur = -1 if owner[v] is None else owner[v]
                if last.get(j, -1) > cur:
                    ok.add(j)
            if j != v and owner[j] == owner[v]:
                ok.add(j)  # other results of the same operation, probed one after another
        need[v] = ok
    return need


FRESH = {
    'sin': lambda x: jnp.sin(x).sum(),
    'chain': lambda x: jnp.tanh(jnp.exp(-x * x) * 2 + x),
    'softmax': lambda x: x - jax.nn.logsumexp(x),
    'matmul': lambda x: jnp.tanh(jnp.outer(x, jnp.arange(3.0)) @ jnp.ones((3, 2))),
    'dot': lambda x: jnp.dot(x, jnp.sin(x)),
    'slices': lambda x: jnp.cos(x[1:] * x[:-1]),
    'pairs': lambda x: jnp.sum((x[:, None] - x[None]) ** 2, -1),
    'reverse': lambda x: x[::-1] * x + jnp.concatenate([x[:2], x[2:]]),
    'cumsum': lambda x: jnp.cumsum(x) * x[0],
    'prod': lambda x: jnp.prod(x * 0.1 + 1),
    'sort': lambda x: jnp.sort(x) ** 2,
    'max': lambda x: jnp.max(x) * jnp.abs(x),
    'gather': lambda x: x[jnp.array([0, 2, 1])] ** 3,
    'where': lambda x: jnp.where(jnp.arange(x.size) % 2 == 0, x, x * x),
    'jit': lambda x: jax.jit(lambda y: jnp.sin(y) * y.sum())(x),
    'scan': lambda x: jax.lax.scan(lambda c, y: (c * y + jnp.sin(c), None), x, jnp.arange(3.0))[0],
    'norm': lambda x: jnp.linalg.norm(x.reshape(-1, 2), axis=-1) if x.size % 2 == 0 else jnp.sqrt((x * x).sum()),
    'dus': lambda x: jax.lax.dynamic_update_slice(x, x[:2] * x[1], (1,)),
}


def gen_fresh(rng):
    """Many calls, every one of them with inputs of a size that was not seen before."""
    return {
        'kind': 'fresh', 'fn': rng.choice(sorted(FRESH)), 'thr': rng.choice([0, 0, 0, 2, 6, 1000]), 'mode': rng.choice(['eager', 'eager', 'eager', 'jit']),
        'sizes': rng.sample(range(4, 60), 5), 'api': rng.choice(['lapl', 'lapl', 'lapl', 'operator', 'bvmap', 'mem']),
        'same': rng.random() < 0.5, 'fault': [rng.random(), rng.choice(['oom', 'interrupt'])] if rng.random() < 0.3 else None,
    }


def run_fresh(case, sim):
    fn = FRESH[case['fn']]

    def make():
        user = lambda x: fn(x)
        if case['api'] == 'operator':
            scalar = lambda x: sum(jnp.sum(o) for o in jax.tree_util.tree_leaves(fn(x)))
            w = folx.ForwardLaplacianOperator(case['thr'])(scalar)
        elif case['api'] == 'bvmap':
            w = folx.batched_vmap(user, 2)
        elif case['api'] == 'mem':
            from folx.experimental.memory import compute_memory

            w = lambda x: compute_memory(user, x)
        else:
            w = folx.forward_laplacian(user, case['thr'], disable_jit=case['mode'] == 'eager')
        return jax.jit(w) if case['mode'] == 'jit' and case['api'] != 'mem' else w

    shared = make()

    def call(n, fault=None):
        x = np.linspace(0.3, 1.7, n)
        if case['api'] == 'bvmap':
            x = np.stack([x, x + 0.5, x - 0.25])
        # a compiled function keeps the constants of each of its compiled forms
        w = shared if case['same'] and case['mode'] == 'eager' and case['api'] != 'operator' else make()
        with device.Device({'kind': fault[1], 'at': 1 + int(fault[0] * 30)} if fault else None, sim) as dev:
            out, exc = lapl.guarded(lambda: jax.block_until_ready(w(x)))
        fired = bool(dev.fired)
        dev.fired.clear()
        if exc is not None and not fired:
            return f'{type(exc).__name__}: {str(exc)[:200]}'
        if exc is not None:
            exc.__traceback__ = None
        return None

    sim.sig('fresh', case['fn'], case['api'], case['mode'], bool(case['thr']), bool(case['fault']))
    sizes = case['sizes']
    before = None
    for k, n in enumerate(sizes):
        if k == 2:
            gc.collect()
            before = {id(a): a for a in jax.live_arrays()}
        c = call(n, case['fault'] if k >= 2 else None)
        if c:
            sim.fail('error', f'{c} | {case}')
            return
    left = leftover(before)
    sim.count('fresh:calls', len(sizes))
    if len(left) >= len(sizes) - 2:
        sim.fail('leak', f'{len(left)} arrays are alive after {len(sizes) - 2} calls of different input sizes: {left[:6]} | {case}')


def gen(rng, i, tier):
    if rng.random() < 0.06:
        return gen_fresh(rng)
    if rng.random() < 0.25:
        return deep.gen(rng, i, tier)
    if rng.random() < 0.45:
        groups = {'flaky': 0}
        opts = {'ban': list(lapl.FLAKY), 'n_ops': rng.choice([2, 3, 4, 5, 6, 8]), 'groups': groups}
        prog = P.generate(rng, opts)
        if rng.random() < 0.5 and len(prog['outs']) > 1:
            prog['outs'] = prog['outs'][-1:]
        N = lapl.n_inputs(prog)
        case = {'kind': 'life', 'prog': prog, 'thr': rng.choice([0, 0, 0, 2, N, 1000]), 'nest': rng.random() < 0.4}
        r = rng.random()
        if r < 0.2:
            case['fail'] = rng.randrange(1, 1 + len(prog['inputs']) + len(prog['nodes']))
        return case
    src = rng.choice(['none', 'user', 'user', 'device', 'device', 'async', 'async'])
    mode = rng.choice(['eager', 'eager', 'jit'])
    job = jobs.gen(rng, ('lapl', 'lapl', 'lapl', 'op', 'bvmap', 'auto', 'mem'), mode)
    f = {'src': src, 'kind': 'none', 'us': [rng.random() for _ in range(rng.choice([2, 3]))]}
    if src == 'user':
        f.update(kind=rng.choice(['user', 'interrupt', 'odd']), trace=rng.choice([1, 1, 2]))
    elif src == 'device':
        f.update(kind=rng.choice(['oom', 'internal', 'host_oom', 'interrupt', 'exit']))
    elif src == 'async':
        f.update(kind=rng.choice(c12.HARD))
    return {'kind': 'leak', 'job': job, 'fault': f, 'same': rng.random() < 0.5}


def run(case, sim):
    global _current
    flaky.arm(None)
    kernel.arm(None)
    kernel.State.chunks = None
    host.HANDLER.fail = 0
    try:
        {'life': run_life, 'leak': run_leak, 'fresh': run_fresh, 'deep': deep.run}[case['kind']](case, sim)
    finally:
        _current = None
        memstats.set_env(None)


# --------------------------------------------------------------------------
# lifetimes within one evaluation
# --------------------------------------------------------------------------
def run_life(case, sim):
    global _current
    prog = case['prog']
    owner = outputs_of(prog)
    watch = Watch(prog, sim, needs(prog, owner), case.get('fail'))
    inner = probed(prog, case['nest'])

    def user(*xs):
        out = inner(*xs)
        if watch.base is None:
            started.append(1)
        return out

    started = []
    ref = oracle.reference(prog)
    if not oracle.finite(ref):
        sim.count('skipped')
        return
    xs = P.input_values(prog)
    # warm: compile everything and fill the caches of jax
    w = folx.forward_laplacian(user, case['thr'], disable_jit=True)
    out, exc = lapl.guarded(lambda: jax.block_until_ready(w(*xs)))
    sim.sig('life', sorted({n['op'] for n in prog['nodes']}), bool(case['thr']), case['nest'])
    if exc is not None:
        if oracle.is_refusal(exc, prog, case['thr'] > 0):
            sim.count('refused')
        else:
            sim.fail('error', f'{type(exc).__name__}: {str(exc)[:300]} | {describe(case)}')
        return
    c = oracle.compare(oracle.outputs(out, prog), ref)
    if c:
        sim.fail('inexact', f'{c} | {describe(case)}')
        return
    del out, exc
    gc.collect()
    before = {id(a): a for a in jax.live_arrays()}
    traced = [0]

    def user2(*xs):
        out = inner(*xs)
        traced[0] += 1
        if traced[0] == 1:
            watch.start()
        return out

    w = folx.forward_laplacian(user2, case['thr'], disable_jit=True)
    _current = watch
    out, exc = lapl.guarded(lambda: jax.block_until_ready(w(*xs)))
    _current = None
    sim.event('probes', watch.n, 'peak', watch.peak)
    if watch.complaint:
        v, extra = watch.complaint
        node = owner[v]
        sim.fail(
            'held',
            f'after value {v} (operation {node}: {"input" if node is None else prog["nodes"][node]["op"]}) arrays that nothing reads any more are alive '
            f'(value they belong to, dtype, shape): {extra[:6]} | {describe(case)}',
        )
        return
    if exc is not None and not any(exc is e for e in watch.fired):
        sim.fail('error', f'{type(exc).__name__}: {str(exc)[:300]} | {describe(case)}')
        return
    sim.count('life:failed' if exc is not None else 'life:complete')
    sim.count('probes', watch.n)
    watch.base = None
    del out, exc
    watch.fired.clear()
    left = leftover(before)
    if left:
        sim.fail('leak', f'{left[:6]} are alive after the call | {describe(case)}')


def leftover(before):
    for _ in range(2):
        gc.collect()
        left = [a for a in jax.live_arrays() if id(a) not in before]
        if not left:
            return []
    return sorted(f'{a.dtype}{list(a.shape)}' for a in left)


# --------------------------------------------------------------------------
# nothing stays alive after a call
# --------------------------------------------------------------------------
def attempt(case, sim, job, u, n, n_dev):
    """One call under its fault; returns what happened, holding nothing."""
    f = case['fault']
    src = f['src']
    if src == 'async':
        out, exc, _ = c12.single(job.call, sim, (1 + int(u * n), c12.make_exc(f['kind'])))
        fired = c12.single.fired
    elif src == 'device':
        with device.Device({'kind': f['kind'], 'at': 1 + int(u * max(n_dev, 1))}, sim) as dev:
            out, exc = lapl.guarded(job.call)
        fired = bool(dev.fired)
        dev.fired.clear()
    else:
        out, exc = lapl.guarded(job.call)
        fired = exc is not None
    if exc is None:
        return 'returned', fired
    kind = type(exc).__name__
    text = str(exc)
    # the caller drops the exception
    exc.__traceback__ = None
    return kind, fired, text[:200]


def run_leak(case, sim):
    spec, f = case['job'], case['fault']
    src = f['src']
    c12.set_env(spec)

    def new():
        wrap = None
        if src == 'user':
            wrap = lambda u: c12.RaisingFn(u, c12.make_exc(f['kind']), f['trace'], sim)
        return jobs.Job(spec, sim, wrap=wrap)

    # fault free, twice: caches of jax are filled, compiled constants exist
    for _ in range(2):
        job = jobs.Job(spec, sim)
        n = n_dev = 0
        if src == 'async':
            out, exc, n = c12.single(job.call, sim, None)
        else:
            with device.Device(None, sim) as d0:
                out, exc = lapl.guarded(job.call)
            n_dev = d0.n
        if exc is not None:
            sim.count('refused' if jobs.refusal(exc, spec) else 'skipped')
            return
        del out, exc, job
    sim.sig('leak', spec['kind'], spec['mode'], jobs.sparse(spec), src, f['kind'])
    gc.collect()
    before = {id(a): a for a in jax.live_arrays()}
    held = jobs.Job(spec, sim) if case['same'] and src != 'user' else None
    for u in f['us']:
        job = held or new()
        what = attempt(case, sim, job, u, n, n_dev)
        del job
        sim.count('leak:' + ('faulted' if what[0] != 'returned' else 'returned'))
        sim.event('call', *what[:2])
        if held is None:
            left = leftover(before)
            if left:
                sim.fail('leak', f'{left[:6]} are alive after a call ({what}) | {f} {jobs.describe(spec)}')
                return
    if held is not None:
        # what a wrapped function keeps for itself must not grow with the calls
        first = len(leftover(before))
        for u in f['us']:
            attempt(case, sim, held, u, n, n_dev)
        second = len(leftover(before))
        if second > first:
            sim.fail('leak', f'{second - first} more arrays are alive after {len(f["us"])} more calls of the same function | {f} {jobs.describe(spec)}')
            return
        del held
        left = leftover(before)
        if left:
            sim.fail('leak', f'{left[:6]} are alive after the function was dropped | {f} {jobs.describe(spec)}')


def describe(case):
    extra = {k: v for k, v in case.items() if k not in ('prog', 'job', 'kind')}
    return f'{P.describe(case["prog"])} {extra}'


def shrink(case):
    if case['kind'] == 'life':
        if case.get('fail'):
            yield {k: v for k, v in case.items() if k != 'fail'}
        for q in P.shrink_candidates(case['prog']):
            yield dict(case, prog=q)
        if case['nest']:
            yield dict(case, nest=False)
        return
    if case['kind'] == 'deep':
        yield from deep.shrink(case)
        return
    if case['kind'] == 'fresh':
        for k, v in (('fault', None), ('thr', 0), ('mode', 'eager'), ('fn', 'sin'), ('api', 'lapl')):
            if case[k] != v:
                yield dict(case, **{k: v})
        if len(case['sizes']) > 4:
            yield dict(case, sizes=case['sizes'][:-1])
        return
    f = case['fault']
    for s in jobs.shrink(case['job']):
        yield dict(case, job=s)
    if len(f['us']) > 1:
        for u in f['us']:
            yield dict(case, fault=dict(f, us=[u]))
    if f['src'] != 'none':
        yield dict(case, fault={'src': 'none', 'kind': 'none', 'us': f['us']})
