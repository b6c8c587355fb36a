"""C03: evaluations are independent of history; failures leave no trace."""
import gc

import numpy as np

import folx
import folx.wrapped_functions as wf

from .. import device, flaky, host, jobs, kernel, memstats, oracle, sched
from .. import programs as P
from . import c07, c12, lapl


def variant(rng, spec):
    """A call that is easily mistaken for another one."""
    s = dict(spec)
    if 'prog' in s:
        r = rng.random()
        prog = dict(s['prog'], nodes=[dict(n, args=[list(a) for a in n['args']]) for n in s['prog']['nodes']])
        if r < 0.4:
            # other constants
            for n in prog['nodes']:
                n['args'] = [[a[0], dict(a[1], seed=rng.randrange(1 << 20))] if a[0] == 'c' else a for a in n['args']]
            s['prog'] = prog
        elif r < 0.6 and s['kind'] == 'lapl':
            s['thr'] = rng.choice([0, 1, 2, 0.6, 1000])
        elif r < 0.75 and s['kind'] == 'lapl':
            s['weights'] = [round(rng.uniform(0.3, 2.0), 2) for _ in prog['inputs']]
        elif r < 0.87 and s['kind'] == 'lapl' and not prog.get('dtype'):
            prog['dtype'] = 'float32'
            s['prog'] = prog
        elif s['kind'] == 'op':
            s['op'] = rng.choice(['forward', 'loop', 'parallel'])
            s['thr'] = rng.choice([0, 2, 1000]) if s['op'] == 'forward' else None
        else:
            # another program with the same inputs
            q = P.generate(rng, dict(lapl.prog_opts(rng, s['mode']), shapes=[[i['shape'] for i in prog['inputs']]], n_ops=2))
            s['prog'] = q
            if s.get('weights'):
                s.pop('weights')
    else:
        c = dict(s['call'])
        r = rng.random()
        if r < 0.4 and s['kind'] == 'bvmap':
            c['max'] = rng.choice([1, 2, 3, 5])
        elif r < 0.6:
            c['kw'] = rng.choice([None, 2, 3])
        elif r < 0.8 and c.get('static'):
            c['static'] = {'sin': 'tanh', 'tanh': 'sin'}[c['static']]
        else:
            c['n'] = rng.choice([2, 5, 7, 8])
        s['call'] = c
    return s


def gen_fallback(rng):
    """Every kind of call succeeds; some take a fallback; then all of them again."""
    mode = 'eager' if rng.random() < 0.25 else 'jit'
    for _ in range(8):
        groups = {g: rng.choice([0.3, 1.0, 1.0]) for g in P.GROUPS}
        groups.update(flaky=4.0, complex=0, linalg=0)
        prog = P.generate(rng, dict(lapl.prog_opts(rng, mode, ()), groups=groups, n_ops=rng.choice([2, 3, 4])))
        if any(n['op'].startswith('flaky') for n in prog['nodes']):
            break
    N = lapl.n_inputs(prog)
    base = {'kind': 'lapl', 'mode': mode, 'style': rng.choice(jobs.STYLES), 'prog': prog, 'thr': rng.choice([1, 2, N, 0.6, 1000])}
    pool = [base] + [variant(rng, base) for _ in range(rng.choice([0, 1]))]
    clean = lambda obj: [{'v': k, 'r': 0, 'obj': obj, 'inplace': False} for k in range(len(pool))]
    steps = clean('new')
    for _ in range(rng.choice([1, 2, 3])):
        s = {'v': rng.randrange(len(pool)), 'r': 0, 'obj': 'new', 'inplace': False}
        r = rng.random()
        if r < 0.6:
            k, n = rng.choice(['const', 'mask', 'both']), rng.choice([1, 1, 2, 1000])
            s['fault'] = {'src': 'flaky', 'const': n if k != 'mask' else 0, 'mask': n if k != 'const' else 0}
        else:
            s['fault'] = {'src': 'device', 'u': 0, 'kind': 'oom', 'where': rng.choice(['const', 'const', 'mask', 'unique']), 'n': rng.choice([1, 2, None]), 'skip': rng.choice([0, 0, 1, 2])}
        steps.append(s)
        if rng.random() < 0.3:
            steps += clean('new')
    return {'pool': pool, 'steps': steps + clean('new'), 'mem': None}


def gen(rng, i, tier):
    if rng.random() < 0.25:
        return gen_fallback(rng)
    kinds = ('lapl', 'lapl', 'lapl', 'op', 'bvmap', 'auto', 'mem')
    base = [jobs.gen(rng, kinds) for _ in range(rng.choice([1, 1, 2]))]
    pool = list(base)
    for b in base:
        for _ in range(rng.choice([1, 2, 3])):
            pool.append(variant(rng, rng.choice([b, pool[-1]])))
    steps = []
    if rng.random() < 0.4:
        # what happens without any history
        steps += [{'v': k, 'r': 0, 'obj': 'new', 'inplace': False} for k in range(len(pool))]
    for _ in range(rng.choice([3, 5, 7, 9])):
        k = rng.randrange(len(pool))
        s = {'v': k, 'r': rng.choice([0, 0, 1, 2]), 'obj': rng.choice([0, 0, 1, 'new']), 'inplace': rng.random() < 0.3}
        r = rng.random()
        if r < 0.1:
            s['fault'] = {'src': 'user', 'trace': rng.choice([1, 1, 2]), 'node': rng.randrange(64), 'kind': rng.choice(['user', 'interrupt'])}
        elif r < 0.22:
            s['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'interrupt']), 'u': rng.random()}
            if rng.random() < 0.4:
                # exactly where a fallback exists
                s['fault'].update(kind='oom', where=rng.choice(['const', 'const', 'mask', 'unique']), n=rng.choice([1, 1, 2, None]), skip=rng.choice([0, 0, 1, 2]))
        elif r < 0.37:
            s['fault'] = {'src': 'async', 'kind': rng.choice(['interrupt', 'exit']), 'at': int(10 ** rng.uniform(0, 4))}
        elif r < 0.42:
            s['fault'] = {'src': 'unique'}
        elif r < 0.47:
            s['probe'] = rng.choice(['deregister-unknown', 'rule', 'gc'])
        steps.append(s)
    # what is repeated at the end has the longest history
    steps += [{'v': k, 'r': 0, 'obj': rng.choice([0, 'new']), 'inplace': False} for k in range(len(pool))]
    return {'pool': pool, 'steps': steps, 'mem': rng.choice([None, 1e3, 1e5, 1e9])}


def values(spec, r):
    if 'prog' in spec:
        xs = P.input_values(spec['prog'])
        if spec['kind'] == 'op':
            xs = xs[:1]
        return [np.asarray(x * (1 + 0.003 * r), x.dtype) for x in xs]
    return c07.arg_values(spec['call'], r)


def leaves(args):
    import jax.tree_util as jtu

    return [a for a in jtu.tree_leaves(args) if isinstance(a, np.ndarray)]


def registry():
    return dict(wf._LAPLACE_FN_REGISTRY) if hasattr(wf, '_LAPLACE_FN_REGISTRY') else None


def run(case, sim):
    kernel.arm(None)
    kernel.State.chunks = None
    flaky.arm(None)
    host.HANDLER.fail = 0
    memstats.set_env({'stats': None} if case['mem'] is None else {'limit': int(case['mem'])})
    try:
        _run(case, sim)
    finally:
        memstats.set_env(None)


def _run(case, sim):
    pool = case['pool']
    objs, seen, held, buffers = {}, {}, [], {}
    reg = registry()
    path = []
    for n, s in enumerate(case['steps']):
        spec = pool[s['v']]
        f = s.get('fault')
        src = f and f['src']
        path.append((s['v'], s['obj'], src))
        sim.sig('history', path[-3:], spec['kind'], spec['mode'], jobs.sparse(spec))
        if s.get('probe'):
            if not probe(s['probe'], sim):
                return
        key = (s['v'], s['obj'])
        if key not in objs or s['obj'] == 'new' or src == 'user':
            job = jobs.Job(spec, sim, {k: f[k] for k in ('trace', 'node', 'kind')} if src == 'user' else None)
            if s['obj'] == 'new':
                # make its addresses available to the next one
                objs.pop(key, None)
                gc.collect(0)
            if src != 'user':
                objs[key] = job
        job = objs.get(key, None) if src != 'user' else job
        args = values(spec, s['r'])
        if s['inplace']:
            # the caller reuses its buffers
            if s['v'] in buffers:
                for a, b in zip(leaves(buffers[s['v']]), leaves(args)):
                    a[...] = b
                args = buffers[s['v']]
            else:
                buffers[s['v']] = args
        before = [a.copy() for a in leaves(args)]
        injected = []
        d = f'step {n} {s} of history {path} | {jobs.describe(spec)}'
        if src == 'device':
            if f.get('where'):
                plan = {x: f[x] for x in ('kind', 'where', 'n', 'skip')}
            else:
                plan = {'kind': f['kind'], 'at': 1 + int(f['u'] * (60 if spec['mode'] == 'eager' else 12))}
            with device.Device(plan, sim) as dev:
                out, exc = c12.guarded(job.call, None, args)
            injected = [e for _, _, e in dev.fired]
        elif src == 'flaky':
            flaky.arm(sim, f['const'], f['mask'])
            out, exc = c12.guarded(job.call, None, args)
            injected = list(flaky.State.fired)
            flaky.arm(None)
        elif src == 'unique':
            with device.Device({'kind': 'oom', 'where': 'unique', 'n': None}, sim) as dev:
                out, exc = c12.guarded(job.call, None, args)
            injected = [e for _, _, e in dev.fired]
        elif src == 'async':
            e = c12.make_exc(f['kind'])
            out, exc, _ = c12.single(lambda: job.call(None, args), sim, (f['at'], e))
            injected = [e] if c12.single.fired else []
        else:
            out, exc = c12.guarded(job.call, None, args)
            injected = list(job.user.fired) if src == 'user' else []
        for a, b in zip(leaves(args), before):
            if not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
                sim.fail('mutated', f'input changed by {d}')
                return
        if reg is not None and registry() != reg:
            now = registry()
            sim.fail('registry', f'{[str(k) for k in set(reg) ^ set(now)] or "rules replaced"} by {d}')
            return
        for m, o, dg in held:
            if jobs.digest(o) != dg:
                sim.fail('mutated', f'result of step {m} changed by {d}')
                return
        if exc is not None:
            if any(exc is e for e in injected):
                sim.count('failed')
                sim.event('step', n, 'failed', type(exc).__name__)
                continue
            got = ('raised', type(exc).__name__)
            if jobs.refusal(exc, spec):
                sim.count('refused')
            elif not (spec['kind'] in ('bvmap', 'auto') and job.refs() is None):
                sim.fail('error', f'{type(exc).__name__}: {str(exc)[:300]} (injected {[repr(e) for e in injected]}) in {d}')
                return
        else:
            got = ('ok', jobs.digest(out), jobs.layout(out))
            if any(not isinstance(e, Exception) for e in injected):
                sim.fail('swallowed', f'interrupt did not reach the caller: {d}')
                return
            if injected and (src in ('device', 'unique', 'flaky') or spec['kind'] == 'auto'):
                # a fallback was taken: exact, not necessarily the same layout
                got = None
                objs.pop(key, None)  # a jit keeps the form it was traced in
                sim.count('fallback')
        sim.event('step', n, got)
        k = (s['v'], s['r'])
        if got is None or k not in seen:
            if exc is None:
                ref = reference(spec, s['r'], job)
                if ref is None:
                    sim.count('skipped')
                else:
                    c = job.exact(out, ref)
                    if c:
                        sim.fail('inexact', f'{c} in {d}')
                        return
            if got is not None:
                seen[k] = (got, n)
                if exc is None and len(held) < 6 and not s['inplace']:  # else results may alias the caller's buffers
                    held.append((n, out, jobs.digest(out)))
        elif got != seen[k][0]:
            sim.fail('history', f'{got} instead of {seen[k][0]} as in step {seen[k][1]}: {d}')
            return
        else:
            sim.count('repeats')


def reference(spec, r, job):
    xs = values(spec, r)
    if spec['kind'] == 'lapl':
        ref = oracle.reference(spec['prog'], xs, spec.get('weights'))
        return ref if oracle.finite(ref) else None
    if spec['kind'] == 'op':
        from . import c10

        (_, J, L), = oracle.reference(spec['prog'], xs, None, c10.Fn(spec))
        return [(J, L)] if np.all(np.isfinite(J)) and np.all(np.isfinite(L)) else None
    if spec['kind'] == 'mem':
        return True
    c = spec['call']
    kernel.arm(None)
    kernel.State.chunks = None
    try:
        return c07.reference(c, xs)
    except (ValueError, TypeError, IndexError):
        return None


def probe(kind, sim):
    sim.count(f'probe:{kind}')
    if kind == 'gc':
        gc.collect()
    elif kind == 'deregister-unknown':
        try:
            folx.deregister_function('dst_no_such_function')
        except Exception:
            return True
        sim.fail('registry', 'removing an unknown rule does not raise')
        return False
    else:
        # another user's rule comes and goes
        def rule(args, kwargs, sparsity_threshold):
            raise AssertionError('rule of somebody else')

        folx.register_function('dst_other_function', rule)
        folx.deregister_function('dst_other_function')
    return True


def shrink(case):
    st = case['steps']
    for w in (len(st) // 2, len(st) // 4, 1):
        if w >= 1:
            for k in range(0, len(st), w):
                if len(st) > w:
                    yield dict(case, steps=st[:k] + st[k + w:])
    for k, s in enumerate(st):
        for f in ('fault', 'probe'):
            if s.get(f):
                yield dict(case, steps=st[:k] + [{a: b for a, b in s.items() if a != f}] + st[k + 1:])
        if s['inplace']:
            yield dict(case, steps=st[:k] + [dict(s, inplace=False)] + st[k + 1:])
    for k, p in enumerate(case['pool']):
        if any(s['v'] == k for s in st):
            for q in jobs.shrink(p):
                yield dict(case, pool=case['pool'][:k] + [q] + case['pool'][k + 1:])


_ = sched
