"""C04: concurrent callers do not affect each other."""
from .. import device, flaky, host, jobs, kernel, memstats, sched
from ..core import Injected
from . import lapl


def gen(rng, i, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4])
    pool = [jobs.gen(rng, mode='eager' if rng.random() < 0.6 else 'jit') for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < 0.35:
        # the same computation with other settings, by other callers
        k = rng.randrange(len(pool))
        for _ in range(rng.choice([1, 2])):
            pool.append(variant(rng, pool[k]))
    callers = []
    for _ in range(n):
        c = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randrange(len(pool))
            c.append({'job': k, 'shared': jobs.eager(pool[k]) and rng.random() < 0.5})
            r = rng.random()
            if r < 0.08:
                c[-1]['shared'] = False
                c[-1]['fault'] = {'src': 'user', 'trace': 1, 'node': rng.randrange(64), 'kind': rng.choice(['user', 'interrupt'])}
        callers.append({'calls': c})
        if rng.random() < 0.15:
            # an interrupt somewhere in this caller
            callers[-1]['intr'] = int(10 ** rng.uniform(0, 4.3))
    return {
        'jobs': pool, 'callers': callers, 'gran': rng.choice(['line', 'line', 'instr']),
        'spec': sched.make_spec(rng, threads=n), 'mem': rng.choice([None, 2e3, 1e5, 1e9]),
    }


def variant(rng, j):
    """The same call in which one setting differs."""
    j = dict(j)
    if 'prog' in j:
        if j.get('thr') is not None:
            j['thr'] = rng.choice([t for t in (0, 1, 2, 3, 0.6, 1000) if t != j['thr']])
        if j['kind'] == 'lapl' and rng.random() < 0.3:
            j['weights'] = [round(rng.uniform(0.3, 2.0), 2) for _ in j['prog']['inputs']]
    else:
        j['call'] = dict(j['call'], max=j['call']['max'] + 1)
        if j['kind'] == 'auto':
            j['rows'] = rng.choice([0.5, 1, 2.5, 4, 1e6, None])
    return j


def outcome(out, exc):
    if exc is not None:
        return ('raised', type(exc).__name__, str(exc)[:200])
    return ('ok', jobs.digest(out), jobs.layout(out))


def run(case, sim):
    kernel.arm(None)
    kernel.State.chunks = None
    flaky.arm(None)
    host.HANDLER.fail = 0
    memstats.set_env({'stats': None} if case['mem'] is None else {'limit': int(case['mem'])})
    try:
        _run(case, sim)
    finally:
        memstats.set_env(None)


def _run(case, sim):
    used = sorted({c['job'] for t in case['callers'] for c in t['calls']})
    alone = {}
    shared = {}
    for k in used:
        j = jobs.Job(case['jobs'][k], sim)
        out, exc = lapl.guarded(j.call)
        alone[k] = outcome(out, exc)
        sim.event('alone', k, alone[k])
        if exc is not None and not jobs.refusal(exc, case['jobs'][k]) and j.kind not in ('bvmap', 'auto'):
            sim.fail('error', f'alone: {type(exc).__name__}: {str(exc)[:300]} | {jobs.describe(case["jobs"][k])}')
            return
        shared[k] = j if jobs.eager(case['jobs'][k]) else None
    s = sched.Scheduler(sim, case['spec'], case['gran'])
    results = []

    def caller(spec):
        mine = []
        results.append(mine)
        work = []
        for c in spec['calls']:
            f = c.get('fault')
            j = shared[c['job']] if c['shared'] and not f else jobs.Job(case['jobs'][c['job']], sim, f)
            work.append((c, j))

        def body():
            for c, j in work:
                try:
                    r = (j.call(), None)
                except sched.Abort:
                    raise
                except BaseException as e:
                    r = (None, e)
                mine.append(r)

        return body, work

    works = []
    for t in case['callers']:
        body, work = caller(t)
        works.append(work)
        th = s.spawn(body)
        if t.get('intr'):
            th.intr = (t['intr'], KeyboardInterrupt('[injected]'))
    s.run()
    case['recorded'] = s.pre
    if sim.violations:
        return
    for n, (t, mine, work) in enumerate(zip(s.threads, results, works)):
        if t.exc is not None and t.exc is not (t.intr and t.intr[1]):
            sim.fail('error', f'caller {n}: {type(t.exc).__name__}: {t.exc}')
            return
        for (c, j), (out, exc) in zip(work, mine):
            d = f'caller {n} of {len(s.threads)}, {len(s.trace)} switches | {jobs.describe(case["jobs"][c["job"]])}'
            if t.intr_fired and exc is t.intr[1]:
                sim.count('interrupted')
                continue
            if c.get('fault') and j.fired:
                if exc is not j.fired[0] and not (j.kind == 'auto' and exc is None and isinstance(j.fired[0], Injected)):
                    sim.fail('wrong-exception', f'{exc!r:.200} instead of {j.fired[0]!r} | {d}')
                    return
                sim.count('failed')
                continue
            got = outcome(out, exc)
            if got != alone[c['job']]:
                sim.fail('differs', f'{got} instead of {alone[c["job"]]} | {d}')
                return
            sim.count('same')
        if not t.intr_fired and len(mine) != len(work):
            sim.fail('lost', f'caller {n} made {len(mine)} of {len(work)} calls')
            return
    # and alone again afterwards, with the shared callables
    for k in used:
        j = shared[k] or jobs.Job(case['jobs'][k], sim)
        got = outcome(*lapl.guarded(j.call))
        if got != alone[k]:
            sim.fail('aftermath', f'{got} instead of {alone[k]} | {jobs.describe(case["jobs"][k])}')
            return
    sim.sig('mix', sorted((j['kind'], j['mode'], jobs.sparse(j)) for j in (case['jobs'][k] for k in used)))


def explicit(case):
    return sched.explicit(case, run)


def shrink(case):
    cs = case['callers']
    for k in range(len(cs)):
        if len(cs) > 1:
            yield dict(case, callers=cs[:k] + cs[k + 1:])
        for m in range(len(cs[k]['calls'])):
            if len(cs[k]['calls']) > 1:
                yield dict(case, callers=cs[:k] + [dict(cs[k], calls=cs[k]['calls'][:m] + cs[k]['calls'][m + 1:])] + cs[k + 1:])
        if cs[k].get('intr'):
            yield dict(case, callers=cs[:k] + [{'calls': cs[k]['calls']}] + cs[k + 1:])
    for sp in sched.shrink_specs(case['spec']):
        yield dict(case, spec=sp)
    for k, j in enumerate(case['jobs']):
        if any(c['job'] == k for t in cs for c in t['calls']):
            for q in jobs.shrink(j):
                yield dict(case, jobs=case['jobs'][:k] + [q] + case['jobs'][k + 1:])


_ = device
