"""C14: functions with declared structure."""

from .. import annot, device
from .. import programs as P
from . import lapl


def gen(rng, i, tier):
    mode = 'eager' if rng.random() < 0.3 else 'jit'
    override = rng.random() < 0.3
    for _ in range(12):
        groups = {g: rng.choice([0, 0.3, 1.0]) for g in P.GROUPS}
        groups.update(annot=rng.choice([2.0, 6.0]), complex=0, flaky=0, linalg=rng.choice([0, 0, 0.5]), corner=rng.choice([0, 0.3]), control=rng.choice([0, 0.5]))
        if override:
            groups.update(annot=rng.choice([0, 1.0]), scatter=rng.choice([1.0, 6.0]))
        prog = P.generate(rng, dict(lapl.prog_opts(rng, mode, lapl.FLAKY), groups=groups, n_ops=rng.choice([1, 2, 2, 3, 3, 4]), big=0.03))
        if override or annot.used(prog):
            break
    N = lapl.n_inputs(prog)
    thr = rng.choice([0, 0, 1, 2, max(1, N // 2), N, N + 1, 0.4, 0.7, 1000])
    case = {'prog': prog, 'thr': thr, 'mode': mode, 'rule': rng.choice(annot.RULE_STYLES)}
    lapl.decorate(case, rng)
    r = rng.random()
    if r < 0.12:
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal']), 'where': rng.choice(['unique', 'mask', 'const']), 'n': rng.choice([1, 2, None])}
    elif r < 0.3 and (mode == 'eager' or rng.random() < 0.4):
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'host_oom']), 'u': rng.random(), 'len': rng.choice([1, 1, 3, 1000])}
    elif r < 0.36:
        case['fault'] = {'src': 'user', 'kind': 'user', 'node': rng.randrange(64), 'trace': 1}
    elif r < 0.5:
        case['rule_fault'] = {'where': rng.choice(['rule', 'rule', 'jhj']), 'at': rng.choice([1, 1, 2, 3])}
    if override:
        names = rng.sample(sorted(annot.OVERRIDES), rng.choice([1, 3, 6]))
        case['override'] = [[n, rng.randrange(4)] for n in sorted(set(names) | {'scatter_add'})]
    if rng.random() < 0.5:
        case['swap'] = rng.choice([1, 2, 3])
    if rng.random() < 0.25:
        case['bare'] = True
    return case


def run(case, sim):
    prog = case['prog']
    annot.arm(sim)
    sim.sig('ann', annot.used(prog), case.get('override'), case['thr'] > 0, case['mode'])
    fn = lapl.make(case, lapl.UserFn(prog, sim=sim))
    xs = P.input_values(prog)
    refs = None
    try:
        with annot.registered(prog, case.get('rule')), annot.overridden(case.get('override')):
            lapl.run_case(case, sim)
            rf = case.get('rule_fault') if annot.used(prog) else None
            if sim.violations or sim.stats.get('skipped:not-finite'):
                return
            refs = lapl.references(case)
            if rf:
                annot.arm(sim, rf['at'], rf['where'])
                with device.Device(None, sim):
                    out, exc = lapl.guarded(lapl.call, case, fn, xs)
                if annot.State.fired and exc is None:
                    sim.fail('swallowed', f'the failure of a custom {rf["where"]} did not reach the caller | {lapl.describe(case)}')
                    return
                fired = annot.State.fired
                annot.arm(sim)
                if not lapl.judge(case, sim, 'rule-fault', out, exc, refs, fired):
                    return
            if rf or case.get('swap') or case.get('bare') or case.get('override'):
                if not again(case, sim, 'registered', fn, xs, refs):
                    return
        # other true declarations of the same functions, then none at all: the
        # functions are traced like any other
        if case.get('swap'):
            with annot.registered(prog, case.get('rule'), case['swap']):
                if not again(case, sim, 'redeclared', fn, xs, refs):
                    return
        if case.get('bare') or case.get('override'):
            again(case, sim, 'undeclared', fn, xs, refs)
    finally:
        annot.arm()


def again(case, sim, what, fn, xs, refs):
    with device.Device(None, sim):
        out, exc = lapl.guarded(lapl.call, case, fn, xs)
    return lapl.judge(case, sim, what, out, exc, refs)


def shrink(case):
    if case.get('override'):
        for k in range(len(case['override'])):
            yield dict(case, override=case['override'][:k] + case['override'][k + 1:])
    for k in ('swap', 'bare', 'rule_fault', 'rule'):
        if case.get(k):
            yield {a: b for a, b in case.items() if a != k}
    for c in lapl.shrink_case(case):
        if annot.used(c['prog']) or case.get('override'):
            yield c
