"""C02: sparse mode, every fallback exact."""
from .. import flaky, oracle  # noqa: F401
from .. import programs as P
from . import lapl

shrink = lapl.shrink_case
run = lapl.run_case


SEVERAL = [[[3], [3]], [[2], [3]], [[2, 2], [2, 2]], [[3, 2], [2]], [[2], [2], [2]], [[4]], [[6]], [[3, 2]], [[5]], [[2, 4]], [[4], [2]]]


def boundary(rng, mode):
    """Reductions and contractions of parts of the inputs, at thresholds that they exceed."""
    groups = {'index': rng.choice([1.5, 3.0]), 'reduce': rng.choice([2.0, 4.0]), 'dot': rng.choice([1.0, 3.0]), 'binary': 0.7, 'unary': 0.7,
              'select': 0.5, 'scatter': rng.choice([0, 1.0]), 'control': rng.choice([0, 0.5]), 'corner': rng.choice([0, 0.5]), 'complex': 0, 'linalg': 0}
    return P.generate(rng, dict(lapl.prog_opts(rng, mode), groups=groups, shapes=SEVERAL, n_ops=rng.choice([1, 2, 2, 3, 4])))


def gen(rng, i, tier):
    mode = 'eager' if rng.random() < 0.2 else 'jit'
    fl = rng.random() < 0.2
    prog = P.generate(rng, lapl.prog_opts(rng, mode, () if fl else lapl.FLAKY))
    if fl:
        # favour programs in which the flaky operations feed something
        for _ in range(6):
            ops = [n['op'] for n in prog['nodes']]
            if any(o.startswith('flaky') for o in ops):
                break
            groups = {g: rng.choice([0.3, 1.0, 1.0]) for g in P.GROUPS}
            groups.update(flaky=4.0, complex=0, linalg=0)
            prog = P.generate(rng, dict(lapl.prog_opts(rng, mode, ()), groups=groups, n_ops=rng.choice([2, 3, 4, 5])))
    edge = not fl and rng.random() < 0.35
    if edge:
        prog = boundary(rng, mode)
    N = lapl.n_inputs(prog)
    thr = rng.choice([1, 1, 2, 2, 3, 0.3, max(1, N // 2)]) if edge else rng.choice([1, 2, max(1, N // 2), N, N, N + 1, rng.randrange(1, N + 2), 0.3, 0.6, 0.9, 1000])
    case = {'prog': prog, 'thr': thr, 'mode': mode}
    lapl.decorate(case, rng)
    r = rng.random()
    if fl and r < 0.8:
        k = rng.choice(['const', 'mask', 'both'])
        n = rng.choice([1, 1, 1000])
        case['fault'] = {'src': 'flaky', 'const': n if k != 'mask' else 0, 'mask': n if k != 'const' else 0}
    elif r < 0.15:
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal']), 'where': rng.choice(['unique', 'unique', 'mask', 'const']), 'n': rng.choice([1, 2, None])}
        if rng.random() < 0.4:
            case['fault']['skip'] = rng.randrange(1, 6)
    elif r < 0.35:
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'host_oom']), 'u': rng.random(), 'len': rng.choice([1, 1, 1, 3]), 'bias': rng.choice([None, 'mask', 'const', 'unique'])}
    elif r < 0.4:
        case['fault'] = {'src': 'user', 'kind': 'user', 'node': rng.randrange(64), 'trace': 1}
    if case.get('fault', {}).get('src') != 'device' and rng.random() < 0.5:
        case['also'] = 'unique'
    return case
