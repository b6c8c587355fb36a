"""C01: dense mode, exact or the failure itself."""
from .. import oracle
from .. import programs as P
from . import lapl

shrink = lapl.shrink_case
run = lapl.run_case


def gen(rng, i, tier):
    mode = 'eager' if rng.random() < 0.25 else 'jit'
    prog = P.generate(rng, lapl.prog_opts(rng, mode, lapl.FLAKY))
    case = {'prog': prog, 'thr': 0, 'mode': mode}
    lapl.decorate(case, rng)
    r = rng.random()
    if r < 0.15:
        case['fault'] = {'src': 'user', 'kind': 'user', 'node': rng.randrange(64), 'trace': 1}
    elif r < 0.35 and (case['mode'] == 'eager' or rng.random() < 0.3):
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'oom', 'internal', 'host_oom']), 'u': rng.random(), 'len': rng.choice([1, 1, 3, 1000])}
    elif r < 0.38:
        case['fault'] = {'src': 'log', 'n': rng.choice([1, 3, 100])}
    return case
