"""C08: auto_batched_vmap in every memory environment."""
import jax
import jax.tree_util as jtu
import numpy as np

import folx
from folx.experimental.memory import compute_memory
from folx.experimental.vmap import auto_batched_vmap

from .. import device, host, kernel, memstats
from ..core import Injected
from ..device import make_error
from . import c07, lapl

compare, check_chunks = c07.compare, c07.check_chunks


def gen(rng, i, tier):
    case = c07.gen_call(rng, ('int', 'tuple', 'tuple', 'list', 'nested'))
    case['n'] = rng.choice([2, 3, 5, 6, 7, 8, 12, 13, 16, 20])
    case['max'] = 1
    case['ctx'] = rng.choice(['plain', 'plain', 'jit'])
    case['frac'] = rng.choice([1.0, 1.0, 0.5, 0.9, 0.1, round(rng.uniform(0.05, 1.0), 3)])
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < 0.7:
            s = {'env': 'rows', 'rows': rng.choice([-3, 0, 0.5, 1, 1.5, 2, 2.5, 3, 4, 5.5, 7, 9, 15, 40, 1e6]), 'eps': rng.choice([0, 0, -1, 1])}
        elif r < 0.9:
            s = {'env': rng.choice(['none', 'empty', 'raise', 'partial', 'zero', 'negative', 'huge'])}
        else:
            s = {'env': 'rows', 'rows': rng.choice([1, 3, 100]), 'eps': 0}
        r = rng.random()
        if r < 0.15:
            s['fault'] = {'src': 'user', 'trace': rng.choice([1, 1, 2, 3]), 'n': rng.choice([1, 1, 2, 100]), 'kind': rng.choice(['user', 'user', 'interrupt'])}
        elif r < 0.25:
            s['fault'] = {'src': 'kernel', 'u': rng.random(), 'n': rng.choice([1, 100])}
        elif r < 0.35:
            s['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'interrupt']), 'u': rng.random()}
        steps.append(s)
    case['steps'] = steps
    return case


def costs(case, args):
    """What the estimator says for one and two rows at a time."""
    kw = {} if case['kw'] is None else {'power': case['kw']}
    out = []
    for m in (1, 2):
        f = c07.make(dict(case, max=m), c07.RowFn(case))
        # keyword arguments are Python constants of the function
        out.append(compute_memory(lambda *a: f(*a, **kw), *args))
    return out


def environment(s, case, single, pair):
    elem = pair - single
    base = single - elem
    if s['env'] == 'rows':
        lim = (base + s['rows'] * elem) / case['frac']
        return {'limit': max(0, int(np.ceil(lim)) + s['eps'])}
    return {
        'none': {'stats': None}, 'empty': {'stats': {}}, 'partial': {'stats': {'bytes_in_use': 12, 'peak_bytes_in_use': 99}},
        'raise': {'raise': RuntimeError('memory statistics unavailable [injected]')}, 'zero': {'limit': 0}, 'negative': {'limit': -1}, 'huge': {'limit': 1 << 62},
    }[s['env']]


def describe(case, s, env):
    return f'step {s} env {env} frac {case["frac"]} | {c07.describe(case)}'


def run(case, sim):
    case = dict(case)
    ref = c07.valid(case)
    if ref is None:
        sim.count('skipped:vmap-refuses')
        return
    args = c07.arg_values(case)
    n = case['n']
    try:
        single, pair = costs(case, args)
    except Exception as e:
        sim.fail('estimator', f'{type(e).__name__}: {e} | {c07.describe(case)}')
        return
    sim.event('costs', single, pair)
    elem = pair - single
    base = single - elem
    wrapped = {}
    history = []  # (target, chunk)
    for k, s in enumerate(case['steps']):
        env = environment(s, case, single, pair)
        fault = s.get('fault')
        user = c07.RowFn(case, fault if fault and fault['src'] == 'user' else None, sim)
        # the same wrapped object over all steps without user faults
        key = id(user) if fault and fault['src'] == 'user' else 'shared'
        if key not in wrapped:
            static = {}
            if case.get('static'):
                i = len(case['args'])
                static['static_argnums'] = i if k % 2 else (i,)
            fn = auto_batched_vmap(user, in_axes=c07.in_axes(case), out_axes=c07.out_axes(case), max_fraction=case['frac'], **static)
            wrapped[key] = (c07.with_static(case, fn), user)
        fn, user = wrapped[key]
        arm = {}
        if fault and fault['src'] == 'kernel':
            arm = dict(fail_row=int(fault['u'] * n), fail_n=fault['n'])
        st = kernel.arm(sim, **arm)
        plan = None
        if fault and fault['src'] == 'device':
            plan = {'kind': fault['kind'], 'at': 1 + int(fault['u'] * 12), 'len': 1}
        warned = host.HANDLER.n
        memstats.set_env(env)
        try:
            with device.Device(plan, sim) as dev:
                out, exc = lapl.guarded(c07.call, case, fn, args)
        finally:
            memstats.set_env(None)
        warned = host.HANDLER.n - warned
        sim.count(f'env:{s["env"]}')
        chunks, st.chunks = st.chunks, None
        injected = [e for _, _, e in dev.fired] + user.fired + st.fired
        hard = [e for e in injected if isinstance(e, KeyboardInterrupt)]
        chunk = max(map(len, chunks), default=0)
        sim.event('step', k, sorted(map(len, chunks)), type(exc).__name__, warned)
        sim.sig(s['env'], chunk, n, fault and fault['src'])
        where = describe(case, s, env)
        if exc is None:
            if hard:
                sim.fail('swallowed', f'interrupt did not reach the caller | {where}')
                return
            c = compare(out, ref)
            if c:
                sim.fail('wrong', f'{c} | {where}')
                return
            sim.event('digest', c07.digest(out))
            if not injected:
                # rows exactly once, in chunks that fit
                c = check_chunks(case, chunks, sim, True, n)
                if c:
                    sim.fail('wrong', f'{c} | {where}')
                    return
                sized = 'limit' in env
                if not sized:
                    if chunk != 1:
                        sim.fail('budget', f'no memory statistics, but {chunk} rows at once | {where}')
                        return
                    if not warned:
                        sim.fail('silent', f'fell back without a warning | {where}')
                        return
                    sim.count('fallback')
                else:
                    target = env['limit'] * case['frac']
                    if elem > 0:
                        slack = 1e-6 * max(abs(target), 1)
                        if chunk > 1 and base + chunk * elem > target + slack:
                            sim.fail('budget', f'{chunk} rows at once need {base + chunk * elem} of {target} bytes | {where}')
                            return
                        if chunk < n and chunk < case['n'] and base + (chunk + 1) * elem <= target - slack:
                            sim.fail('budget', f'only {chunk} rows at once, {base + (chunk + 1) * elem} of {target} bytes would be used by one more | {where}')
                            return
                    history.append((target, chunk))
                    for t, ch in history:
                        if (t < target and ch > chunk) or (t > target and ch < chunk):
                            sim.fail('budget', f'{ch} rows with {t} bytes, {chunk} rows with {target} bytes | {where}')
                            return
                    sim.count('sized')
            else:
                if not warned:
                    sim.fail('silent', f'fell back without a warning | {where}')
                    return
                sim.count('recovered')
        else:
            same = any(exc is e for e in injected) or (st.fired and (kernel.MARK in str(exc) or 'CpuCallback' in str(exc)))
            if not same:
                sim.fail('wrong-exception' if injected else 'error', f'{type(exc).__name__}: {str(exc)[:300]} | {where}')
                return
            if fault['src'] == 'user' and fault['kind'] == 'user' and fault['n'] == 1 and 'limit' in env:
                sim.fail('not-recovered', f'a failure while the batch size is determined must fall back | {where}')
                return
            sim.count('raised')


def shrink(case):
    for k in range(len(case['steps'])):
        if len(case['steps']) > 1:
            yield dict(case, steps=case['steps'][:k] + case['steps'][k + 1:])
    for k, s in enumerate(case['steps']):
        if s.get('fault'):
            t = {a: b for a, b in s.items() if a != 'fault'}
            yield dict(case, steps=case['steps'][:k] + [t] + case['steps'][k + 1:])
    if case['frac'] != 1.0:
        yield dict(case, frac=1.0)
    for c in c07.shrink(dict(case, max=1)):
        yield c
