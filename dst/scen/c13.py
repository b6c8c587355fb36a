"""C13: a computation cut into stages with stored triples, crashes and retries."""
import io
import pickle
import random

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import folx
from folx.api import FwdJacobian, FwdLaplArray

from .. import device, oracle
from .. import programs as P
from ..core import Injected
from . import lapl

TWO = ('slogdet', 'cslogdet', 'scan')


def gen(rng, i, tier):
    mode = rng.choice(['eager', 'jit', 'jit'])
    opts = lapl.prog_opts(rng, mode)
    opts['n_ops'] = rng.choice([2, 3, 4, 5, 6]) if mode == 'jit' else rng.choice([2, 3, 4])
    prog = P.generate(rng, opts)
    n = len(prog['nodes'])
    cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 3])))) if n > 1 else []
    N = lapl.n_inputs(prog)
    stages = []
    for k in range(len(cuts) + 1):
        s = {'mode': mode if rng.random() < 0.8 else rng.choice(['eager', 'jit']), 'thr': rng.choice([0, 0, 1, 2, N, 1000]), 'store': rng.choice(['pickle', 'npz', 'object', 'copy'])}
        if mode == 'jit' and oracle.has_equality(prog):
            s['mode'] = 'eager'
        if mode == 'eager' or (stages and stages[-1]['thr'] and rng.random() < 0.85):
            s['mode'] = 'eager'
        r = rng.random()
        if r < 0.12:
            s['fault'] = {'src': 'user', 'node': rng.randrange(8), 'kind': rng.choice(['user', 'interrupt'])}
        elif r < 0.3:
            s['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'interrupt']), 'u': rng.random()}
        elif r < 0.4:
            s['fault'] = {'src': 'crash'}  # after the stage, before its result is stored
        elif r < 0.5:
            s['fault'] = {'src': 'duplicate'}
        if rng.random() < 0.5:
            # the arguments of the stage in another order, in a tree, next to plain arrays
            s['args'] = {'seed': rng.randrange(1 << 20), 'plain': rng.choice([None, 'first', 'first', 'last']), 'tree': rng.random() < 0.4}
        stages.append(s)
    case = {'prog': prog, 'cuts': cuts, 'stages': stages}
    if rng.random() < 0.2:
        case['weights'] = [round(rng.uniform(0.3, 2.0), 2) for _ in prog['inputs']]
    return case


def starts(prog):
    pos, out = len(prog['inputs']), []
    for nd in prog['nodes']:
        out.append(pos)
        pos += 2 if nd['op'] in TWO else 1
    return out + [pos]


def live_at(prog, cut):
    """Values computed before the cut that are needed after it."""
    st = starts(prog)
    need = set(prog['outs'])
    for nd in prog['nodes'][cut:]:
        need.update(r[1] for r in nd['args'] if r[0] == 'v')
    return sorted(i for i in need if i < st[cut])


def arrange(how, k, state):
    """How the state is passed to stage k; and its inverse, inside of the function."""
    order = list(range(len(state)))
    if not how:
        return state, lambda xs: xs
    random.Random(how['seed']).shuffle(order)
    plain = how['plain'] if k > 0 else None  # plain arrays of a first stage are its inputs
    args = [state[i] for i in order]
    if how['tree']:
        args = [{'state': args}]
    if plain:
        args.insert(0 if plain == 'first' else len(args), np.array([1.0, 0.5]))

    def inverse(xs):
        xs, one = list(xs), None
        if plain:
            one = xs.pop(0 if plain == 'first' else -1)[0]
        if how['tree']:
            xs = xs[0]['state']
        out = [None] * len(order)
        for i, x in zip(order, xs):
            out[i] = x if one is None or x.dtype.kind not in 'fc' else x * one.astype(x.dtype)
        return out

    return tuple(args), inverse


class Stage:
    def __init__(self, prog, a, b, ins, outs, fault=None, sim=None, inverse=lambda xs: xs):
        self.prog, self.a, self.b, self.ins, self.outs = prog, a, b, ins, outs
        self.inverse = inverse
        self.fault, self.sim, self.fired = fault, sim, []
        self.__name__ = f'stage_{a}_{b}'

    def __call__(self, *xs):
        L = P.jxlib()
        vals = dict(zip(self.ins, self.inverse(xs)))
        st = starts(self.prog)
        for k in range(self.a, self.b):
            f = self.fault
            if f and k - self.a == f['node'] % max(self.b - self.a, 1):
                self.fault = None
                e = Injected('stage failed') if f['kind'] == 'user' else KeyboardInterrupt('[injected]')
                self.fired.append(e)
                self.sim.count(f'fault:callback-{f["kind"]}')
                raise e
            nd = self.prog['nodes'][k]
            args = [vals[r[1]] if r[0] == 'v' else L.jnp.asarray(P.make_const(r[1])) for r in nd['args']]
            out = P.OPS[nd['op']].run(L.jnp, L, nd['p'], *args)
            for j, o in enumerate(out if isinstance(out, tuple) else (out,)):
                vals[st[k] + j] = o
        return tuple(vals[o] for o in self.outs)


def host(o):
    """Plain data of a result."""
    if isinstance(o, FwdLaplArray):
        j = o.jacobian
        return {'x': np.asarray(o.x), 'j': np.asarray(j.data), 'i': None if j.x0_idx is None else np.asarray(j.x0_idx), 'l': np.asarray(o.laplacian)}
    return {'a': np.asarray(o)}


def unhost(d):
    if 'a' in d:
        return d['a']
    return FwdLaplArray(jnp.asarray(d['x']), FwdJacobian(jnp.asarray(d['j']), None if d['i'] is None else np.asarray(d['i'])), jnp.asarray(d['l']))


def store(how, res):
    """Bytes that survive a crash."""
    if how == 'pickle':
        return pickle.dumps(jtu.tree_map(np.asarray, res))
    if how == 'npz':
        b = io.BytesIO()
        flat = {f'{k}_{n}': v for k, o in enumerate(res) for n, v in host(o).items() if v is not None}
        np.savez(b, n=len(res), **flat)
        return b.getvalue()
    if how == 'copy':
        return [host(o) for o in res]
    return res


def load(how, blob):
    if how == 'pickle':
        return pickle.loads(blob)
    if how == 'npz':
        z = np.load(io.BytesIO(blob))
        out = []
        for k in range(int(z['n'])):
            d = {n: z[f'{k}_{n}'] for n in ('x', 'j', 'i', 'l', 'a') if f'{k}_{n}' in z}
            if 'x' in d:
                d.setdefault('i', None)
            out.append(unhost(d))
        return tuple(out)
    if how == 'copy':
        return tuple(unhost(d) for d in blob)
    return blob


def describe(case, k=None):
    return f'cuts={case["cuts"]} stages={case["stages"] if k is None else case["stages"][k]} weights={case.get("weights")} {P.describe(case["prog"])}'


def run(case, sim):
    prog = case['prog']
    xs = P.input_values(prog)
    ref = oracle.reference(prog, xs, case.get('weights'))
    if not oracle.finite(ref):
        sim.count('skipped:not-finite')
        return
    bounds = [0, *case['cuts'], len(prog['nodes'])]
    stages = case['stages'][:len(bounds) - 1]
    ids = list(range(len(prog['inputs'])))
    state = tuple(xs)  # what survived last
    sim.sig(sorted({n['op'] for n in prog['nodes']})[:4], case['cuts'], [(s['mode'], s['thr'] > 0, s['store'], (s.get('fault') or {}).get('src')) for s in stages])
    for k, s in enumerate(stages):
        a, b = bounds[k], bounds[k + 1]
        outs = live_at(prog, b) if k < len(stages) - 1 else list(prog['outs'])
        if k > 0 and not any(isinstance(v, FwdLaplArray) for v in state):
            sim.count('skipped:nothing-depends-on-the-input')
            return
        fault = s.get('fault')

        def evaluate(what, user_fault=None, plan=None):
            args, inverse = arrange(s.get('args') if k > 0 else None, k, state)
            st = Stage(prog, a, b, ids, outs, user_fault, sim, inverse)
            kw = {'weights': tuple(case['weights'])} if k == 0 and case.get('weights') else {}
            fn = folx.forward_laplacian(st, s['thr'], disable_jit=s['mode'] == 'eager')
            with device.Device(plan, sim) as dev:
                out, exc = lapl.guarded(lambda: jax.block_until_ready(fn(*args, **kw)))
            injected = [e for _, _, e in dev.fired] + st.fired
            if exc is None and any(isinstance(e, KeyboardInterrupt) for e in injected):
                sim.fail('swallowed', f'{what} {k}: interrupt did not reach the caller | {describe(case, k)}')
                return None, True, dev
            if exc is not None and not any(exc is e for e in injected):
                thr = max(t['thr'] for t in stages)
                if oracle.is_refusal(exc, prog, thr > 0) or refusal(exc, s, state):
                    sim.count('refused')
                else:
                    sim.fail('error', f'{what} {k}: {type(exc).__name__}: {str(exc)[:300]} | {describe(case, k)}')
                return None, True, dev
            return out, False, dev

        plan = None
        if fault and fault['src'] == 'device':
            out, stop, dev = evaluate('probe')
            if stop:
                return
            plan = {'kind': fault['kind'], 'at': 1 + int(fault['u'] * max(dev.n, 1))}
        out, stop, dev = evaluate('stage', dict(fault) if fault and fault['src'] == 'user' else None, plan)
        if stop:
            return
        if out is None:
            sim.count('crash:inside-stage')
            out, stop, _ = evaluate('resumed')
            if stop or out is None:
                return
        if fault and fault['src'] == 'crash':
            sim.count('fault:crash-before-store')
            out, stop, _ = evaluate('redone')
            if stop or out is None:
                return
        if fault and fault['src'] == 'duplicate':
            sim.count('fault:stage-duplicated')
            out2, stop, _ = evaluate('duplicate')
            if stop or out2 is None:
                return
            if lapl.result_digest(out) != lapl.result_digest(out2):
                sim.fail('not-repeatable', f'stage {k} repeated gives another result | {describe(case, k)}')
                return
            out = out2 if s['thr'] else out
        if k < len(stages) - 1:
            # a crash here loses everything but the stored bytes
            blob = store(s['store'], out)
            sim.count(f'stored:{s["store"]}')
            state = load(s['store'], blob)
            ids = outs
        sim.event('stage', k, lapl.result_digest(out))
    c = oracle.compare(list(out), ref)
    if c:
        sim.fail('differs', f'{c} | {describe(case)}')
        return
    sim.count('exact')


def refusal(exc, s, state):
    """A jit sees the masks of sparse triples as traced values; sparsity patterns
    are documented to be static, so a jitted stage may refuse them (never more)."""
    sparse = any(isinstance(v, FwdLaplArray) and v.jacobian.x0_idx is not None for v in state)
    return s['mode'] == 'jit' and sparse and isinstance(exc, jax.errors.JAXTypeError)


def shrink(case):
    for k, s in enumerate(case['stages']):
        if s.get('fault'):
            yield dict(case, stages=case['stages'][:k] + [{a: b for a, b in s.items() if a != 'fault'}] + case['stages'][k + 1:])
    for k in range(len(case['cuts'])):
        yield dict(case, cuts=case['cuts'][:k] + case['cuts'][k + 1:], stages=case['stages'][:k] + case['stages'][k + 1:])
    for k, s in enumerate(case['stages']):
        for f, v in (('store', 'object'), ('thr', 0), ('mode', 'eager')):
            if s[f] != v:
                yield dict(case, stages=case['stages'][:k] + [dict(s, **{f: v})] + case['stages'][k + 1:])
    for k, s in enumerate(case['stages']):
        if s.get('args'):
            yield dict(case, stages=case['stages'][:k] + [{a: b for a, b in s.items() if a != 'args'}] + case['stages'][k + 1:])
    if case.get('weights'):
        yield {k: v for k, v in case.items() if k != 'weights'}
    for q in P.shrink_candidates(case['prog']):
        if case.get('weights') and len(q['inputs']) != len(case['prog']['inputs']):
            continue
        n = len(q['nodes'])
        cuts = sorted({min(c, n - 1) for c in case['cuts'] if min(c, n - 1) > 0})
        yield dict(case, prog=q, cuts=cuts, stages=case['stages'][:len(cuts)] + case['stages'][-1:])
