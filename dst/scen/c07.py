"""C07: batched_vmap is vmap, every row once, bounded chunks, failures surface."""
import functools

import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np

import folx

from .. import device, kernel
from ..core import STYLES, Injected, digest_arrays, styled
from . import lapl

DT = ['float64', 'float32', 'int32', 'complex128', 'bool']


def gen_call(rng, kinds=('int', 'tuple', 'list', 'nested')):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 20])
    m = rng.choice([1, 1, 2, 3, 4, 5, n, n + 1, max(1, n - 1), max(1, n // 2), 100])
    form = rng.choice(kinds)
    args = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        tree = rng.choice(['leaf', 'leaf', 'dict', 'tuple'])
        k = 1 if tree == 'leaf' else rng.choice([1, 2])
        leaves = []
        ax_arg = 0 if form == 'int' else rng.choice([0, 0, 0, 1, -1, None])
        for _ in range(k):
            shape = [rng.choice([1, 2, 3]) for _ in range(rng.choice([0, 1, 1, 2]))]
            ax = rng.choice([0, 0, 1, -1, None]) if form == 'nested' else ax_arg
            if ax is not None and ax > len(shape):
                ax = 0
            if ax == 1 and form != 'nested' and any(len(l['shape']) < 1 for l in leaves):
                shape = [2]
            leaves.append({'shape': shape, 'axis': ax, 'dtype': rng.choice(DT[:2] + DT) if rng.random() < 0.3 else 'float64', 'seed': rng.randrange(1 << 30)})
        if form != 'nested':
            # one axis for all leaves of an argument must be in range for each
            for l in leaves:
                if ax_arg == 1 and not l['shape']:
                    l['shape'] = [2]
                l['axis'] = ax_arg
        args.append({'tree': tree, 'leaves': leaves})
    # the row numbers are an argument too, at any position
    pos = rng.randrange(len(args) + 1)
    args.insert(pos, {'tree': 'leaf', 'leaves': [{'shape': [], 'axis': 0, 'dtype': 'rows', 'seed': 0}]})
    axis0 = None
    if form == 'int':
        axis0 = rng.choice([0, 0, 0, -1])
        if axis0 == -1:
            for a in args:
                for l in a['leaves']:
                    l['axis'] = -1
    outs = []
    out_form = rng.choice(['leaf', 'leaf', 'tuple', 'dict', 'nested'])
    for _ in range(1 if out_form == 'leaf' else rng.choice([1, 2, 3])):
        kind = rng.choice(['sum', 'leaf', 'outer', 'id'])
        outs.append({'kind': kind, 'axis': 0})
    out_axes = rng.choice(['int', 'int', 'each'])
    a = rng.choice([0, 0, -1])
    for o in outs:
        if out_axes == 'int':
            o['axis'] = a
        else:
            o['axis'] = rng.choice([0, 0, -1, 1]) if o['kind'] == 'outer' else rng.choice([0, -1])
            if rng.random() < 0.15:
                # the same for all rows
                o.update(kind='const', axis=None)
    if all(o['kind'] == 'const' for o in outs):
        outs[0] = {'kind': 'sum', 'axis': 0}
    case = {
        'n': n, 'max': m, 'form': form, 'axis0': axis0, 'args': args, 'outs': outs, 'out_form': out_form, 'out_axes': out_axes,
        'kw': rng.choice([None, None, 2, 3]), 'static': rng.choice([None, None, 'sin', 'tanh']) if form != 'int' else None, 'ctx': rng.choice(['plain', 'plain', 'jit', 'vmap', 'lapl']),
    }
    if case['ctx'] == 'lapl' and any(l['dtype'] == 'complex128' for x in args for l in x['leaves']):
        case['ctx'] = 'jit'
    return case


def gen(rng, i, tier):
    case = gen_call(rng)
    case['style'] = rng.choice(STYLES)
    if rng.random() < 0.5:
        kind = rng.choice(['kernel', 'kernel', 'user', 'device'])
        case['fault'] = {'src': kind, 'u': rng.random(), 'n': rng.choice([1, 1, 2, 100]), 'kind': rng.choice(['oom', 'internal', 'interrupt'])}
        if kind == 'user':
            case['fault'].update(trace=rng.choice([1, 1, 2]), kind=rng.choice(['user', 'interrupt']))
    return case


def leaf_value(l, n, rep=0):
    r = np.random.RandomState((l['seed'] + rep) & 0x7FFFFFFF)
    shape = list(l['shape'])
    if l['dtype'] == 'rows':
        return np.arange(n)
    ax = l['axis']
    if ax is not None:
        shape.insert(len(shape) + 1 + ax if ax < 0 else ax, n)
    v = r.normal(size=shape)
    if l['dtype'] == 'complex128':
        v = v + 1j * r.normal(size=shape)
    if l['dtype'] == 'bool':
        return v > 0
    if l['dtype'].startswith('int'):
        return (v * 3).astype(l['dtype'])
    return v.astype(l['dtype'])


def pack(a, vals):
    if a['tree'] == 'leaf':
        return vals[0]
    if a['tree'] == 'dict':
        return {f'k{i}': v for i, v in enumerate(vals)}
    return tuple(vals)


def arg_values(case, rep=0):
    return [pack(a, [leaf_value(l, case['n'], rep) for l in a['leaves']]) for a in case['args']]


def in_axes(case, static=True):
    if case['form'] == 'int':
        return case['axis0']
    if case['form'] == 'nested':
        axes = [pack(a, [l['axis'] for l in a['leaves']]) for a in case['args']]
    else:
        axes = [a['leaves'][0]['axis'] for a in case['args']]
    if case.get('static') and static:
        axes.append(None)
    return axes if case['form'] == 'list' else tuple(axes)


def out_axes(case):
    if case['out_axes'] == 'int':
        return case['outs'][0]['axis']
    return pack_out(case, [o['axis'] for o in case['outs']])


def pack_out(case, vals):
    f = case['out_form']
    if f == 'leaf':
        return vals[0]
    if f == 'tuple':
        return tuple(vals)
    if f == 'dict':
        return {f'o{i}': v for i, v in enumerate(vals)}
    return {'a': vals[0], 'b': tuple(vals[1:])}


class RowFn:
    """The user's function of one row."""

    def __init__(self, case, fault=None, sim=None):
        self.case, self.fault, self.sim = case, fault, sim
        self.traces, self.fired = 0, []
        self.__name__ = 'row_fn'

    def __call__(self, *args, power=None):
        self.traces += 1
        f = self.fault
        if f and f['trace'] <= self.traces < f['trace'] + f['n']:
            e = Injected('row function failed') if f['kind'] == 'user' else KeyboardInterrupt('[injected]')
            self.fired.append(e)
            self.sim.count(f'fault:callback-{f["kind"]}@trace{self.traces}')
            raise e
        if power is not None and not isinstance(power, int):
            raise TypeError('keyword arguments are not mapped')
        rid, acc, first = None, 0.0, None
        post = lambda z: z
        if self.case.get('static'):
            if args[-1] != self.case['static']:
                raise TypeError('static argument changed')
            post = getattr(jnp, args[-1])
        for a, x in zip(self.case['args'], args):
            for l, v in zip(a['leaves'], jtu.tree_leaves(x)):
                if l['dtype'] == 'rows':
                    rid = kernel.rows(jnp.asarray(v))
                    continue
                if tuple(np.shape(v)) != tuple(leaf_shape(l, self.case['n'])):
                    raise TypeError(f'row of shape {np.shape(v)} instead of {leaf_shape(l, self.case["n"])}')
                v = jnp.asarray(v)
                first = v if first is None else first
                y = v.astype('float64') if v.dtype.kind in 'bif' else v
                acc = acc + jnp.sum(y * jnp.cos(jnp.abs(y) * 0.7 + 0.1 * len(l['shape'])) ** (power or 1)) * (1 + 0.1 * l['axis'] if l['axis'] else 1)
        s = post(acc + 0.01 * rid)
        first = s if first is None else jnp.where(rid >= 0, first, first)
        out = []
        for k, o in enumerate(self.case['outs']):
            if o['kind'] == 'sum':
                out.append(s * (k + 1))
            elif o['kind'] == 'leaf':
                out.append(first)
            elif o['kind'] == 'const':
                out.append(jnp.arange(3.0) * (k + 1 + (power or 0)))
            elif o['kind'] == 'outer':
                out.append(jnp.stack([s, s * s, rid * 1.0]) * (k + 1))
            else:
                out.append(rid + k)
        return pack_out(self.case, out)


def leaf_shape(l, n):
    if l['axis'] is None:
        return l['shape']
    return l['shape']


def call(case, fn, args):
    kw = {} if case['kw'] is None else {'power': case['kw']}
    ctx = case['ctx']
    if ctx == 'jit':
        return jax.block_until_ready(jax.jit(lambda *a: fn(*a, **kw))(*args))
    if ctx == 'vmap':
        stacked = jtu.tree_map(lambda *x: np.stack(x), *[tuple(arg_values(case, r)) for r in range(2)])
        return jax.block_until_ready(jax.vmap(lambda *a: fn(*a, **kw))(*stacked))
    if ctx == 'lapl':
        # inside of a forward Laplacian, the arguments being constants
        def outer(z):
            r = fn(*args, **kw)
            return jtu.tree_map(lambda v: v * jnp.sum(jnp.sin(z)), r)

        out = folx.forward_laplacian(outer)(np.array([0.3, 0.4]))
        return jax.block_until_ready(out)
    return jax.block_until_ready(fn(*args, **kw))


def with_static(case, fn):
    if not case.get('static'):
        return fn
    return lambda *a, **kw: fn(*a, case['static'], **kw)


def make(case, user):
    return with_static(case, folx.batched_vmap(styled(user, case.get('style')), case['max'], in_axes=in_axes(case), out_axes=out_axes(case)))


def reference(case, args):
    """Row by row through the function's own definition."""
    kw = {} if case['kw'] is None else {'power': case['kw']}
    f = with_static(case, RowFn(case))
    axes = in_axes(case, False)
    fn = jax.vmap(lambda *a: f(*a, **kw), in_axes=tuple(axes) if case['form'] == 'list' else axes, out_axes=out_axes(case))
    return call(dict(case, kw=None), lambda *a: fn(*a), args)


def compare(out, ref):
    if jtu.tree_structure(out) != jtu.tree_structure(ref):
        return f'structure {jtu.tree_structure(out)} instead of {jtu.tree_structure(ref)}'
    for k, (a, b) in enumerate(zip(jtu.tree_leaves(out), jtu.tree_leaves(ref))):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return f'output {k}: {a.dtype}{a.shape} instead of {b.dtype}{b.shape}'
        tol = 2e-4 if a.dtype in ('float32', 'complex64') else 1e-8
        if not np.allclose(a, b, rtol=tol, atol=tol):
            return f'output {k}: {np.array2string(a.ravel()[:6], precision=5)} instead of {np.array2string(b.ravel()[:6], precision=5)}'
    return None


def check_chunks(case, chunks, sim, complete, limit=None):
    """Every row exactly once per evaluation, chunks within the limit."""
    n, m = case['n'], limit or case['max']
    reps = 2 if case['ctx'] == 'vmap' else 1
    seen = [0] * n
    for c in chunks:
        if len(c) > m * reps:
            return f'{len(c) // reps} rows in flight, limit {m}: {c}'
        for i in c:
            if not 0 <= i < n:
                return f'row {i} does not exist'
            seen[i] += 1
    want = reps
    bad = [i for i, s in enumerate(seen) if (s != want if complete else s > want)]
    if bad:
        return f'rows {bad[:5]} executed {[seen[i] for i in bad[:5]]} times instead of {want}'
    sim.sig('chunks', sorted({len(c) // reps for c in chunks}), len(chunks), n % m)
    return None


def describe(case):
    return f'n={case["n"]} max={case["max"]} in_axes={in_axes(case)} out_axes={out_axes(case)} ctx={case["ctx"]} static={case.get("static")} kw={case["kw"]} fault={case.get("fault")}'


def digest(out):
    return digest_arrays(*[a for a in jtu.tree_leaves(out)])


def valid(case):
    """vmap itself must accept the call."""
    if all(o['kind'] == 'const' for o in case['outs']):
        return None  # nothing depends on the rows
    kernel.arm(None)
    try:
        return reference(case, arg_values(case))
    except (ValueError, TypeError, IndexError):
        return None


def run(case, sim):
    ref = valid(case)
    if ref is None:
        sim.count('skipped:vmap-refuses')
        return
    args = arg_values(case)
    fault = case.get('fault')
    sim.sig(case['n'], case['max'], case['form'], case['out_form'], case['ctx'], fault and fault['src'])

    def attempt(what, user, plan=None, must=True, **arm):
        st = kernel.arm(sim, **arm)
        fn = make(case, user)
        with device.Device(plan, sim) as dev:
            out, exc = lapl.guarded(call, case, fn, args)
        chunks, st.chunks = st.chunks, None
        injected = [e for _, _, e in dev.fired] + user.fired + st.fired
        sim.event(what, sorted(map(len, chunks)), type(exc).__name__, dev.n)
        if exc is None:
            if injected:
                sim.fail('swallowed', f'{what}: {type(injected[0]).__name__} did not reach the caller | {describe(case)}')
                return None
            c = compare(out, ref) or check_chunks(case, chunks, sim, True)
            if c:
                sim.fail('wrong', f'{what}: {c} | {describe(case)}')
                return None
            sim.event('digest', digest(out))
            sim.count(f'{what}:ok')
        else:
            same = any(exc is e for e in injected) or (st.fired and (kernel.MARK in str(exc) or 'CpuCallback' in str(exc)))
            if not same:
                sim.fail('wrong-exception' if injected else 'error', f'{what}: {type(exc).__name__}: {str(exc)[:400]} | {describe(case)}')
                return None
            c = check_chunks(case, chunks, sim, False)
            if c:
                sim.fail('wrong', f'{what} (failed): {c} | {describe(case)}')
                return None
            sim.count(f'{what}:raised')
        return dev

    dev = attempt('plain', RowFn(case))
    if dev is None or fault is None:
        return
    if fault['src'] == 'kernel':
        got = attempt('faulted', RowFn(case), fail_row=int(fault['u'] * case['n']), fail_n=fault['n'])
    elif fault['src'] == 'user':
        got = attempt('faulted', RowFn(case, fault, sim))
    else:
        if not dev.n:
            return
        got = attempt('faulted', RowFn(case), {'kind': fault['kind'], 'at': 1 + int(fault['u'] * dev.n), 'len': 1})
    if got is not None:
        attempt('retry', RowFn(case))


def shrink(case):
    if case.get('fault'):
        yield {k: v for k, v in case.items() if k != 'fault'}
    if case['ctx'] != 'plain':
        yield dict(case, ctx='plain')
    if case['kw'] is not None:
        yield dict(case, kw=None)
    if case.get('static'):
        yield dict(case, static=None)
    for k in range(len(case['args'])):
        if len(case['args']) > 1 and case['args'][k]['leaves'][0]['dtype'] != 'rows':
            yield dict(case, args=case['args'][:k] + case['args'][k + 1:])
    for k in range(len(case['outs'])):
        if len(case['outs']) > 1:
            yield dict(case, outs=case['outs'][:k] + case['outs'][k + 1:])
    if case['out_form'] != 'leaf' and len(case['outs']) == 1:
        yield dict(case, out_form='leaf')
    for n in sorted({1, 2, 3, case['n'] // 2, case['n'] - 1}):
        if 0 < n < case['n']:
            yield dict(case, n=n)
    for m in (1, 2, case['max'] - 1):
        if 0 < m < case['max']:
            yield dict(case, max=m)
