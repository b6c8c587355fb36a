"""C15: sparsity patterns and the accessors of the triples.

Programs of operations whose sparsity folx tracks are also run on sets of input
indices; the pattern of every output has to be that one, whatever fails.  The
accessors are compared with a numpy scatter of what the triple stores."""
import functools

import jax
import jax.numpy as jnp
import numpy as np

from folx.api import FwdJacobian, FwdLaplArgs, FwdLaplArray

from .. import device, flaky, host, oracle
from .. import programs as P
from . import lapl

# One tracked argument, or indexing: the pattern has as many rows as the largest
# number of dependencies.
TIGHT = frozenset('''acos affine asin atan broadcast conj diag exp expand expm1 flip fpow gelu log
index_int log1p logistic neg perm recip reshape roll rsqrt scalar_arg sigmoid silu sin slice sqrt square squeeze
tan tanh tile to_complex transpose tril abs cexpi cos ipow take take2 concat stack where'''.split())
# Reductions have exactly the rows they need; of two elementwise arguments only one
# may be tracked, and summation counts fillings as a dependency.
SINGLE = frozenset('matmul einsum dot_highprec add sub mul div pow atan2 dynslice constcalc noise'.split())
UNIFORM = frozenset('sum mean norm logsumexp'.split())
TIGHTER = TIGHT | SINGLE | UNIFORM | {'prod'}
REDUCE = frozenset('prod matmul einsum dot_highprec'.split())
MIXING = REDUCE | frozenset('where concat tril diag stack exp flip transpose square'.split())
# Rows may also be combinations of the dependencies of several arguments.
KEEP = TIGHT | frozenset('''scan fori add atan2 constcalc div dot_highprec dynslice einsum gram hypot jitted logsumexp
matmul mean mul noise norm pairdist pow prod select_n3 sub sum'''.split())


class Dep:
    """An element is the set of inputs it depends on."""

    __slots__ = ('s',)

    def __init__(self, s):
        self.s = frozenset(s)

    def _join(self, o):
        return Dep(self.s | o.s) if isinstance(o, Dep) else self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _join
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _join

    def _same(self):
        return self

    __neg__ = __abs__ = __pos__ = _same

    def __getattr__(self, n):
        if n.startswith('_') or n in ('dtype', 'type', 'shape', 'ndim'):
            raise AttributeError(n)
        return lambda *a: functools.reduce(Dep._join, a, self)

    def __lt__(self, o):
        raise TypeError

    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        raise TypeError


class NoModel(Exception):
    pass


def model(prog):
    """The dependencies of every value, by running the program on sets."""
    vals, k = [], 0
    for s in prog['inputs']:
        n = int(np.prod(s['shape'], dtype=int))
        a = np.empty(n, object)
        for i in range(n):
            a[i] = Dep({k + i})
        k += n
        vals.append(a.reshape(tuple(s['shape'])))
    for nd in prog['nodes']:
        if nd['op'] not in KEEP:
            raise NoModel(nd['op'])
        args = [vals[r[1]] if r[0] == 'v' else P.make_const(r[1]) for r in nd['args']]
        try:
            with np.errstate(all='ignore'):
                out = P.OPS[nd['op']].run(np, P.NP, nd['p'], *args)
        except Exception as e:
            raise NoModel(nd['op']) from e
        vals.extend(np.asarray(o) for o in (out if isinstance(out, tuple) else (out,)))
    return vals


def sets(v):
    return [e.s if isinstance(e, Dep) else frozenset() for e in v.ravel()]


def largest(vals):
    return max([len(s) for v in vals for s in sets(v)] or [0])


def tight_ok(prog, vals):
    ops = {nd['op'] for nd in prog['nodes']}
    if ops & UNIFORM and any(len({len(s) for s in sets(v)}) > 1 for v in vals):
        return False
    return all(sum(r[0] == 'v' for r in nd['args']) < 2 for nd in prog['nodes'] if nd['op'] in SINGLE)


def reduces_mixed(prog, vals):
    """A reduction over elements of which some depend on nothing."""
    def mixed(r):
        if r[0] != 'v':
            return False
        n = [bool(s) for s in sets(vals[r[1]])]
        return any(n) and not all(n)

    return any(any(map(mixed, nd['args'])) for nd in prog['nodes'] if nd['op'] in REDUCE)


# ---- generation
ACCESS = ('dense', 'as_dense', 'triple', 'for', 'for_each', 'none', 'empty', 'materialize', 'add', 'astype', 'parts', 'args')


def gen(rng, i, tier):
    r = rng.random()
    mode = 'eager' if rng.random() < 0.25 else 'jit'
    if r < 0.3:
        return gen_direct(rng)
    strict = rng.random() < 0.75
    tight = strict and rng.random() < 0.5
    mixed = tight and rng.random() < 0.4
    keep = MIXING if mixed else TIGHTER if tight else KEEP if strict else frozenset(P.OPS)
    for _ in range(80 if mixed else 20):
        o = lapl.prog_opts(rng, mode)
        o['ban'] = sorted(set(o['ban']) | (set(P.OPS) - keep))
        prog = P.generate(rng, o)
        if not strict:
            break
        try:
            deps = model(prog)
        except NoModel:
            continue
        if largest(deps) and (not tight or tight_ok(prog, deps)) and (not mixed or reduces_mixed(prog, deps)):
            break
    else:
        return gen_direct(rng)
    N = lapl.n_inputs(prog)
    case = {'kind': 'program', 'prog': prog, 'mode': mode, 'strict': strict}
    if not strict:
        case['thr'] = rng.choice([1, 2, max(1, N // 2), N, N + 1, 0.6, 1000])
    else:
        case['thr'] = largest(deps) if tight else largest(deps) + N + rng.choice([0, 1, 1000])
    lapl.decorate(case, rng)
    r = rng.random()
    if r < 0.3:
        case['fault'] = {'kind': rng.choice(['oom', 'internal']), 'where': rng.choice(['unique', 'unique', 'mask', 'const']), 'n': rng.choice([1, 2, None])}
    elif r < 0.55:
        case['fault'] = {'kind': rng.choice(['oom', 'internal', 'host_oom', 'interrupt']), 'u': rng.random(), 'len': rng.choice([1, 1, 3])}
    case['access'] = gen_access(rng)
    return case


def gen_access(rng):
    return [
        {'what': rng.choice(ACCESS), 'seed': rng.randrange(1 << 20), 'ctx': rng.choice(['plain', 'plain', 'plain', 'jit']),
         'fault': None if rng.random() < 0.5 else {'kind': rng.choice(['oom', 'internal', 'host_oom', 'interrupt']), 'u': rng.random()}}
        for _ in range(rng.choice([2, 3, 4]))
    ]


def gen_direct(rng):
    """Triples as a user may make them."""
    shape = [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
    N = rng.choice([1, 2, 3, 5, 8])
    return {
        'kind': 'direct', 'N': N, 'shape': shape, 'seed': rng.randrange(1 << 20),
        'K': rng.randrange(1, N + 1), 'pattern': rng.choice(['element', 'row', 'column', 'same']),
        'fill': rng.choice([0, 0, 0.3, 1.0]), 'dense': rng.random() < 0.2, 'complex': rng.random() < 0.2,
        'repeat': rng.random() < 0.2, 'access': gen_access(rng),
    }


def direct(case):
    r = np.random.RandomState(case['seed'])
    N, K, shape = case['N'], case['K'], tuple(case['shape'])

    def arr(*s):
        a = r.normal(size=s)
        return a + 1j * r.normal(size=s) if case['complex'] else a

    x, lapl_ = arr(*shape), arr(*shape)
    if case['dense']:
        return FwdLaplArray(jnp.asarray(x), FwdJacobian(jnp.asarray(arr(N, *shape))), jnp.asarray(lapl_))
    small = {'element': shape, 'row': (1,) * len(shape[:1]) + shape[1:], 'column': shape[:1] + (1,) * len(shape[1:]), 'same': (1,) * len(shape)}[case['pattern']]
    cols = int(np.prod(small, dtype=int))
    pick = [r.randint(0, N, size=K) if case['repeat'] else r.permutation(N)[:K] for _ in range(cols)]
    idx = np.stack(pick, axis=1).reshape(K, *small)
    idx = np.where(r.uniform(size=idx.shape) < case['fill'], -1, idx)
    idx = np.array(np.broadcast_to(idx, (K, *shape)))
    data = np.where(idx < 0, 0, arr(K, *shape))
    return FwdLaplArray(jnp.asarray(x), FwdJacobian(jnp.asarray(data), idx), jnp.asarray(lapl_))


# ---- patterns
def pattern(t):
    """Per element the set of inputs, or None if dense."""
    if t.jacobian.x0_idx is None:
        return None
    m = np.asarray(t.jacobian.x0_idx)
    return [frozenset(int(q) for q in col) - {-1} for col in m.reshape(m.shape[0], -1).T]


def triples(case, out):
    """The outputs, or the rows of them under vmap."""
    outs = [o for o in lapl.flat_outputs(out)]
    if case.get('ctx') != 'vmap':
        return [outs]
    return [[jax.tree_util.tree_map(lambda a: np.asarray(a)[r], o) for o in outs] for r in range(2)]


def check_pattern(case, sim, what, out, deps):
    prog = case['prog']
    for rows in triples(case, out):
        for k, (oi, t) in enumerate(zip(prog['outs'], rows)):
            want = sets(deps[oi])
            if not isinstance(t, FwdLaplArray):
                continue  # constants; that nothing is lost is decided by the values
            got = pattern(t)
            where = f'{what}: output {k}'
            if got is None:
                sim.fail('not-sparse', f'{where} is dense, though no element depends on more than {largest(deps)} inputs and the threshold is {case["thr"]} | {lapl.describe(case)}')
                return False
            j = t.jacobian
            rows_ = j.data.shape[0]
            if np.asarray(j.x0_idx).shape != np.shape(j.data) or np.asarray(j.x0_idx).dtype.kind != 'i':
                sim.fail('pattern', f'{where}: pattern of shape {np.shape(j.x0_idx)} and type {np.asarray(j.x0_idx).dtype} for data of shape {np.shape(j.data)} | {lapl.describe(case)}')
                return False
            if rows_ > max(1, case['thr']):
                sim.fail('pattern', f'{where}: {rows_} rows at threshold {case["thr"]} | {lapl.describe(case)}')
                return False
            bad = next((e for e, (a, b) in enumerate(zip(got, want)) if a != b), None)
            if bad is not None:
                sim.fail('pattern', f'{where}: element {bad} is said to depend on {sorted(got[bad])} instead of {sorted(want[bad])} | {lapl.describe(case)}')
                return False
    return True


def same_pattern(case, sim, what, out, base):
    a, b = [[pattern(t) if isinstance(t, FwdLaplArray) else 'array' for t in lapl.flat_outputs(o)] for o in (out, base)]
    if a != b or lapl.layout(out) != lapl.layout(base):
        k = next((k for k, (p, q) in enumerate(zip(a, b)) if p != q), 0)
        sim.fail('pattern', f'{what}: output {k} has the layout {lapl.layout(out)[k]} instead of {lapl.layout(base)[k]} or other sparsity | {lapl.describe(case)}')
        return False
    return True


def run(case, sim):
    flaky.arm(None)
    host.HANDLER.fail = 0
    if case['kind'] == 'direct':
        t = direct(case)
        sim.sig('direct', case['pattern'], case['fill'] > 0, case['dense'], case['complex'], len(case['shape']))
        accessors(case, sim, [t], case['N'])
        return
    prog = case['prog']
    deps = None
    if case['strict']:
        try:
            deps = model(prog)
        except NoModel:
            sim.count('skipped:no-model')
            return
        if case['thr'] < largest(deps):
            return
    sim.sig(sorted({n['op'] for n in prog['nodes']}), case['mode'], case['strict'], case.get('ctx'), (case.get('fault') or {}).get('where'))
    refs = lapl.references(case)
    if not all(oracle.finite(r) for r in refs):
        sim.count('skipped:not-finite')
        return
    xs = P.input_values(prog)
    fn = lapl.make(case, lapl.UserFn(prog, sim=sim))
    with device.Device(None, sim) as dev:
        out, exc = lapl.guarded(lapl.call, case, fn, xs)
    sim.event('executions', dev.n)
    if not lapl.judge(case, sim, 'plain', out, exc, refs) or exc is not None:
        return
    if deps is not None and not check_pattern(case, sim, 'plain', out, deps):
        return
    f = case.get('fault')
    if f:
        plan = {k: f[k] for k in ('kind', 'where', 'len', 'n') if f.get(k) is not None}
        if 'where' not in plan:
            if not dev.n:
                return
            plan['at'] = 1 + int(f['u'] * dev.n)
        fn = lapl.make(case, lapl.UserFn(prog, sim=sim))
        with device.Device(plan, sim) as d2:
            got, exc = lapl.guarded(lapl.call, case, fn, xs)
        fired = [e for _, _, e in d2.fired]
        for k, c, _ in d2.fired:
            sim.sig('site', d2.sites[k - 1], plan['kind'], case['mode'])
        if not lapl.judge(case, sim, 'faulted', got, exc, refs, fired):
            return
        classes = {c for _, c, _ in d2.fired}
        if exc is None and classes <= {'unique', 'const'}:
            # analysed on the host, or not evaluated ahead: nothing gets denser
            if 'const' not in classes and not same_pattern(case, sim, 'faulted', got, out):
                return
    # whatever happened, the next call has the same patterns
    with device.Device(None, sim):
        again, exc = lapl.guarded(lapl.call, case, fn, xs)
    if not lapl.judge(case, sim, 'again', again, exc, refs) or exc is not None:
        return
    # a jitted function keeps what was compiled while the device was failing
    compiled = f and (case['mode'] == 'jit' or case.get('ctx') == 'outerjit') and bool(d2.fired) and got is not None
    if not compiled and not same_pattern(case, sim, 'again', again, out):
        return
    if case.get('ctx') != 'vmap':
        accessors(case, sim, [t for t in lapl.flat_outputs(out) if isinstance(t, FwdLaplArray)], lapl.n_inputs(prog))


# ---- accessors
def scatter(j, n):
    d = np.asarray(j.data)
    if j.x0_idx is None:
        out = np.zeros((n, *d.shape[1:]), d.dtype)
        out[: d.shape[0]] = d
        return out
    m = np.asarray(j.x0_idx)
    out = np.zeros((n, int(np.prod(d.shape[1:], dtype=int))), d.dtype)
    for row_d, row_m in zip(d.reshape(d.shape[0], -1), m.reshape(d.shape[0], -1)):
        for e, (v, i) in enumerate(zip(row_d, row_m)):
            if i >= 0:
                out[i, e] += v
    return out.reshape(n, *d.shape[1:])


def pad(a, n):
    a = np.asarray(a)
    return a if a.shape[0] >= n else np.concatenate([a, np.zeros((n - a.shape[0], *a.shape[1:]), a.dtype)])


def plan_access(a, t, other, n):
    """(arrays in, function of them, decides the result: None or a complaint)."""
    j = t.jacobian
    r = np.random.RandomState(a['seed'])
    mask = None if j.x0_idx is None else np.asarray(j.x0_idx)
    ref = scatter(j, n)
    shape = np.shape(t.x)
    # the same triple with a static pattern, the arrays may be traced
    re = lambda x, d, l: FwdLaplArray(x, FwdJacobian(d, mask), l)
    what = a['what']

    single = any(np.asarray(v).dtype in ('float32', 'complex64') for v in (t.x, j.data, other.jacobian.data))

    def near(got, want):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return f'shape {got.shape} instead of {want.shape}'
        if got.dtype != want.dtype:
            return f'{got.dtype} instead of {want.dtype}'
        tol = 1e-5 if single or want.dtype in ('float32', 'complex64') else 1e-12
        if not np.allclose(got, want, rtol=tol, atol=tol * (1 + np.abs(want).max(initial=0))):
            return f'{got.ravel()[:8]} instead of {want.ravel()[:8]}'
        return None

    if what == 'dense':
        return (lambda x, d, l: (re(x, d, l).dense_jacobian, re(x, d, l).jacobian.dense_array)), lambda o: near(pad(o[0], n), ref) or near(pad(o[1], n), ref)
    if what == 'none':
        return (lambda x, d, l: re(x, d, l).jacobian.construct_jac_for(None)), lambda o: near(pad(o, n), ref)
    if what == 'as_dense':
        return (lambda x, d, l: re(x, d, l).jacobian.as_dense), lambda o: 'still sparse' if o.weak else near(pad(o.data, n), ref)
    if what == 'triple':
        return (lambda x, d, l: re(x, d, l).dense), lambda o: 'still sparse' if o.is_jacobian_weak else near(o.x, t.x) or near(pad(o.jacobian.data, n), ref) or near(o.laplacian, t.laplacian)
    if what in ('for', 'for_each'):
        if mask is None:
            idx = r.permutation(np.shape(j.data)[0])[: r.randint(1, np.shape(j.data)[0] + 1)]
            want = np.asarray(j.data)[idx]
        elif what == 'for':
            idx = r.permutation(n)[: r.randint(1, n + 1)]
            want = ref[idx]
            idx = idx.reshape(-1, *(1,) * len(shape))
        else:
            k = r.randint(1, n + 1)
            idx = np.stack([r.permutation(n)[:k] for _ in range(int(np.prod(shape, dtype=int)))], 1).reshape(k, *shape)
            want = np.take_along_axis(ref, idx, 0)
        return (lambda x, d, l: re(x, d, l).jacobian.construct_jac_for(idx)), lambda o: near(o, want)
    if what == 'empty':
        return (lambda x, d, l: re(x, d, l).jacobian.construct_jac_for(np.zeros((0, *(1,) * len(shape)), int))), lambda o: near(o, np.zeros((1, *shape), ref.dtype))
    if what == 'materialize' and mask is not None:
        # where the stored entries of each output go; -1 leaves them out
        K = mask.shape[0]
        to = r.randint(-1, 3, size=(K, *shape))
        if r.uniform() < 0.5:
            to = np.array(np.broadcast_to(to.reshape(K, -1)[:, :1].reshape(K, *(1,) * len(shape)), (K, *shape)))
        want = scatter(FwdJacobian(j.data, to), 3)
        return (lambda x, d, l: re(x, d, l).jacobian.materialize_for_idx(to, 3)), lambda o: near(o, want)
    if what == 'add':
        o_ = other.jacobian
        om = None if o_.x0_idx is None else np.asarray(o_.x0_idx)
        choice = r.randint(3)
        if choice == 0:
            b = FwdJacobian(j.data * 0.5, mask)
        elif choice == 1 and np.shape(o_.data)[1:] == np.shape(j.data)[1:]:
            b = FwdJacobian(o_.data, om)
        elif mask is not None:
            b = FwdJacobian(j.data * 2, np.where(mask >= 0, (mask + 1) % n, mask))
        else:
            b = FwdJacobian(j.data * 2, None)
        want = ref + scatter(b, n)
        sparse = mask is not None and b.x0_idx is not None
        return (lambda x, d, l: _dense(re(x, d, l).jacobian + b, sparse)), lambda o: near(pad(o, n), want)
    if what == 'astype':
        cplx = ref.dtype.kind == 'c'
        dt = np.dtype('complex64' if cplx else r.choice(['float32', 'complex128' if jax.config.jax_enable_x64 else 'complex64']))
        cast = lambda v: np.asarray(v).astype(dt)
        return (lambda x, d, l: (_triple(re(x, d, l).astype(dt)), re(x, d, l).astype(bool))), lambda o: (
            near(o[0][0], cast(t.x)) or near(pad(o[0][1], n), cast(ref)) or near(o[0][2], cast(t.laplacian)) or near(o[1], np.asarray(t.x).astype(bool)))
    if what == 'parts':
        return (lambda x, d, l: [_triple(p) for p in (re(x, d, l).real, re(x, d, l).imag, re(x, d, l).conj())]), lambda o: next(
            (c for got, f in zip(o, (np.real, np.imag, np.conj)) for g, w in zip(got, (t.x, ref, t.laplacian)) for c in [near(pad(g, n) if g is got[1] else g, f(np.asarray(w)))] if c), None)
    if what == 'args':
        ts = (t, other)

        def go(x, d, l):
            args = FwdLaplArgs((re(x, d, l), other))
            return args.dense_jacobian, [p.jacobian.data for p in args.dense.arrays], (args.x, args.laplacian), args.one_hot_sparse_jacobian if args.all_jacobian_weak else ()

        def decide(o):
            for p, u in enumerate(ts):
                c = near(pad(o[0][p], n), scatter(u.jacobian, n)) or near(pad(o[1][p], n), scatter(u.jacobian, n)) or near(o[2][0][p], u.x) or near(o[2][1][p], u.laplacian)
                if c:
                    return c
            for p, row in enumerate(o[3]):
                for q, g in enumerate(row):
                    w = np.asarray(ts[q].jacobian.data)
                    c = near(g, w if p == q else np.zeros((ts[p].jacobian.data.shape[0], *w.shape[1:]), w.dtype))
                    if c:
                        return c

        return go, decide
    return (lambda x, d, l: re(x, d, l).jacobian.dense_or_sparse), lambda o: near(o, j.data)


def _dense(j, sparse):
    assert j.weak == sparse, 'sum of sparse Jacobians is dense' if sparse else 'sum is sparse'
    return j.dense_array


def _triple(t):
    return t.x, t.dense_jacobian, t.laplacian


def accessors(case, sim, ts, n):
    if not ts:
        return
    for q, a in enumerate(case.get('access') or ()):
        t, other = ts[q % len(ts)], ts[(q + 1) % len(ts)]
        if other.jacobian.x0_idx is not None:  # patterns are static
            other = other._replace(jacobian=FwdJacobian(other.jacobian.data, np.asarray(other.jacobian.x0_idx)))
        bits = lapl.result_digest([t, other])
        c = static(t, n)
        if c:
            sim.fail('accessor', f'{c} | {show(case, t)}')
            return
        go, decide = plan_access(a, t, other, n)
        if a['ctx'] == 'jit':
            go = jax.jit(go)
        args = (t.x, t.jacobian.data, t.laplacian)
        plan = None
        if a['fault']:
            with device.Device(None, sim) as dev:
                out, exc = lapl.guarded(lambda: jax.block_until_ready(go(*args)))
            if exc is None and dev.n:
                plan = {'kind': a['fault']['kind'], 'at': 1 + int(a['fault']['u'] * dev.n)}
            if a['ctx'] == 'jit':
                go.clear_cache()
        for attempt in range(2):
            with device.Device(plan, sim) as dev:
                out, exc = lapl.guarded(lambda: jax.block_until_ready(go(*args)))
            fired = [e for _, _, e in dev.fired]
            plan = None
            for k, _, _ in dev.fired:
                sim.sig('access', a['what'], dev.sites[k - 1])
            if exc is not None:
                if not any(exc is e for e in fired):
                    sim.fail('accessor', f'{a}: {type(exc).__name__}: {str(exc)[:300]} | {show(case, t)}')
                    return
                sim.event('accessor', a['what'], 'raised')
                continue
            if fired and isinstance(fired[0], KeyboardInterrupt):
                sim.fail('accessor', f'{a}: interrupt did not reach the caller | {show(case, t)}')
                return
            c = decide(out)
            if c:
                sim.fail('accessor', f'{a}: {c} | {show(case, t)}')
                return
            sim.event('accessor', a['what'], 'right')
            sim.count(f'accessor:{a["what"]}')
        sim.sig('accessor', a['what'], a['ctx'], t.jacobian.x0_idx is None)
        if lapl.result_digest([t, other]) != bits:
            sim.fail('accessor', f'{a}: changed the triple | {show(case, t)}')
            return


def static(t, n):
    """What can be told without computing."""
    j = t.jacobian
    d = np.asarray(j.data)
    if t.shape != np.shape(t.x) or t.ndim != np.ndim(t.x) or t.size != np.size(t.x) or t.dtype != t.x.dtype:
        return 'shape, ndim, size or dtype of the triple is not that of its value'
    if tuple(j.data_shape) != tuple(d.shape[1:]) or j.ndim != d.ndim:
        return f'data_shape {j.data_shape} or ndim {j.ndim} for data of shape {d.shape}'
    if t.is_jacobian_weak != (j.x0_idx is not None) or j.weak != t.is_jacobian_weak:
        return 'is_jacobian_weak is wrong'
    m = np.asarray(t.jacobian_mask)
    if j.x0_idx is not None:
        want = np.asarray(j.x0_idx)
        if np.asarray(t.sparse_jacobian).tobytes() != d.tobytes():
            return 'sparse_jacobian is not the stored data'
    else:
        want = np.broadcast_to(np.arange(d.shape[0]).reshape(-1, *(1,) * (d.ndim - 1)), d.shape)
    if not np.array_equal(m, want):
        return 'jacobian_mask is not the stored pattern'
    u = {int(i) for i in np.asarray(j.unique_idx)} - {-1}
    if u != {int(i) for i in want.ravel()} - {-1}:
        return f'unique_idx is {sorted(u)}'
    return None


def show(case, t):
    j = t.jacobian
    m = None if j.x0_idx is None else np.asarray(j.x0_idx).tolist()
    return f'data {np.shape(j.data)} pattern {str(m)[:200]}' + (f' of {lapl.describe(case)}' if case['kind'] == 'program' else '')


def shrink(case):
    acc = case.get('access') or []
    for k in range(len(acc)):
        yield dict(case, access=acc[:k] + acc[k + 1:])
    for k, a in enumerate(acc):
        if a['fault']:
            yield dict(case, access=acc[:k] + [dict(a, fault=None)] + acc[k + 1:])
        if a['ctx'] != 'plain':
            yield dict(case, access=acc[:k] + [dict(a, ctx='plain')] + acc[k + 1:])
    if case['kind'] == 'direct':
        for k in ('complex', 'fill', 'repeat'):
            if case[k]:
                yield dict(case, **{k: 0})
        for d in range(len(case['shape'])):
            yield dict(case, shape=case['shape'][:d] + case['shape'][d + 1:])
        if case['K'] > 1:
            yield dict(case, K=case['K'] - 1)
        return
    yield from lapl.shrink_case(case)
