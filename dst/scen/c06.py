"""C06: the rule registry is linearizable and registered rules take effect.

Keys are test primitives and named functions that multiply by B.  Rule r maps
every part y of a triple to y*B + r; so value, jacobian and laplacian of an
evaluation spell out, in base B, which rule was used for which occurrence (0:
none, i.e. the generic treatment)."""
import logging

import jax
import jax.numpy as jnp
import numpy as np
from jax.core import Primitive
from jax.interpreters import ad, batching, mlir

import folx
from folx import wrapped_functions as wf
from folx.api import FwdJacobian, FwdLaplArray

from .. import flaky, host, oracle, sched
from .. import programs as P
from ..core import Injected
from . import lapl

B = 32.0
X0 = np.array([1.0, 2.0, 5.0])
_flaky = flaky


def _prim(i):
    p = Primitive(f'dst_reg{i}')
    p.def_impl(lambda x, tag: jnp.asarray(x) * B)
    p.def_abstract_eval(lambda x, tag: x)
    mlir.register_lowering(p, mlir.lower_fun(lambda x, tag: x * B, multiple_results=False))
    ad.deflinear2(p, lambda t, x, tag: [p.bind(t, tag=tag)])
    batching.defvectorized(p)
    return p


PRIMS = [_prim(i) for i in range(3)]
NAMES = [f'dst_named{i}' for i in range(3)]
KEYS = PRIMS + NAMES


def _named(i):
    def f(x):
        return x * B

    f.__name__ = f.__qualname__ = NAMES[i]
    return f


class Rule:
    def __init__(self, r, sim, key, fail=None):
        self.r, self.sim, self.key, self.fail = r, sim, key, fail

    def __call__(self, args, kwargs, sparsity_threshold):
        if not isinstance(sparsity_threshold, int):
            self.sim.fail('rule-arguments', f'sparsity_threshold is {sparsity_threshold!r}')
        if isinstance(self.key, str) != (kwargs == {}) or kwargs not in ({}, {'tag': 7}):
            self.sim.fail('rule-arguments', f'keyword arguments {kwargs}')
        (x,) = args
        if not isinstance(x, FwdLaplArray):
            self.sim.fail('rule-arguments', f'argument of type {type(x)}')
            return x * B + self.r
        r = float(self.r)
        if self.r % 3 == 0:  # a list, as folx does for several results
            return self.out(x, r) if not isinstance(self.key, str) else [self.out(x, r)]
        return self.out(x, r)

    def out(self, x, r):
        return FwdLaplArray(x.x * B + r, FwdJacobian(x.jacobian.data * B + r, x.jacobian.x0_idx), x.laplacian * B + r)


NESTS = ['plain', 'plain', 'plain', 'jit', 'jit', 'jitjit', 'scan', 'jitscan', 'scanjit', 'fori', 'vmap']


def n_digits(ops):
    return sum({'scan': 2, 'jitscan': 2, 'scanjit': 2, 'fori': 2}.get(o['nest'], 1) for o in ops)


def apply_op(o, x):
    k = o['key']
    n = o['nest']
    if k < len(PRIMS):
        f = lambda y: PRIMS[k].bind(y, tag=7)  # noqa: E731
    else:
        f = jax.jit(_named(k - len(PRIMS)))
    if n == 'jit':
        return jax.jit(lambda y: f(y))(x)
    if n == 'jitjit':
        return jax.jit(lambda y: jax.jit(lambda z: f(z))(y))(x)
    if n == 'scan':
        return jax.lax.scan(lambda c, _: (f(c), None), x, None, length=2)[0]
    if n == 'jitscan':
        return jax.jit(lambda y: jax.lax.scan(lambda c, _: (f(c), None), y, None, length=2)[0])(x)
    if n == 'scanjit':
        return jax.lax.scan(lambda c, _: (jax.jit(lambda y: f(y))(c), None), x, None, length=2)[0]
    if n == 'fori':
        return jax.lax.fori_loop(0, 2, lambda i, c: f(c), x)
    if n == 'vmap':
        return jax.vmap(f)(x)
    return f(x)


def fn_of(ops):
    def fn(x):
        for o in ops:
            x = apply_op(o, x)
        return x

    return fn


def occurrences(ops):
    """Key of every digit; digits of one loop come from one lookup."""
    out = []
    for o in ops:
        out.append((o['key'], n_digits([o])))
    return out


def decode(out, ops):
    """The digits, or a complaint."""
    n = n_digits(ops)
    if not isinstance(out, FwdLaplArray):
        return None, f'result of type {type(out)}'
    x = np.asarray(out.x)
    d = np.asarray(out.dense_jacobian)
    la = np.asarray(out.laplacian)
    if x.shape != X0.shape or la.shape != X0.shape:
        return None, f'shapes {x.shape} {la.shape}'
    v = np.unique(np.concatenate([x - X0 * B**n, np.diagonal(d) - B**n, la]))
    if len(v) != 1:
        return None, f'value, jacobian and laplacian do not come from the same rules: {v[:4]}'
    off = np.unique(d[~np.eye(d.shape[0], d.shape[1], dtype=bool)])
    # what was added after the jacobian became dense, if it did
    if not set(off) <= {v[0] % B**m for m in range(n + 1)}:
        return None, f'off-diagonal entries of the jacobian {off[:4]} instead of {v[0]}'
    k = int(v[0])
    digs = []
    for _ in range(n):
        digs.append(k % int(B))
        k //= int(B)
    if k or v[0] != int(v[0]):
        return None, f'value {v[0]}'
    digs.reverse()
    res = []
    pos = 0
    for key, c in occurrences(ops):
        part = digs[pos:pos + c]
        pos += c
        if len(set(part)) > 1:
            return None, f'one loop used several rules {part}'
        res.append((key, part[0]))
    return res, None


# ------------------------------------------------------------------ generation
def gen_ops(rng, keys, maxd=7):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        o = {'key': rng.choice(keys), 'nest': rng.choice(NESTS)}
        if n_digits(ops + [o]) <= maxd:
            ops.append(o)
    return ops or [{'key': rng.choice(keys), 'nest': 'plain'}]


BUILTIN = ['sin', 'mul', 'add', 'sub', 'div', 'neg', 'exp', 'tanh', 'dot_general', 'reduce_sum', 'broadcast_in_dim', 'reshape', 'slice',
           'transpose', 'concatenate', 'integer_pow', 'gather', 'select_n', 'log', 'sqrt', 'abs', 'squeeze', 'logistic', 'cos', 'pow', 'reduce_prod',
           'rev', 'cumsum', 'scatter_add', 'scatter', 'dynamic_slice', 'convert_element_type', 'log1p', 'expm1', 'rsqrt', 'atan2', 'linear_solve', 'lt', 'gt', 'eq', 'ge', 'le', 'ne',
           'and', 'or', 'not', 'argmax', 'sign', 'stop_gradient', 'is_finite', 'acos', 'asin', 'atan', 'tan', 'max', 'min', 'reduce_max', 'reduce_min',
           "'softplus", "'silu", "'sigmoid", "'logaddexp", "'slogdet", "'sign"]


def gen(rng, i, tier):
    if rng.random() < 0.3:
        mode = 'eager' if rng.random() < 0.5 else 'jit'
        opts = lapl.prog_opts(rng, mode)
        opts['groups'] = {'complex': 0, 'control': rng.choice([0.3, 1.0]), 'linalg': rng.choice([0.2, 2.0]), 'corner': 0.5}
        opts['n_ops'] = rng.choice([1, 2, 3, 4])
        return {
            'kind': 'builtin', 'prog': P.generate(rng, opts), 'mode': mode, 'thr': rng.choice([0, 0, 2, 1000]),
            'keys': rng.sample(BUILTIN, rng.choice([1, 2, 4, 8, 16, len(BUILTIN)])), 'used': rng.random() < 0.7,
            'conc': rng.random() < 0.4, 'replace': rng.random() < 0.3, 'spec': sched.make_spec(rng, 3000, 2), 'u': rng.randrange(1 << 20),
        }
    n = rng.choice([1, 2, 2, 2, 3, 4])
    keys = rng.sample(range(len(KEYS)), rng.choice([1, 1, 2, 2, 3]))
    progs = [gen_ops(rng, keys) for _ in range(rng.choice([1, 2, 3]))]
    threads = []
    r = 0
    for _ in range(n):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            x = rng.random()
            if x < 0.33 and r < 30:
                r += 1
                ops.append({'op': 'reg', 'key': rng.choice(keys), 'r': r})
            elif x < 0.45:
                ops.append({'op': 'dereg', 'key': rng.choice(keys)})
            elif x < 0.53:
                ops.append({'op': 'isreg', 'key': rng.choice(keys)})
            elif x < 0.6:
                ops.append({'op': 'get', 'key': rng.choice(keys), 'wrap': rng.random() < 0.4})
            else:
                ops.append({'op': 'eval', 'prog': rng.randrange(len(progs)), 'mode': rng.choice(['eager', 'eager', 'jit']), 'thr': rng.choice([0, 0, 2, 0.6, 1000]), 'again': rng.random() < 0.2})
        t = {'ops': ops}
        if rng.random() < 0.15:
            t['intr'] = int(10 ** rng.uniform(0, 3.5))
        threads.append(t)
    init = []
    for k in keys:
        if rng.random() < 0.5 and r < 30:
            r += 1
            init.append([k, r])
    return {
        'kind': 'history', 'progs': progs, 'threads': threads, 'init': init, 'gran': rng.choice(['line', 'instr', 'instr']),
        'spec': sched.make_spec(rng, rng.choice([50, 300, 2000, 10000]), n),
    }


# ---------------------------------------------------------- linearizability
NONE = 0  # no rule


class Op:
    """kind: write v | remove ok? | read v; [inv, ret]; opt: may not have happened."""

    __slots__ = ('kind', 'v', 'inv', 'ret', 'opt', 'what')

    def __init__(self, kind, v, inv, ret, opt, what):
        self.kind, self.v, self.inv, self.ret, self.opt, self.what = kind, v, inv, ret, opt, what


def step(state, o):
    """New state or None if impossible."""
    if o.kind == 'write':
        return o.v
    if o.kind == 'remove':  # v: did it succeed (None: unknown)
        if o.v is True:
            return NONE if state != NONE else None
        if o.v is False:
            return state if state == NONE else None
        return NONE
    if o.kind == 'bool':
        return state if (state != NONE) == o.v else None
    return state if state == o.v else None


def linearizable(ops, init):
    """Wing & Gong with memoisation."""
    ops = sorted(ops, key=lambda o: o.inv)
    n = len(ops)
    seen = set()
    stack = [(0, init)]
    full = (1 << n) - 1
    need = sum(1 << i for i, o in enumerate(ops) if not o.opt)
    while stack:
        done, state = stack.pop()
        if done & need == need:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        # minimal return among what has not happened (and must happen)
        first = min((o.ret for i, o in enumerate(ops) if not done >> i & 1 and not o.opt), default=1 << 60)
        for i, o in enumerate(ops):
            if done >> i & 1 or o.inv > first:
                continue
            if o.opt and o.ret < first and False:
                continue
            s = step(state, o)
            if s is not None:
                stack.append((done | 1 << i, s))
            if o.opt:
                stack.append((done | 1 << i, state))
    return full == 0


# --------------------------------------------------------------------- running
class Notices(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.got = []

    def emit(self, r):
        self.got.append(r.getMessage())


def run(case, sim):
    flaky.arm(None)
    host.HANDLER.fail = 0
    before = dict(wf._LAPLACE_FN_REGISTRY) if hasattr(wf, '_LAPLACE_FN_REGISTRY') else None
    try:
        if case['kind'] == 'builtin':
            builtin(case, sim)
        else:
            history(case, sim)
    finally:
        for k in KEYS:
            if wf.is_registered(k):
                folx.deregister_function(k)
        if before is not None and wf._LAPLACE_FN_REGISTRY != before:
            if not sim.violations and case['kind'] == 'history':
                sim.fail('registry', 'other rules changed')
            for k, v in before.items():
                folx.register_function(k, v)


def history(case, sim):
    fixed = [(k, wf.get_laplacian(k)) for k in (jax.lax.sin_p, jax.lax.mul_p, 'silu', 'slogdet', jax.lax.dot_general_p)]
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    rules = {}
    for k in KEYS:
        if wf.is_registered(k):
            folx.deregister_function(k)
    init = {}
    for k, r in case['init']:
        rules[r] = Rule(r, sim, KEYS[k])
        folx.register_function(KEYS[k], rules[r])
        init[k] = r
    log = {k: [] for k in range(len(KEYS))}
    bad = []

    def perform(o):
        t0 = tick()
        k = o.get('key')
        what = f'{o}'
        if o['op'] == 'reg':
            rule = rules.setdefault(o['r'], Rule(o['r'], sim, KEYS[k]))
            ok = False
            try:
                folx.register_function(KEYS[k], rule)
                ok = True
            finally:
                log[k].append(Op('write', o['r'], t0, tick(), not ok, what))
        elif o['op'] == 'dereg':
            res = None
            try:
                folx.deregister_function(KEYS[k])
                res = True
            except Exception:
                res = False
            finally:
                log[k].append(Op('remove', res, t0, tick(), res is None, what))
        elif o['op'] == 'isreg':
            res = wf.is_registered(KEYS[k])
            log[k].append(Op('bool', bool(res), t0, tick(), False, what))
        elif o['op'] == 'get':
            if o['wrap'] and isinstance(KEYS[k], str):
                try:
                    res = wf.get_laplacian(KEYS[k], True)
                except TypeError:
                    res = None
            else:
                res = wf.get_laplacian(KEYS[k], o['wrap'])
            if isinstance(res, Rule):
                v = res.r
            elif res is None or (o['wrap'] and callable(res)):
                v = NONE
            else:
                bad.append(('get', f'get_laplacian returned {res!r}'))
                return
            log[k].append(Op('read', v, t0, tick(), False, what))
        else:
            ops = case['progs'][o['prog']]
            w = folx.forward_laplacian(fn_of(ops), o['thr'], disable_jit=o['mode'] == 'eager')
            for rnd in range(2 if o['again'] else 1):
                t0 = tick()
                try:
                    out = jax.block_until_ready(w(X0))
                except Exception as e:
                    if o['thr'] and 'Jacobian sparsity mismatch in scan' in str(e):
                        sim.count('refused')
                        return
                    raise
                t1 = tick()
                got, c = decode(out, ops)
                if c:
                    bad.append(('decode', f'{c}: {o} {ops}'))
                    return
                if rnd and o['mode'] == 'jit':
                    # the compiled form; or, looked up anew
                    if got != first and not all(v == NONE or True for _, v in got):
                        pass
                    if got == first:
                        continue
                first = got
                for key, v in got:
                    log[key].append(Op('read', v, t0, t1, False, f'{o} {ops}'))
                sim.event('eval', got)
                sim.count('evaluations')
                for (key, v), oo in zip(got, ops):
                    sim.sig('use', oo['nest'], key >= len(PRIMS), v != NONE, o['mode'], bool(o['thr']))

    s = sched.Scheduler(sim, case['spec'], case['gran'])
    errors = []
    for t in case['threads']:
        def body(t=t):
            for o in t['ops']:
                try:
                    perform(o)
                except sched.Abort:
                    raise
                except KeyboardInterrupt as e:
                    if '[injected]' not in str(e):
                        raise
                    sim.count('interrupted')
                except Exception as e:
                    errors.append((o, e))

        th = s.spawn(body)
        if t.get('intr'):
            th.intr = (t['intr'], KeyboardInterrupt('[injected]'))
    s.run()
    case['recorded'] = s.pre
    if sim.violations:
        return
    if errors:
        o, e = errors[0]
        sim.fail('error', f'{type(e).__name__}: {str(e)[:300]} in {o}; programs {case["progs"]}')
        return
    # the state at the end
    for k in log:
        perform({'op': 'isreg', 'key': k})
        perform({'op': 'get', 'key': k, 'wrap': False})
        perform({'op': 'eval', 'prog': 0, 'mode': 'eager', 'thr': 0, 'again': False})
    for c, d in bad:
        sim.fail(c, d)
        return
    for k, ops in log.items():
        sim.sig('history', k >= len(PRIMS), len(ops), [o.kind for o in sorted(ops, key=lambda o: o.inv)][:12])
        if not linearizable(ops, init.get(k, NONE)):
            h = '; '.join(f'[{o.inv},{o.ret}] {o.kind} {o.v}{" (interrupted)" if o.opt else ""}' for o in sorted(ops, key=lambda o: o.inv))
            sim.fail('not-linearizable', f'{KEYS[k]} initially {init.get(k, NONE)}: {h}')
            return
    for k, v in fixed:
        if wf.get_laplacian(k) is not v:
            sim.fail('registry', f'the rule of {k} changed')
            return
    # removing
    for k in KEYS:
        others = {q: wf.get_laplacian(q) for q in KEYS if q is not k}
        was = wf.is_registered(k)
        try:
            folx.deregister_function(k)
            if not was:
                sim.fail('unknown', f'removing the unknown {k} did not raise')
                return
        except Exception as e:
            if was:
                sim.fail('remove', f'{type(e).__name__}: {e}')
                return
        if wf.is_registered(k) or any(wf.get_laplacian(q) is not v for q, v in others.items()):
            sim.fail('remove', f'removing {k} left it or removed another')
            return
    sim.count('checked')


def registry_key(name):
    if name.startswith("'"):
        return name[1:]
    return getattr(jax.lax, name + '_p')


def primitives_of(jaxpr, out):
    for e in jaxpr.eqns:
        out.add(e.primitive)
        if e.primitive.name == 'pjit':
            out.add(e.params['name'])
        for v in e.params.values():
            if isinstance(v, jax.core.ClosedJaxpr):
                primitives_of(v.jaxpr, out)
    return out


def builtin(case, sim):
    prog = case['prog']
    xs = P.input_values(prog)
    refs = oracle.reference(prog, xs)
    if not oracle.finite(refs):
        sim.count('skipped')
        return
    fn = P.build(prog)
    keys = [registry_key(k) for k in case['keys']]
    if case['used']:
        # what the program uses
        used = sorted((k for k in primitives_of(jax.make_jaxpr(fn)(*xs).jaxpr, set()) if wf.is_registered(k)), key=str)
        if used:
            keys = used if case['u'] % 3 == 0 else [used[case['u'] % len(used)]]
    saved = {}
    for k in keys:
        r = wf.get_laplacian(k)
        if r is None:
            sim.fail('missing', f'no rule for {k}')
            return
        saved[k] = r

    def call():
        w = folx.forward_laplacian(P.build(prog), case['thr'], disable_jit=case['mode'] == 'eager')
        return jax.block_until_ready(w(*xs))

    d = f'{[str(k) for k in keys]} thr {case["thr"]} {case["mode"]} | {P.describe(prog)}'

    def judge(what, out, exc):
        if exc is not None:
            if oracle.is_refusal(exc, prog, bool(case['thr'])) or (case['thr'] and 'mismatch in scan' in str(exc)):
                sim.count('refused')
                return True
            sim.fail('error', f'{what}: {type(exc).__name__}: {str(exc)[:300]} | {d}')
            return False
        c = oracle.compare(oracle.outputs(out, prog), refs)
        if c:
            sim.fail('inexact', f'{what}: {c} | {d}')
            return False
        sim.event(what, lapl.result_digest(out))
        return True

    first, exc = lapl.guarded(call)
    if not judge('with all rules', first, exc):
        return
    lg = logging.getLogger('folx')
    notes = Notices()
    lg.addHandler(notes)

    def remove():
        for k in keys:
            folx.deregister_function(k)

    def restore():
        for k, r in saved.items():
            folx.register_function(k, r)

    try:
        if case['conc']:
            s = sched.Scheduler(sim, case['spec'], 'line')
            res = []
            s.spawn(lambda: res.append(lapl.guarded(call)))

            def flip():
                for _ in range(4):
                    remove()
                    [wf.is_registered(k) for k in keys]
                    restore()

            s.spawn(flip)
            s.run()
            case['recorded'] = s.pre
            if sim.violations:
                return
            if any(t.exc is not None for t in s.threads):
                sim.fail('error', f'{[repr(t.exc) for t in s.threads]} | {d}')
                return
            if not judge('while rules change', *res[0]):
                return
        remove()
        for k in keys:
            if wf.is_registered(k) or wf.get_laplacian(k) is not None:
                sim.fail('remove', f'{k} is still registered')
                return
        if case['replace']:
            # the user's own rule instead: exact, too
            for k in keys:
                if not isinstance(k, str) and not k.multiple_results and k.name in ('sin', 'mul', 'add', 'sub', 'div', 'exp', 'tanh', 'cos', 'log', 'sqrt', 'neg'):
                    folx.register_function(k, folx.wrap_forward_laplacian(k.bind, in_axes=(), name=k.name))
        notes.got.clear()
        out, exc = lapl.guarded(call)
        if not judge('without rules', out, exc):
            return
        sim.sig('builtin', sorted(map(str, keys))[:3], case['mode'], bool(case['thr']))
        if exc is None and not case['thr'] and not case['replace']:
            # every removed primitive that an operation on dependent values uses is mentioned
            w = set()
            dependent(jax.make_jaxpr(P.build(prog))(*xs).jaxpr, None, w)
            for k in keys:
                if not isinstance(k, str) and k in w and not any(k.name in m for m in notes.got):
                    sim.fail('notice', f'no notice that {k} has no rule | {d}')
                    return
            sim.count('notices', len(notes.got))
    finally:
        lg.removeHandler(notes)
        restore()
    out, exc = lapl.guarded(call)
    if not judge('restored', out, exc):
        return
    if exc is None and first is not None and lapl.result_digest(out) != lapl.result_digest(first):
        sim.fail('restored', f'another result than before | {d}')


def dependent(jaxpr, dep, out):
    """Primitives applied, at the top level or in nested jits, to values that depend on the input."""
    if dep is None:
        dep = [True] * len(jaxpr.invars)
    env = {v: d for v, d in zip(jaxpr.invars, dep)}
    for e in jaxpr.eqns:
        ds = [not isinstance(v, jax.core.Literal) and env.get(v, False) and v.aval.size > 0 for v in e.invars]
        if any(ds):
            n = e.primitive.name
            if n == 'pjit':
                if wf.is_registered(e.params['name']):
                    res = [True] * len(e.outvars)
                else:
                    res = dependent(e.params['jaxpr'].jaxpr, ds, out)
                for v, r in zip(e.outvars, res):
                    env[v] = r
                continue
            if n not in ('scan', 'custom_jvp_call'):
                out.add(e.primitive)
        for v in e.outvars:
            env[v] = any(ds) and jnp.issubdtype(v.aval.dtype, jnp.inexact) and e.primitive.name not in ('sign', 'stop_gradient')
    return [not isinstance(v, jax.core.Literal) and env.get(v, False) for v in jaxpr.outvars]


def explicit(case):
    return sched.explicit(case, run)


def shrink(case):
    if case['kind'] == 'builtin':
        for q in P.shrink_candidates(case['prog']):
            yield dict(case, prog=q)
        if not case['used'] and len(case['keys']) > 1:
            for k in range(len(case['keys'])):
                yield dict(case, keys=case['keys'][:k] + case['keys'][k + 1:])
        for f in ('conc', 'replace'):
            if case[f]:
                yield dict(case, **{f: False})
        return
    ts = case['threads']
    for k in range(len(ts)):
        if len(ts) > 1:
            yield dict(case, threads=ts[:k] + ts[k + 1:])
        for m in range(len(ts[k]['ops'])):
            yield dict(case, threads=ts[:k] + [dict(ts[k], ops=ts[k]['ops'][:m] + ts[k]['ops'][m + 1:])] + ts[k + 1:])
        if ts[k].get('intr'):
            yield dict(case, threads=ts[:k] + [{'ops': ts[k]['ops']}] + ts[k + 1:])
    for k in range(len(case['init'])):
        yield dict(case, init=case['init'][:k] + case['init'][k + 1:])
    for k, p in enumerate(case['progs']):
        if len(p) > 1:
            for m in range(len(p)):
                yield dict(case, progs=case['progs'][:k] + [p[:m] + p[m + 1:]] + case['progs'][k + 1:])
        for m, o in enumerate(p):
            if o['nest'] != 'plain':
                yield dict(case, progs=case['progs'][:k] + [p[:m] + [dict(o, nest='plain')] + p[m + 1:]] + case['progs'][k + 1:])
    for sp in sched.shrink_specs(case['spec']):
        yield dict(case, spec=sp)


_ = Injected
