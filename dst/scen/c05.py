"""C05: the host process is left alone, and log records arrive once and labelled."""
import io
import logging
import re
import sys

import jax
import jax.numpy as jnp
import numpy as np
from jax.core import Primitive
from jax.interpreters import ad, batching, mlir

import folx

from .. import device, env, flaky, host, hoststate, jobs, kernel, memstats, sched
from ..core import Injected
from . import c12, lapl


# ------------------------------------------------------------ user operations
class Eager:
    fail = set()


def _mk(i):
    """An operation folx has no rule for."""
    p = Primitive(f'dst_op{i}')

    def f(x):
        return jnp.sin(x) * (1 + 0.1 * i) + x

    def impl(x):
        if p.name in Eager.fail:
            raise Injected(f'{p.name} failed')
        return f(x)

    p.def_impl(impl)
    p.def_abstract_eval(lambda x: x)
    mlir.register_lowering(p, mlir.lower_fun(f, multiple_results=False))
    ad.primitive_jvps[p] = lambda pr, tn: jax.jvp(f, pr, tuple(map(ad.instantiate_zeros, tn)))
    batching.defvectorized(p)
    return p


OPS = [_mk(i) for i in range(18)]


def source(spec, tid):
    """The user's file: one operation per line."""
    lines = [f'def work_{tid}(x):']
    var = 'x'
    where = {}

    def add(s):
        lines.append('    ' + s)
        return len(lines)

    n = 0
    for k, st in enumerate(spec['lines']):
        kind, op = st['kind'], st.get('op', 0)
        if kind == 'op':
            where.setdefault(f'dst_op{op}', []).append(add(f'{var} = OPS[{op}].bind({var})'))
        elif kind == 'plain':
            add(f'{var} = jnp.tanh({var}) * 1.5')
        elif kind == 'const':
            where.setdefault(f'dst_op{op}', []).append(add(f'c{k} = OPS[{op}].bind(np.ones(()) * 0.5)'))
            add(f'{var} = {var} * c{k}')
        elif kind == 'jit':
            add(f'def inner{k}(y):')
            where.setdefault(f'dst_op{op}', []).append(add(f'    return OPS[{op}].bind(y) * 2'))
            add(f'{var} = jax.jit(inner{k})({var})')
        elif kind == 'scan':
            add(f'def body{k}(c, _):')
            where.setdefault(f'dst_op{op}', []).append(add(f'    return OPS[{op}].bind(c), None'))
            add(f'{var} = jax.lax.scan(body{k}, {var}, None, length=2)[0]')
        elif kind == 'log':
            add('HOSTLOG()')
        n += 1
    add(f'return {var}')
    return '\n'.join(lines), where


def gen(rng, i, tier):
    callers = []
    for tid in range(rng.choice([1, 1, 2, 2, 3])):
        if rng.random() < 0.6:
            ls = []
            ids = rng.sample(range(6 * tid, 6 * tid + 6), 6)
            for k in range(rng.choice([1, 2, 3, 4])):
                ls.append({'kind': rng.choice(['op', 'op', 'plain', 'const', 'jit', 'scan', 'log']), 'op': ids.pop()})
            c = {'lines': ls, 'thr': rng.choice([0, 0, 2, 1000]), 'mode': rng.choice(['eager', 'jit'])}
            ops = [l['op'] for l in ls if l['kind'] in ('op', 'jit', 'scan')]
            r = rng.random()
            if ops and r < 0.35:
                c['again'] = rng.random() < 0.4
                c['rule'] = {'op': rng.choice(ops), 'fail': rng.random() < 0.7, 'log': rng.random() < 0.5, 'kind': rng.choice(['user', 'value', 'interrupt'])}
            elif r < 0.6:
                cs = [l['op'] for l in ls if l['kind'] == 'const']
                if cs:
                    c['eager_fail'] = rng.choice(cs)
                    c['mode'] = 'jit'
                    c['thr'] = 1000
        else:
            c = {'job': jobs.gen(rng)}
        if rng.random() < 0.2:
            c['intr'] = int(10 ** rng.uniform(0, 4))
        callers.append(c)
    hosts = [{'n': rng.choice([2, 4, 8])} for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    n = len(callers) + len(hosts)
    fault = None
    x = rng.random()
    if x < 0.2:
        # the analysis of sparsity patterns fails on the device, perhaps also on the host
        fault = {'kind': rng.choice(['oom', 'internal', 'interrupt', 'host_oom']), 'where': 'unique', 'host': rng.random() < 0.7, 'n': rng.choice([None, 1, 2, 3])}
        for c in callers:
            if 'job' not in c or not jobs.sparse(c['job']):
                c.clear()
                c['job'] = jobs.gen(rng, ('lapl', 'lapl', 'op'))
                c['job']['thr'] = 1000
                if c['job'].get('op'):
                    c['job']['op'] = 'forward'
    elif x < 0.35:
        fault = {'kind': rng.choice(['oom', 'internal', 'interrupt']), 'at': rng.choice([1, 2, 3, 5, 8, 13]), 'len': rng.choice([1, 1, 2])}
    spec = sched.make_spec(rng, threads=n) if n > 1 else {'kind': 'serial'}
    return {
        'callers': callers, 'hosts': hosts, 'spec': spec, 'gran': rng.choice(['line', 'line', 'line', 'instr']) if n > 1 else 'line',
        'setup': rng.choice(['root', 'root', 'own', 'two', 'quiet']), 'mem': rng.choice([None, 1e4, 1e9]), 'fault': fault,
    }


class Recorder(logging.Handler):
    def __init__(self, app, level=0):
        super().__init__(level)
        self.got = []

    def handle(self, record):
        if self.filter(record):
            self.got.append((record, record.getMessage(), record.levelno))

    emit = handle


class HostLogging:
    """The application's logging configuration during one run."""

    def __init__(self, setup):
        self.setup = setup
        self.created = []

    def __enter__(self):
        root, fx = logging.getLogger(), logging.getLogger('folx')
        self.saved = (root.handlers[:], root.level, fx.handlers[:], fx.level, fx.propagate, logging.getLogRecordFactory())
        self.a, self.b = Recorder('a'), Recorder('b')
        fx.handlers[:], fx.propagate = [], True
        fx.setLevel(logging.NOTSET)
        root.setLevel(1)
        root.handlers[:] = [self.a]
        self.handlers = [self.a]
        self.min = 1
        if self.setup == 'own':
            fx.handlers[:] = [self.b]
            fx.setLevel(1)
            fx.propagate = False
        elif self.setup == 'two':
            root.handlers[:] = [self.a, self.b]
            self.handlers = [self.a, self.b]
        elif self.setup == 'quiet':
            root.setLevel(logging.WARNING)
            self.min = logging.WARNING
        self.app = logging.getLogger('dst.app')
        old = self.saved[-1]

        def factory(name, level, fn, *a, **k):
            r = old(name, level, fn, *a, **k)
            self.created.append((r, 'folx' if fn.startswith(env.FOLX_DIR) else 'host' if name.startswith('dst.app') else 'other', name))
            return r

        logging.setLogRecordFactory(factory)
        self.root = root
        return self

    def __exit__(self, *a):
        root, fx = logging.getLogger(), logging.getLogger('folx')
        root.handlers[:], fx.handlers[:] = self.saved[0], self.saved[2]
        root.setLevel(self.saved[1])
        fx.setLevel(self.saved[3])
        fx.propagate = self.saved[4]
        logging.setLogRecordFactory(self.saved[5])

    def deliveries(self, rec):
        return [sum(r is rec for r, _, _ in h.got) for h in (self.a, self.b)]

    def expected(self, origin):
        if origin == 'folx' and self.setup == 'own':
            return [0, 1]
        return [1, 1] if self.setup == 'two' else [1, 0]


class Host(Exception):
    pass


def run(case, sim):
    kernel.arm(None)
    kernel.State.chunks = None
    flaky.arm(None)
    host.HANDLER.fail = 0
    Eager.fail = set()
    memstats.set_env({'stats': None} if case['mem'] is None else {'limit': int(case['mem'])})
    regs = []
    out = sys.stdout, sys.stderr
    try:
        with HostLogging(case['setup']) as hl:
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                _run(case, sim, hl, regs)
            finally:
                so, se = sys.stdout, sys.stderr
                sys.stdout, sys.stderr = out
        if not sim.violations and (so.getvalue() or se.getvalue()):
            sim.fail('output', f'printed {so.getvalue()[:100]!r} {se.getvalue()[:200]!r}')
    finally:
        memstats.set_env(None)
        Eager.fail = set()
        for k in regs:
            folx.deregister_function(k)


def _run(case, sim, hl, regs):
    emitted = []  # (message, level) the host logged
    work = []
    for tid, c in enumerate(case['callers']):
        if 'job' in c:
            j = jobs.Job(c['job'], sim)
            work.append({'c': c, 'call': j.call, 'job': j})
            continue
        src, where = source(c, tid)
        fname = f'/host/app/module_{tid}.py'
        exc = None

        def hostlog(tid=tid):
            m = f'host callback of {tid}: {len(emitted)}'
            emitted.append((m, logging.WARNING))
            hl.app.warning(m)

        ns = {'OPS': OPS, 'jnp': jnp, 'np': np, 'jax': jax, 'HOSTLOG': hostlog}
        exec(compile(src, fname, 'exec'), ns)
        w = {'c': c, 'where': where, 'file': fname, 'rule_exc': None, 'tid': tid}
        if c.get('rule'):
            r = c['rule']
            p = OPS[r['op']]
            exc = c12.make_exc(r['kind']) if r['fail'] else None
            generic = folx.wrap_forward_laplacian(p.bind)

            def rule(args, kwargs, sparsity_threshold, exc=exc, r=r, generic=generic, w=w, hostlog=hostlog):
                if r['log']:
                    hostlog()
                if exc is not None:
                    w['rule_exc'] = exc
                    raise exc
                return generic(args, kwargs, sparsity_threshold)

            if p not in regs:
                regs.append(p)
                folx.register_function(p, rule)
                w['rule_op'] = p.name
                w['exc'] = exc
        if c.get('eager_fail') is not None:
            Eager.fail.add(f'dst_op{c["eager_fail"]}')
        fn = folx.forward_laplacian(ns[f'work_{tid}'], c['thr'], disable_jit=c['mode'] == 'eager')
        w['call'] = lambda fn=fn: jax.block_until_ready(fn(np.linspace(0.2, 0.7, 3)))
        work.append(w)
    ruled = {w['rule_op']: w for w in work if 'rule_op' in w}
    lgs = sorted(hoststate.loggers().items())
    base_l, base_h = hoststate.light(lgs), hoststate.heavy()
    seen = {'n': 0}

    def invariant(t, label):
        seen['n'] += 1
        now = hoststate.light(lgs)
        if now != base_l:
            sim.fail('host-state', f'{hoststate.diff(hoststate.LIGHT, base_l, now, lgs)} changed at {label}, caller {t.tid} step {t.step} | {desc(case)}')
            raise sched.Abort
        if seen['n'] % 64 == 0:
            now = hoststate.heavy()
            if now != base_h:
                sim.fail('host-state', f'{hoststate.diff(hoststate.HEAVY, base_h, now)} changed before {label}, caller {t.tid} step {t.step} | {desc(case)}')
                raise sched.Abort

    s = sched.Scheduler(sim, case['spec'], case['gran'], invariant=invariant)
    tl = []

    def caller(w):
        def body():
            before = hoststate.thread_local()
            try:
                if not w['c'].get('again'):
                    return w['call']()
                # the same failure again is another failure
                try:
                    w['call']()
                except Exception as e:
                    w['first'] = e
                w['mark'] = sum(1 for rec, m, lv in hl.handlers[0].got + hl.b.got if lv >= logging.ERROR and w['file'] in m)
                return w['call']()
            finally:
                d = hoststate.diff(hoststate.THREAD, before, hoststate.thread_local())
                if d:
                    tl.append(f'caller: {d}')

        return body

    def logger(k, n):
        def body():
            for i in range(n):
                s.point('host')
                m = f'host thread {k}: {i}'
                lvl = (logging.WARNING, logging.ERROR, logging.CRITICAL)[i % 3]
                emitted.append((m, lvl))
                (hl.app if i % 2 else hl.root).log(lvl, m)
                s.point('host')

        return body

    for w in work:
        t = s.spawn(caller(w))
        if w['c'].get('intr'):
            t.intr = (w['c']['intr'], KeyboardInterrupt('[injected]'))
    for k, h in enumerate(case['hosts']):
        s.spawn(logger(k, h['n']))
    dev = device.Device(case['fault'], sim) if case.get('fault') else None
    if dev is None:
        s.run()
    else:
        with dev:
            s.run()
    failures = [e for _, _, e in dev.fired] if dev else []
    case['recorded'] = s.pre
    sim.count('states_checked', seen['n'])
    if sim.violations:
        return
    now_l, now_h = hoststate.light(lgs), hoststate.heavy()
    d = hoststate.diff(hoststate.LIGHT, base_l, now_l, lgs) or hoststate.diff(hoststate.HEAVY, base_h, now_h) or (tl and tl[0])
    if d:
        sim.fail('host-state', f'{d} differs after the calls | {desc(case)}')
        return
    for w, t in zip(work, s.threads):
        w['out'], w['exc_got'], w['intr'] = t.result, t.exc, t.intr_fired or any(t.exc is e for e in failures)
        if t.exc is not None and not w['intr']:
            if 'job' in w:
                if not jobs.refusal(t.exc, w['job'].spec) and w['job'].kind not in ('bvmap', 'auto'):
                    sim.fail('error', f'{type(t.exc).__name__}: {str(t.exc)[:200]} | {desc(case)}')
                    return
            elif not any(t.exc is x.get('exc') for x in ruled.values()) and not scan_refusal(t.exc, w['c']):
                sim.fail('error', f'{type(t.exc).__name__}: {str(t.exc)[:200]} | {desc(case)}')
                return
    records(case, sim, hl, emitted, work, s, ruled)


PREFIX = re.compile(r'^\[folx\](\(.*?\))? - ', re.S)


def records(case, sim, hl, emitted, work, s, ruled):
    # every record reaches every handler of the application exactly once
    for rec, origin, name in hl.created:
        got, want = hl.deliveries(rec), hl.expected('folx' if name == 'folx' or name.startswith('folx.') else origin)
        if got != want:
            sim.fail('delivery', f'record {rec.getMessage()[:80]!r} of {name} delivered {got} times instead of {want} | {desc(case)}')
            return
    texts = [(m, lv) for h in (hl.handlers[0],) for r, m, lv in h.got if m.startswith('host ')]
    if sorted(texts) != sorted(emitted):
        missing = [e for e in emitted if e not in texts]
        sim.fail('delivery', f'host records differ: missing {missing[:3]}, {len(texts)} of {len(emitted)} | {desc(case)}')
        return
    by_thread = {}
    for h in (hl.a, hl.b):
        for r, m, lv in h.got:
            if m.startswith('host '):
                continue
            if r.pathname.startswith(env.FOLX_DIR) or r.name.split('.')[0] == 'folx':
                by_thread.setdefault(id(r), (r, m, lv))
    own = {}
    for r, m, lv in by_thread.values():
        sim.count(f'records:{r.levelname.lower()}')
        if not PREFIX.match(m):
            sim.fail('label', f'{r.levelname} {m[:120]!r} has no library prefix | {desc(case)}')
            return
        own.setdefault(r.thread, []).append((r, m, lv))
    allrec = list(by_thread.values())
    ops = {}
    for w in work:
        for op, lines in w.get('where', {}).items():
            for n in lines:
                ops.setdefault(op, set()).add((w['file'], n))
    for r, m, lv in allrec:
        mentioned = re.findall(r'dst_op\d+', m[PREFIX.match(m).end():])
        loc = PREFIX.match(m).group(1) or ''
        for op in set(mentioned):
            # exactly the line on which a caller uses this operation
            if op in ops and not any(f'{f}:{n}' in loc for f, n in ops[op]):
                sim.fail('label', f'{m[:200]!r}: {op} is at {sorted(ops[op])} | {desc(case)}')
                return
            sim.count('labels')
    # reports of each caller
    for w, t in zip(work, s.threads):
        if 'where' not in w or w['intr'] or case.get('fault'):
            continue
        mine = [(r, m, lv) for r, m, lv in allrec if w['file'] in m]
        exc = w['exc_got']
        if exc is not None and isinstance(exc, Exception):
            op = 'scan' if scan_refusal(exc, w['c']) else next(k for k, x in ruled.items() if x.get('exc') is exc)
            if not any(lv >= logging.ERROR and op in m for r, m, lv in mine):
                sim.fail('unreported', f'failing {op} was not reported: {[m[:100] for _, m, _ in mine]} | {desc(case)}')
                return
            sim.count('reported-failures')
            if w.get('first') is not None and 'mark' in w:
                n = sum(1 for rec, m, lv in hl.handlers[0].got + hl.b.got if lv >= logging.ERROR and w['file'] in m)
                if n != 2 * w['mark']:
                    sim.fail('unreported', f'{w["mark"]} errors were reported for the first failure of {op}, {n - w["mark"]} for the second | {desc(case)}')
                    return
                sim.count('reported-again')
        elif exc is None:
            ef = w['c'].get('eager_fail')
            if ef is not None:
                if not any(lv >= logging.WARNING and f'dst_op{ef}' in m for r, m, lv in mine):
                    sim.fail('unreported', f'fallback for dst_op{ef} was not reported | {desc(case)}')
                    return
                sim.count('reported-fallbacks')
            for l in w['c']['lines']:
                op = f'dst_op{l["op"]}'
                if l['kind'] in ('op', 'jit', 'scan') and op not in ruled and not any(op in m and lv >= logging.WARNING for r, m, lv in mine):
                    sim.fail('unreported', f'{op} has no rule, but there is no notice | {desc(case)}')
                    return
    sim.count('records', len(allrec))


def scan_refusal(exc, c):
    return c['thr'] > 0 and 'sparsity mismatch in scan' in str(exc) and any(l['kind'] == 'scan' for l in c['lines'])


def desc(case):
    return str([{k: (jobs.describe(v) if k == 'job' else v) for k, v in c.items()} for c in case['callers']])[:600] + f' hosts={case["hosts"]} setup={case["setup"]} fault={case.get("fault")}'


def explicit(case):
    return sched.explicit(case, run)


def shrink(case):
    if case.get('fault'):
        yield dict(case, fault=None)
    cs = case['callers']
    for k in range(len(cs)):
        if len(cs) > 1:
            yield dict(case, callers=cs[:k] + cs[k + 1:])
    if case['hosts']:
        yield dict(case, hosts=case['hosts'][1:])
    for k, c in enumerate(cs):
        for f in ('intr', 'eager_fail', 'rule', 'again'):
            if c.get(f):
                yield dict(case, callers=cs[:k] + [{a: b for a, b in c.items() if a != f}] + cs[k + 1:])
        for m in range(len(c.get('lines', ()))):
            if len(c['lines']) > 1:
                q = dict(c, lines=c['lines'][:m] + c['lines'][m + 1:])
                yield dict(case, callers=cs[:k] + [q] + cs[k + 1:])
        if 'job' in c:
            for q in jobs.shrink(c['job']):
                yield dict(case, callers=cs[:k] + [dict(c, job=q)] + cs[k + 1:])
    for sp in sched.shrink_specs(case['spec']):
        yield dict(case, spec=sp)
    if case['setup'] != 'root':
        yield dict(case, setup='root')


_ = lapl
