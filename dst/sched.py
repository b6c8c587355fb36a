"""The simulated scheduler.

Caller threads are real threads of which exactly one is ever allowed to run.
``sys.monitoring`` reports every line (or every bytecode instruction) that is
about to execute in a folx function; there the scheduler, and nobody else,
decides who goes on.  Preemptions are recorded as (thread, its own step, next
thread), so a schedule can be replayed and shrunk."""
import gc
import random
import sys
import threading
import types
from _thread import get_ident

from . import env, simlock

TOOL = 4
_mon = sys.monitoring
_mon.use_tool_id(TOOL, 'dst')
_active = None
_NO_INTERRUPT = {'__enter__', '__exit__', '__init__', '__del__'}


def _codes():
    seen = {}

    def add(c):
        if c.co_filename.startswith(env.FOLX_DIR) and id(c) not in seen:
            seen[id(c)] = c
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    return sorted(seen.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


CODES = _codes()
assert len(CODES) > 100, len(CODES)


class Abort(BaseException):
    pass


class T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.step = 0
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = None
        self.result = self.exc = None
        self.ident = None
        self.intr = None  # (step, exception)
        self.intr_fired = False
        self.intr_label = None
        self.quiet = 0


class Scheduler:
    """spec: {'kind': 'serial'} | {'kind': 'rand', 'seed', 'p'} | {'kind': 'pct', 'seed', 'points': [..fractions], 'len': n}
    | {'kind': 'list', 'pre': [[tid, step, next], ...]}"""

    def __init__(self, sim, spec, gran='line', max_steps=400000, invariant=None):
        self.sim, self.spec, self.gran = sim, spec, gran
        self.threads = []
        self.gstep = 0
        self.max_steps = max_steps
        self.pre = []
        self.abort = None
        self.by_ident = {}
        self.running = None
        self.finished = threading.Semaphore(0)
        self.invariant = invariant
        self.trace = []
        self.rng = random.Random(spec.get('seed', 0))
        self.list = {(a, b): c for a, b, c in spec.get('pre', [])}
        self.points = set()
        if spec['kind'] == 'pct':
            n = max(1, spec['len'])
            self.points = {int(f * n) for f in spec['points']}

    # -- building
    def spawn(self, fn):
        t = T(len(self.threads), fn)
        self.threads.append(t)
        return t

    def current_tid(self):
        t = self.by_ident.get(get_ident())
        return None if t is None else t.tid

    # -- thread side
    def _main(self, t):
        t.go.acquire()
        self.by_ident[get_ident()] = t
        try:
            if self.abort is None:
                t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.exc = e
        finally:
            t.done = True
            del self.by_ident[get_ident()]
            self._leave(t)

    def _runnable(self):
        return [t for t in self.threads if not t.done and (t.blocked is None or t.blocked.owner is None)]

    def _leave(self, t):
        r = self._runnable()
        if not r:
            rest = [x for x in self.threads if not x.done]
            if not rest:
                self.finished.release()
                return
            self._deadlock()
            rest[0].go.release()
            return
        n = min(r, key=lambda x: (x.tid <= t.tid, x.tid))
        self.running = n
        n.go.release()

    def _deadlock(self):
        if self.abort is None:
            self.abort = 'deadlock'

    def _switch(self, t, n, label):
        self.running = n
        self.trace.append((t.tid, n.tid, label))
        n.go.release()
        t.go.acquire()
        if self.abort is not None:
            raise Abort

    def block(self, lock):
        t = self.by_ident[get_ident()]
        t.blocked = lock
        r = [x for x in self._runnable() if x is not t]
        if not r:
            self._deadlock()
            raise Abort
        n = min(r, key=lambda x: (x.tid <= t.tid, x.tid))
        self._switch(t, n, 'block')
        t.blocked = None

    def point(self, label, interruptible=True):
        t = self.by_ident.get(get_ident())
        if t is None or t.quiet:
            return
        if self.abort is not None:
            raise Abort
        t.step += 1
        self.gstep += 1
        if self.invariant is not None:
            t.quiet += 1
            try:
                self.invariant(t, label)
            finally:
                t.quiet -= 1
        kind = self.spec['kind']
        if kind == 'rand':
            nxt = None
            if self.rng.random() < self.spec['p'] and self.gstep < self.max_steps:
                r = [x for x in self._runnable() if x is not t]
                if r:
                    nxt = r[int(self.rng.random() * len(r))]
        elif kind == 'pct':
            nxt = None
            if self.gstep in self.points:
                r = [x for x in self._runnable() if x is not t]
                if r:
                    nxt = r[int(self.rng.random() * len(r))]
        elif kind == 'list':
            k = self.list.get((t.tid, t.step))
            nxt = None
            if k is not None and k < len(self.threads):
                x = self.threads[k]
                if not x.done and (x.blocked is None or x.blocked.owner is None):
                    nxt = x
        else:
            nxt = None
        if nxt is not None and nxt is not t:
            self.pre.append([t.tid, t.step, nxt.tid])
            self._switch(t, nxt, label)
        if t.intr is not None and not t.intr_fired and t.step >= t.intr[0] and interruptible:
            t.intr_fired = True
            t.intr_label = label
            self.sim.event('interrupt', t.tid, label)
            self.sim.count(f'fault:interrupt')
            raise t.intr[1]

    # -- running
    def run(self):
        global _active
        assert _active is None
        ths = []
        for t in self.threads:
            th = threading.Thread(target=self._main, args=(t,), daemon=True)
            ths.append(th)
        ev = _mon.events.LINE if self.gran == 'line' else _mon.events.LINE | _mon.events.INSTRUCTION
        _active = self
        simlock.set_scheduler(self)
        for c in CODES:
            _mon.set_local_events(TOOL, c, ev)
        try:
            for th in ths:
                th.start()
            first = self.threads[self.spec.get('first', 0) % len(self.threads)]
            self.running = first
            first.go.release()
            self.finished.acquire()
            for th in ths:
                th.join()
        finally:
            for c in CODES:
                _mon.set_local_events(TOOL, c, 0)
            _active = None
            simlock.set_scheduler(None)
        for a, b, label in self.trace[:400]:
            self.sim.event('switch', a, b, label)
        self.sim.count('switches', len(self.trace))
        self.sim.count('preemptions', len(self.pre))
        self.sim.count('scheduling_points', self.gstep)
        self.sim.steps += self.gstep
        self.sim.sig('interleaving', self.trace)
        if self.abort:
            self.sim.fail(self.abort, f'all threads blocked; schedule {self.pre[:50]}')
        return self


def _on_line(code, line):
    s = _active
    if s is not None:
        s.point(code.co_name, code.co_name not in _NO_INTERRUPT)


def _on_instr(code, offset):
    s = _active
    if s is not None:
        s.point(code.co_name, code.co_name not in _NO_INTERRUPT)


_mon.register_callback(TOOL, _mon.events.LINE, _on_line)
_mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instr)


def make_spec(rng, length=None, threads=2):
    """A random scheduling policy (swarm: the kind and rate vary per run)."""
    r = rng.random()
    seed = rng.randrange(1 << 30)
    if r < 0.15:
        return {'kind': 'rand', 'seed': seed, 'p': 0.0, 'first': rng.randrange(threads)}
    if r < 0.75:
        return {'kind': 'rand', 'seed': seed, 'p': rng.choice([0.001, 0.003, 0.01, 0.03, 0.1, 0.3]), 'first': rng.randrange(threads)}
    return {'kind': 'pct', 'seed': seed, 'points': sorted(rng.random() for _ in range(rng.choice([1, 2, 3, 5, 8]))), 'len': length or rng.choice([300, 2000, 10000, 40000]), 'first': rng.randrange(threads)}


def shrink_specs(spec, recorded=None):
    """Simpler schedules."""
    if spec['kind'] != 'list':
        if recorded is not None:
            yield {'kind': 'list', 'pre': recorded, 'first': spec.get('first', 0)}
        return
    pre = spec['pre']
    n = len(pre)
    if n:
        yield dict(spec, pre=[])
    k = n // 2
    while k >= 1:
        for a in range(0, n, k):
            yield dict(spec, pre=pre[:a] + pre[a + k:])
        k //= 2


def explicit(case, run):
    """The same case with the schedule it actually took written out."""
    from .core import Sim, Violation

    if not case.get('spec') or case['spec']['kind'] == 'list':
        return []
    c = dict(case)
    try:
        run(c, Sim())
    except Violation:
        pass
    pre = c.get('recorded')
    return [] if pre is None else [dict(case, spec={'kind': 'list', 'pre': pre, 'first': case['spec'].get('first', 0)})]
