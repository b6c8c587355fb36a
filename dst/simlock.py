"""Locks created by folx modules become visible to the simulated scheduler.

``threading.Lock`` / ``RLock`` called from a folx source file return a lock that
parks the simulated thread instead of blocking the process; everyone else gets
the real thing."""
import sys
import threading

_real_lock, _real_rlock = threading.Lock, threading.RLock
_sched = None  # the active scheduler, set by sched.Scheduler.run


def set_scheduler(s):
    global _sched
    _sched = s


class SimLock:
    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner, self.count = None, 0
        self._real = _real_rlock() if reentrant else _real_lock()

    def _me(self):
        return _sched.current_tid() if _sched is not None else None

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            _sched.block(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        me = self._me()
        if me is None:
            return self._real.release()
        if self.count == 0:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.count > 0 or (not self.reentrant and self._real.locked())

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install(folx_dir):
    def mk(real, reentrant):
        def factory(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(folx_dir):
                return SimLock(reentrant)
            return real(*a, **k)

        return factory

    threading.Lock = mk(_real_lock, False)
    threading.RLock = mk(_real_rlock, True)
