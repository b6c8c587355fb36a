"""Everything in the process that belongs to the host application, comparable."""
import builtins
import gc
import logging
import os
import random
import signal
import sys
import threading
import warnings

import jax
import numpy as np
from jax._src import core as _jcore

_SIGNALS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGFPE, signal.SIGABRT, signal.SIGSEGV, signal.SIGPIPE)]
_HOLDERS = sorted(jax.config._value_holders.items())
_UNSET = object()


def loggers():
    d = {'root': logging.root}
    for k, v in list(logging.root.manager.loggerDict.items()):
        if isinstance(v, logging.Logger):
            d[k] = v
    return d


def _handler(h):
    return (id(h), h.level, id(h.formatter), tuple(map(id, h.filters)), id(getattr(h, 'stream', None)), type(h))


def light(lgs):
    """Cheap enough for every step.  A tuple of (name, value)."""
    out = []
    for k, g in lgs:
        out.append((tuple(map(_handler, g.handlers)), tuple(map(id, g.filters)), g.level, g.propagate, g.disabled))
    return (
        out,
        (logging.root.manager.disable, logging.raiseExceptions, id(logging.lastResort), logging.getLoggerClass(), id(logging.getLogRecordFactory())),
        (id(warnings.filters), tuple(warnings.filters), warnings.showwarning, warnings.formatwarning, warnings._showwarnmsg_impl),
        (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__)),
        (sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook, sys.getrecursionlimit(), sys.getswitchinterval(), sys.gettrace(), sys.getprofile()),
        tuple(sorted(np.geterr().items())) + (np.geterrcall(),),
        (gc.isenabled(), gc.get_threshold(), len(gc.callbacks)),
        (builtins.print, builtins.open, builtins.__import__),
    )


LIGHT = ('loggers', 'logging module', 'warnings', 'standard streams', 'interpreter hooks', 'numpy error state', 'garbage collector', 'builtins')


def heavy():
    st = np.random.get_state(legacy=False)
    return (
        tuple((k, getattr(v, '_value', None) if hasattr(v, '_value') else v.value) for k, v in _HOLDERS),
        (st['state']['pos'], st['state']['key'].tobytes(), st['has_gauss']),
        hash(random.getstate()),
        tuple(sorted(os.environ.items())),
        os.getcwd(),
        tuple(map(signal.getsignal, _SIGNALS)) + (signal.getitimer(signal.ITIMER_REAL),),
        tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        (tuple(sys.path), len(sys.meta_path), len(sys.path_hooks)),
    )


HEAVY = ('jax configuration', 'numpy random state', 'random state', 'environment', 'working directory', 'signal handlers', 'numpy print options', 'import system')


def thread_local():
    """Of the calling thread."""
    import decimal

    return (
        tuple((k, v.value) for k, v in _HOLDERS),
        _jcore.trace_state_clean(),
        str(decimal.getcontext()),
        tuple(sorted(np.geterr().items())),
        sys.gettrace(),
    )


THREAD = ('jax configuration of the thread', 'jax trace state', 'decimal context', 'numpy error state', 'trace function')


def diff(names, a, b, lgs=()):
    for n, x, y in zip(names, a, b):
        if x != y:
            if n == 'loggers':
                bad = [k for (k, _), p, q in zip(lgs, x, y) if p != q]
                return f'{n} {bad[:4]}'
            if n.startswith('jax config'):
                return f'{n}: {[(p, q[1]) for p, q in zip(x, y) if p != q][:3]}'
            return f'{n}: {str(x)[:120]} -> {str(y)[:120]}'
    return None
