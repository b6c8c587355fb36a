"""The simulated device.

Every execution of a compiled program on the (CPU) device passes through here:
jax's C++ fast path is switched off, so each execution reaches
``ExecuteReplicated.__call__``.  The simulator numbers the executions of the
current thread of control and lets them fail as a device would."""
import sys

import jax
from jax._src import pjit as _pjit
from jax._src.interpreters import pxla as _pxla
from jaxlib.xla_extension import XlaRuntimeError

from . import env

_current = None


def _stack():
    """Innermost-first list of (file relative to folx, function)."""
    out = []
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(env.FOLX_DIR):
            out.append((fn[len(env.FOLX_DIR):], f.f_code.co_name))
        elif fn.endswith('setops.py'):
            out.append(('jax:setops', f.f_code.co_name))
        f = f.f_back
    return out


def classify(stack):
    """Where folx has a documented fallback for a failing execution."""
    folx = [s for s in stack if not s[0].startswith('jax:')]
    if not folx:
        return 'user'
    names = [s[1] for s in folx]
    if any(s[0] == 'jax:setops' for s in stack) and ('find_out_idx' in names or any(s[0] == 'hessian.py' for s in folx)):
        return 'unique'
    if 'sparse_index_jvp' in names and 'get_index_mask' not in names and 'dense_jvp' not in names:
        return 'mask'
    if folx[0][0] == 'interpreter.py' and any(n.startswith('eval_') for n in names):
        return 'const'
    return 'other'


def make_error(kind):
    if kind == 'oom':
        return XlaRuntimeError('RESOURCE_EXHAUSTED: Out of memory while trying to allocate 68719476736 bytes. [injected]')
    if kind == 'internal':
        return XlaRuntimeError('INTERNAL: device stream failed. [injected]')
    if kind == 'host_oom':
        return MemoryError('[injected]')
    if kind == 'interrupt':
        return KeyboardInterrupt('[injected]')
    if kind == 'exit':
        return SystemExit('[injected]')
    raise ValueError(kind)


class Device:
    """plan: None or dict(kind, at=<execution number> | where=<class>, n=<how often>|None)."""

    def __init__(self, plan=None, sim=None):
        self.plan, self.sim = plan, sim
        self.n = 0
        self.sites = []
        self.fired = []  # (number, class, exception object)
        self.busy = False

    def on_exec(self):
        if self.busy:
            return
        self.n += 1
        k = self.n
        st = _stack()
        cls = classify(st)
        innermost = next((s for s in st if not s[0].startswith('jax:')), ('', 'user'))
        self.sites.append((cls, f'{innermost[0]}:{innermost[1]}'))
        p = self.plan
        if p is None:
            return
        if p.get('n') is not None and len(self.fired) >= p['n']:
            return
        if 'at' in p:
            if not (p['at'] <= k < p['at'] + (p.get('len') or 1)):
                return
        elif 'where' in p:
            if cls != p['where']:
                return
            if p['where'] == 'unique' and jax.config.jax_default_device is not None and not p.get('host'):
                return  # the host has enough memory
            if p.get('skip', 0) > 0 and sum(1 for c, _ in self.sites if c == cls) <= p['skip']:
                return
        e = make_error(p['kind'])
        self.fired.append((k, cls, e))
        if self.sim is not None:
            self.sim.event('device-fault', k, cls, p['kind'])
            self.sim.count(f'fault:device-{p["kind"]}@{cls}')
        raise e

    def __enter__(self):
        global _current
        assert _current is None
        _current = self
        return self

    def __exit__(self, *a):
        global _current
        _current = None


def _install():
    _pjit._get_fastpath_data = lambda *a, **k: None
    cls = _pxla.ExecuteReplicated
    orig = cls.__call__

    def __call__(self, *args):
        if _current is not None:
            _current.on_exec()
        return orig(self, *args)

    cls.__call__ = __call__


_install()
