"""Simulated device memory statistics, as seen by folx."""
import sys

import jax

_real_devices, _real_local = jax.devices, jax.local_devices
_stubs = {}  # one object per device, as jax has it
_env = None  # {'limit': int} | {'stats': None} | {'stats': {...}} | {'raise': kind}
queries = 0


class StubDevice:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def memory_stats(self):
        global queries
        queries += 1
        if 'raise' in _env:
            raise _env['raise']
        if 'stats' in _env:
            return None if _env['stats'] is None else dict(_env['stats'])
        lim = _env['limit']
        return {'bytes_limit': lim, 'bytes_in_use': 0, 'peak_bytes_in_use': 0, 'num_allocs': 0, 'bytes_reserved': 0, 'largest_free_block_bytes': lim}


def _mk(real):
    def devices(*a, **k):
        out = real(*a, **k)
        f = sys._getframe(1)
        name = f.f_globals.get('__name__', '')
        # elsewhere devices are asked for by name, to compute on them
        if _env is not None and name.startswith('folx') and (name.startswith('folx.experimental') or not (a or k)):
            return [_stubs.setdefault(d, StubDevice(d)) for d in out]
        return out

    return devices


jax.devices, jax.local_devices = _mk(_real_devices), _mk(_real_local)


def set_env(env):
    global _env, queries
    _env, queries = env, 0
