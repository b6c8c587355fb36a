"""One simulated run: event log, statistics, violations."""
import collections
import hashlib
import json
import random

import numpy as np


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__(f'{cls}: {detail}')
        self.cls, self.detail = cls, detail


class Injected(Exception):
    """The exception user code or a device raises because the simulator says so."""


class Sim:
    def __init__(self):
        self.h = hashlib.sha256()
        self.tail = collections.deque(maxlen=200)
        self.stats = collections.Counter()
        self.violations = []
        self.sigs = set()  # signatures of what this run explored
        self.steps = 0

    def event(self, *items):
        s = ' '.join(str(i) for i in items)
        self.h.update(s.encode() + b'\n')
        self.tail.append(s)
        self.steps += 1

    def count(self, name, n=1):
        self.stats[name] += n

    def sig(self, *items):
        self.sigs.add(hashlib.md5(repr(items).encode()).hexdigest()[:12])

    def fail(self, cls, detail):
        self.violations.append({'class': cls, 'detail': str(detail)[:1500]})
        self.event('VIOLATION', cls)

    def digest(self):
        return self.h.hexdigest()[:16]


def rng_for(*key):
    return random.Random('/'.join(str(k) for k in key))


def digest_arrays(*arrs):
    h = hashlib.md5()
    for a in arrs:
        a = np.asarray(a)
        h.update(f'{a.dtype}{a.shape}'.encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


def jdump(x):
    return json.dumps(x, sort_keys=True)


# ---- forms in which a user passes a function: callables of one form share
# their code, their name and whatever else one might tell functions apart by
STYLES = (None, None, 'closure', 'partial', 'method')


def _apply(fn, *a, **k):
    return fn(*a, **k)


class _Holder:
    def __init__(self, fn):
        self.fn = fn

    def model(self, *a, **k):
        return self.fn(*a, **k)


def styled(fn, style):
    if style == 'closure':
        def model(*a, **k):
            return fn(*a, **k)

        return model
    if style == 'partial':
        import functools

        return functools.partial(_apply, fn)
    if style == 'method':
        return _Holder(fn).model
    return fn
