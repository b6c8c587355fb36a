"""A case kind of C11: room on the device.

Deep functions are layers of one random body.  The simulated device has room for
a number of arrays: what suffices for few layers has to suffice for many.  After
a call, whatever ended it, nothing is left but its result."""
import gc

import jax
import jax.numpy as jnp
import numpy as np

import folx

from .. import device
from ..core import STYLES, Injected, styled
from . import lapl

SLACK = 3  # arrays


def _norm(x):
    m = x.mean()
    return (x - m) / jnp.sqrt(((x - m) ** 2).mean() + 1)


@jax.jit
def dst_mem_rule(x):
    return jnp.sin(x) + 0.5 * x


OPS = {
    'sin': lambda x, w, s: jnp.sin(x),
    'tanh': lambda x, w, s: jnp.tanh(x),
    'affine': lambda x, w, s: x * w + 0.5,
    'poly': lambda x, w, s: x * (x + 1) * 0.3,
    'skip': lambda x, w, s: x + 0.1 * s,
    'gate': lambda x, w, s: x * jnp.cos(s),
    'matmul': lambda x, w, s: jnp.tanh(w * np.eye(len(w)) @ x),
    'softmax': lambda x, w, s: jax.nn.softmax(x) * 3,
    'mix': lambda x, w, s: x + 0.3 * jnp.roll(x, 1),
    'rotate': lambda x, w, s: jnp.concatenate([x[1:], x[:1]]),
    'flip': lambda x, w, s: x[::-1],
    'center': lambda x, w, s: x - jnp.mean(x**2),
    'norm': lambda x, w, s: _norm(x),
    'silu': lambda x, w, s: jax.nn.silu(x),
    'jit': lambda x, w, s: jax.jit(lambda y: jnp.sin(y) * 2 + y)(x),
    'jit2': lambda x, w, s: sum(jax.jit(lambda y: (jnp.sin(y), y * w))(x)),
    'rule': lambda x, w, s: dst_mem_rule(x),
    'where': lambda x, w, s: jnp.where(w > 1, x, 0.5 * x),
    'matrix': lambda x, w, s: jnp.tanh(x.reshape(2, -1).T).T.reshape(-1),
    'outer': lambda x, w, s: jnp.sin(x[:, None] - x[None, :]).mean(1) + x,
    'dead': lambda x, w, s: (jnp.exp(x), x * 0.9)[1],
    'scan': lambda x, w, s: jax.lax.scan(lambda c, _: (jnp.sin(c * w), None), x, None, length=2)[0],
}


def gen(rng, i, tier):
    body = [[rng.choice(sorted(OPS)), rng.randrange(1 << 16)] for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    case = {
        'kind': 'deep', 'body': body, 'n': rng.choice([6, 8]), 'thr': rng.choice([0, 0, 1, 4, 1000]),
        'shallow': 6, 'deep': rng.choice([12, 15]), 'style': rng.choice(STYLES), 'nest': rng.choice([None, None, 'jit', 'branch']),
    }
    r = rng.random()
    if r < 0.6:
        case['fault'] = {'src': 'device', 'kind': rng.choice(['oom', 'internal', 'host_oom', 'interrupt', 'exit']), 'u': rng.random()}
    elif r < 0.8:
        case['fault'] = {'src': 'room', 'u': rng.random()}
    elif r < 0.9:
        case['fault'] = {'src': 'rule'}
    return case


def build(case, depth):
    n = case['n']
    steps = [(OPS[name], np.random.RandomState(seed).uniform(0.6, 1.4, n)) for name, seed in case['body']]

    def layer(x, s):
        for f, w in steps:
            x = f(x, w, s)
        return x

    def fn(x, s):
        for _ in range(depth):
            x = layer(x, s)
        return x

    if case['nest'] == 'jit':
        return lambda x, s: jax.jit(fn)(x * 1.0, s) * 1.0
    if case['nest'] == 'branch':
        return lambda x, s: (fn(x, s), jnp.sin(x))
    return fn


class Room:
    """The device: counts the arrays it holds, and refuses when it is full."""

    def __init__(self, before, size, cap=None, fail=None, sim=None):
        self.before, self.size, self.cap, self.fail, self.sim = before, size, cap, fail, sim
        self.ids = {id(a) for a in before}
        self.peak = self.n = 0
        self.fired = []

    def held(self):
        return sum(a.size >= self.size and id(a) not in self.ids for a in jax.live_arrays())

    def on_exec(self):
        self.n += 1
        h = self.held()
        if self.cap is not None and h > self.cap:
            gc.collect()  # only what is really needed counts
            h = self.held()
        self.peak = max(self.peak, h)
        kind = None
        if self.cap is not None and h > self.cap:
            kind = 'oom'
        elif self.fail is not None and self.n == self.fail[0]:
            kind = self.fail[1]
        if kind:
            e = device.make_error(kind)
            self.fired.append(e)
            self.sim.event('device-fault', kind)
            self.sim.count(f'fault:{"full" if self.cap is not None else "device"}-{kind}')
            raise e


def attempt(case, sim, depth, cap=None, fail=None):
    """(result, exception, room)"""
    n = case['n']
    fn = styled(build(case, depth), case.get('style'))
    args = np.linspace(0.1, 0.9, n), np.linspace(-0.4, 0.7, n)
    gc.collect()
    room = Room(jax.live_arrays(), n, cap, fail, sim)
    assert device._current is None
    device._current = room
    try:
        out, exc = lapl.guarded(lambda: folx.forward_laplacian(fn, case['thr'], disable_jit=True)(*args))
    finally:
        device._current = None
    return out, exc, room


def leaves(out):
    return [np.array(a) for a in jax.tree_util.tree_leaves(out)]


def left(room, out):
    """Arrays on the device that are not part of the result."""
    gc.collect()
    parts = jax.tree_util.tree_leaves(out)
    mine = {id(a) for a in parts}
    more = sum(a.size >= room.size and id(a) not in room.ids and id(a) not in mine for a in jax.live_arrays())
    # patterns may be views of arrays of the device
    return max(0, more - sum(isinstance(a, np.ndarray) and a.base is not None for a in parts))


def rules(case, sim, fail=None):
    inner = folx.wrap_forward_laplacian(dst_mem_rule.__wrapped__, in_axes=())
    state = {'n': 0, 'fired': []}

    def rule(args, kwargs, sparsity_threshold):
        state['n'] += 1
        if fail is not None and state['n'] == fail:
            e = Injected('rule failed')
            state['fired'].append(e)
            sim.count('fault:rule')
            raise e
        return inner(args, kwargs, sparsity_threshold)

    folx.register_function('dst_mem_rule', rule)
    return state


def run(case, sim):
    rules(case, sim)
    try:
        _run(case, sim)
    finally:
        folx.deregister_function('dst_mem_rule')


def _run(case, sim):
    f = case.get('fault') or {}
    d = {k: v for k, v in case.items()}
    sim.sig([b for b, _ in case['body']], case['thr'], case['nest'], f.get('src'), f.get('kind'))

    def clean(what, out, room, exc):
        k = left(room, out)
        if k:
            sim.fail('leak', f'{k} arrays are left on the device after {what} ({type(exc).__name__ if exc else "completed"}) | {d}')
        return not k

    out, exc, room = attempt(case, sim, case['shallow'])
    if exc is not None:
        if 'sparsity mismatch in scan' in str(exc):
            sim.count('refused')
            return
        sim.fail('error', f'{type(exc).__name__}: {str(exc)[:300]} | {d}')
        return
    if not clean('a call', out, room, None):
        return
    peak = room.peak
    want = leaves(out)
    del out
    if not clean('the result was dropped', None, room, None):
        return
    # as much room is enough for any number of layers
    out, exc, room = attempt(case, sim, case['deep'], cap=peak + SLACK)
    if exc is not None:
        if room.fired:
            sim.fail('memory', f'{case["deep"]} layers need room for more than {peak + SLACK} arrays, {case["shallow"]} layers for {peak} | {d}')
        else:
            sim.fail('error', f'{type(exc).__name__}: {str(exc)[:300]} | {d}')
        return
    if not clean('a deep call', out, room, None):
        return
    sim.count('deep')
    deep = leaves(out)
    if not all(np.isfinite(a).all() for a in want + deep):
        sim.count('not-finite')
        return
    del out
    if not clean('the result was dropped', None, room, None):
        return
    if not f:
        return
    state = None
    if f['src'] == 'device':
        got, exc, room = attempt(case, sim, case['shallow'], fail=(1 + int(f['u'] * room.n * case['shallow'] / case['deep']), f['kind']))
        fired = room.fired
    elif f['src'] == 'room':
        got, exc, room = attempt(case, sim, case['shallow'], cap=int(f['u'] * peak))
        fired = room.fired
    else:
        state = rules(case, sim, 2)
        got, exc, room = attempt(case, sim, case['shallow'])
        fired = state['fired']
        rules(case, sim)
    if exc is not None and not any(exc is e for e in fired):
        sim.fail('replaced', f'{type(exc).__name__}: {str(exc)[:300]} reached the caller | {d}')
        return
    if exc is None and any(not isinstance(e, Exception) for e in fired):
        sim.fail('swallowed', f'an interrupt did not reach the caller | {d}')
        return
    if exc is None and not fired and not same(leaves(got), want):
        sim.fail('history', f'another result than before | {d}')
        return
    sim.event('faulted', exc is None, len(fired))
    sim.count('failed' if exc is not None else 'survived')
    for e in fired:
        e.__traceback__ = None  # the caller is done with it
        e.__context__ = e.__cause__ = None
    what = f'a call with {f}'
    if exc is not None:
        exc.__traceback__ = None
        exc.__context__ = exc.__cause__ = None
    if state:
        state.clear()
    if not clean(what, got, room, exc):
        return
    del got
    out, exc, room = attempt(case, sim, case['shallow'], cap=peak + SLACK)
    if exc is not None:
        sim.fail('history', f'{type(exc).__name__}: {str(exc)[:300]} in the call after a failed one | {d}')
    elif not same(leaves(out), want):
        sim.fail('history', f'another result after a failed call | {d}')


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y) for x, y in zip(a, b))


def shrink(case):
    for k in range(len(case['body'])):
        if len(case['body']) > 1:
            yield dict(case, body=case['body'][:k] + case['body'][k + 1:])
    for k in ('nest', 'style', 'fault'):
        if case.get(k):
            yield dict(case, **{k: None})
    if case['thr']:
        yield dict(case, thr=0)
