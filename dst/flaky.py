"""User-defined primitives whose eager execution can fail while tracing works.

``sim_const``: a computation on constants (identity).  ``sim_flip``: a
registered indexing operation (reversal of the first axis)."""
import jax
import jax.numpy as jnp
import numpy as np
from jax.core import Primitive
from jax.interpreters import ad, batching, mlir

import folx
from folx.api import FunctionFlags

from . import programs as P
from .core import Injected


class State:
    const_fail = 0  # how many eager executions of sim_const still fail
    mask_fail = 0
    fired = []
    sim = None
    exc = None


def arm(sim, const=0, mask=0, exc=None):
    State.const_fail, State.mask_fail, State.fired, State.sim, State.exc = const, mask, [], sim, exc


const_p = Primitive('sim_const')
flip_p = Primitive('sim_flip')


def _fire(kind):
    e = State.exc or Injected(f'eager execution of {kind} failed')
    State.fired.append(e)
    if State.sim is not None:
        State.sim.event('flaky', kind)
        State.sim.count(f'fault:eager-{kind}')
    raise e


@const_p.def_impl
def _(x):
    if State.const_fail > 0:
        State.const_fail -= 1
        _fire('const')
    return jnp.asarray(x) * 1


@flip_p.def_impl
def _(x, axis):
    if jnp.issubdtype(x.dtype, jnp.integer) and State.mask_fail > 0:
        State.mask_fail -= 1
        _fire('mask')
    return jax.lax.rev(x, (axis,))


const_p.def_abstract_eval(lambda x: x)
flip_p.def_abstract_eval(lambda x, axis: x)
mlir.register_lowering(const_p, mlir.lower_fun(lambda x: x * 1, multiple_results=False))
mlir.register_lowering(flip_p, mlir.lower_fun(lambda x, axis: jax.lax.rev(x, (axis,)), multiple_results=False))
ad.deflinear2(const_p, lambda t, x: [t])
ad.primitive_jvps[flip_p] = lambda pr, tn, axis: (
    flip_p.bind(pr[0], axis=axis),
    flip_p.bind(ad.instantiate_zeros(tn[0]), axis=axis),
)
ad.primitive_transposes[flip_p] = lambda t, x, axis: [flip_p.bind(t, axis=axis)]
batching.defvectorized(const_p)
batching.primitive_batchers[flip_p] = lambda args, dims, axis: (
    flip_p.bind(args[0], axis=axis + (dims[0] <= axis)),
    dims[0],
)

folx.register_function(
    flip_p,
    folx.wrap_forward_laplacian(flip_p.bind, flags=FunctionFlags.INDEXING, name='sim_flip'),
)


@P.op('flaky_const', 'flaky', 3.0)
def _(xp, L, p, x, c):
    if L.jax_mode:
        c = const_p.bind(c)
    d = xp.tanh(c) + 1.5
    return x * d if p['k'] else x + d


@_.gen
def _gen(g):
    i = g.fval(lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i], g.const(g.vals[i].shape)], {'k': g.rng.randrange(2)})


@P.op('flaky_take', 'flaky', 3.0)
def _(xp, L, p, x, c):
    # indices computed from constants: static unless their computation fails
    if L.jax_mode:
        c = const_p.bind(c)
        return L.jnp.take(x, c, axis=0)
    return np.take(x, c, axis=0)


@_.gen
def _gen2(g):
    i = g.fval(lambda v: v.ndim >= 1 and v.shape[0] >= 1)
    if i is None:
        return None
    n = g.vals[i].shape[0]
    return [['v', i], ['c', {'shape': [g.rng.choice([1, 2, 3])], 'seed': g.seed(), 'kind': 'int', 'lo': 0, 'hi': n}]], {}


@P.op('flaky_flip', 'flaky', 4.0)
def _(xp, L, p, x):
    if L.jax_mode:
        return flip_p.bind(x, axis=p['axis'])
    return np.flip(x, p['axis'])


@_.gen
def _gen3(g):
    i = g.fval(lambda v: v.ndim >= 1)
    return None if i is None else ([['v', i]], {'axis': g.rng.randrange(g.vals[i].ndim)})


P.GROUPS = sorted({o.group for o in P.OPS.values()})
