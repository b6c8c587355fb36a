"""``sim_kernel``: a user operation that sees which rows it is executed on.

Identity on an integer row number.  Under vmap it is executed once per chunk,
with the row numbers of the chunk; the simulator records them and lets the
execution fail at a chosen row."""
import numpy as np
from jax.core import Primitive
from jax.interpreters import batching, mlir

from .core import Injected


class State:
    chunks = None  # list of lists of row numbers, or None
    fail_row = None
    fail_n = 0
    fired = []
    sim = None


MARK = 'sim_kernel failed [injected]'


def arm(sim, fail_row=None, fail_n=0):
    State.chunks, State.fail_row, State.fail_n, State.fired, State.sim = [], fail_row, fail_n, [], sim
    return State


def _host(ids):
    ids = np.asarray(ids)
    if State.chunks is not None:
        State.chunks.append([int(i) for i in ids.ravel()])
    if State.fail_n > 0 and State.fail_row is not None and State.fail_row in ids.ravel():
        State.fail_n -= 1
        e = Injected(f'{MARK} row {State.fail_row}')
        State.fired.append(e)
        if State.sim is not None:
            State.sim.count('fault:kernel')
        raise e
    return ids


kernel_p = Primitive('sim_kernel')
kernel_p.def_impl(lambda x: __import__('jax').numpy.asarray(_host(x)))
kernel_p.def_abstract_eval(lambda x: x)


def _lower(ctx, x):
    out, _, _ = mlir.emit_python_callback(
        ctx, lambda v: (_host(v),), None, [x], ctx.avals_in, ctx.avals_out, has_side_effect=True
    )
    return out


mlir.register_lowering(kernel_p, _lower)
batching.defvectorized(kernel_p)


def rows(x):
    return kernel_p.bind(x)
