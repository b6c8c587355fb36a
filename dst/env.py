"""Process setup: must be imported before jax.

Everything that could make two executions of one run differ is pinned here
(CPU backend, one XLA thread, one optimisation level), and folx is imported
from the repository under test (FOLX_REPO, default /repo)."""
import gc
import logging
import os
import sys
import warnings

REPO = os.environ.get('FOLX_REPO', '/repo')
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['XLA_FLAGS'] = (
    '--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true '
    '--xla_cpu_multi_thread_eigen=false'
)
os.environ['OMP_NUM_THREADS'] = '1'
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

from . import simlock  # noqa: E402

simlock.install(os.path.join(os.path.realpath(REPO), 'folx') + os.sep)

import jax  # noqa: E402

jax.config.update('jax_enable_x64', True)
# executions happen where they are called, not on a pool thread
jax.config.update('jax_cpu_enable_async_dispatch', False)
# speed only: no persistent cache keys, no tracebacks in the lowered code, one MLIR context
jax.config.update('jax_enable_compilation_cache', False)
jax.config.update('jax_include_full_tracebacks_in_locations', False)
from jax._src.interpreters import mlir as _mlir  # noqa: E402

_make_ctx, _ctx = _mlir.make_ir_context, []


def _shared_ctx():
    if not _ctx:
        _ctx.append(_make_ctx())
    return _ctx[0]


_mlir.make_ir_context = _shared_ctx

import folx  # noqa: E402
import folx.api  # noqa: E402
import folx.experimental.memory  # noqa: E402
import folx.experimental.vmap  # noqa: E402

FOLX_DIR = os.path.join(os.path.realpath(REPO), 'folx') + os.sep
assert os.path.realpath(folx.__file__).startswith(FOLX_DIR), folx.__file__

warnings.simplefilter('ignore')
logging.raiseExceptions = False
gc.disable()
