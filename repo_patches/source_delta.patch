From 70fecdfc3666e24449389a5f39c7d6fde78323de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 01/47] fix: do not replace the root logger's handlers while
 logging

LoggingPrefix swapped the handlers of the process-wide root logger. Records of
other threads were diverted meanwhile, and two overlapping callers could leave
the wrong handlers installed for good. Prefix the messages of a folx logger
through a context variable instead.
---
 folx/experimental/vmap.py |  6 +++---
 folx/hessian.py           |  4 ++--
 folx/interpreter.py       | 11 +++++-----
 folx/jvp.py               | 14 ++++++------
 folx/utils.py             | 45 +++++++++++++++++++++++----------------
 folx/wrapped_functions.py |  4 ++--
 6 files changed, 46 insertions(+), 38 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index bb02b6c..f2b4a22 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -1,9 +1,9 @@
 import functools
-import logging
 from typing import Any, Callable, Sequence, TypeVar
 
 import jax
 
+from folx.utils import logger
 from folx.vmap import batched_vmap
 
 from .memory import compute_memory
@@ -66,8 +66,8 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logging.warn(f'Failed to auto batch {fn.__name__}: {e}')
-            logging.warn('Defaulting to batch size 1.')
+            logger.warning(f'Failed to auto batch {fn.__name__}: {e}')
+            logger.warning('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
     return result
diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..54a68c0 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -1,5 +1,4 @@
 import functools
-import logging
 from typing import Callable, Sequence
 
 import jax
@@ -31,6 +30,7 @@ from .utils import (
     flat_wrap,
     get_reduced_jacobians,
     jac_jacT,
+    logger,
     trace_jac_jacT,
     trace_of_product,
     vmap_sequences_and_squeeze,
@@ -231,7 +231,7 @@ def find_out_idx(lapl_args: FwdLaplArgs, in_axes, flags: FunctionFlags, threshol
             # +1 because we need to accomodate the -1.
             arrs = np.asarray(idx_fn(inp), dtype=int)
         except jaxlib.xla_extension.XlaRuntimeError:
-            logging.info(
+            logger.info(
                 'Failed to find unique elements on GPU, falling back to CPU. This will be slow.'
             )
             with jax.default_device(jax.devices('cpu')[0]):
diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..0ae576d 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -1,5 +1,4 @@
 import functools
-import logging
 from collections import defaultdict
 from typing import Callable, ParamSpec, Sequence, TypeVar
 
@@ -21,7 +20,7 @@ from .api import (
     FwdLaplArray,
     PyTree,
 )
-from .utils import LoggingPrefix, extract_jacobian_mask, ravel
+from .utils import LoggingPrefix, extract_jacobian_mask, logger, ravel
 from .wrapped_functions import get_laplacian, wrap_forward_laplacian
 
 R = TypeVar('R', bound=PyTree[Array])
@@ -190,7 +189,7 @@ def eval_jaxpr_with_forward_laplacian(
                             )
                     except Exception as e:
                         with LoggingPrefix(f'({summarize(eqn.source_info)})'):
-                            logging.warning(
+                            logger.warning(
                                 f'Could not perform operation {eqn.primitive.name} in eager execution despite it only depending on non-input dependent values. '
                                 'We switch to tracing rather than eager execution. This may impact sparsity propagation.\n'
                                 f'{e}'
@@ -208,7 +207,7 @@ def eval_jaxpr_with_forward_laplacian(
                 outvals = eval_laplacian(eqn, invals)
         except Exception as e:
             with LoggingPrefix(f'({summarize(eqn.source_info)})'):
-                logging.error(f'Error in operation {eqn.primitive.name}.')
+                logger.error(f'Error in operation {eqn.primitive.name}.')
             raise e
 
         # unify output
@@ -240,8 +239,8 @@ def init_forward_laplacian_state(
     jac = jtu.tree_map(init_weights, weights, x)
     jac_idx = unravel(np.arange(x_flat.shape[0]))
     if jnp.iscomplexobj(x_flat):
-        logging.info(
-            '[folx] Found complex input. This is not well supported, results might be wrong.'
+        logger.info(
+            'Found complex input. This is not well supported, results might be wrong.'
         )
     if sparsity:
         jacobian = jtu.tree_map(FwdJacobian, jac, jac_idx)
diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..9e4fec3 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -1,5 +1,4 @@
 import functools
-import logging
 from typing import Sequence, TypeVar
 
 import jax
@@ -29,6 +28,7 @@ from .utils import (
     compact_repeated_dims_except,
     extend_jacobians,
     get_jacobian_for_reduction,
+    logger,
     np_concatenate_brdcast,
 )
 
@@ -78,7 +78,7 @@ def sparse_sum_jvp(
     idx = np.transpose(x_jac.x0_idx, axes_order).reshape(-1, out_size)
     idx_out = compute_outdeps(idx, axis=0)
     if idx_out.shape[0] > sparsity_threshold:
-        logging.info(
+        logger.info(
             f'Output ({idx_out.shape[0]}) reaches sparsity threshold ({sparsity_threshold}). Switching to dense.'
         )
         idx_out = None
@@ -160,7 +160,7 @@ def sparse_jvp(
 
     grad_tan, out_mask = get_jacobian_for_reduction(laplace_args.jacobian, axes)
     if out_mask.shape[JAC_DIM] > sparsity_threshold:
-        logging.info(
+        logger.info(
             f'Output ({out_mask.shape[JAC_DIM]}) reaches sparsity threshold ({sparsity_threshold}). Switching to dense.'
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
@@ -301,7 +301,7 @@ def sparse_index_jvp(
             )
             mask = jtu.tree_map(lambda x: np.asarray(x, dtype=int), mask)
     except Exception as e:
-        logging.warning(
+        logger.warning(
             f'Could not perform index operation {fwd_fn.__name__}. '
             'This is most likely due to data dependent indexing. '
             'We will default to materializing everything. Here is the caught exception:\n'
@@ -351,7 +351,7 @@ def sparse_scatter_jvp(
         lapl_y: Array = operand.laplacian  # type: ignore
         return y, grad_y, lapl_y
     if isinstance(operand, FwdLaplArray):
-        logging.info(
+        logger.info(
             'Scatter: operation on operand not supported. At the moment only segment sums are supported.'
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
@@ -362,7 +362,7 @@ def sparse_scatter_jvp(
         or dimension_numbers.scatter_dims_to_operand_dims != (0,)
         or dimension_numbers.update_window_dims != ()
     ):
-        logging.info(
+        logger.info(
             'Scatter: dimension numbers not supported. At the moment only segment sums are supported.'
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
@@ -383,7 +383,7 @@ def sparse_scatter_jvp(
         )
         out_mask = np.where(out_mask == np.iinfo(np.int32).max, -1, out_mask)
     if out_mask.shape[JAC_DIM] > sparsity_threshold:
-        logging.info(
+        logger.info(
             f'Scatter: Output ({out_mask.shape[JAC_DIM]}) reaches sparsity threshold ({sparsity_threshold}). Switching to dense.'
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..8395c57 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+from contextvars import ContextVar
 from typing import Sequence, Type, TypeVar
 
 import jax
@@ -564,29 +565,37 @@ def broadcast_mask_to_jacobian(mask: PyTree[np.ndarray], jacobian: PyTree[Array]
     return jtu.tree_map(broadcast, mask, jacobian)
 
 
-class LoggingPrefix(logging.Formatter):
+# The prefix is tracked per execution context such that concurrent callers do not
+# interfere with each other and the application's logging setup remains untouched.
+_LOGGING_PREFIX: ContextVar[str] = ContextVar('folx_logging_prefix', default='')
+
+
+class PrefixAdapter(logging.LoggerAdapter):
+    def process(self, msg, kwargs):
+        return f'[folx]{_LOGGING_PREFIX.get()} - {msg}', kwargs
+
+
+logger = PrefixAdapter(logging.getLogger('folx'), {})
+
+
+class LoggingPrefix:
+    """
+    Prefixes all messages that are logged by folx within the context.
+    """
+
     prefix: str
-    _old_handlers = None
 
     def __init__(self, prefix: str):
         self.prefix = prefix
-        super().__init__()
-
-    def format(self, record):
-        record.msg = f'{record.levelname}:[folx]{self.prefix} - {record.msg}'
-        return super().format(record)
 
     def __enter__(self):
-        logger = logging.getLogger()
-        self._old_handlers = logger.handlers
-        myHandler = logging.StreamHandler()
-        myHandler.setFormatter(self)
-        logger.handlers = [myHandler]
+        self._token = _LOGGING_PREFIX.set(self.prefix)
 
     def __exit__(self, exc_type, exc_value, traceback):
-        if exc_type is not None:
-            logging.error(
-                'Exception occurred', exc_info=(exc_type, exc_value, traceback)
-            )
-        logger = logging.getLogger()
-        logger.handlers = self._old_handlers
+        try:
+            if exc_type is not None:
+                logger.error(
+                    'Exception occurred', exc_info=(exc_type, exc_value, traceback)
+                )
+        finally:
+            _LOGGING_PREFIX.reset(self._token)
diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..add1bef 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -1,5 +1,4 @@
 import functools
-import logging
 from typing import Any, Literal, ParamSpec, TypeVar, overload
 
 import jax
@@ -24,6 +23,7 @@ from .custom_hessian import (
     div_jac_hessian_jac,
     slogdet_jac_hessian_jac,
 )
+from .utils import logger
 from .wrapper import (
     warp_without_fwd_laplacian,
     wrap_elementwise,
@@ -489,7 +489,7 @@ def get_laplacian(
         return _LAPLACE_FN_REGISTRY[primitive_or_name]
     if wrap_if_missing:
         if isinstance(primitive_or_name, Primitive):
-            logging.warning(
+            logger.warning(
                 f'{primitive_or_name} not in registry. The following call might be slow as we will compute the full hessian.'
             )
             return wrap_forward_laplacian(primitive_or_name.bind)
-- 
2.43.0


From cae9405e8cda6a1f78fe581151fbf7a77789eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 02/47] fix: do not touch the process-wide warning filters

warnings.catch_warnings is not thread-safe: overlapping callers could drop the
filters of the application or leave ComplexWarning ignored for good. Take the
real part explicitly, then no warning has to be suppressed.
---
 folx/wrapper.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..aea7008 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -1,9 +1,8 @@
 import functools
-import warnings
 from typing import Any, ParamSpec, TypeVar
 
 import jax
-from jax.numpy import ComplexWarning
+import jax.numpy as jnp
 
 from .api import (
     IS_LPL_ARR,
@@ -126,14 +125,14 @@ def wrap_forward_laplacian(
         # TODO: The type casting is a temporary fix. For functions mapping from complex
         # to reals, this might be wrong. It is guaranteed to be correct if complex numbers
         # only occur in intermediate steps.
-        with warnings.catch_warnings():
-            warnings.simplefilter('ignore', ComplexWarning)
-            return jax.tree_util.tree_map(
-                lambda x, jac, lapl: FwdLaplArray(x, jac, lapl).astype(x.dtype),
-                y,
-                grad_y,
-                lapl_y,
-            )
+        # We take the real part explicitly instead of suppressing the ComplexWarning since
+        # the warning filters are shared with all other threads of the process.
+        def cast(x, jac, lapl):
+            if not jnp.iscomplexobj(x):
+                jac, lapl = jac.real, lapl.real
+            return FwdLaplArray(x, jac, lapl).astype(x.dtype)
+
+        return jax.tree_util.tree_map(cast, y, grad_y, lapl_y)
 
     return new_fn
 
-- 
2.43.0


From be1918fe4f73ce8c8db90d74e8b5ffef68d417a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 03/47] fix: look up the registry once in get_laplacian

Between the membership test and the lookup another thread could deregister the
function, which surfaced as a KeyError in an unrelated forward_laplacian call.
---
 folx/wrapped_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index add1bef..47f1ded 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -485,8 +485,9 @@ def get_laplacian(
         primitive_or_name: The primitive or function name.
         wrap_if_missing: If True, wrap the function in a forward laplacian if it s not registered.
     """
-    if is_registered(primitive_or_name):
-        return _LAPLACE_FN_REGISTRY[primitive_or_name]
+    # A single lookup since another thread may deregister the function at any time.
+    if (laplacian := _LAPLACE_FN_REGISTRY.get(primitive_or_name)) is not None:
+        return laplacian
     if wrap_if_missing:
         if isinstance(primitive_or_name, Primitive):
             logger.warning(
-- 
2.43.0


From ee5c540056dc8116d47641b19fca17e0efa7c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 04/47] fix: loop and parallel operators return the Laplacian

They returned the vector of second derivatives instead of its sum, and the
parallel operator evaluated f on the flattened instead of the given input.
---
 folx/operators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..7bf3bfd 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -57,7 +57,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return laplacian.sum(), jacobian
 
         return laplacian
 
@@ -67,13 +67,18 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From 0cef2df3891d9d306477108b0f8face953b64e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 05/47] fix: do not capture the process-wide stdout in
 compute_memory

compute_memory swapped sys.stdout and parsed its last line to get the result of
the shape evaluation. With several threads the output of one ended up in (or
was parsed by) another one, and sys.stdout could stay replaced for good.
---
 folx/experimental/memory.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..a2c6644 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -1,7 +1,5 @@
 import functools
-import sys
 from collections import defaultdict
-from io import StringIO
 from typing import Sequence
 
 import jax
@@ -156,20 +154,7 @@ def _compute_jaxpr_memory(
 
     if return_result:
         return env.read_many(jaxpr.outvars), peak_memory, all_tensors
-    print(peak_memory)
-    return None
-
-
-class Capturing(list):  # Utility that captured the stdout of a function
-    def __enter__(self):
-        self._stdout = sys.stdout
-        sys.stdout = self._stringio = StringIO()
-        return self
-
-    def __exit__(self, *args):
-        self.extend(self._stringio.getvalue().splitlines())
-        del self._stringio  # free up some memory
-        sys.stdout = self._stdout
+    return peak_memory
 
 
 def compute_memory(
@@ -207,13 +192,11 @@ def compute_memory(
     # remove statics
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
     # Here we abuse the eval_shape function to avoid actually computing something.
-    # Instead the function prints to correct usage
-    with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+    # The peak memory is a static number that we pass around the shape evaluation.
+    peak_memory = []
 
-    # Print everything except the last line
-    if len(output) > 1:
-        print('\n'.join(output[:-1]))
+    def trace(*flat_args):
+        peak_memory.append(fn(*flat_args))
 
-    # Return the last line
-    return int(output[-1])
+    jax.eval_shape(trace, *jtu.tree_leaves(args))
+    return int(peak_memory[-1])
-- 
2.43.0


From c0282470b2dbb1607b60dffd3513c8302156f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 06/47] fix: compute_memory with keyword arguments and scans
 without inputs

Array keyword arguments are inputs of the jaxpr but were not passed on, and the
length of a scan was taken from its first scanned input, which may not exist.
---
 folx/experimental/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index a2c6644..79393b2 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -117,7 +117,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
@@ -198,5 +198,5 @@ def compute_memory(
     def trace(*flat_args):
         peak_memory.append(fn(*flat_args))
 
-    jax.eval_shape(trace, *jtu.tree_leaves(args))
+    jax.eval_shape(trace, *jtu.tree_leaves((args, kwargs)))
     return int(peak_memory[-1])
-- 
2.43.0


From 1b4919b8c5090485f8306351d7068f0ac1ea5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 07/47] fix: auto_batched_vmap on devices without memory
 statistics

The documented fallback to batch size 1 did not cover devices that report no
memory limit (e.g. CPUs), where already the decoration raised a TypeError, and
itself raised for callables without a name.
---
 folx/experimental/vmap.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index f2b4a22..e2695ad 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -33,14 +33,15 @@ def auto_batched_vmap(
     Returns:
         The batched function.
     """
-    mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
-    target_mem = mem * max_fraction
-
     vmapped_fn = functools.partial(batched_vmap, fn, in_axes=in_axes, out_axes=out_axes)
 
     @functools.wraps(fn)
     def result(*args, **kwargs):
         try:
+            # Not all devices report memory statistics.
+            mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
+            target_mem = mem * max_fraction
+
             single_fn = vmapped_fn(max_batch_size=1)
             pair_fn = vmapped_fn(max_batch_size=2)
             with jax.ensure_compile_time_eval():
@@ -66,7 +67,7 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logger.warning(f'Failed to auto batch {fn.__name__}: {e}')
+            logger.warning(f'Failed to auto batch {getattr(fn, "__name__", fn)}: {e}')
             logger.warning('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
-- 
2.43.0


From e64c11f8bb634429587c477c906dca499b3cdecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 08/47] fix: layout of jacobians of scan outputs

The stacked outputs of a scan kept the scan axis in front of the jacobian axis
(and the index of a single step), i.e., the derivatives of everything computed
from them were wrong or failed due to their shapes.
---
 folx/interpreter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 0ae576d..be58bac 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -14,6 +14,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -127,8 +128,18 @@ def eval_jaxpr_with_forward_laplacian(
             else a
             for a, b in zip(carry, first_carry)
         ]
+
+        # The scan stacks everything along the first axis, but for jacobians this must
+        # be the first axis after the jacobian dimension.
+        def stack_jacobian(jac: FwdJacobian, first: FwdJacobian):
+            data = jnp.moveaxis(jac.data, 0, JAC_DIM + 1)
+            if jac.x0_idx is None:
+                return FwdJacobian(data)
+            x0_idx = np.expand_dims(first.x0_idx, JAC_DIM + 1)  # type: ignore
+            return FwdJacobian(data, np.broadcast_to(x0_idx, data.shape))
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=stack_jacobian(a.jacobian, b.jacobian))
             if isinstance(a, FwdLaplArray)
             else a
             for a, b in zip(y, first_y)
-- 
2.43.0


From c22a54012a406baedeb1097d7ab43aaaed2f9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 09/47] fix: scans with carries that do not depend on the input

The type check compared the array types of the carries (literal, concrete array
or tracer) although only FwdLaplArrays have to match, so every fori_loop failed.
---
 folx/interpreter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index be58bac..8bb6686 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -90,6 +90,13 @@ def eval_jaxpr_with_forward_laplacian(
             invals[n_const : n_carry + n_const],
             invals[n_const + n_carry :],
         )
+        # Initial carries may be literals, e.g., the counter of a fori_loop.
+        in_carry = [
+            x
+            if isinstance(x, (FwdLaplArray, Array))
+            else jnp.asarray(x, dtype=v.aval.dtype)
+            for x, v in zip(in_carry, eqn.invars[n_const:])
+        ]
         carry_merge = extract_jacobian_mask(in_carry)
         assert all(
             isinstance(x, Array) for x in in_inp
@@ -109,7 +116,7 @@ def eval_jaxpr_with_forward_laplacian(
         first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
+            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-- 
2.43.0


From 18a671bb1c8b8d28c73f0d283ca1f0fa78c62136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 10/47] fix: sparse jacobians of functions with several outputs

Primitives that return lists (custom_jvp, remat, sort, ...) failed when sparsity
is enabled: the output mask was only attached to single arrays and the results
of several arguments were concatenated instead of added.
---
 folx/jvp.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 9e4fec3..d6b555d 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -1,4 +1,5 @@
 import functools
+import operator
 from typing import Sequence, TypeVar
 
 import jax
@@ -180,10 +181,13 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
+    # The function may have several outputs
+    def add_mask(grad):
+        mask = broadcast_mask_to_jacobian(out_mask, grad)
+        assert grad.shape == mask.shape, f'{grad.shape} != {mask.shape}'
+        return FwdJacobian(grad, mask)
 
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
+    grad_y = jtu.tree_map(add_mask, grad_y)
     return y, grad_y, lapl_y
 
 
@@ -560,8 +564,13 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                grad = jtu.tree_map(
+                    operator.add,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = jtu.tree_map(operator.add, lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 97013a15aa7be9cd3843b74fffc7918f58b01707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 11/47] fix: argmax and argmin of input dependent arrays

Their integer outputs have no derivatives, so the default wrapper failed.
---
 folx/wrapped_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 47f1ded..1e4d7a4 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -431,6 +431,8 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.and_p: warp_without_fwd_laplacian(jax.lax.bitwise_and),
     jax.lax.or_p: warp_without_fwd_laplacian(jax.lax.bitwise_or),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
+    jax.lax.argmax_p: warp_without_fwd_laplacian(jax.lax.argmax_p.bind),
+    jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.convert_element_type_p: dtype_conversion,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
-- 
2.43.0


From e9448491bab0579b41a25bd4cad6052738c74aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 12/47] fix: scan over numpy constants

Constants of the traced function are numpy arrays, these were mistaken for
input dependent tensors.
---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 8bb6686..04cbfe6 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -99,7 +99,7 @@ def eval_jaxpr_with_forward_laplacian(
         ]
         carry_merge = extract_jacobian_mask(in_carry)
         assert all(
-            isinstance(x, Array) for x in in_inp
+            not isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
         def wrapped(carry, x):
-- 
2.43.0


From 5a2e46f61ebfe5b25c46825083707058278d7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 13/47] fix: sparse dot products with batch dimensions of size
 1

The output indices miss the dimensions that are 1 in all arrays, so they did
not match the arrays from which the non-zero entries were picked.
---
 folx/hessian.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 54a68c0..fce16d2 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -259,14 +259,19 @@ def remove_zero_entries(
     if dense_out:
         return lapl_args, out_idx, None
 
-    mask = (out_idx != -1).any(0)
+    # out_idx misses the dimensions that are 1 in all arrays
+    batch_shape = np.broadcast_shapes(*(a.x.shape[:-1] for a in lapl_args.arrays))
+    mask = (out_idx != -1).any(0).reshape(batch_shape)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = out_idx.reshape(-1, *batch_shape)[(slice(None), *indices)]
+    if new_mat_idx.shape[-1] == 1:
+        # Dimensions of size 1 are not vmapped
+        new_mat_idx = new_mat_idx[..., 0]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
-- 
2.43.0


From 5b08445063669226650bb776ef936bf5a141559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 14/47] fix: sparse dot products of arrays with different
 dimensions

The shortcut that multiplies the arrays without rearranging them summed over
the dimensions of the left array although the product may have more, and did
not check that the result has the order of dimensions of a dot_general. E.g.,
with sparsity x[0] @ x.T returned x.sum(0)-like contractions or had wrong shapes.
---
 folx/wrapped_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 1e4d7a4..28a8950 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,19 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and (lh_brdcast_dims == () or rh_brdcast_dims == ())
+            and (lh_batch_dims == () or lh_brdcast_dims == rh_brdcast_dims)
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that at most one of them has brdcast dims
+            # * check that there are no brdcast dims in front of batch dims
+            #   as the batch dims come first in the output.
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From 6ade33a07a7aeae6566d44e660fa75ee0bd1765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 15/47] fix: sparse elementwise jvps of functions with several
 outputs

As for reductions, the output mask has to be attached to every output.
---
 folx/jvp.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index d6b555d..32d37a7 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -243,16 +243,22 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
+    # The function may have several outputs.
+    def add_mask(grad):
+        mask = broadcast_mask_to_jacobian(result_mask, grad)
+        assert grad.shape == mask.shape, f'{grad.shape} != {mask.shape}'
+        return FwdJacobian(grad, mask)
 
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    grad_y = jtu.tree_map(add_mask, grad_y)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From b3e5ab3500e2c6d14a15f7a343366003356782da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 16/47] fix: sparse jacobian of a scatter with dense updates

x.at[i].set(y) kept the jacobian of the replaced elements of x if only the
jacobian of x is sparse: the shortcut for constant updates holds for scatter_add
but not for scatter.
---
 folx/jvp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 32d37a7..5351e6a 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -354,7 +354,12 @@ def sparse_scatter_jvp(
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
     if isinstance(scatter_indices, FwdLaplArray):
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
-    if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
+    if (
+        not isinstance(updates, FwdLaplArray)
+        and FunctionFlags.LINEAR in flags
+        and FunctionFlags.INDEXING not in flags
+    ):
+        # The updates are only added, i.e., no element of the operand is replaced.
         # operand must be a fwdlapl array by exclusion since at least one has to be.
         y: Array = fwd(*laplace_args.x)  # type: ignore
         grad_y: FwdJacobian = operand.jacobian  # type: ignore
-- 
2.43.0


From fc697b470fb1d2d439d74a857d7f0b1323430fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/47] fix: sum of sparse jacobians with different numbers of
 entries

Comparing index arrays of different shapes raises an error (or compares the
broadcasted arrays).
---
 folx/api.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..1f1fa8d 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,11 +213,8 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
-            return FwdJacobian(
-                self.data + other.data,
-                np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-            )  # type: ignore
+        if np.array_equal(self.x0_idx, other.x0_idx):  # type: ignore
+            return FwdJacobian(self.data + other.data, self.x0_idx)
         return FwdJacobian(
             data=jnp.concatenate((self.data, other.data), axis=JAC_DIM),
             x0_idx=np.concatenate((self.x0_idx, other.x0_idx), axis=JAC_DIM),  # type: ignore
-- 
2.43.0


From fd50e08f11a05abd68c0bd90ef5b703b58c15c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 18/47] fix: materializing sparse jacobians with traced masks

Dot products of a sparse and a dense jacobian failed under jit since the static
output indices were matched with an already traced mask at trace time.
---
 folx/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 1f1fa8d..236dffc 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,8 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        # The mask may be traced by a surrounding transformation.
+        if isinstance(outputs, np.ndarray) and not isinstance(mask, jax.core.Tracer):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
-- 
2.43.0


From f05cbc8487de5a5ee8493d0eaa87d2ca1d169aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 19/47] fix: output mask of sparse scatters

The mask only had as many elements as the largest index instead of one for every
element of the operand.
---
 folx/jvp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 5351e6a..00a7d02 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -387,7 +387,11 @@ def sparse_scatter_jvp(
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
         ).sum(0)
-        out_mask = np.array(jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0]))
+        out_mask = np.array(
+            jax.ops.segment_sum(
+                one_hot_mask, scatter_indices[:, 0], num_segments=operand.shape[0]
+            )
+        )
         max_out = np.sum(out_mask.astype(bool), axis=-1).max()
         out_mask = np.where(
             out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
-- 
2.43.0


From 3757086e6edb1cf9d61c2468dbe5c8a77b9ffee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 20/47] fix: linear solves with sparse jacobians

---
 folx/wrapped_functions.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 28a8950..805f0af 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -264,6 +264,20 @@ def slogdet_wrapper(
     return sign, logdet
 
 
+def linear_solve(
+    args: tuple[ArrayOrFwdLaplArray, ...],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int,
+):
+    # The solve comes with a factorization of the matrix. JAX does not support jvps
+    # with respect to the factorization alone. So, we have to propagate the tangents
+    # of all arguments jointly, i.e., with dense jacobians.
+    args = tuple(a.dense if isinstance(a, FwdLaplArray) else a for a in args)
+    return wrap_forward_laplacian(
+        jax.lax.linear_solve_p.bind, name='custom_linear_solve'
+    )(args, kwargs, sparsity_threshold)  # type: ignore
+
+
 @jax.custom_jvp
 def complex_abs(x):
     return jnp.abs(x)
@@ -439,6 +453,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.argmax_p: warp_without_fwd_laplacian(jax.lax.argmax_p.bind),
     jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.convert_element_type_p: dtype_conversion,
+    jax.lax.linear_solve_p: linear_solve,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
     'sigmoid': wrap_forward_laplacian(jax.nn.sigmoid, in_axes=()),
-- 
2.43.0


From 15b14bb00738a92188855ef07f4f54f0600b8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 21/47] fix: error message of scans that change the number of
 jacobian entries

---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 04cbfe6..87b6275 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -119,7 +119,7 @@ def eval_jaxpr_with_forward_laplacian(
             if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
-                if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
+                if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
                     raise ValueError('Jacobian sparsity mismatch in scan.')
         carry, y = jax.lax.scan(
             wrapped,  # type: ignore
-- 
2.43.0


From 345f833006856bcb39a5815e8246469f50b6b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 22/47] fix: keyword arguments of forward_laplacian

---
 folx/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 87b6275..e4ba9cf 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -313,6 +313,8 @@ def forward_laplacian(
             closed_jaxpr.jaxpr,
             closed_jaxpr.literals,
             *lapl_args,
+            # Keyword arguments are constants
+            *jtu.tree_leaves(kwargs),
             sparsity_threshold=threshold,
         )
         out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
-- 
2.43.0


From ba6c317bd7e9428001fdcad5589ddf1c4ef20bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 23/47] fix: weights of nested arguments

---
 folx/interpreter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e4ba9cf..ca7aa95 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -306,6 +306,14 @@ def forward_laplacian(
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
             threshold = int(sparsity_threshold)
+        # The weights may be a prefix of the arguments
+        if weights is not None:
+            flat_weights, prefix = jtu.tree_flatten(weights)
+            weights = tuple(
+                w
+                for w, arg in zip(flat_weights, prefix.flatten_up_to(args))
+                for _ in jtu.tree_leaves(arg, is_leaf=IS_LEAF)
+            )
         lapl_args = init_forward_laplacian_state(
             *flat_args, sparsity=threshold > 0, weights=weights
         )
-- 
2.43.0


From 9a93608e990da711a3de92d6b52336ee56208c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 24/47] fix: forward operator under jit, for constants and
 partial dependencies

---
 folx/operators.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 7bf3bfd..144c3f6 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import Array
+from .api import JAC_DIM, Array, FwdLaplArray
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -29,11 +29,22 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # The sparsity pattern is only static within the jit
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            if not isinstance(result, FwdLaplArray):
+                # f does not depend on x
+                result = jnp.asarray(result)
+                jacobian = jnp.zeros((x.size, *result.shape), result.dtype)
+                return jnp.zeros_like(result), jacobian
+            # Sparse jacobians do not include trailing inputs f does not depend on
+            jacobian = result.jacobian.dense_array
+            padding = [(0, 0)] * jacobian.ndim
+            padding[JAC_DIM] = (0, x.size - jacobian.shape[JAC_DIM])
+            return result.laplacian, jnp.pad(jacobian, padding)
 
         return lap
 
-- 
2.43.0


From fdabccb390a827ba263652741d11a4a96231717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 25/47] fix: keyword arguments in auto_batched_vmap

---
 folx/experimental/vmap.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index e2695ad..48443da 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -42,20 +42,19 @@ def auto_batched_vmap(
             mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
             target_mem = mem * max_fraction
 
-            single_fn = vmapped_fn(max_batch_size=1)
-            pair_fn = vmapped_fn(max_batch_size=2)
+            # Keyword arguments are static for batched_vmap
+            single_fn = functools.partial(vmapped_fn(max_batch_size=1), **kwargs)
+            pair_fn = functools.partial(vmapped_fn(max_batch_size=2), **kwargs)
             with jax.ensure_compile_time_eval():
                 single_cost = compute_memory(
                     single_fn,
                     *args,
                     static_argnums=static_argnums,
-                    **kwargs,
                 )
                 pair_cost = compute_memory(
                     pair_fn,
                     *args,
                     static_argnums=static_argnums,
-                    **kwargs,
                 )
             element_cost = pair_cost - single_cost
             base_cost = single_cost - element_cost
-- 
2.43.0


From 1bed7f044be9ecb7d52ee32747129f456a7cfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 26/47] fix: compute_memory frees arguments that are used twice
 only once

---
 folx/experimental/memory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 79393b2..b25c589 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -74,6 +74,8 @@ class MemoryExprEnvironment:
         if self.reference_counter[var] == 0:
             v = jnp.asarray(val)
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
+            # An operation may use the same variable several times
+            self.reference_counter[var] = -1
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
         safe_map(self._free_memory, vars, vals)
-- 
2.43.0


From 7e3aff0d04cbe6c1ebe98763b6b40033c42fed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 27/47] fix: auto_batched_vmap if more rows at once need less
 memory

---
 folx/experimental/vmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index 48443da..b00ef4d 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -59,7 +59,7 @@ def auto_batched_vmap(
             element_cost = pair_cost - single_cost
             base_cost = single_cost - element_cost
 
-            if element_cost == 0:
+            if element_cost <= 0:
                 max_samples = 2147483648
             else:
                 max_samples = int((target_mem - base_cost) // element_cost)
-- 
2.43.0


From 32651a639bceb47addc75d6f4b86587e4660ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 28/47] fix: operations with Python scalars as arguments

---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index ca7aa95..c0e15c7 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -58,7 +58,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars, e.g., in lax.pow(x, 2.5).
+            return np.asarray(var.val, dtype=var.aval.dtype)
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From a59358a9b7bf5b529884d19a66a1763f0dc86fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 29/47] fix: operations with integer or boolean outputs

---
 folx/interpreter.py       |  5 +++--
 folx/wrapped_functions.py |  3 ++-
 folx/wrapper.py           | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index c0e15c7..45388e4 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -22,7 +22,8 @@ from .api import (
     PyTree,
 )
 from .utils import LoggingPrefix, extract_jacobian_mask, logger, ravel
-from .wrapped_functions import get_laplacian, wrap_forward_laplacian
+from .wrapped_functions import get_laplacian
+from .wrapper import wrap_differentiable_outputs
 
 R = TypeVar('R', bound=PyTree[Array])
 P = ParamSpec('P')
@@ -174,7 +175,7 @@ def eval_jaxpr_with_forward_laplacian(
         subfuns, args = eqn.primitive.get_bind_params(eqn.params)
         fn = functools.partial(eqn.primitive.bind, *subfuns, **args)
         with LoggingPrefix(f'({summarize(eqn.source_info)})'):
-            return wrap_forward_laplacian(fn)(
+            return wrap_differentiable_outputs(fn)(
                 invals, {}, sparsity_threshold=sparsity_threshold
             )
 
diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 805f0af..481c79a 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -26,6 +26,7 @@ from .custom_hessian import (
 from .utils import logger
 from .wrapper import (
     warp_without_fwd_laplacian,
+    wrap_differentiable_outputs,
     wrap_elementwise,
     wrap_forward_laplacian,
 )
@@ -515,7 +516,7 @@ def get_laplacian(
             logger.warning(
                 f'{primitive_or_name} not in registry. The following call might be slow as we will compute the full hessian.'
             )
-            return wrap_forward_laplacian(primitive_or_name.bind)
+            return wrap_differentiable_outputs(primitive_or_name.bind)
         else:
             raise TypeError(f"Can't wrap {primitive_or_name} based on function names.")
     return None
diff --git a/folx/wrapper.py b/folx/wrapper.py
index aea7008..4096cda 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -137,6 +137,41 @@ def wrap_forward_laplacian(
     return new_fn
 
 
+def wrap_differentiable_outputs(fn: ForwardFn) -> ForwardLaplacian:
+    """
+    Add forward Laplacian functionality to a function of which some outputs may be
+    integers or booleans. Such outputs have no derivatives and are returned as regular arrays.
+    """
+
+    def wrapped(args, kwargs, sparsity_threshold: int):
+        x = jax.tree_util.tree_map(
+            lambda a: a.x if isinstance(a, FwdLaplArray) else a,
+            args,
+            is_leaf=IS_LPL_ARR,
+        )
+        out, structure = jax.tree_util.tree_flatten(
+            jax.eval_shape(lambda: fn(*x, **kwargs))
+        )
+        mask = [jnp.issubdtype(o.dtype, jnp.inexact) for o in out]
+        if all(mask):
+            return wrap_forward_laplacian(fn)(args, kwargs, sparsity_threshold)
+
+        y = jax.tree_util.tree_leaves(fn(*x, **kwargs))
+        if any(mask):
+
+            def differentiable(*args, **kwargs):
+                leaves = jax.tree_util.tree_leaves(fn(*args, **kwargs))
+                return [l for l, m in zip(leaves, mask) if m]
+
+            lapl_y = iter(
+                wrap_forward_laplacian(differentiable)(args, kwargs, sparsity_threshold)
+            )
+            y = [next(lapl_y) if m else l for l, m in zip(y, mask)]
+        return structure.unflatten(y)
+
+    return wrapped
+
+
 def warp_without_fwd_laplacian(fn) -> ForwardLaplacian:
     """
     Decorator that removes the Laplacian state from the arguments of a function.
-- 
2.43.0


From 3f21fd98fba27660f866c1cda8961a489ddea44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 30/47] fix: empty intermediate arrays

---
 folx/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 45388e4..ef45295 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -188,7 +188,11 @@ def eval_jaxpr_with_forward_laplacian(
             )
 
     for eqn in jaxpr.eqns:
-        invals = env.read_many(eqn.invars)
+        # Empty arrays, e.g., in the tails of associative scans, do not depend on anything.
+        invals = [
+            x.x if isinstance(x, FwdLaplArray) and x.x.size == 0 else x
+            for x in env.read_many(eqn.invars)
+        ]
         # Eval expression
         try:
             if all(not isinstance(x, FwdLaplArray) for x in invals):
-- 
2.43.0


From 38e1351ff63c2b1ce30d5d438cacf3445515d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 31/47] fix: empty results of operations without a rule

---
 folx/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 4096cda..ed5da52 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -140,7 +140,7 @@ def wrap_forward_laplacian(
 def wrap_differentiable_outputs(fn: ForwardFn) -> ForwardLaplacian:
     """
     Add forward Laplacian functionality to a function of which some outputs may be
-    integers or booleans. Such outputs have no derivatives and are returned as regular arrays.
+    integers, booleans or empty. Such outputs have no derivatives and are returned as regular arrays.
     """
 
     def wrapped(args, kwargs, sparsity_threshold: int):
@@ -152,7 +152,7 @@ def wrap_differentiable_outputs(fn: ForwardFn) -> ForwardLaplacian:
         out, structure = jax.tree_util.tree_flatten(
             jax.eval_shape(lambda: fn(*x, **kwargs))
         )
-        mask = [jnp.issubdtype(o.dtype, jnp.inexact) for o in out]
+        mask = [jnp.issubdtype(o.dtype, jnp.inexact) and o.size > 0 for o in out]
         if all(mask):
             return wrap_forward_laplacian(fn)(args, kwargs, sparsity_threshold)
 
-- 
2.43.0


From ba6d6cdd9559374260c978246792a1637fe57378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 32/47] fix: empty extra arguments of operations without a rule

---
 folx/utils.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/folx/utils.py b/folx/utils.py
index 8395c57..9989217 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -187,16 +187,11 @@ def vmap_sequence(
 
 def remove_axes(arr: Array, axes: Array):
     """
-    Removes the given axes from the given array by picking the
-    first element along the given axes.
+    Returns the shape and dtype of the given array without the given axes.
+    These axes may be empty.
     """
-    idx: list[slice | int] = []
-    for i in range(arr.ndim):
-        if i not in axes:
-            idx.append(slice(None))
-        else:
-            idx.append(0)
-    return arr[tuple(idx)]
+    shape = tuple(s for i, s in enumerate(arr.shape) if i not in axes)
+    return jax.ShapeDtypeStruct(shape, arr.dtype)
 
 
 def vmap_sequences(arrs: PyTree[Array], in_axes: Axes) -> list[PyTree[Axes]]:
-- 
2.43.0


From 074f0fcc5d7997acc387dd6041217dda50854b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 33/47] fix: scans evaluate their body only once

The sparsity patterns came from a separate evaluation of the body, which may
differ from the one in the scan, e.g., if rules are replaced concurrently or the
pattern depends on the loop index.
---
 folx/interpreter.py | 61 ++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index ef45295..48318e9 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -104,7 +104,17 @@ def eval_jaxpr_with_forward_laplacian(
             not isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
+        # The sparsity patterns are not part of the scanned values, we keep the ones
+        # of the outputs from the very trace that computes the outputs.
+        out_merge: Callable = list
+
+        def drop_mask(x: ArrayOrFwdLaplArray):
+            if isinstance(x, FwdLaplArray):
+                return x._replace(jacobian=FwdJacobian(x.jacobian.data))
+            return x
+
         def wrapped(carry, x):
+            nonlocal out_merge
             result = eval_jaxpr_with_forward_laplacian(
                 eqn.params['jaxpr'].jaxpr,
                 (),
@@ -113,45 +123,44 @@ def eval_jaxpr_with_forward_laplacian(
                 *x,
                 sparsity_threshold=sparsity_threshold,
             )
+            # Check whether jacobian sparsity matches
+            for a, b in zip(in_carry, result):
+                if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
+                    raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
+                if isinstance(a, FwdLaplArray):
+                    if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
+                        raise ValueError('Jacobian sparsity mismatch in scan.')
+            out_merge = extract_jacobian_mask(result)
+            result = safe_map(drop_mask, result)
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
-        # Check whether jacobian sparsity matches
-        for a, b in zip(in_carry, first_carry):
-            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
-                raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
-            if isinstance(a, FwdLaplArray):
-                if not np.array_equal(a.jacobian.x0_idx, b.jacobian.x0_idx):  # type: ignore
-                    raise ValueError('Jacobian sparsity mismatch in scan.')
-        carry, y = jax.lax.scan(
-            wrapped,  # type: ignore
-            in_carry,
-            in_inp,
-            length=eqn.params['length'],
-            reverse=eqn.params['reverse'],
-            unroll=eqn.params['unroll'],
-        )
-        carry = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
-            if isinstance(a, FwdLaplArray)
-            else a
-            for a, b in zip(carry, first_carry)
-        ]
+        # Without tracing, the sparsity patterns could change between the iterations.
+        with jax.disable_jit(False):
+            carry, y = jax.lax.scan(
+                wrapped,  # type: ignore
+                safe_map(drop_mask, in_carry),
+                in_inp,
+                length=eqn.params['length'],
+                reverse=eqn.params['reverse'],
+                unroll=eqn.params['unroll'],
+            )
+        result = out_merge([*carry, *y])
+        carry, y = result[:n_carry], result[n_carry:]
 
         # The scan stacks everything along the first axis, but for jacobians this must
         # be the first axis after the jacobian dimension.
-        def stack_jacobian(jac: FwdJacobian, first: FwdJacobian):
+        def stack_jacobian(jac: FwdJacobian):
             data = jnp.moveaxis(jac.data, 0, JAC_DIM + 1)
             if jac.x0_idx is None:
                 return FwdJacobian(data)
-            x0_idx = np.expand_dims(first.x0_idx, JAC_DIM + 1)  # type: ignore
+            x0_idx = np.expand_dims(jac.x0_idx, JAC_DIM + 1)
             return FwdJacobian(data, np.broadcast_to(x0_idx, data.shape))
 
         y = [
-            a._replace(jacobian=stack_jacobian(a.jacobian, b.jacobian))
+            a._replace(jacobian=stack_jacobian(a.jacobian))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(y, first_y)
+            for a in y
         ]
         return *carry, *y
 
-- 
2.43.0


From b82250b129e88a0a05d38388edf144c63656287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 34/47] fix: scans over Jacobians of different sizes or with
 masks of a jitted function

The masks of triples returned by jitted functions are jax arrays, which must be
converted before the body is traced. Dense Jacobians may be trimmed, but the
carry of a scan must keep its size.
---
 folx/interpreter.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 48318e9..61157d5 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -99,6 +99,36 @@ def eval_jaxpr_with_forward_laplacian(
             else jnp.asarray(x, dtype=v.aval.dtype)
             for x, v in zip(in_carry, eqn.invars[n_const:])
         ]
+
+        # The body is traced, so its sparsity patterns must be numpy arrays.
+        def static_mask(x: ArrayOrFwdLaplArray):
+            if isinstance(x, FwdLaplArray) and x.jacobian.x0_idx is not None:
+                x0_idx = np.asarray(x.jacobian.x0_idx)
+                return x._replace(jacobian=x.jacobian._replace(x0_idx=x0_idx))
+            return x
+
+        in_const = safe_map(static_mask, in_const)
+        in_carry = safe_map(static_mask, in_carry)
+        # Dense Jacobians may have different sizes, but the carries must keep theirs.
+        n_dense = max(
+            [
+                x.jacobian.max_n + x.jacobian.weak
+                for x in (*in_const, *in_carry)
+                if isinstance(x, FwdLaplArray)
+            ],
+            default=0,
+        )
+
+        def pad_dense(x: ArrayOrFwdLaplArray):
+            if isinstance(x, FwdLaplArray) and not x.jacobian.weak:
+                data = x.jacobian.data
+                if (missing := n_dense - data.shape[JAC_DIM]) > 0:
+                    pad = [(0, 0)] * data.ndim
+                    pad[JAC_DIM] = (0, missing)
+                    return x._replace(jacobian=FwdJacobian(jnp.pad(data, pad)))
+            return x
+
+        in_carry = safe_map(pad_dense, in_carry)
         carry_merge = extract_jacobian_mask(in_carry)
         assert all(
             not isinstance(x, FwdLaplArray) for x in in_inp
@@ -123,6 +153,7 @@ def eval_jaxpr_with_forward_laplacian(
                 *x,
                 sparsity_threshold=sparsity_threshold,
             )
+            result = safe_map(pad_dense, result)
             # Check whether jacobian sparsity matches
             for a, b in zip(in_carry, result):
                 if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
-- 
2.43.0


From 05fe6c48acdfe0d0dabf665c0624fd0cb73b086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 35/47] fix: batched_vmap with outputs that are the same for
 all rows (out_axes None)

---
 folx/vmap.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..df0fa45 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -57,27 +57,36 @@ def batched_vmap(
             leading_args,
         )
 
+        # Outputs with an axis of None are the same for all rows.
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
         vmapped_fn = jax.vmap(
-            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))), in_axes=0, out_axes=0
+            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))),
+            in_axes=0,
+            out_axes=out_tree.unflatten([None if a is None else 0 for a in out_axes_flat]),
         )
 
         def inner(carry, x):
-            return carry, vmapped_fn(x)
+            return carry, out_tree.flatten_up_to(vmapped_fn(x))
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(lambda x: x.reshape(-1, *x.shape[2:]), result)
+        result = [
+            jtu.tree_map(lambda x: x[0] if ax is None else x.reshape(-1, *x.shape[2:]), r)
+            for r, ax in zip(result, out_axes_flat)
+        ]
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
-            remainder_result = vmapped_fn(remainder_args)
-            result = jtu.tree_map(
-                lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
-            )
+            remainder_result = out_tree.flatten_up_to(vmapped_fn(remainder_args))
+            result = [
+                x
+                if ax is None
+                else jtu.tree_map(lambda x, r: jnp.concatenate([r, x], axis=0), x, r)
+                for x, r, ax in zip(result, remainder_result, out_axes_flat)
+            ]
 
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
-        result = tuple(
-            jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
-            for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
-        )
+        result = [
+            r if ax is None else jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            for r, ax in zip(result, out_axes_flat)
+        ]
         return out_tree.unflatten(result)
 
     return result
-- 
2.43.0


From 8d4a170562213db6871ed39377c97d36414c9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 36/47] fix: reports of exceptions that cannot be converted to
 text

---
 folx/experimental/vmap.py |  6 ++++--
 folx/interpreter.py       | 10 ++++++++--
 folx/jvp.py               |  3 ++-
 folx/utils.py             |  8 ++++++++
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index b00ef4d..8dae7ca 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Sequence, TypeVar
 
 import jax
 
-from folx.utils import logger
+from folx.utils import describe_exception, logger
 from folx.vmap import batched_vmap
 
 from .memory import compute_memory
@@ -66,7 +66,9 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logger.warning(f'Failed to auto batch {getattr(fn, "__name__", fn)}: {e}')
+            logger.warning(
+                f'Failed to auto batch {getattr(fn, "__name__", fn)}: {describe_exception(e)}'
+            )
             logger.warning('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
diff --git a/folx/interpreter.py b/folx/interpreter.py
index 61157d5..df2ab5a 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -21,7 +21,13 @@ from .api import (
     FwdLaplArray,
     PyTree,
 )
-from .utils import LoggingPrefix, extract_jacobian_mask, logger, ravel
+from .utils import (
+    LoggingPrefix,
+    describe_exception,
+    extract_jacobian_mask,
+    logger,
+    ravel,
+)
 from .wrapped_functions import get_laplacian
 from .wrapper import wrap_differentiable_outputs
 
@@ -256,7 +262,7 @@ def eval_jaxpr_with_forward_laplacian(
                             logger.warning(
                                 f'Could not perform operation {eqn.primitive.name} in eager execution despite it only depending on non-input dependent values. '
                                 'We switch to tracing rather than eager execution. This may impact sparsity propagation.\n'
-                                f'{e}'
+                                f'{describe_exception(e)}'
                             )
                         outvals = eqn.primitive.bind(*subfuns, *invals, **bind_params)
                 else:
diff --git a/folx/jvp.py b/folx/jvp.py
index 00a7d02..b7863f9 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -27,6 +27,7 @@ from .utils import (
     broadcast_except,
     broadcast_mask_to_jacobian,
     compact_repeated_dims_except,
+    describe_exception,
     extend_jacobians,
     get_jacobian_for_reduction,
     logger,
@@ -315,7 +316,7 @@ def sparse_index_jvp(
             f'Could not perform index operation {fwd_fn.__name__}. '
             'This is most likely due to data dependent indexing. '
             'We will default to materializing everything. Here is the caught exception:\n'
-            f'{e}'
+            f'{describe_exception(e)}'
         )
         return dense_jvp(merged_fwd, laplace_args, flags=flags, in_axes=in_axes)
 
diff --git a/folx/utils.py b/folx/utils.py
index 9989217..92f5ceb 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import traceback
 from contextvars import ContextVar
 from typing import Sequence, Type, TypeVar
 
@@ -573,6 +574,13 @@ class PrefixAdapter(logging.LoggerAdapter):
 logger = PrefixAdapter(logging.getLogger('folx'), {})
 
 
+def describe_exception(e: BaseException) -> str:
+    """
+    Text for log messages, also for exceptions whose conversion to a string fails.
+    """
+    return ''.join(traceback.format_exception_only(e)).strip()
+
+
 class LoggingPrefix:
     """
     Prefixes all messages that are logged by folx within the context.
-- 
2.43.0


From e4649012e053792f5709a367526828cb2a66b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 37/47] fix: memory estimates of functions with random keys or
 literal results of inner functions

---
 folx/experimental/memory.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index b25c589..717bcfd 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -12,11 +12,8 @@ from jax.util import safe_map
 
 
 def _bytes_from_dtype(dtype):
-    import re
-
-    if str(dtype) == 'bool':
-        return 1
-    return int(re.findall(r'\d+', str(dtype))[0]) // 8
+    # Also defined for the types of random keys.
+    return int(dtype.itemsize)
 
 
 class MemoryExprEnvironment:
@@ -48,7 +45,7 @@ class MemoryExprEnvironment:
 
     def read(self, var: core.Atom) -> Array:
         if isinstance(var, core.Literal):
-            return var.val
+            return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 32c5b839eb91f50d33e158aa5f697cb1454a94bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 38/47] fix: Laplacian of functions that are linear in each of
 two arguments

---
 folx/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/utils.py b/folx/utils.py
index 92f5ceb..e1c9e4b 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -82,10 +82,10 @@ def trace_jac_jacT(
 
 def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | None):
     """
-    Computes outer product of the given jacobians.
+    Computes the product of the given jacobians contracted over the inputs of the function.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From 1ed298bfc565b59a83b97f07efdfac6b7db5406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 39/47] fix: elementwise functions with several outputs and
 dense Jacobians

---
 folx/jvp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index b7863f9..7a67de6 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -474,7 +474,8 @@ def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
     y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    # The function may have several outputs
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From 8a77221790c37dee0dd740db9b4ba296a48230de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 40/47] fix: functions whose needed axes are part of the output
 or not at the back

---
 folx/hessian.py | 21 +++++++++++++++++++++
 folx/jvp.py     | 11 +++++++++++
 2 files changed, 32 insertions(+)

diff --git a/folx/hessian.py b/folx/hessian.py
index fce16d2..2409a93 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -292,6 +292,20 @@ def remove_zero_entries(
     return new_args, new_mat_idx, mask
 
 
+def vmappable(out: PyTree[Array], args: Sequence[Array], in_axes: Sequence[tuple]):
+    """
+    Whether vectorizing a function over all but the given axes of its arguments returns
+    its result. As the vectorized axes are the leading axes of the result, the given axes
+    have to be at the back unless they are not part of the output.
+    """
+    trailing = all(
+        sorted(axes) == list(range(jnp.ndim(x) - len(axes), jnp.ndim(x)))
+        for x, axes in zip(args, in_axes)
+    )
+    batch_ndim = max(jnp.ndim(x) - len(axes) for x, axes in zip(args, in_axes))
+    return trailing or all(x.ndim == batch_ndim for x in jtu.tree_leaves(out))
+
+
 def vmapped_jac_hessian_jac(
     fwd: ForwardFn,
     flags: FunctionFlags,
@@ -310,6 +324,13 @@ def vmapped_jac_hessian_jac(
     out = merged_fn(*lapl_args.x)
     unravel = jfu.ravel_pytree(out)[1]
 
+    if custom_jac_hessian_jac is None and not vmappable(
+        out, lapl_args.x + extra_args, in_axes + extra_in_axes
+    ):
+        in_axes, extra_in_axes = jtu.tree_map(
+            lambda x: tuple(range(jnp.ndim(x))), (lapl_args.x, extra_args)
+        )
+
     out_idx, dense_out = find_out_idx(lapl_args, in_axes, flags, sparsity_threshold)
 
     # If the output is dense, we can densify the input
diff --git a/folx/jvp.py b/folx/jvp.py
index 7a67de6..2d5c202 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -167,6 +167,17 @@ def sparse_jvp(
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
 
+    # The mask has no entries for the axes that are needed for the computation. We only
+    # know how it relates to the output if these axes are not part of the output or if
+    # the output mask is the same for all outputs.
+    n_axes = np.shape(axes)[-1]
+    max_ndim = max(np.ndim(x) - n_axes for x in (*laplace_args.x, *extra_args))
+    if any(n > 1 for n in out_mask.shape[1:]) and any(
+        out.ndim > max_ndim
+        for out in jtu.tree_leaves(jax.eval_shape(fwd, *laplace_args.x))
+    ):
+        return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
+
     tangent = tree_concat(
         broadcast_except(
             [grad_tan, tree_expand(laplace_args.laplacian, axis=JAC_DIM)], JAC_DIM
-- 
2.43.0


From e5104d1bde127384dc7c4c388cb690daa11df948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:57 +0000
Subject: [PATCH 41/47] fix: registered functions with nested outputs or
 outputs that are just inputs

JAX removes outputs that are inputs from the equation of a jitted function, so
the number of results of the rule did not fit, e.g., for the example of the README.
---
 README.md           |  2 +-
 folx/interpreter.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 748aed3..7f552b2 100644
--- a/README.md
+++ b/README.md
@@ -160,7 +160,7 @@ from folx import register_function, wrap_forward_laplacian
 # the jit is important
 @jax.jit
 def f(x):
-    return x
+    return 2 * x
 
 # define a custom jacobian hessian jacobian product rule
 def custom_jac_hessian_jac(args, extra_args, merge, materialize_idx):
diff --git a/folx/interpreter.py b/folx/interpreter.py
index df2ab5a..acf5773 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -206,9 +206,17 @@ def eval_jaxpr_with_forward_laplacian(
         if fn := get_laplacian(name):
             # TODO: this is a bit incomplete, e.g., kwargs?
             outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
-            if isinstance(outvals, (FwdLaplArray, Array)):
-                outvals = [outvals]  # TODO: Figure out how to properly handle outvals
-            return outvals
+            # The outputs of the equation are the leaves of the function's output.
+            outvals = jtu.tree_leaves(outvals, is_leaf=IS_LPL_ARR)
+            if len(outvals) <= len(eqn.outvars):
+                return outvals
+            # JAX removes the outputs that are just inputs from the equation. As we do
+            # not know which ones, we have to trace the function like any other.
+            with LoggingPrefix(f'({summarize(eqn.source_info)})'):
+                logger.warning(
+                    f'Could not use the registered function {name} as it returns some of its inputs. '
+                    'We trace the function instead.'
+                )
         sub_expr: core.ClosedJaxpr = eqn.params['jaxpr']
         return eval_jaxpr_with_forward_laplacian(
             sub_expr.jaxpr,
-- 
2.43.0


From ef5f20302a0041287bce5ee489451415705d0969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 42/47] fix: indexing functions with several outputs

---
 folx/jvp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 2d5c202..36ee122 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -347,8 +347,12 @@ def sparse_index_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    assert grad_y.shape == mask.shape
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, mask)
+    # The function may have several outputs.
+    def add_mask(grad, mask):
+        assert grad.shape == mask.shape
+        return FwdJacobian(grad, mask)
+
+    grad_y = jtu.tree_map(add_mask, grad_y, mask)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From b41055817d38acb5ea07b3ad05f9d6f873b2f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 43/47] fix: sparsity of indexing operations with constants in
 double precision

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 36ee122..2e654a1 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -297,7 +297,7 @@ def sparse_index_jvp(
         # https://github.com/google/jax/pull/3370
         with jax.ensure_compile_time_eval():
             extra_filled = jtu.tree_map(
-                lambda x: jnp.full(x.shape, -1, dtype=jnp.int32), extra_args
+                lambda x: jnp.full(x.shape, -1, dtype=int), extra_args
             )
 
             def _merged_fwd(*args):
-- 
2.43.0


From 0fdcfea2a03f72fa706c47cb75da00fef14dd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:49 +0000
Subject: [PATCH 44/47] fix: sparse reductions of arrays that do not depend on
 any input

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index e1c9e4b..d4a305f 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -482,7 +482,8 @@ def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     mask = np.concatenate(masks, axis=-1)
     out_mask_list = [np.unique(m) for m in mask]
     out_mask_list = [m[m != -1] for m in out_mask_list]
-    max_unique = max([m.size for m in out_mask_list])
+    # The arrays may not depend on any input, e.g., if only constants were selected.
+    max_unique = max(1, *[m.size for m in out_mask_list])
 
     # Here we extend each mask to the same size by appending -1.
     out_mask = np.stack(
-- 
2.43.0


From 17db599863390d4525d9d790cd19ec40cf5d58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:04 +0000
Subject: [PATCH 45/47] fix: output mask of sparse scatters whose updates share
 inputs

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 2e654a1..3851c6d 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -410,7 +410,7 @@ def sparse_scatter_jvp(
         )
         max_out = np.sum(out_mask.astype(bool), axis=-1).max()
         out_mask = np.where(
-            out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
+            out_mask > 0, np.arange(n), np.iinfo(np.int32).max
         )
         unique_fn = jax.vmap(functools.partial(jnp.unique, size=max_out, fill_value=-1))
         out_mask = unique_fn(out_mask.reshape(-1, n)).T.reshape(
-- 
2.43.0


From dddda8cb8e70653520de7ff0d0aa48611507aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:04 +0000
Subject: [PATCH 46/47] fix: sparse scatters with traced indices or updates
 without dependencies

---
 folx/jvp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 3851c6d..0fad6f5 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -368,7 +368,8 @@ def sparse_scatter_jvp(
 ) -> tuple[Array, FwdJacobian, Array]:
     updates: FwdLaplArray
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
-    if isinstance(scatter_indices, FwdLaplArray):
+    # The mask of the output is only known if the indices are.
+    if isinstance(scatter_indices, (FwdLaplArray, jax.core.Tracer)):
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
     if (
         not isinstance(updates, FwdLaplArray)
@@ -398,7 +399,8 @@ def sparse_scatter_jvp(
         )
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
 
-    n = updates.jacobian.max_n + 1
+    # The updates may not depend on any input.
+    n = max(1, updates.jacobian.max_n + 1)
     with jax.ensure_compile_time_eval():
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
@@ -408,7 +410,7 @@ def sparse_scatter_jvp(
                 one_hot_mask, scatter_indices[:, 0], num_segments=operand.shape[0]
             )
         )
-        max_out = np.sum(out_mask.astype(bool), axis=-1).max()
+        max_out = max(1, np.sum(out_mask.astype(bool), axis=-1).max())
         out_mask = np.where(
             out_mask > 0, np.arange(n), np.iinfo(np.int32).max
         )
-- 
2.43.0


From 496742eccff0bbc01badff42e6139be9e5c4edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:45 +0000
Subject: [PATCH 47/47] fix: sparse scatters that clip their indices or have
 several index axes

---
 folx/jvp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index 0fad6f5..0d777ff 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -393,6 +393,9 @@ def sparse_scatter_jvp(
         dimension_numbers.inserted_window_dims != (0,)
         or dimension_numbers.scatter_dims_to_operand_dims != (0,)
         or dimension_numbers.update_window_dims != ()
+        or scatter_indices.ndim != 2
+        # indices out of bounds are moved rather than dropped
+        or kwargs['mode'] == jax.lax.GatherScatterMode.CLIP
     ):
         logger.info(
             'Scatter: dimension numbers not supported. At the moment only segment sums are supported.'
-- 
2.43.0

