"""The reference: values and derivatives by plain jax.jvp of jax.jvp, without folx."""
import jax
import jax.flatten_util as jfu
import jax.numpy as jnp
import numpy as np

from folx.api import FwdLaplArray

from . import programs as P


def has_equality(prog):
    return any(n['op'] in P.EQUALITY_OPS for n in prog['nodes'])


def reference(prog, xs=None, weights=None, fn=None):
    """[(value, jacobian with the input axis first, laplacian)] per output.
    weights: flat list of one weight per input array, or None."""
    xs = P.input_values(prog) if xs is None else xs
    fn = fn or P.build(prog)
    if weights is None:
        weights = [1.0] * len(xs)
    w = np.concatenate([np.broadcast_to(wt, np.shape(x)).ravel() for x, wt in zip(xs, weights)])

    def go(*xs):
        flat, unr = jfu.ravel_pytree(xs)

        def ff(z):
            r = fn(*unr(z))
            return r if isinstance(r, tuple) else (r,)

        def along(e):
            g = lambda z: jax.jvp(ff, (z,), (e,))
            return jax.jvp(g, (flat,), (e,))

        (y, J), (_, H) = jax.vmap(along)(jnp.diag(jnp.asarray(w, dtype=flat.dtype)))
        return [a[0] for a in y], J, [h.sum(0) for h in H]

    y, J, L = (go if has_equality(prog) else jax.jit(go))(*xs)
    return [tuple(np.asarray(a) for a in t) for t in zip(y, J, L)]


def finite(ref):
    return all(np.all(np.isfinite(a)) for t in ref for a in t)


def dense_jac(o, n):
    d = np.asarray(o.jacobian.dense_array)
    if d.shape[0] < n:
        d = np.concatenate([d, np.zeros((n - d.shape[0], *d.shape[1:]), d.dtype)])
    return d


def outputs(out, prog):
    return [out] if len(prog['outs']) == 1 else list(out)


def compare(outs, ref, tol=None):
    """None if outs (list of FwdLaplArray/arrays) match the reference, else text."""
    if len(outs) != len(ref):
        return f'{len(outs)} outputs instead of {len(ref)}'
    for k, (o, (y, J, L)) in enumerate(zip(outs, ref)):
        n = J.shape[0]
        single = y.dtype in ('float32', 'complex64')
        tol1 = tol or (3e-3 if single else 1e-7)
        sc = 1 + float(np.abs(J).max(initial=0)) ** 2 + float(np.abs(L).max(initial=0)) + float(np.abs(y).max(initial=0))
        if not isinstance(o, FwdLaplArray):
            if not np.shape(o) == y.shape:
                return f'output {k}: shape {np.shape(o)} instead of {y.shape}'
            if np.abs(J).max(initial=0) > 1e-9 or np.abs(L).max(initial=0) > 1e-9:
                return f'output {k}: derivatives dropped'
            if not np.allclose(o, y, rtol=tol1, atol=tol1):
                return f'output {k}: value {np.asarray(o)} instead of {y}'
            continue
        d = dense_jac(o, n)
        for what, a, b, t in (('value', o.x, y, tol1), ('jacobian', d, J, tol1), ('laplacian', o.laplacian, L, tol1)):
            a = np.asarray(a)
            if a.dtype != b.dtype:
                return f'output {k}: {what} is {a.dtype} instead of {b.dtype}'
            if a.shape != b.shape:
                return f'output {k}: {what} has shape {a.shape} instead of {b.shape}'
            if not np.all(np.isfinite(a)):
                return f'output {k}: {what} is not finite'
            e = float(np.abs(a - b).max(initial=0))
            if e > t * sc:
                return f'output {k}: {what} is off by {e:.3g} (scale {sc:.3g}): {np.array2string(a.ravel()[:6], precision=5)} instead of {np.array2string(b.ravel()[:6], precision=5)}'
    return None


REFUSALS = (
    ('Jacobian sparsity mismatch in scan', ('scan', 'fori', 'scan_xs')),
    ('Type mismatch in scan', ('scan', 'fori', 'scan_xs')),
    ('Scan does not support scanning over', ('scan', 'fori', 'scan_xs')),
    # jax itself cannot differentiate these in reverse mode
    ('Reverse-mode differentiation does not work for lax.while_loop', ('while_n',)),
)


def is_refusal(e, prog, sparse):
    """Documented refusals: nothing is returned, the user is told what to change."""
    msg = str(e)
    ops = {n['op'] for n in prog['nodes']}
    for text, need in REFUSALS:
        if text in msg and (sparse or 'over' in text or 'Reverse' in text) and ops & set(need):
            return True
    return False
