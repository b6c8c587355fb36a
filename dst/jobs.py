"""One call of a public entry point, as a value: what the properties about
histories, concurrency, host state and failures are quantified over."""
import jax
import jax.tree_util as jtu
import numpy as np

import folx
from folx.experimental.memory import compute_memory
from folx.experimental.vmap import auto_batched_vmap

from . import kernel, memstats, oracle
from . import programs as P
from .core import STYLES, digest_arrays, styled

KINDS = ('lapl', 'lapl', 'lapl', 'lapl', 'op', 'op', 'bvmap', 'auto', 'mem')


def gen(rng, kinds=KINDS, mode=None, small=True):
    from .scen import c07, c10, lapl

    kind = rng.choice(kinds)
    mode = mode or ('eager' if rng.random() < 0.4 else 'jit')
    j = {'kind': kind, 'mode': mode, 'style': rng.choice(STYLES)}
    if kind in ('lapl', 'mem'):
        opts = lapl.prog_opts(rng, mode)
        if small:
            opts['n_ops'] = rng.choice([1, 1, 2, 3]) if mode == 'eager' else rng.choice([1, 2, 3, 4])
        j['prog'] = P.generate(rng, opts)
        N = lapl.n_inputs(j['prog'])
        j['thr'] = rng.choice([0, 0, 1, 2, N, 0.6, 1000])
        if kind == 'lapl' and rng.random() < 0.15:
            j['weights'] = [round(rng.uniform(0.3, 2.0), 2) for _ in j['prog']['inputs']]
    elif kind == 'op':
        opts = dict(lapl.prog_opts(rng, 'jit'), shapes=c10.SHAPES)
        if small:
            opts['n_ops'] = rng.choice([1, 2, 3])
        j['prog'] = P.generate(rng, opts)
        j.update(cplx=False, part=False, const=False, op=rng.choice(['forward', 'forward', 'loop', 'parallel']))
        j['thr'] = rng.choice([0, 2, 0.6, 1000]) if j['op'] == 'forward' else None
    else:
        c = c07.gen_call(rng, ('int', 'tuple', 'nested'))
        while c['ctx'] in ('vmap', 'lapl'):
            c['ctx'] = rng.choice(['plain', 'jit'])
        if kind == 'auto':
            c['max'] = 1
            j['rows'] = rng.choice([0.5, 1, 2.5, 4, 1e6, None])
        j['call'] = c
    return j


def sparse(spec):
    return bool(spec.get('thr'))


def eager(spec):
    """Does its wrapped callable run folx on every call (not only while tracing)?"""
    return spec['kind'] in ('mem', 'auto') or (spec['kind'] == 'lapl' and spec['mode'] == 'eager') or (spec['kind'] == 'bvmap' and spec['call']['ctx'] == 'plain')


class Job:
    """fault: what the user's function does (see UserFn / RowFn)."""

    def __init__(self, spec, sim=None, fault=None, wrap=None):
        from .scen import c07, c10, lapl

        self.spec, self.sim = spec, sim
        k = spec['kind']
        self.kind = k
        if k in ('lapl', 'mem'):
            self.user = lapl.UserFn(spec['prog'], fault, sim)
            self.args = P.input_values(spec['prog'])
        elif k == 'op':
            self.user = c10.Fn(spec, fault, sim)
            self.args = P.input_values(spec['prog'])[:1]
        else:
            f = None
            if fault:
                f = {'trace': fault.get('trace', 1), 'n': fault.get('n', 1), 'kind': 'interrupt' if fault['kind'] in ('interrupt', 'exit') else 'user'}
            self.user = c07.RowFn(spec['call'], f, sim)
            self.args = c07.arg_values(spec['call'])
        fn = styled(wrap(self.user) if wrap else self.user, spec.get('style'))
        if k == 'lapl':
            w = folx.forward_laplacian(fn, spec['thr'], disable_jit=spec['mode'] == 'eager')
            kw = {'weights': tuple(spec['weights'])} if spec.get('weights') else {}
            self.fn = (lambda *a: w(*a, **kw)) if kw else w
        elif k == 'mem':
            # not jitted: the estimator looks at the operations
            w = folx.forward_laplacian(fn, spec['thr'], disable_jit=True)

            def g(*a):
                return [x.laplacian if hasattr(x, 'laplacian') else x for x in lapl.flat_outputs(w(*a))]

            self.fn = lambda *a: compute_memory(lambda *b: g(*b), *a)
        elif k == 'op':
            self.fn = c10.operator(spec)(fn)
        elif k == 'bvmap':
            self.fn = c07.make(spec['call'], fn)
        else:
            c = spec['call']
            static = {'static_argnums': len(c['args'])} if c.get('static') else {}
            self.fn = c07.with_static(c, auto_batched_vmap(fn, in_axes=c07.in_axes(c), out_axes=c07.out_axes(c), **static))

    def call(self, fn=None, args=None):
        from .scen import c07

        fn = fn or self.fn
        args = self.args if args is None else args
        if self.kind in ('bvmap', 'auto'):
            return c07.call(self.spec['call'], fn, args)
        return jax.block_until_ready(fn(*args))

    @property
    def fired(self):
        return self.user.fired

    def refs(self):
        """For exact()."""
        from .scen import c07, c10

        s = self.spec
        if s['kind'] == 'lapl':
            r = oracle.reference(s['prog'], self.args, s.get('weights'))
            return r if oracle.finite(r) else None
        if s['kind'] == 'op':
            x, refs = c10.references(s)
            return refs if all(np.all(np.isfinite(a)) for r in refs for a in r) else None
        if s['kind'] == 'mem':
            return True
        return c07.valid(s['call'])

    def exact(self, out, refs):
        """None or a complaint."""
        from .scen import c07, c10

        s = self.spec
        if s['kind'] == 'lapl':
            return oracle.compare(oracle.outputs(out, s['prog']), refs)
        if s['kind'] == 'op':
            return c10.compare(dict(s, ctx='plain'), out, refs)
        if s['kind'] == 'mem':
            return None if type(out) is int and out >= 0 else f'estimate {out!r}'
        return c07.compare(out, refs)

    def describe(self):
        return describe(self.spec)


def digest(out):
    from .scen import lapl

    if isinstance(out, int):
        return f'int{out}'
    return lapl.result_digest(out)


def layout(out):
    from .scen import lapl

    return None if isinstance(out, int) else lapl.layout(out)


def describe(s):
    from .scen import c07

    rest = {k: v for k, v in s.items() if k in ('kind', 'mode', 'thr', 'op', 'weights', 'rows', 'style')}
    return f'{rest} ' + (P.describe(s['prog']) if 'prog' in s else c07.describe(s['call']))


def refusal(exc, s):
    return 'prog' in s and oracle.is_refusal(exc, s['prog'], sparse(s))


def shrink(s):
    if 'prog' in s:
        for q in P.shrink_candidates(s['prog']):
            if s.get('weights') and len(q['inputs']) != len(s['prog']['inputs']):
                continue
            yield dict(s, prog=q)
    else:
        from .scen import c07

        for c in c07.shrink(s['call']):
            yield dict(s, call=c)
    if s.get('style'):
        yield dict(s, style=None)
    if s.get('weights'):
        yield {k: v for k, v in s.items() if k != 'weights'}
    if s['kind'] == 'mem':
        yield dict(s, kind='lapl', mode='eager')


_ = (kernel, memstats, jtu, digest_arrays)
