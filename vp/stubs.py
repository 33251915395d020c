"""Replacements active during symbolic execution only (see DESIGN.md, 'environment model')."""
import contextlib
import functools

import numpy as np
import jax
import jax.numpy as jnp

from . import symjax as S
from . import poly as P
from . import linalg
from .poly import Poly, Unsupported

ACTIVE = [False]
_orig = {}


def install():
    """patch jax before jVMC is imported (symbolic workers only)"""
    if _orig:
        return
    _orig["pmap"] = jax.pmap
    jax.pmap = pmap
    _orig["array"], _orig["asarray"] = jnp.array, jnp.asarray
    jnp.array = _lifting(jnp.array)
    jnp.asarray = _lifting(jnp.asarray)
    scan = jax.lax.scan

    def scan0(f, init, xs=None, length=None, **kw):
        # a loop without iterations cannot be run eagerly: trace it
        n = length if length is not None else next((np.shape(x)[0] for x in jax.tree_util.tree_leaves(xs)), 1)
        if jax.config.jax_disable_jit and isinstance(n, (int, np.integer)) and n == 0:
            with jax.disable_jit(False):
                return scan(f, init, xs, length, **kw)
        return scan(f, init, xs, length, **kw)
    jax.lax.scan = scan0
    _orig["device_put"] = jax.device_put
    jax.device_put = device_put
    from jax._src.numpy import lax_numpy
    _orig["take"] = lax_numpy._rewriting_take

    for mod in (jnp, jnp.linalg):
        for k, f in list(vars(mod).items()):
            if callable(f) and not isinstance(f, type) and not k.startswith("_") and k not in ("array", "asarray"):
                try:
                    setattr(mod, k, _arrlift(f))
                except Exception:
                    pass
    from . import linalg
    _orig["la"] = linalg.install(ACTIVE)
    from jax._src import core as score
    bind = score.Primitive.bind

    def sbind(self, *args, **params):
        if ACTIVE[0] and any(type(a) is S.SymArr for a in args):
            args = [lift(a) if type(a) is S.SymArr else a for a in args]
        return bind(self, *args, **params)
    score.Primitive.bind = sbind

    def fix(i):
        if isinstance(i, slice):
            return slice(*[int(v) if isinstance(v, (S.SymTracer, Poly)) else v for v in (i.start, i.stop, i.step)])
        return i

    def take(arr, idx, *a, **k):
        if ACTIVE[0]:
            idx = tuple(fix(i) for i in idx) if isinstance(idx, tuple) else fix(idx)
        return _orig["take"](arr, idx, *a, **k)
    lax_numpy._rewriting_take = take


def _lifting(f):
    @functools.wraps(f)
    def g(x, dtype=None, *a, **k):
        if ACTIVE[0]:
            x = lift(x)
        return f(x, dtype, *a, **k) if dtype is not None or a else f(x, *a, **k)
    return g


def _arrlift(f):
    def has(x):
        return type(x) is S.SymArr or (isinstance(x, (list, tuple)) and any(type(y) is S.SymArr for y in x))

    @functools.wraps(f)
    def g(*a, **k):
        if ACTIVE[0] and (any(has(x) for x in a) or any(has(x) for x in k.values())):
            a = tuple(lift(x) if has(x) else x for x in a)
            k = {n: (lift(x) if has(x) else x) for n, x in k.items()}
        return f(*a, **k)
    return g


def lift(x):
    if isinstance(x, Poly):
        return S.sym(S.to_obj(x))
    if S.is_obj(x):
        return S.sym(S.to_obj(x), getattr(x, "sdtype", None))
    if isinstance(x, list):
        return [lift(y) for y in x]
    if type(x) is tuple:
        return tuple(lift(y) for y in x)
    return x


def device_put(x, *a, **k):
    if ACTIVE[0]:
        def one(y):
            y = lift(y)
            return y
        if S.any_sym(x):
            return jax.tree_util.tree_map(one, x, is_leaf=lambda y: isinstance(y, np.ndarray))
    return _orig["device_put"](x, *a, **k)


def pmap(fun, axis_name=None, *, in_axes=0, out_axes=0, static_broadcasted_argnums=(), devices=None, backend=None,
         axis_size=None, donate_argnums=(), global_arg_shapes=None, **kw):
    real = _orig["pmap"](fun, axis_name, in_axes=in_axes, out_axes=out_axes,
                         static_broadcasted_argnums=static_broadcasted_argnums, devices=devices, backend=backend,
                         **kw)
    static = (static_broadcasted_argnums,) if isinstance(static_broadcasted_argnums, int) \
        else tuple(static_broadcasted_argnums)

    def wrapper(*args, **kwargs):
        if not ACTIVE[0]:
            return real(*args, **kwargs)
        n = len(devices) if devices is not None else len(jax.local_devices())
        axes = in_axes
        dyn = [i for i in range(len(args)) if i not in static]
        if isinstance(in_axes, (tuple, list)):
            axes_full = list(in_axes)
            if len(axes_full) == len(args):
                ax = tuple(axes_full[i] for i in dyn)
            else:
                ax = tuple(axes_full)
        else:
            ax = tuple(in_axes for _ in dyn)
        for i, a in zip(dyn, ax):
            if a is None:
                continue
            for leaf in jax.tree_util.tree_leaves(args[i]):
                sh = np.shape(leaf) if not hasattr(leaf, "shape") else leaf.shape
                if len(sh) == 0 or (a == 0 and sh[0] != n):
                    raise ValueError("pmap got inconsistent sizes for array axes to be mapped: %s, %d devices" % (sh, n))

        def inner(dargs, kw):
            full = [None] * len(args)
            for i, v in zip(dyn, dargs):
                full[i] = v
            for i in static:
                if i < len(args):
                    full[i] = args[i]
            return fun(*full, **kw)
        kwargs = {k: v for k, v in kwargs.items()}
        dargs = tuple(jax.tree_util.tree_map(lift, args[i], is_leaf=lambda y: isinstance(y, np.ndarray)) for i in dyn)
        return jax.vmap(inner, in_axes=(ax, 0), out_axes=out_axes, axis_name=axis_name, axis_size=n)(dargs, kwargs)
    functools.update_wrapper(wrapper, fun, updated=())
    return wrapper


@contextlib.contextmanager
def session(h):
    from . import linalg
    linalg.reset()
    ACTIVE[0] = True
    stack = contextlib.ExitStack()
    try:
        with stack:
            from . import mpisim
            stack.enter_context(mpisim.single())
            for cm in h.spec.opts.get("contexts", ()):
                stack.enter_context(cm(h))
            if h.spec.opts.get("nojit"):
                stack.enter_context(jax.disable_jit())
            yield
    finally:
        ACTIVE[0] = False


# ----------------------------------------------------------------------------------------------
# numpy as seen by the repository's modules: float/complex buffers hold symbolic scalars during a session

class LinalgShim:
    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, k):
        f = getattr(self._m, k)
        if k not in ("eigh", "pinv", "norm"):
            return f
        j = getattr(jnp.linalg, k)

        def g(*a, **kw):
            if ACTIVE[0] and (S.any_sym(a, kw) or linalg.FORCE[0]):
                up = lambda t: jax.tree_util.tree_map(lift, t, is_leaf=lambda y: isinstance(y, np.ndarray))
                return jax.tree_util.tree_map(_down, j(*up(a), **up(kw)))
            return f(*a, **kw)
        return g


class NpShim:
    def __init__(self, mod):
        self.__dict__["_m"] = mod

    def __getattr__(self, k):
        if k == "linalg":
            return LinalgShim(self._m.linalg)
        f = getattr(self._m, k)
        if isinstance(f, type) or not callable(f) or not hasattr(jnp, k):
            return f
        j = getattr(jnp, k)

        def g(*a, **kw):
            if ACTIVE[0] and S.any_sym(a, kw):
                up = lambda t: jax.tree_util.tree_map(lift, t, is_leaf=lambda y: isinstance(y, np.ndarray))
                kw.pop("out", None)
                if k in ("argmin", "argmax"):
                    r = j(*up(a), **up(kw))
                    return S.to_obj(r)[()] if r.ndim == 0 else _down(r)      # numpy gives a scalar usable as an index
                return jax.tree_util.tree_map(_down, j(*up(a), **up(kw)))
            return f(*a, **kw)
        return g

    def empty_like(self, x, dtype=None, **k):
        if ACTIVE[0] and (S.any_sym(x) or np.dtype(dtype if dtype is not None else np.asarray(x).dtype).kind in "fc"):
            return S.symarr(S.obj_full(np.shape(x), P.ZERO), dtype if dtype is not None else x.dtype)
        return self._m.empty_like(x, dtype, **k)

    zeros_like = empty_like

    def _alloc(self, fill, shape, dtype):
        dt = np.dtype(dtype if dtype is not None else float)
        if ACTIVE[0] and dt.kind in "fc":
            shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
            return S.symarr(S.obj_full(shape, P.const(fill)), dt)
        return None

    def zeros(self, shape, dtype=None, **k):
        r = self._alloc(0, shape, dtype)
        return self._m.zeros(shape, dtype or float, **k) if r is None else r

    def empty(self, shape, dtype=None, **k):
        r = self._alloc(0, shape, dtype)
        return self._m.empty(shape, dtype or float, **k) if r is None else r

    def ones(self, shape, dtype=None, **k):
        r = self._alloc(1, shape, dtype)
        return self._m.ones(shape, dtype or float, **k) if r is None else r

    def array(self, x, dtype=None, **k):
        if ACTIVE[0] and S.any_sym(x):
            return _nparr(x, dtype)
        return self._m.array(x, dtype, **k)

    def asarray(self, x, dtype=None, **k):
        if ACTIVE[0] and S.any_sym(x):
            return _nparr(x, dtype)
        return self._m.asarray(x, dtype, **k)


def _down(y):
    return S.symarr(S.to_obj(y).copy(), y.dtype) if S.is_sym(y) else y


def _nparr(x, dtype):
    if isinstance(x, (list, tuple)):
        v = _nested(x)
        return S.symarr(v, dtype if dtype is not None else S.infer_dtype(v))
    dt = dtype if dtype is not None else getattr(x, "dtype", None)
    v = S.to_obj(x)
    if dt is None or np.dtype(dt) == object:
        dt = S.infer_dtype(v)
    return S.symarr(v.copy(), dt)


def _nested(x):
    if isinstance(x, (list, tuple)):
        parts = [_nested(y) for y in x]
        out = np.empty((len(parts),) + (parts[0].shape if parts else ()), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.ndim == 0 else p
        return out
    return S.to_obj(x)


def shim_modules():
    import sys
    shim = NpShim(np)
    for n, m in list(sys.modules.items()):
        if m is not None and (n == "jVMC" or n.startswith("jVMC.")):
            for k, v in list(vars(m).items()):
                if v is np:
                    setattr(m, k, shim)
