"""Eager symbolic execution of JAX programs.

``SymTrace`` / ``SymTracer`` plug into JAX's own tracing machinery below vmap/grad/jit: the repository's Python
code, ``jax.vmap``, ``jax.grad``, ``jax.jit``, ``lax.scan`` ... all run for real; every primitive that reaches
a symbolic array is evaluated element-wise over ``poly.Poly`` scalars.
"""
import threading
import itertools
import operator as _op
from fractions import Fraction

import numpy as np
import jax
from jax import core
from jax._src import core as score
from jax._src.lax import lax as laxmod

from . import poly as P
from .poly import Poly, Unsupported

import jax.numpy as jnp

obj = object
_nd_dtype = np.ndarray.dtype


def is_obj(x):
    return isinstance(x, np.ndarray) and _nd_dtype.__get__(x) == object


class SymArr(np.ndarray):
    """numpy object array of symbolic scalars that remembers the dtype it stands for"""

    def __array_finalize__(self, src):
        self.sdtype = getattr(src, "sdtype", None)

    @property
    def dtype(self):
        return self.sdtype if getattr(self, "sdtype", None) is not None else np.dtype(object)

    def astype(self, dtype, *a, **k):
        r = self.copy()
        r.sdtype = dst = np.dtype(dtype)
        src = self.sdtype
        if src is not None and src.kind == "c" and dst.kind == "f":
            r[...] = vec1(P.re)(to_obj(self))
        if src is not None and dst.kind in "fc" and src.kind in "fc" and _half(dst) < _half(src):
            r[...] = narrow(to_obj(r), dst)
        return r

    def __jax_array__(self):
        return sym(to_obj(self), self.sdtype)


def symarr(val, dtype):
    r = np.ascontiguousarray(val).view(SymArr) if val.ndim else np.array(val, dtype=object).view(SymArr)
    r.sdtype = np.dtype(dtype)
    return r


# ----------------------------------------------------------------------------------------------
# object array helpers

def to_obj(x):
    """anything array-like -> object ndarray of Poly"""
    if isinstance(x, SymTracer):
        return x.val
    if isinstance(x, Poly):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(x)
    if is_obj(a):
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            if isinstance(v, SymTracer) or hasattr(v, "aval"):
                v = to_obj(v)[()]
            out[i] = P.const(v)
        return out
    if a.dtype.kind == "V" or str(a.dtype) == "float0":
        return obj_full(a.shape, P.ZERO)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    cache = {}
    for i, v in enumerate(a.reshape(-1).tolist()):
        r = cache.get(v)
        if r is None:
            r = _const_ext(v)
            if v == v:
                cache[v] = r
        flat[i] = r
    return flat.reshape(a.shape)


INF = Poly({((P._new_atom(("inf",), "inf", "inf", pos=True).id, 1),): 1})
NAN = Poly({((P._new_atom(("nan",), "nan", "nan").id, 1),): 1})
_INF_ID = next(iter(INF.t))[0][0]
_NAN_ID = next(iter(NAN.t))[0][0]


def _const_ext(v):
    if isinstance(v, float):
        if v != v:
            return NAN
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return P.neg(INF)
    if isinstance(v, complex):
        if v != v or abs(v) == float("inf"):
            if v.imag == 0:
                return _const_ext(v.real)
            return NAN
    return P.const(v)


def _inf_part(p):
    """coefficient sign of INF, or None; 'nan' if NAN occurs"""
    s = None
    for m, c in p.t.items():
        for a, e in m:
            if a == _NAN_ID:
                return "nan"
            if a == _INF_ID:
                s = 1 if c > 0 else -1
    return s


def has_special(p):
    for m in p.t:
        for a, e in m:
            if a == _INF_ID or a == _NAN_ID:
                return True
    return False


# make the comparison / exp primitives of poly aware of infinities
_orig_gt0, _orig_eq0, _orig_exp = P.gt0, P.eq0, P.exp


def _gt0(p):
    if has_special(p):
        if p.cats():
            return P.shannon((p,), _gt0)
        s = _inf_part(p)
        if s == "nan":
            return P.ZERO
        if s is not None:
            return P.ONE if s > 0 else P.ZERO
    return _orig_gt0(p)


def _eq0(p):
    if has_special(p):
        if p.cats():
            return P.shannon((p,), _eq0)
        return P.ZERO
    return _orig_eq0(p)


def _exp(p):
    if has_special(p):
        if p.cats():
            return P.shannon((p,), _exp)
        s = _inf_part(p)
        if s == -1:
            return P.ZERO
        return NAN if s == "nan" else INF
    return _orig_exp(p)


P.gt0, P.eq0, P.exp = _gt0, _eq0, _exp


def obj_full(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


def vec1(f):
    def g(a):
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        memo = {}
        for i in range(af.size):
            x = af[i]
            k = id(x)
            r = memo.get(k)
            if r is None:
                r = f(x)
                memo[k] = r
            of[i] = r
        return of.reshape(a.shape)
    return g


def vec2(f):
    def g(a, b):
        if a.shape != b.shape:
            a, b = np.broadcast_arrays(a, b)
        out = np.empty(a.shape, dtype=object)
        of, af, bf = out.reshape(-1), a.reshape(-1), b.reshape(-1)
        for i in range(af.size):
            of[i] = f(af[i], bf[i])
        return of.reshape(a.shape)
    return g


# ----------------------------------------------------------------------------------------------
# tracer and trace

class SymTracer(core.Tracer):
    __slots__ = ["val", "_aval"]

    def __init__(self, trace, val, aval):
        self._trace = trace
        self.val = val
        self._aval = aval

    @property
    def aval(self):
        return self._aval

    def full_lower(self):
        if isinstance(self.val, _Lazy):
            return self.val.raw
        for p in self.val.reshape(-1):
            if not p.is_num() or has_special(p):
                return self
        return concrete(self.val, self._aval.dtype)

    def _origin_msg(self):
        return ""

    def get_referent(self):
        return self

    # ---- concretisation
    def __bool__(self):
        if self.val.size != 1:
            raise ValueError("truth value of an array with more than one element is ambiguous")
        return P.truth(self.val.reshape(-1)[0])

    def __index__(self):
        if self.val.size != 1 or self._aval.dtype.kind not in "iub":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(P.FORK.decide(self.val.reshape(-1)[0]))

    def __int__(self):
        return int(P.FORK.decide(self.val.reshape(-1)[0]))

    def __float__(self):
        v = P.FORK.decide(self.val.reshape(-1)[0])
        return float(v)

    def __complex__(self):
        return complex(P.FORK.decide(self.val.reshape(-1)[0]))

    def __array__(self, dtype=None, copy=None):
        if dtype is not None and np.dtype(dtype) != object and np.dtype(dtype).kind in "iub" \
                and self._aval.dtype.kind in "iub":
            out = np.empty(self.val.shape, dtype=dtype)
            for i in np.ndindex(*self.val.shape):
                out[i] = P.FORK.decide(self.val[i])
            return out
        return symarr(self.val, self._aval.dtype)

    def tolist(self):
        return self.val.tolist()

    def item(self, *a):
        return self.val.reshape(-1)[0] if self.val.size == 1 else self.val.item(*a)

    def block_until_ready(self):
        return self

    def copy_to_host_async(self):
        return None

    def devices(self):
        return {jax.devices()[0]}

    def addressable_data(self, i):
        return self

    def delete(self):
        return None

    def is_deleted(self):
        return False

    def __format__(self, spec):
        return "<sym>"

    def __reduce__(self):
        raise TypeError("symbolic arrays are not picklable")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def concrete(val, dtype):
    """object array of numeric Polys -> jax array"""
    dtype = np.dtype(dtype)
    out = np.empty(val.shape, dtype=dtype)
    for i in np.ndindex(*val.shape):
        out[i] = num(val[i], dtype)
    with core.eval_context():
        return jnp.asarray(out)


def num(p, dtype=None):
    c = p.const_value()
    if c is None:
        if has_special(p):
            s = _inf_part(p)
            return float("nan") if s == "nan" else s * float("inf")
        c = P.evaluate(p, {}, {})
    if isinstance(c, Fraction):
        c = float(c)
    if dtype is not None and np.dtype(dtype).kind != "c" and isinstance(c, complex):
        c = c.real
    return c


class SymTrace(core.Trace):
    def pure(self, val):
        if isinstance(val, SymTracer):
            return val
        if is_obj(val):
            return self.wrap(to_obj(val), getattr(val, "sdtype", None))
        aval = score.raise_to_shaped(score.get_aval(val))
        return SymTracer(self, _Lazy(val), aval)

    lift = pure

    def sublift(self, tracer):
        return SymTracer(self, tracer.val, tracer._aval)

    def wrap(self, val, dtype=None):
        if dtype is None:
            dtype = infer_dtype(val)
        elif np.dtype(dtype).kind == "f" and infer_dtype(val) == np.complex128:
            dtype = np.complex128
        return SymTracer(self, val, core.ShapedArray(val.shape, np.dtype(dtype)))

    def process_primitive(self, primitive, tracers, params):
        SESSION.stats["prims"] = SESSION.stats.get("prims", 0) + 1
        name = primitive.name
        ho = HIGHER.get(name)
        if ho is not None:
            args = [t.val.raw if isinstance(t.val, _Lazy) else t for t in tracers]
            outs = ho(self, primitive, args, params)
            if primitive.multiple_results:
                return [self._full(o) for o in outs]
            return self._full(outs)
        rule = RULES.get(name)
        if rule is None:
            raise Unsupported("primitive %s" % name)
        out_aval, _ = primitive.abstract_eval(*[t.aval for t in tracers], **params)
        vals = [force(t) for t in tracers]
        out = rule(vals, tracers, params, out_aval)
        if primitive.multiple_results:
            return [SymTracer(self, o, av) for o, av in zip(out, out_aval)]
        if out.shape != tuple(out_aval.shape):
            raise Unsupported("engine: shape mismatch in %s: %s vs %s" % (name, out.shape, out_aval.shape))
        return SymTracer(self, out, out_aval)

    def _full(self, x):
        return x

    def process_custom_jvp_call(self, primitive, fun, jvp, tracers, *, symbolic_zeros):
        args = [t.val.raw if isinstance(t.val, _Lazy) else t for t in tracers]
        return fun.call_wrapped(*args)

    def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers, *, out_trees, symbolic_zeros):
        args = [t.val.raw if isinstance(t.val, _Lazy) else t for t in tracers]
        return fun.call_wrapped(*args)

    def process_call(self, call_primitive, f, tracers, params):
        args = [t.val.raw if isinstance(t.val, _Lazy) else t for t in tracers]
        return f.call_wrapped(*args)


class _Lazy:
    """concrete operand, converted on demand"""
    __slots__ = ("raw", "_obj")

    def __init__(self, raw):
        self.raw = raw
        self._obj = None

    @property
    def obj(self):
        if self._obj is None:
            self._obj = to_obj(np.asarray(self.raw))
        return self._obj


def force(t):
    v = t.val
    return v.obj if isinstance(v, _Lazy) else v


def raw(t):
    """concrete numpy value of an operand, or None"""
    v = t.val
    if isinstance(v, _Lazy):
        return np.asarray(v.raw)
    for p in v.reshape(-1):
        if p.const_value() is None:
            return None
    return np.asarray([num(p) for p in v.reshape(-1)]).reshape(v.shape).astype(t.aval.dtype)


def infer_dtype(val):
    cplx = False
    for p in val.reshape(-1):
        if not p.is_real_syntactic():
            return np.complex128
    return np.float64


# ----------------------------------------------------------------------------------------------
# session

class Session:
    def __init__(self):
        self.active = False
        self.main = None
        self.stats = {}


SESSION = Session()


class symbolic:
    """context manager: a symbolic session in this thread"""

    def __enter__(self):
        self.cm = score.new_main(SymTrace)
        SESSION.main = self.cm.__enter__()
        SESSION.active = True
        return self

    def __exit__(self, *a):
        SESSION.active = False
        SESSION.main = None
        self.cm.__exit__(*a)


def trace():
    return SESSION.main.with_cur_sublevel()


def sym(val, dtype=None):
    """object array -> SymTracer of the current session (or concrete array)"""
    val = to_obj(val)
    t = trace().wrap(val, dtype)
    return t.full_lower()


def is_sym(x):
    return isinstance(x, SymTracer)


def any_sym(*args):
    for a in jax.tree_util.tree_leaves(args, is_leaf=lambda x: x is None):
        if isinstance(a, core.Tracer):
            return True
        if isinstance(a, Poly):
            return True
        if is_obj(a):
            return True
    return False


# ----------------------------------------------------------------------------------------------
# higher-order primitives

def _eval_closed(closed, args):
    return score.eval_jaxpr(closed.jaxpr, closed.consts, *args)


def _h_pjit(tr, prim, args, params):
    name = params.get("name")
    if name == "signbit":
        x = args[0]
        return [sym(vec1(lambda p: P.gt0(P.neg(p)))(to_obj(x)), np.bool_)]
    if name in ("isnan", "_isnan"):
        return [sym(vec1(_isnan)(to_obj(args[0])), np.bool_)]
    return _eval_closed(params["jaxpr"], args)


def _isnan(p):
    return P.ONE if _inf_part(p) == "nan" else P.ZERO


def _h_closed_call(tr, prim, args, params):
    j = params.get("call_jaxpr") or params.get("jaxpr")
    if isinstance(j, core.ClosedJaxpr):
        return _eval_closed(j, args)
    return score.eval_jaxpr(j, (), *args)


def _h_custom_vjp_jaxpr(tr, prim, args, params):
    j = params.get("fun_jaxpr") or params.get("call_jaxpr")
    return _eval_closed(j, args)


def _h_custom_jvp_jaxpr(tr, prim, args, params):
    return _eval_closed(params["call_jaxpr"], args)


def _idx(x, i):
    if isinstance(x, SymTracer):
        return SymTracer(trace(), to_obj(x)[i], core.ShapedArray(x.shape[1:], x.dtype)).full_lower() \
            if x.val[i].__class__ is np.ndarray else sym(x.val[i], x.dtype)
    return x[i]


def stack(xs, aval):
    """stack scan outputs"""
    if any(is_sym(x) for x in xs):
        vals = [to_obj(x) for x in xs]
        out = np.empty((len(vals),) + vals[0].shape, dtype=object)
        for i, v in enumerate(vals):
            out[i] = v[()] if v.ndim == 0 else v
        return SymTracer(trace(), out, core.ShapedArray(out.shape, aval.dtype)).full_lower()
    with core.eval_context():
        return jnp.asarray(np.stack([np.asarray(x) for x in xs])) if all(
            not isinstance(x, core.Tracer) for x in xs) else jnp.stack(xs)


def _h_scan(tr, prim, args, params):
    nc, ncar = params["num_consts"], params["num_carry"]
    length, reverse = params["length"], params["reverse"]
    closed = params["jaxpr"]
    consts, carry, xs = args[:nc], list(args[nc:nc + ncar]), args[nc + ncar:]
    ys = []
    order = range(length - 1, -1, -1) if reverse else range(length)
    for i in order:
        x = [_idx(a, i) for a in xs]
        out = _eval_closed(closed, list(consts) + carry + x)
        carry = list(out[:ncar])
        ys.append(out[ncar:])
    if reverse:
        ys = ys[::-1]
    n_y = len(closed.out_avals) - ncar
    yavals = closed.out_avals[ncar:]
    outs = []
    for k in range(n_y):
        if length == 0:
            with core.eval_context():
                outs.append(jnp.zeros((0,) + tuple(yavals[k].shape), yavals[k].dtype))
        else:
            outs.append(stack([y[k] for y in ys], yavals[k]))
    return carry + outs


def _h_while(tr, prim, args, params):
    cn, bn = params["cond_nconsts"], params["body_nconsts"]
    cc, bc, carry = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
    n = 0
    while True:
        c, = _eval_closed(params["cond_jaxpr"], list(cc) + carry)
        if getattr(c, "shape", ()) != ():
            raise Unsupported("batched while predicate")
        if not bool(c):
            return carry
        n += 1
        if n > 100000:
            raise Unsupported("while loop bound")
        carry = list(_eval_closed(params["body_jaxpr"], list(bc) + carry))


def _h_cond(tr, prim, args, params):
    idx, ops = args[0], args[1:]
    branches = params["branches"]
    if not is_sym(idx):
        k = int(np.clip(int(idx), 0, len(branches) - 1))
        return _eval_closed(branches[k], ops)
    ip = to_obj(idx)[()]
    outs = [_eval_closed(b, ops) for b in branches]
    res = []
    n = len(branches)
    for j in range(len(outs[0])):
        av = branches[0].out_avals[j]
        vals = [to_obj(o[j]) for o in outs]
        acc = vals[-1]
        for k in range(n - 2, -1, -1):
            c = P.eq0(P.add(ip, P.const(-k))) if k > 0 else P.add(P.ONE, P.neg(P.gt0(ip)))
            acc = vec2(lambda a, b: P.ite(c, a, b))(vals[k], acc)
        res.append(SymTracer(trace(), acc, core.ShapedArray(acc.shape, av.dtype)).full_lower())
    return res


def _h_linear_solve(tr, prim, args, params):
    # custom_linear_solve: run the provided solver
    const_lengths, jaxprs = params["const_lengths"], params["jaxprs"]
    n = sum(const_lengths)
    consts, b = args[:n], args[n:]
    pos = 0
    groups = []
    for l in const_lengths:
        groups.append(consts[pos:pos + l])
        pos += l
    return _eval_closed(jaxprs.solve, list(groups[2]) + list(b))


def _h_remat(tr, prim, args, params):
    return score.eval_jaxpr(params["jaxpr"], (), *args)


def _h_pmap(tr, prim, args, params):
    raise Unsupported("xla_pmap (jax.pmap is modelled as vmap over the device axis)")


HIGHER = {
    "pjit": _h_pjit, "closed_call": _h_closed_call, "core_call": _h_closed_call, "xla_call": _h_closed_call,
    "custom_vjp_call_jaxpr": _h_custom_vjp_jaxpr, "custom_jvp_call": _h_custom_jvp_jaxpr,
    "custom_vjp_call": _h_custom_vjp_jaxpr, "scan": _h_scan, "while": _h_while, "cond": _h_cond,
    "checkpoint": _h_remat, "remat": _h_remat, "remat2": _h_remat, "custom_linear_solve": _h_linear_solve,
    "custom_lin": _h_closed_call,
}


# ----------------------------------------------------------------------------------------------
# first-order rules: rule(vals, tracers, params, out_aval) -> object array(s)

RULES = {}


def rule(*names):
    def d(f):
        for n in names:
            RULES[n] = f
        return f
    return d


def _un(f):
    g = vec1(f)
    return lambda v, t, p, a: g(v[0])


def _bi(f):
    g = vec2(f)
    return lambda v, t, p, a: g(v[0], v[1])


def _not(x):
    return P.add(P.ONE, P.neg(x))


def _add(a, b):
    if has_special(a) or has_special(b):
        return _special_arith("add", a, b)
    return P.add(a, b)


def _special_arith(op, a, b):
    sa, sb = _inf_part(a), _inf_part(b)
    if a.cats() or b.cats():
        return P.shannon((a, b), lambda x, y: {"add": _add, "mul": _mul}[op](x, y))
    if sa == "nan" or sb == "nan":
        return NAN
    if op == "add":
        if sa is not None and sb is not None:
            return INF if sa == sb == 1 else (P.neg(INF) if sa == sb == -1 else NAN)
        s = sa if sa is not None else sb
        return INF if s == 1 else P.neg(INF)
    # mul
    x, s = (b, sa) if sa is not None else (a, sb)
    sx = _inf_part(x)
    if sx is None:
        sx = P.sign_of(x)
    if sx == 0:
        return NAN
    if sx in (1, -1):
        return INF if sx * s == 1 else P.neg(INF)
    return P.mul(a, b)


def _mul(a, b):
    if has_special(a) or has_special(b):
        return _special_arith("mul", a, b)
    return P.mul(a, b)


def _div(a, b):
    if not b.t:
        return NAN if not a.t else (P.mul(P.sign(a), INF) if a.is_num() else NAN)
    if has_special(a) or has_special(b):
        if b.cats() or a.cats():
            return P.shannon((a, b), _div)
        if _inf_part(a) == "nan" or _inf_part(b) == "nan":
            return NAN
        if _inf_part(b) is not None and not has_special(a):
            return P.ZERO
        if _inf_part(a) is not None and not has_special(b):
            return _mul(a, P.sign(b))
        return NAN
    if b.cats():
        return P.shannon((a, b), _div) if a.cats() & b.cats() else P.mul(a, P.shannon((b,), lambda x: P.power_safe(x, -1)))
    return P.mul(a, P.inv(b))


def _sub(a, b):
    return _add(a, P.neg(b))


def _idiv(a, b):
    return P.truncdiv(a, b)


def _rem(a, b):
    return P.add(a, P.neg(P.mul(b, P.truncdiv(a, b))))


RULES["add"] = RULES["add_any"] = _bi(_add)
RULES["sub"] = _bi(_sub)
RULES["mul"] = _bi(_mul)
RULES["neg"] = _un(P.neg)
RULES["max"] = _bi(lambda a, b: P.maximum(a, b))
RULES["min"] = _bi(lambda a, b: P.minimum(a, b))
RULES["atan2"] = _bi(P.arg_of)


@rule("div")
def _r_div(v, t, p, a):
    if np.dtype(a.dtype).kind in "iu":
        return vec2(_idiv)(v[0], v[1])
    return vec2(_div)(v[0], v[1])


@rule("rem")
def _r_rem(v, t, p, a):
    return vec2(_rem)(v[0], v[1])


def _abs(p):
    if has_special(p):
        s = _inf_part(p)
        return NAN if s == "nan" else INF
    return P.absolute(p)


RULES["abs"] = _un(_abs)
RULES["sign"] = _un(P.sign)
RULES["exp"] = _un(lambda x: P.exp(x))
RULES["exp2"] = _un(lambda x: P.exp(P._mul_c(x, P.to_frac(float(np.log(2.0))))))
RULES["expm1"] = _un(lambda x: P.add(P.exp(x), P.const(-1)))


def _log(p):
    if has_special(p):
        if p.cats():
            return P.shannon((p,), _log)
        s = _inf_part(p)
        return INF if s == 1 else NAN
    if p.cats():
        return P.shannon((p,), _log)
    if not p.t or (len(p.t) > 1 and not P._content(p)[2].t):
        return P.neg(INF)
    return P.log(p)


RULES["log"] = _un(_log)
RULES["log1p"] = _un(lambda x: _log(_add(x, P.ONE)))
RULES["sqrt"] = _un(lambda x: P.power(x, Fraction(1, 2)) if not has_special(x) else x)
RULES["rsqrt"] = _un(lambda x: P.power(x, Fraction(-1, 2)))
RULES["cbrt"] = _un(lambda x: P.power(x, Fraction(1, 3)))
RULES["square"] = _un(lambda x: P.mul(x, x))
RULES["sin"] = _un(P.sin)
RULES["cos"] = _un(P.cos)
RULES["tan"] = _un(lambda x: P.mul(P.sin(x), P.inv(P.cos(x))))
RULES["sinh"] = _un(P.sinh)
RULES["cosh"] = _un(P.cosh)
RULES["tanh"] = _un(P.tanh)
RULES["logistic"] = _un(P.logistic)
RULES["erf"] = _un(lambda x: P.func("erf", [x]))
RULES["real"] = _un(P.re)
RULES["imag"] = _un(P.im)
RULES["conj"] = _un(P.conj)
RULES["complex"] = _bi(lambda a, b: P.add(a, P.mul(P.IMAG, b)))
RULES["floor"] = _un(P.floor)
RULES["ceil"] = _un(lambda x: P.neg(P.floor(P.neg(x))))
RULES["is_finite"] = _un(lambda x: P.ONE if not has_special(x) else (
    P.shannon((x,), lambda y: P.ZERO if has_special(y) else P.ONE)))
RULES["round"] = _un(lambda x: P.shannon((x,), lambda y: P.const(round(y.const_value()))
                                        if y.const_value() is not None else P.func("round", [y])))
RULES["copy"] = RULES["copy_p"] = RULES["stop_gradient"] = _un(lambda x: x)
RULES["reduce_precision"] = _un(lambda x: x)
RULES["device_put"] = None


@rule("integer_pow")
def _r_ipow(v, t, p, a):
    y = p["y"]
    return vec1(lambda x: P.power(x, y) if y > 0 or not x.cats() else P.shannon((x,), lambda z: P.power_safe(z, y)))(v[0])


@rule("pow")
def _r_pow(v, t, p, a):
    def f(x, y):
        c = y.const_value()
        if c is not None:
            if x.cats() and c < 0:
                return P.shannon((x,), lambda z: P.power_safe(z, c))
            return P.power(x, c)
        return P.power_sym(x, y)
    return vec2(f)(v[0], v[1])


def _cmp(f):
    g = vec2(f)
    return lambda v, t, p, a: g(v[0], v[1])


def _spec(f):
    def g(a, b):
        if has_special(a) and has_special(b):
            if a.cats() or b.cats():
                return P.shannon((a, b), g)
            x = num(a) if a.is_num() or has_special(a) else None
            y = num(b) if b.is_num() or has_special(b) else None
            import math
            return {"gt": P.const(int(x > y)), "eq": P.const(int(x == y)), "ge": P.const(int(x >= y))}[f]
        d = P.add(a, P.neg(b))
        if f == "gt":
            return P.gt0(d)
        if f == "eq":
            return P.eq0(d)
        # ge
        if has_special(d) and _inf_part(d) == "nan":
            return P.ZERO
        return _not(P.gt0(P.neg(d)))
    return g


_GT, _EQ, _GE = _spec("gt"), _spec("eq"), _spec("ge")
RULES["gt"] = _cmp(_GT)
RULES["lt"] = _cmp(lambda a, b: _GT(b, a))
RULES["ge"] = _cmp(_GE)
RULES["le"] = _cmp(lambda a, b: _GE(b, a))
RULES["le_to"], RULES["lt_to"] = RULES["le"], RULES["lt"]
RULES["eq"] = _cmp(_EQ)


def _ne(a, b):
    if a is b:
        return _isnan(a)
    return _not(_EQ(a, b))


RULES["ne"] = _cmp(_ne)


def _need_bool(t):
    for x in t:
        if np.dtype(x.aval.dtype) != np.bool_:
            raise Unsupported("bitwise operation on symbolic integers")


@rule("and")
def _r_and(v, t, p, a):
    _need_bool(t)
    return vec2(P.mul)(v[0], v[1])


@rule("or")
def _r_or(v, t, p, a):
    _need_bool(t)
    return vec2(lambda x, y: x | y)(v[0], v[1])


@rule("xor")
def _r_xor(v, t, p, a):
    _need_bool(t)
    return vec2(lambda x, y: x ^ y)(v[0], v[1])


@rule("not")
def _r_not(v, t, p, a):
    _need_bool(t)
    return vec1(_not)(v[0])


def _ite_special(c, a, b):
    return P.ite(c, a, b)


@rule("select_n")
def _r_select(v, t, p, a):
    which, cases = v[0], v[1:]
    if which.shape != cases[0].shape:
        which = np.broadcast_to(which, cases[0].shape)
    out = np.empty(cases[0].shape, dtype=object)
    of, wf = out.reshape(-1), which.reshape(-1)
    cf = [c.reshape(-1) for c in cases]
    for i in range(of.size):
        w = wf[i]
        c = w.const_value()
        if c is not None:
            of[i] = cf[int(c)][i]
        elif len(cf) == 2:
            of[i] = P.ite(w, cf[1][i], cf[0][i])
        else:
            acc = cf[-1][i]
            for k in range(len(cf) - 2, -1, -1):
                acc = P.ite(P.eq0(P.add(w, P.const(-k))), cf[k][i], acc)
            of[i] = acc
    return of.reshape(cases[0].shape)


@rule("clamp")
def _r_clamp(v, t, p, a):
    lo, x, hi = v
    lo = np.broadcast_to(lo, x.shape)
    hi = np.broadcast_to(hi, x.shape)
    return vec2(P.minimum)(vec2(P.maximum)(x, lo), hi)


@rule("convert_element_type")
def _r_convert(v, t, p, a):
    src, dst = np.dtype(t[0].aval.dtype), np.dtype(a.dtype)
    x = v[0]
    if dst == np.bool_ and src != np.bool_:
        return vec1(lambda q: _not(P.eq0(q)))(x)
    if src.kind == "c" and dst.kind != "c":
        x = vec1(P.re)(x)
    if dst.kind in "iu" and src.kind in "fc":
        return vec1(lambda q: P.truncdiv(q, P.ONE))(x)
    if dst.kind in "fc" and src.kind in "fc" and _half(dst) < _half(src):
        return narrow(x, dst)
    return x


def _half(d):
    """bytes of one real number of the type"""
    return d.itemsize // (2 if d.kind == "c" else 1)


def _coarse(q):
    """every coefficient is a small dyadic number and every variable is a small integer: exact in 32 bits"""
    import fractions
    for m, c in q.t.items():
        try:
            f = fractions.Fraction(c)
        except (TypeError, ValueError):
            return False
        if f.denominator > 1024 or f.denominator & (f.denominator - 1) or abs(f) > 4096:
            return False
        if any(P.KIND[i] not in (P.K_CAT, P.K_I) for i, _ in m):
            return False
    return True


def narrow(x, dst):
    """loss of precision: the value is replaced by an unspecified function of it"""
    name = "narrow%d" % (8 * _half(dst))

    def one(q):
        if _coarse(q):
            return q
        P.NARROWED[0] = True
        if dst.kind == "c":
            re, im = P.re(q), P.im(q)
            re = re if _coarse(re) else P.func(name, (re,))
            im = im if _coarse(im) else P.func(name, (im,))
            return P.add(re, P.mul(P.IMAG, im))
        return P.func(name, (q,))
    return vec1(one)(x)


# ---- structure

@rule("reshape")
def _r_reshape(v, t, p, a):
    if p.get("dimensions") is not None:
        raise Unsupported("reshape dimensions")
    return v[0].reshape(p["new_sizes"])


@rule("broadcast_in_dim")
def _r_bid(v, t, p, a):
    x = v[0]
    shape, dims = p["shape"], p["broadcast_dimensions"]
    s = [1] * len(shape)
    for i, d in enumerate(dims):
        s[d] = x.shape[i]
    return np.broadcast_to(x.reshape(s), shape).copy()


@rule("transpose")
def _r_transpose(v, t, p, a):
    return np.transpose(v[0], p["permutation"])


@rule("squeeze")
def _r_squeeze(v, t, p, a):
    return v[0].reshape(a.shape)


@rule("expand_dims")
def _r_expand(v, t, p, a):
    return v[0].reshape(a.shape)


@rule("rev")
def _r_rev(v, t, p, a):
    return np.flip(v[0], p["dimensions"])


@rule("slice")
def _r_slice(v, t, p, a):
    st = p["strides"] or (1,) * v[0].ndim
    return v[0][tuple(slice(b, e, s) for b, e, s in zip(p["start_indices"], p["limit_indices"], st))]


@rule("concatenate")
def _r_concat(v, t, p, a):
    return np.concatenate(v, axis=p["dimension"])


@rule("split")
def _r_split(v, t, p, a):
    idx = np.cumsum(p["sizes"])[:-1]
    return np.split(v[0], idx, axis=p["axis"])


@rule("pad")
def _r_pad(v, t, p, a):
    x, padv = v[0], v[1].reshape(-1)[0]
    cfg = p["padding_config"]
    # interior
    shape = [d + max(d - 1, 0) * i for d, (l, h, i) in zip(x.shape, cfg)]
    y = obj_full(shape, padv)
    y[tuple(slice(None, None, i + 1) for (l, h, i) in cfg)] = x
    out = obj_full(a.shape, padv)
    src, dst = [], []
    for d, (l, h, i) in zip(shape, cfg):
        s0 = max(0, -l)
        s1 = d - max(0, -h)
        src.append(slice(s0, max(s1, s0)))
        d0 = max(0, l)
        dst.append(slice(d0, d0 + max(s1 - s0, 0)))
    out[tuple(dst)] = y[tuple(src)]
    return out


def _choices(ps, sizes=None):
    """possible integer values of a tuple of polys: list of (values, indicator)"""
    if all(p.const_value() is not None for p in ps):
        return [(tuple(int(p.const_value()) for p in ps), P.ONE)]
    cs = set()
    for p in ps:
        cs |= p.cats()
    n = 1
    for a in cs:
        n *= P.ATOMS[a].n
    if n > 1024 and sizes is not None:
        # too many cases: indicators per position (values outside the array: the lowest/highest position)
        out = [((), P.ONE)]
        for p, m in zip(ps, sizes):
            c = p.const_value()
            if c is not None:
                opts = [(int(c), P.ONE)]
            else:
                opts = []
                for v in range(-1, m + 1):
                    if v == -1:
                        ind = P.gt0(P.neg(p))
                    elif v == m:
                        ind = P.gt0(P.add(p, P.const(1 - m)))
                    else:
                        ind = P.eq0(P.add(p, P.const(-v)))
                    if ind.t:
                        opts.append((v, ind))
            out = [(k + (v,), P.mul(i, j)) for k, i in out for v, j in opts]
        return [(k, i) for k, i in out if i.t]
    groups = {}
    order = []
    for asg, lv in P.leaves(ps):
        key = []
        for q in lv:
            c = q.const_value()
            if c is None:
                raise Unsupported("index depends on a real variable")
            key.append(int(c))
        key = tuple(key)
        if key not in groups:
            groups[key] = None
            order.append(key)
    out = []
    for key in order:
        ind = P.shannon(tuple(ps), lambda *q: P.ONE if tuple(int(x.const_value()) for x in q) == key else P.ZERO)
        out.append((key, ind))
    return out


def _select_arrays(cands):
    """cands: list of (indicator, object array) -> combined"""
    if len(cands) == 1:
        return cands[0][1]
    acc = cands[0][1]
    base = acc
    out = base
    for ind, arr in cands[1:]:
        out = vec2(lambda o, d, ind=ind: P.add(o, P.mul(ind, d)) if d.t else o)(
            out, vec2(lambda x, y: P.add(x, P.neg(y)) if x is not y else P.ZERO)(arr, base))
    return out


@rule("dynamic_slice")
def _r_dslice(v, t, p, a):
    x = v[0]
    sizes = p["slice_sizes"]
    starts = [i.reshape(-1)[0] for i in v[1:1 + x.ndim]]
    cands = []
    merged = {}
    for key, ind in _choices(starts, x.shape):
        k = tuple(min(max(s, 0), d - n) for s, d, n in zip(key, x.shape, sizes))
        merged[k] = P.add(merged[k], ind) if k in merged else ind
    for k, ind in merged.items():
        cands.append((ind, x[tuple(slice(s, s + n) for s, n in zip(k, sizes))]))
    return _select_arrays(cands)


@rule("dynamic_update_slice")
def _r_dus(v, t, p, a):
    x, u = v[0], v[1]
    starts = [i.reshape(-1)[0] for i in v[2:2 + x.ndim]]
    cands = []
    merged = {}
    for key, ind in _choices(starts, x.shape):
        k = tuple(min(max(s, 0), d - n) for s, d, n in zip(key, x.shape, u.shape))
        merged[k] = P.add(merged[k], ind) if k in merged else ind
    for k, ind in merged.items():
        y = x.copy()
        y[tuple(slice(s, s + n) for s, n in zip(k, u.shape))] = u
        cands.append((ind, y))
    return _select_arrays(cands)


def _mode(m):
    s = str(m)
    if "CLIP" in s:
        return "clip"
    if "PROMISE" in s:
        return "promise"
    return "fill"


@rule("gather")
def _r_gather(v, t, p, a):
    operand, indices = v
    dn = p["dimension_numbers"]
    sizes = p["slice_sizes"]
    mode = _mode(p["mode"])
    offset_dims = dn.offset_dims
    collapsed = set(dn.collapsed_slice_dims)
    ob = tuple(getattr(dn, "operand_batching_dims", ()))
    sb = tuple(getattr(dn, "start_indices_batching_dims", ()))
    sim = dn.start_index_map
    batch_shape = indices.shape[:-1]
    out = np.empty(a.shape, dtype=object)
    ndim = operand.ndim
    batch_out_dims = [d for d in range(len(a.shape)) if d not in offset_dims]
    win_dims = [d for d in range(ndim) if d not in collapsed and d not in ob]
    fillv = P.ZERO if np.dtype(a.dtype).kind in "b" else NAN
    if p.get("fill_value") is not None:
        fillv = _const_ext(np.asarray(p["fill_value"]).item())
    elif np.dtype(a.dtype).kind in "iu":
        fillv = P.const(int(np.iinfo(a.dtype).min if np.dtype(a.dtype).kind == "i" else np.iinfo(a.dtype).max))
    win_shape = tuple(sizes[d] for d in win_dims)
    for b in np.ndindex(*batch_shape):
        row = [indices[b + (k,)] for k in range(indices.shape[-1])]
        cands = {}
        for key, ind in _choices(row, [operand.shape[d] for d in sim]):
            start = [0] * ndim
            oob = False
            for k, d in enumerate(sim):
                s = key[k]
                hi = operand.shape[d] - sizes[d]
                if s < 0 or s > hi:
                    oob = True
                    s = min(max(s, 0), hi)
                start[d] = s
            for d, q in zip(ob, sb):
                start[d] = b[q]
            kk = "fill" if (oob and mode == "fill") else tuple(start)
            cands[kk] = P.add(cands[kk], ind) if kk in cands else ind
        arrs = []
        for kk, ind in cands.items():
            if kk == "fill":
                arrs.append((ind, obj_full(win_shape, fillv)))
            else:
                w = operand[tuple(slice(s, s + n) for s, n in zip(kk, sizes))]
                arrs.append((ind, w.reshape(win_shape)))
        res = _select_arrays(arrs)
        sl = [None] * len(a.shape)
        for d, i in zip(batch_out_dims, b):
            sl[d] = i
        for d in offset_dims:
            sl[d] = slice(None)
        if not offset_dims:
            out[tuple(sl)] = res.reshape(-1)[0]
        else:
            out[tuple(sl)] = res
    return out


def _scatter(combine):
    def f(v, t, p, a):
        operand, indices, updates = v
        dn = p["dimension_numbers"]
        mode = _mode(p["mode"])
        uwd = dn.update_window_dims
        iwd = set(dn.inserted_window_dims)
        ob = tuple(getattr(dn, "operand_batching_dims", ()))
        sb = tuple(getattr(dn, "scatter_indices_batching_dims", ()))
        sdod = dn.scatter_dims_to_operand_dims
        out = operand.copy()
        ndim = operand.ndim
        batch_shape = indices.shape[:-1]
        upd_batch_dims = [d for d in range(updates.ndim) if d not in uwd]
        win_dims = [d for d in range(ndim) if d not in iwd and d not in ob]
        win_shape = [1] * ndim
        for d, u in zip(win_dims, uwd):
            win_shape[d] = updates.shape[u]
        for b in np.ndindex(*batch_shape):
            row = [indices[b + (k,)] for k in range(indices.shape[-1])]
            sl = [None] * updates.ndim
            for d, i in zip(upd_batch_dims, b):
                sl[d] = i
            for d in uwd:
                sl[d] = slice(None)
            if uwd:
                upd = updates[tuple(sl)].reshape(win_shape)
            else:
                upd = obj_full(win_shape, updates[tuple(sl)])
            cands = {}
            for key, ind in _choices(row, [operand.shape[d] for d in sdod]):
                start = [0] * ndim
                oob = False
                for k, d in enumerate(sdod):
                    s = key[k]
                    hi = operand.shape[d] - win_shape[d]
                    if s < 0 or s > hi:
                        oob = True
                        s = min(max(s, 0), hi)
                    start[d] = s
                for d, q in zip(ob, sb):
                    start[d] = b[q]
                if oob and mode != "clip":
                    continue
                kk = tuple(start)
                cands[kk] = P.add(cands[kk], ind) if kk in cands else ind
            new = out.copy()
            for kk, ind in cands.items():
                slc = tuple(slice(s, s + n) for s, n in zip(kk, win_shape))
                old = out[slc]
                comb = vec2(combine)(old, upd)
                cur = new[slc]
                if ind.const_value() == 1:
                    new[slc] = comb
                else:
                    delta = vec2(lambda x, y: P.mul(ind, P.add(x, P.neg(y))))(comb, old)
                    new[slc] = vec2(P.add)(cur, delta)
            out = new
        return out
    return f


RULES["scatter"] = _scatter(lambda o, u: u)
RULES["scatter-add"] = RULES["scatter_add"] = _scatter(P.add)
RULES["scatter-mul"] = RULES["scatter_mul"] = _scatter(P.mul)
RULES["scatter-max"] = RULES["scatter_max"] = _scatter(P.maximum)
RULES["scatter-min"] = RULES["scatter_min"] = _scatter(P.minimum)


# ---- reductions

def _reduce(f_all):
    def r(v, t, p, a):
        x = v[0]
        axes = tuple(p["axes"])
        keep = [d for d in range(x.ndim) if d not in axes]
        y = np.transpose(x, keep + list(axes)).reshape(tuple(x.shape[d] for d in keep) + (-1,))
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = f_all(list(y[i]))
        return out
    return r


def _fold(f, unit):
    def g(xs):
        if not xs:
            return unit
        acc = xs[0]
        for x in xs[1:]:
            acc = f(acc, x)
        return acc
    return g


def _sum(xs):
    if any(has_special(x) for x in xs):
        return _fold(_add, P.ZERO)(xs)
    return P.addn(xs)


RULES["reduce_sum"] = _reduce(_sum)
RULES["reduce_prod"] = _reduce(_fold(_mul, P.ONE))


def _extremum(name, f, unit):
    """case distinction up to three different values; beyond, an unconstrained value (over-approximation)"""
    fold = _fold(f, unit)

    def leaf(*xs):
        u = {}
        for x in xs:
            u.setdefault(x.key(), x)
        if len(u) <= 3:
            return fold(list(u.values()))
        return P.func(name, [u[k] for k in sorted(u, key=repr)])

    def g(xs):
        if len(xs) <= 3 or any(has_special(x) for x in xs):
            return fold(xs)
        if all(x.const_value() is not None for x in xs):
            return fold(xs)
        return P.shannon(tuple(xs), leaf)
    return g


def _above(a, b):
    """order used by max/min: lexicographic in real and imaginary part for complex values"""
    if P.same(a, b):
        return P.ZERO
    if a.is_real_syntactic() and b.is_real_syntactic():
        return P.gt0(P.add(a, P.neg(b)))
    d = P.add(a, P.neg(b))
    r, i = P.re(d), P.im(d)
    g = P.gt0(r)
    return P.add(g, P.mul(P.eq0(r), P.gt0(i)))


def _maxi(a, b):
    return a if P.same(a, b) else P.ite(_above(a, b), a, b)


def _mini(a, b):
    return a if P.same(a, b) else P.ite(_above(a, b), b, a)


RULES["reduce_max"] = _reduce(_extremum("max", _maxi, P.neg(INF)))
RULES["reduce_min"] = _reduce(_extremum("min", _mini, INF))
RULES["reduce_and"] = _reduce(_fold(P.mul, P.ONE))
RULES["reduce_or"] = _reduce(_fold(lambda a, b: a | b, P.ZERO))
RULES["reduce_xor"] = _reduce(_fold(lambda a, b: a ^ b, P.ZERO))


def _argred(better):
    def r(v, t, p, a):
        x = v[0]
        ax = p["axes"][0]
        y = np.moveaxis(x, ax, -1)
        out = np.empty(y.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            best, bi = y[i][0], P.ZERO
            for k in range(1, y.shape[-1]):
                c = better(y[i][k], best)
                best = P.ite(c, y[i][k], best)
                bi = P.ite(c, P.const(k), bi)
            out[i] = bi
        return out
    return r


RULES["argmax"] = _argred(lambda n, o: P.gt0(P.add(n, P.neg(o))))
RULES["argmin"] = _argred(lambda n, o: P.gt0(P.add(o, P.neg(n))))


def _cum(f):
    def r(v, t, p, a):
        x = np.moveaxis(v[0], p["axis"], 0)
        out = x.copy()
        n = x.shape[0]
        g = vec2(f)
        if p.get("reverse"):
            for i in range(n - 2, -1, -1):
                out[i] = g(np.asarray(out[i + 1], dtype=object), np.asarray(x[i], dtype=object)) \
                    if x.ndim > 1 else f(out[i + 1], x[i])
        else:
            for i in range(1, n):
                out[i] = g(out[i - 1], x[i]) if x.ndim > 1 else f(out[i - 1], x[i])
        return np.moveaxis(out, 0, p["axis"])
    return r


RULES["cumsum"] = _cum(P.add)
RULES["cumprod"] = _cum(P.mul)
RULES["cummax"] = _cum(lambda a, b: P.maximum(a, b))
RULES["cummin"] = _cum(lambda a, b: P.minimum(a, b))


def dot(xs, ys):
    acc = []
    for x, y in zip(xs, ys):
        if x.t and y.t:
            acc.append(_mul(x, y))
    if not acc:
        return P.ZERO
    return _sum(acc) if len(acc) > 1 else acc[0]


@rule("dot_general")
def _r_dot(v, t, p, a):
    (lc, rc), (lb, rb) = p["dimension_numbers"]
    l, r = v
    lf = [d for d in range(l.ndim) if d not in lc and d not in lb]
    rf = [d for d in range(r.ndim) if d not in rc and d not in rb]
    bs = tuple(l.shape[d] for d in lb)
    ks = int(np.prod([l.shape[d] for d in lc], dtype=int))
    ls = tuple(l.shape[d] for d in lf)
    rs = tuple(r.shape[d] for d in rf)
    L = np.transpose(l, list(lb) + lf + list(lc)).reshape((int(np.prod(bs, dtype=int)), int(np.prod(ls, dtype=int)), ks))
    R = np.transpose(r, list(rb) + rf + list(rc)).reshape((L.shape[0], int(np.prod(rs, dtype=int)), ks))
    out = np.empty((L.shape[0], L.shape[1], R.shape[1]), dtype=object)
    for b in range(L.shape[0]):
        for i in range(L.shape[1]):
            for j in range(R.shape[1]):
                out[b, i, j] = dot(L[b, i], R[b, j])
    return out.reshape(bs + ls + rs)


@rule("conv_general_dilated")
def _r_conv(v, t, p, a):
    dn = p["dimension_numbers"]
    lhs = np.transpose(v[0], dn.lhs_spec)      # N C spatial
    rhs = np.transpose(v[1], dn.rhs_spec)      # O I spatial
    if p["batch_group_count"] != 1:
        # emulate: split the batch into groups, concatenate along features
        g = p["batch_group_count"]
        outs = []
        ls = np.split(lhs, g, axis=0)
        rs = np.split(rhs, g, axis=0)
        outs = [_conv(l, r, p, 1) for l, r in zip(ls, rs)]
        out = np.concatenate(outs, axis=1)
    else:
        out = _conv(lhs, rhs, p, p["feature_group_count"])
    inv = np.argsort(dn.out_spec)
    # out has layout N C spatial -> out_spec positions
    res = np.transpose(out, inv) if True else out
    return res


def _conv(lhs, rhs, p, fg):
    nsp = lhs.ndim - 2
    ld, rd, st, pad = p["lhs_dilation"], p["rhs_dilation"], p["window_strides"], p["padding"]
    # dilate lhs
    shape = list(lhs.shape[:2]) + [(d - 1) * q + 1 if d > 0 else 0 for d, q in zip(lhs.shape[2:], ld)]
    x = obj_full(shape, P.ZERO)
    x[(slice(None), slice(None)) + tuple(slice(None, None, q) for q in ld)] = lhs
    kshape = list(rhs.shape[:2]) + [(d - 1) * q + 1 for d, q in zip(rhs.shape[2:], rd)]
    k = obj_full(kshape, P.ZERO)
    k[(slice(None), slice(None)) + tuple(slice(None, None, q) for q in rd)] = rhs
    # pad
    newshape = list(x.shape[:2]) + [d + l + h for d, (l, h) in zip(x.shape[2:], pad)]
    y = obj_full(newshape, P.ZERO)
    src, dst = [slice(None)] * 2, [slice(None)] * 2
    for d, (l, h) in zip(x.shape[2:], pad):
        s0, s1 = max(0, -l), d - max(0, -h)
        src.append(slice(s0, s1))
        dst.append(slice(max(l, 0), max(l, 0) + s1 - s0))
    y[tuple(dst)] = x[tuple(src)]
    osp = [max(0, (d - kd) // s + 1) for d, kd, s in zip(y.shape[2:], k.shape[2:], st)]
    N, O = x.shape[0], k.shape[0]
    out = np.empty([N, O] + osp, dtype=object)
    opg = O // fg
    cpg = x.shape[1] // fg
    for n in range(N):
        for pos in np.ndindex(*osp):
            sl = tuple(slice(q * s, q * s + kd) for q, s, kd in zip(pos, st, k.shape[2:]))
            for o in range(O):
                g = o // opg
                w = y[(n, slice(g * cpg, (g + 1) * cpg)) + sl]
                out[(n, o) + pos] = dot(w.reshape(-1), k[o].reshape(-1))
    return out


@rule("sort")
def _r_sort(v, t, p, a):
    dim, nk = p["dimension"], p["num_keys"]
    arrs = [np.moveaxis(x, dim, -1).copy() for x in v]
    n = arrs[0].shape[-1]

    def less(row, i, j):
        """strict lexicographic key(j) < key(i)"""
        acc = P.ZERO
        for k in reversed(range(nk)):
            x, y = row[k][j], row[k][i]
            lt = P.gt0(P.add(y, P.neg(x)))
            if k == nk - 1:
                acc = lt
            else:
                eq = P.eq0(P.add(y, P.neg(x)))
                acc = lt | (eq & acc)
        return acc

    for idx in np.ndindex(*arrs[0].shape[:-1]):
        row = [list(x[idx]) for x in arrs]
        for end in range(n - 1, 0, -1):      # stable bubble network
            for i in range(end):
                c = less(row, i, i + 1)
                if not c.t:
                    continue
                for q in range(len(row)):
                    x, y = row[q][i], row[q][i + 1]
                    row[q][i], row[q][i + 1] = P.ite(c, y, x), P.ite(c, x, y)
        for q in range(len(row)):
            for i in range(n):
                arrs[q][idx + (i,)] = row[q][i]
    return [np.moveaxis(x, -1, dim) for x in arrs]


@rule("device_put")
def _r_device_put(v, t, p, a):
    return list(v)


@rule("optimization_barrier")
def _r_barrier(v, t, p, a):
    return list(v)


@rule("sharding_constraint")
def _r_sc(v, t, p, a):
    return v[0]


@rule("reduce")
def _r_reduce_gen(v, t, p, a):
    raise Unsupported("generic reduce")


@rule("iota")
def _r_iota(v, t, p, a):
    raise Unsupported("iota on symbolic")


# ---- linear algebra with explicit formulas for small sizes, contracts otherwise (see stubs)

def det_inv(A):
    n = A.shape[0]

    def minor_det(rows, cols):
        if not rows:
            return P.ONE
        if len(rows) == 1:
            return A[rows[0], cols[0]]
        acc = []
        r = rows[0]
        for k, c in enumerate(cols):
            if A[r, c].t:
                d = minor_det(rows[1:], cols[:k] + cols[k + 1:])
                x = P.mul(A[r, c], d)
                acc.append(x if k % 2 == 0 else P.neg(x))
        return P.addn(acc) if acc else P.ZERO
    idx = list(range(n))
    D = minor_det(idx, idx)
    Di = P.inv(D)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            rows = [q for q in idx if q != j]
            cols = [q for q in idx if q != i]
            m = minor_det(rows, cols)
            if (i + j) % 2:
                m = P.neg(m)
            out[i, j] = P.mul(m, Di)
    return D, out


# uninterpreted function primitive: used for opaque wave functions
opaque_p = core.Primitive("sym_opaque")


def opaque(name, x, dtype=np.float64, pos=False):
    """uninterpreted function of a whole array (last dims), complex functions have independent re/im parts"""
    return opaque_p.bind(x, name=name, dtype=np.dtype(dtype), ndim=jnp.ndim(x))


@opaque_p.def_abstract_eval
def _opaque_abs(x, *, name, dtype, ndim):
    return core.ShapedArray(x.shape[:len(x.shape) - ndim], dtype)


CONCRETE_OPAQUE = {}


def opaque_scalar(name, args, dtype):
    if np.dtype(dtype).kind == "c":
        return P.add(P.func(name + ".re", args), P.mul(P.IMAG, P.func(name + ".im", args)))
    return P.func(name, args)


@opaque_p.def_impl
def _opaque_impl(x, *, name, dtype, ndim):
    v = to_obj(x)
    bs = v.shape[:v.ndim - ndim]
    out = np.empty(bs, dtype=object)
    for b in np.ndindex(*bs):
        out[b] = opaque_scalar(name, list(v[b].reshape(-1)) if ndim else [v[b]], dtype)
    return SymTracer(trace(), out, core.ShapedArray(bs, np.dtype(dtype)))


def _h_opaque(tr, prim, args, params):
    return _opaque_impl(args[0], **params)


HIGHER["sym_opaque"] = _h_opaque

from jax._src.interpreters import batching as _batching


def _opaque_batch(args, dims, *, name, dtype, ndim):
    x, = args
    d, = dims
    x = jnp.moveaxis(x, d, 0)
    return opaque_p.bind(x, name=name, dtype=dtype, ndim=ndim), 0


_batching.primitive_batchers[opaque_p] = _opaque_batch


def _psum_h(tr, prim, args, params):
    if any(not isinstance(k, (int, np.integer)) for k in params["axes"]) or params.get("axis_index_groups") is not None:
        raise Unsupported("collective over a named axis")
    f = {"psum": lambda a, b: a + b, "pmax": lambda a, b: jnp.maximum(a, b), "pmin": lambda a, b: jnp.minimum(a, b)}[prim.name]
    out = []
    for x in args:
        for ax in sorted((int(k) for k in params["axes"]), reverse=True):
            acc = jnp.take(x, 0, axis=ax)
            for i in range(1, x.shape[ax]):
                acc = f(acc, jnp.take(x, i, axis=ax))
            x = acc
        out.append(x if isinstance(x, SymTracer) else tr.pure(x))
    return out


for _n in ("psum", "pmax", "pmin"):
    HIGHER[_n] = _psum_h
