"""Random draws as symbolic variables.

Inside `active(h)` the sampling functions of jax.random are replaced: a draw is identified by its random key (so two draws
with the same key are the same random variable) and
 * symbolic runs: the outcome is a symbolic category with the exact outcome probabilities registered (uniform integers
   1/n, Bernoulli clip(p), categorical softmax(logits)); `expect` integrates them out,
 * replays: the outcomes are enumerated exactly on the real (compiled) code through a host callback.
Key generation and splitting are the real ones."""
import contextlib
import functools
import itertools
import sys
import zlib

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core as score
from jax._src.interpreters import batching

from . import poly as P
from .poly import Poly, Unsupported

ORIG = {}
NAMES = ("randint", "bernoulli", "categorical", "choice", "uniform")


class State:
    def __init__(self):
        self.on = False
        self.h = None
        self.order = []       # symbolic: [(atom, [prob polys])]
        self.kinds = {}       # name -> kind
        self.reused = []
        self.script = None
        self.split = set()
        self.forced = None
        self.pars = {}        # name -> parameters of the distributions drawn from with this name


ST = State()


# ---- the draw primitive (symbolic runs) --------------------------------------------------------------------------

draw_p = score.Primitive("vp_draw")


@draw_p.def_abstract_eval
def _abs(key, *par, kind, shape, n, nb, dtype, ptail):
    return score.ShapedArray(tuple(key.shape[:nb]) + tuple(shape), np.dtype(dtype))


def _impl(key, *par, kind, shape, n, nb, dtype, ptail):
    from . import symjax as S
    if isinstance(key, score.Tracer):
        raise Unsupported("random key depends on symbolic data")
    key = np.asarray(key)
    B = key.shape[:nb]
    out = np.empty(B + tuple(shape), dtype=object)
    pv = S.to_obj(par[0]) if par else None
    for b in np.ndindex(*B):
        name = "draw:" + key[b].tobytes().hex()
        _seen(name, (kind, tuple(shape), n))
        q = None
        if pv is not None:
            q = np.broadcast_to(pv[b], tuple(shape) + tuple(ptail)) if pv[b].__class__ is np.ndarray else np.broadcast_to(pv[b], tuple(shape))
        for i in np.ndindex(*shape):
            qi = None if q is None else q[i]
            out[b + i] = _symdraw(_variant(name + ":" + ",".join(map(str, i)), qi, _same_q), kind, n, qi)
    return S.SymTracer(S.trace(), out, score.ShapedArray(out.shape, np.dtype(dtype))).full_lower()


draw_p.def_impl(_impl)


def _h_draw(tr, prim, args, params):
    return _impl(*args, **params)


def _batch(args, dims, *, kind, shape, n, nb, dtype, ptail):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not batching.not_mapped)
    new = []
    for a, d in zip(args, dims):
        if d is batching.not_mapped:
            a = jnp.broadcast_to(a, (size,) + jnp.shape(a))
        else:
            a = jnp.moveaxis(a, d, 0)
        new.append(a)
    return draw_p.bind(*new, kind=kind, shape=shape, n=n, nb=nb + 1, dtype=dtype, ptail=ptail), 0


batching.primitive_batchers[draw_p] = _batch


# splitting is the real one; the keys are noted
note_p = score.Primitive("vp_note_key")
note_p.def_abstract_eval(lambda key: score.ShapedArray(key.shape, key.dtype))
batching.primitive_batchers[note_p] = lambda args, dims: (note_p.bind(jnp.moveaxis(args[0], dims[0], 0)), 0)


def _note(key):
    if not isinstance(key, score.Tracer):
        for k in np.asarray(key).reshape(-1, np.shape(key)[-1]):
            ST.split.add("draw:" + k.tobytes().hex())
    return key


note_p.def_impl(_note)


def split(key, *a, **kw):
    if ST.on and not jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jnp.asarray(key)
        if ST.h.symbolic:
            key = note_p.bind(key)
        elif isinstance(key, score.Tracer):
            key = jax.pure_callback(lambda k: np.asarray(_note(k)), jax.ShapeDtypeStruct(key.shape, key.dtype), key, vectorized=True)
        else:
            _note(key)
    return ORIG["split"](key, *a, **kw)


def _seen(name, kind):
    old = ST.kinds.get(name)
    if old is None:
        ST.kinds[name] = kind
    elif old != kind:
        ST.reused.append((name, old, kind))


def _same_q(a, b):
    a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
    return len(a) == len(b) and all(P.same(P.const(x), P.const(y)) for x, y in zip(a, b))


def _close_q(a, b):
    return np.shape(a) == np.shape(b) and bool(np.allclose(a, b, rtol=1e-9, atol=1e-12))


def _variant(name, q, same):
    """a key that serves draws from two distributions is reused: the draws are told apart, and the reuse is noted"""
    if q is None:
        return name
    seen = ST.pars.setdefault(name, [])
    for k, old in enumerate(seen):
        if same(old, q):
            break
    else:
        k = len(seen)
        seen.append(q)
        if k:
            ST.reused.append((name, "distributions"))
    return name + "#%d" % k if k else name


def _symdraw(name, kind, n, q):
    if ST.forced is not None:
        return _symforced(name, kind, n, q)
    if kind == "uniform":
        v = P.var(name)
        P.set_range(v, 0, 1)
        _reg(name, ("uniform", v), None)
        return v
    if kind == "bernoulli":
        if q.const_value() is not None and q.const_value() in (0, 1):
            return q
        c = P.cat(name, 2)
        p1 = _clip01(q)
        _reg(name, c, [P.add(P.ONE, P.neg(p1)), p1])
        return c
    if n == 1:
        return P.ZERO
    c = P.cat(name, n)
    if kind == "randint":
        _reg(name, c, [P.const(1) / n] * n)
    else:
        from . import symjax as S
        e = [S._exp(x) for x in q]
        tot = P.addn(e)
        _reg(name, c, [x / tot for x in e])
    return c


def _symforced(name, kind, n, q):
    from . import symjax as S
    if kind == "uniform":
        raise Unsupported("uniform draw in a fixed history")
    n = 2 if kind == "bernoulli" else n
    k, new = ST.forced.pick(name, n)
    if kind == "bernoulli":
        p1 = _clip01(q)
        pr = p1 if k else P.add(P.ONE, P.neg(p1))
    elif kind == "randint":
        pr = P.const(1) / n
    else:
        z = S._log(P.addn([S._exp(x) for x in q]))
        if new:
            ST.forced.probs.append(P.add(q[k], P.neg(z)))
        return P.const(k)
    if new:
        ST.forced.probs.append(S._log(pr))
    return P.const(k)


def _clip01(q):
    lo = P.ite(P.gt0(P.neg(q)), P.ZERO, q)
    return P.ite(P.gt0(P.add(q, P.const(-1))), P.ONE, lo)


def _reg(name, c, probs):
    if all(name != nm for nm, _, _ in ST.order):
        ST.order.append((name, c, probs))


# ---- replacements of jax.random.* ---------------------------------------------------------------------------------

def _rawkey(key):
    if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
        key = jax.random.key_data(key)
    return key


def _draw(key, kind, shape, n, dtype, par=None, ptail=()):
    key = _rawkey(key)
    shape = tuple(int(x) for x in shape)
    if ST.h.symbolic:
        args = (key,) if par is None else (key, par)
        return draw_p.bind(*args, kind=kind, shape=shape, n=n, nb=0, dtype=np.dtype(dtype), ptail=tuple(ptail))
    return _callback(key, kind, shape, n, dtype, par, ptail)


def randint(key, shape, minval, maxval, dtype=int, **kw):
    if not ST.on:
        return ORIG["randint"](key, shape, minval, maxval, dtype, **kw)
    sd = jax.eval_shape(lambda k: ORIG["randint"](k, shape, minval, maxval, dtype, **kw), _rawkey(key))
    lo, hi = _int(minval), _int(maxval)
    n = max(hi - lo, 1)
    return _draw(key, "randint", sd.shape, n, sd.dtype) + jnp.asarray(lo, sd.dtype)


def _int(x):
    if isinstance(x, score.Tracer):
        x = score.full_lower(x)
        if isinstance(x, score.Tracer):
            raise Unsupported("range of a random integer depends on symbolic data")
    a = np.asarray(x)
    if a.size != 1:
        raise Unsupported("array-valued range of a random integer")
    return int(a.reshape(()))


def bernoulli(key, p=0.5, shape=None, **kw):
    if not ST.on:
        return ORIG["bernoulli"](key, p, shape, **kw)
    p = jnp.asarray(p)
    shape = tuple(p.shape) if shape is None else tuple(shape)
    return _draw(key, "bernoulli", shape, 2, np.bool_, jnp.broadcast_to(p, shape))


def categorical(key, logits, axis=-1, shape=None, **kw):
    if not ST.on:
        return ORIG["categorical"](key, logits, axis, shape, **kw)
    logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
    n = logits.shape[-1]
    shape = tuple(logits.shape[:-1]) if shape is None else tuple(shape)
    logits = jnp.broadcast_to(logits, shape + (n,))
    return _draw(key, "categorical", shape, n, np.int64, logits, (n,))


def choice(key, a, shape=(), replace=True, p=None, axis=0, **kw):
    if not ST.on:
        return ORIG["choice"](key, a, shape, replace, p, axis, **kw)
    if not replace:
        raise Unsupported("choice without replacement")
    if np.ndim(a) == 0:
        n = int(a)
        a = np.asarray(a)
    else:
        a = jnp.asarray(a)
        n = a.shape[axis]
    if p is None:
        i = _draw(key, "randint", shape, n, np.int64)
    else:
        i = _draw(key, "categorical", shape, n, np.int64, jnp.broadcast_to(jnp.log(jnp.asarray(p)), tuple(shape) + (n,)), (n,))
    return i if a.ndim == 0 else jnp.take(a, i, axis=axis)


def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
    if not ST.on:
        return ORIG["uniform"](key, shape, dtype, minval, maxval, **kw)
    u = _draw(key, "uniform", shape, 0, np.float64)
    return u * (maxval - minval) + minval


# ---- replays: scripted outcomes ------------------------------------------------------------------------------------

GRID = 12        # first partition of a uniform draw in a replay
PIECES = 16      # most intervals of a uniform draw


class Script:
    """depth-first enumeration of the outcomes of all draws.  A uniform draw is enumerated by the intervals on which the
    run does not change: they are located by bisection on the real code."""

    def __init__(self):
        self.prefix = {}
        self.order = []      # [name, index, values, probabilities of the values]
        self.force = {}      # trial values of uniform draws
        self.mode = None     # how draws that are not enumerated yet come out in a trial
        self.trace = []

    def outcome(self, name, kind, n, q):
        if kind == "bernoulli":
            p = min(max(float(q), 0.0), 1.0)
            pr = [1 - p, p]
            vals = [k for k in (0, 1) if pr[k] > 0]
            pr = [pr[k] for k in vals]
        elif kind == "randint":
            pr = [1.0 / n] * n
            vals = list(range(n))
        elif kind == "uniform":
            vals = pr = None
        else:
            w = np.exp(np.asarray(q, dtype=float) - np.max(q))
            pr = list(w / w.sum())
            vals = [k for k in range(n) if pr[k] > 0]
            pr = [pr[k] for k in vals]
        self.trace.append((name, None if pr is None else tuple(round(x, 9) for x in pr)))
        e = self.prefix.get(name)
        if e is None and self.mode is not None:
            if name in self.force:
                return self.force[name]
            t = self.mode(name)
            return t if vals is None else vals[min(int(t * len(vals)), len(vals) - 1)]
        if e is None:
            e = [name, 0, vals, pr]
            self.prefix[name] = e
            self.order.append(e)
        if vals is not None:
            e[2], e[3] = vals, pr
        return 0.5 if e[2] is None else e[2][e[1]]

    def prob(self):
        p = 1.0
        for name, i, vals, pr in self.order:
            p *= pr[i]
        return p

    def next(self):
        while self.order:
            e = self.order[-1]
            if e[1] + 1 < len(e[2]):
                e[1] += 1
                return True
            self.order.pop()
            del self.prefix[e[0]]
        return False

    def refine(self, run):
        """the intervals of the first uniform draw that has none; whether there was such a draw"""
        k = next((k for k, e in enumerate(self.order) if e[2] is None), None)
        if k is None:
            return False
        for e in self.order[k:]:
            del self.prefix[e[0]]
        name = self.order[k][0]
        del self.order[k:]
        modes = [lambda nm: 1e-12, lambda nm: 1 - 1e-12] + [
            lambda nm, z=z: (zlib.crc32(("%s/%d" % (nm, z)).encode()) % 9973 + 0.5) / 9973 for z in range(2)]

        def sig(x):
            out = []
            for self.mode in modes:
                self.force, self.trace, ST.pars = {name: x}, [], {}
                v = np.asarray(run())
                v = v.astype(complex) if v.dtype == object else v
                out.append((tuple(np.round(v, 9).reshape(-1).tolist()), tuple(sorted(self.trace, key=repr))))
            self.mode, self.force = None, {}
            return out
        eps = 1e-13
        xs = [eps] + [(i + 0.37) / GRID for i in range(GRID)] + [1 - eps]
        ss = [sig(x) for x in xs]
        cuts = []

        def split(a, sa, b, sb):
            if sa == sb:
                return
            if len(cuts) >= PIECES:
                raise RuntimeError("uniform draw is not used in comparisons only")
            if b - a < 1e-11:
                cuts.append((a + b) / 2)
                return
            m = (a + b) / 2
            sm = sig(m)
            split(a, sa, m, sm)
            split(m, sm, b, sb)
        for a, sa, b, sb in zip(xs, ss, xs[1:], ss[1:]):
            split(a, sa, b, sb)
        cuts = [0.0] + [c for c in cuts if 1e-11 < c < 1 - 1e-11] + [1.0]
        e = [name, 0, [(a + b) / 2 for a, b in zip(cuts, cuts[1:])], [b - a for a, b in zip(cuts, cuts[1:])]]
        self.prefix[name] = e
        self.order.append(e)
        return True


def _callback(key, kind, shape, n, dtype, par, ptail):
    sd = jax.ShapeDtypeStruct(tuple(shape), np.dtype(dtype))

    def host(key, *par):
        key = np.asarray(key)
        B = key.shape[:-1]
        out = np.empty(B + tuple(shape), dtype=dtype)
        q = np.asarray(par[0]) if par else None
        for b in np.ndindex(*B):
            name = "draw:" + key[b].tobytes().hex()
            _seen(name, (kind, tuple(shape), n))
            qb = None
            if q is not None:
                full = np.broadcast_to(q, B + tuple(shape) + tuple(ptail))
                qb = full[b]
            for i in np.ndindex(*shape):
                qi = None if qb is None else qb[i]
                out[b + i] = ST.script.outcome(_variant(name + ":" + ",".join(map(str, i)), qi, _close_q), kind, n, qi)
        return out
    args = (key,) if par is None else (key, par)
    return jax.pure_callback(host, sd, *args, vectorized=True)


KEYFUNCS = ("PRNGKey", "key", "split", "fold_in", "key_data", "wrap_key_data", "key_impl", "clone", "default_prng_impl")


def _unmodelled(n, f):
    def g(*a, **k):
        if ST.on:
            raise Unsupported("random draw jax.random.%s" % n)
        return f(*a, **k)
    return g


def _suspended(f):
    @functools.wraps(f)
    def g(*a, **k):
        on, ST.on = ST.on, False
        try:
            return f(*a, **k)
        finally:
            ST.on = on
    return g


# ---- scopes --------------------------------------------------------------------------------------------------------

def install():
    if ORIG:
        return
    from . import symjax as S
    S.HIGHER["vp_draw"] = _h_draw
    S.HIGHER["vp_note_key"] = lambda tr, prim, args, params: _note(*args)
    for n in NAMES:
        ORIG[n] = getattr(jax.random, n)
        setattr(jax.random, n, globals()[n])
    # the random initial parameters of a network are not draws of the scenario
    import flax.linen as nn
    for n in ("init", "init_with_output", "param"):
        setattr(nn.Module, n, _suspended(getattr(nn.Module, n)))
    ORIG["split"] = jax.random.split
    jax.random.split = split
    new = {n: globals()[n] for n in NAMES + ("split",)}
    for n, f in list(vars(jax.random).items()):
        if callable(f) and not n.startswith("_") and not isinstance(f, type) and n not in NAMES and n not in KEYFUNCS:
            ORIG[n], new[n] = f, _unmodelled(n, f)
            setattr(jax.random, n, new[n])
    # modules of the repository that imported the functions by name
    for nm, m in list(sys.modules.items()):
        if m is not None and (nm == "jVMC" or nm.startswith("jVMC.")):
            for k, v in list(vars(m).items()):
                for n in new:
                    if v is ORIG[n]:
                        setattr(m, k, new[n])


@contextlib.contextmanager
def active(h):
    install()
    ST.on, ST.h = True, h
    try:
        yield
    finally:
        ST.on = False


def expect(h, fn, limit=60000):
    """exact expectation of the array fn() over all random draws made in fn"""
    ST.order, ST.kinds, ST.reused, ST.split, ST.pars = [], {}, [], set(), {}
    if h.symbolic:
        with active(h):
            v = np.asarray(fn(), dtype=object)
        sh = v.shape
        v = [P.const(x) for x in v.reshape(-1)]
        for name, c, probs in reversed(ST.order):
            v = [_integrate(x, c, probs) for x in v]
        out = np.empty(len(v), dtype=object)
        out[:] = v
        return out.reshape(sh)
    s = ST.script = Script()
    tot, acc, runs = 0.0, None, 0
    with active(h):
        while True:
            ST.kinds, ST.split, ST.pars = {}, set(), {}
            v = np.asarray(fn())
            if s.refine(fn):
                continue
            if v.dtype == object:
                v = v.astype(complex)
            p = s.prob()
            acc = p * v if acc is None else acc + p * v
            tot += p
            runs += 1
            if runs > limit:
                raise RuntimeError("too many outcomes")
            if not s.next():
                break
    if abs(tot - 1) > 1e-6:
        raise RuntimeError("outcome probabilities add up to %r" % tot)
    return acc


def _integrate(x, c, probs):
    if isinstance(c, tuple):
        return _integrate_uniform(x, c[1])
    a = _atom(c)
    if a not in x.cats():
        return x
    return P.addn([P.mul(pk, P.restrict(x, {a: k})) for k, pk in enumerate(probs)])


def _atom(c):
    return next(iter(c.cats()))


def _sub(d):
    """atoms inside an atom's payload"""
    out = set()
    if isinstance(d, Poly):
        out |= _deep(d)
    elif isinstance(d, (tuple, list)):
        for x in d:
            out |= _sub(x)
    return out


def _deep(p):
    out = set()
    for m in p.t:
        for a, e in m:
            if a not in out:
                out.add(a)
                out |= _sub(P.ATOMS[a].data)
    return out


def _threshold(a, ua, u):
    """the comparison atom a of the uniform draw u is true where u < thr (sense -1) or u > thr (sense 1)"""
    rel, m = P.ATOMS[a].meaning
    if rel != ">0":
        raise Unsupported("equality comparison of a uniform draw")
    # m = coef * t + r > 0 with t = u or log u
    ts = {b for mm in m.t for b, e in mm if b == ua or ua in _sub(P.ATOMS[b].data)}
    if len(ts) != 1:
        raise Unsupported("uniform draw in a non-linear comparison")
    t = ts.pop()
    islog = t != ua
    if islog and not (P.ATOMS[t].kind == "L" and P.same(_payload(P.ATOMS[t].data), u)):
        raise Unsupported("uniform draw in a non-linear comparison")
    coef, r = {}, {}
    for mm, c in m.t.items():
        e = dict(mm).get(t, 0)
        if e == 0:
            r[mm] = c
        elif e == 1:
            coef[tuple(q for q in mm if q[0] != t)] = c
        else:
            raise Unsupported("uniform draw in a non-linear comparison")
    coef, r = Poly(coef), Poly(r)
    s = P.sign_of(coef)
    if s not in (1, -1):
        raise Unsupported("sign of the coefficient of a uniform draw")
    thr = P.mul(P.neg(r), P.inv(coef))
    if islog:
        thr = P.exp(thr)
    return _clip01(thr), s


def _min(a, b):
    return P.ite(P.gt0(P.add(a, P.neg(b))), b, a)


def _max(a, b):
    return P.ite(P.gt0(P.add(a, P.neg(b))), a, b)


def _integrate_uniform(x, u):
    """the integral of x over u in [0, 1], term by term: a term holds a product of comparison outcomes, which is one
    exactly for u in an interval"""
    ua = next(iter(u.t))[0][0]
    dep = {a for a in x.cats() if P.ATOMS[a].meaning is not None and ua in _deep(P.ATOMS[a].meaning[1])}
    if not dep:
        if ua in _deep(x):
            raise Unsupported("uniform draw used outside of comparisons")
        return x
    thr, groups = {a: _threshold(a, ua, u) for a in dep}, {}
    for m, c in x.t.items():
        key = tuple(q for q in m if q[0] in dep)
        rest = tuple(q for q in m if q[0] not in dep)
        groups.setdefault(key, {})[rest] = c
    out = []
    for key, t in groups.items():
        t = Poly(t)
        if ua in _deep(t):
            raise Unsupported("uniform draw used outside of comparisons")
        lo, hi = None, None
        for a, e in key:
            v, s = thr[a]
            if (s > 0) == (e == 1):
                lo = v if lo is None else _max(lo, v)
            else:
                hi = v if hi is None else _min(hi, v)
        w = P.add(P.ONE if hi is None else hi, P.ZERO if lo is None else P.neg(lo))
        if lo is not None and hi is not None:
            w = _max(w, P.ZERO)
        out.append(P.mul(w, t))
    return P.addn(out)


def _payload(d):
    return d[0] if isinstance(d, tuple) else d


@contextlib.contextmanager
def forced(h, values):
    """one history: the k-th draw comes out as values(k, number of outcomes); yields the list of the logarithms of the outcome probabilities"""
    ST.order, ST.kinds, ST.reused, ST.split, ST.pars = [], {}, [], set(), {}
    ST.script = f = Forced(values)
    ST.forced = f
    try:
        with active(h):
            yield f.probs
    finally:
        ST.forced = None


class Forced:
    def __init__(self, values):
        self.values, self.probs, self.done = values, [], {}

    def pick(self, name, n):
        if name not in self.done:
            self.done[name] = int(self.values(len(self.done), n)) % n
            return self.done[name], True
        return self.done[name], False

    def outcome(self, name, kind, n, q):
        if kind == "uniform":
            raise Unsupported("uniform draw in a fixed history")
        n = 2 if kind == "bernoulli" else n
        k, new = self.pick(name, n)
        if kind == "bernoulli":
            p = min(max(float(q), 0.0), 1.0)
            pr = [1 - p, p]
        elif kind == "randint":
            pr = [1.0 / n] * n
        else:
            w = np.exp(np.asarray(q, dtype=float) - np.max(q))
            pr = w / w.sum()
        if new:
            self.probs.append(float(np.log(pr[k])))
        return k


@contextlib.contextmanager
def free(h):
    """every outcome of every draw (no integration): the draws are inputs of the scenario"""
    ST.order, ST.kinds, ST.reused, ST.split, ST.pars = [], {}, [], set(), {}
    if not h.symbolic:
        ST.script = Given(h)
    with active(h):
        yield


class Given:
    """replay of one history of draws, taken from the counterexample"""

    def __init__(self, h):
        self.h = h

    def outcome(self, name, kind, n, q):
        if kind == "uniform":
            return self.h._real(name, 0.0, 1.0, False)
        if kind == "bernoulli":
            p = float(q)
            if p <= 0 or p >= 1:
                return 1 if p >= 1 else 0
            n = 2
        return self.h._catv(name, n)


def no_reuse(h):
    """whether no random key served two different draws, or a draw and the generation of other keys, in the last `expect`"""
    return not ST.reused and not (ST.split & set(ST.kinds))
