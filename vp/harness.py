"""Harness: one scenario, executed symbolically (all values) and concretely (replay on the unpatched code)."""
import hashlib
import itertools
import random
import time
import traceback

import numpy as np

from . import poly as P
from .poly import Poly, Unsupported

REGISTRY = {}


class Spec:
    def __init__(self, prop, name, fn, devices, bounds, tiers, opts, targets):
        self.prop, self.name, self.fn = prop, name, fn
        self.devices, self.bounds, self.tiers, self.opts, self.targets = devices, bounds, tiers, opts, targets

    @property
    def id(self):
        return self.prop + "." + self.name


def harness(prop, name=None, devices=1, bounds="", tiers=("quick", "thorough"), targets=(), **opts):
    def d(fn):
        s = Spec(prop, name or fn.__name__, fn, devices, bounds, tiers, opts, targets)
        if s.id in REGISTRY:
            raise ValueError("duplicate harness " + s.id)
        REGISTRY[s.id] = s
        return fn
    return d


class PathPruned(Exception):
    pass


class Violated(Exception):
    """concrete mode: a check failed"""

    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class AssumeFailed(Exception):
    pass


class Cex(Exception):
    def __init__(self, label, values, detail):
        Exception.__init__(self, label)
        self.label, self.values, self.detail = label, values, detail


def _stable_rng(name, seed):
    h = hashlib.sha256(("%s|%s" % (name, seed)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ----------------------------------------------------------------------------------------------

class Base:
    symbolic = False

    def __init__(self, spec):
        self.spec = spec
        self.labels = []
        self.ranges = {}

    # input constructors: name -> scalar creators
    def _fill(self, name, shape, mk, dtype):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        if shape == ():
            return mk(name)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = mk(name + "[" + ",".join(map(str, i)) + "]")
        return out

    def real(self, name, shape=(), lo=None, hi=None, pos=False):
        """real numbers; in oracle domain (object array / float array)"""
        def mk(n):
            if lo is not None:
                self.ranges[n] = (lo, hi)
            return self._real(n, lo, hi, pos)
        return self._cast(self._fill(name, shape, mk, float), float)

    def cplx(self, name, shape=()):
        a = self.real(name + ".re", shape)
        b = self.real(name + ".im", shape)
        return a + 1j * b

    def cat(self, name, n, shape=()):
        return self._cast(self._fill(name, shape, lambda m: self._catv(m, n), int), int)

    def bit(self, name, shape=()):
        return self.cat(name, 2, shape)

    def choose(self, name, options):
        """non-deterministic choice made concrete (forks)"""
        k = self.cat(name, len(options))
        return options[int(k)]

    # comparisons of values in the oracle domain
    def ite(self, c, a, b):
        if isinstance(c, Poly) or (isinstance(c, np.ndarray) and np.asarray(c).dtype == object):
            f = np.frompyfunc(lambda x, y, z: P.ite(P.const(x), P.const(y), P.const(z)), 3, 1)
            return f(c, a, b)
        return np.where(c, a, b) if isinstance(c, np.ndarray) else (a if c else b)


# tolerance of a replay; smaller when the symbolic run met a conversion to a shorter floating point type
TOL = 1e-7


class Concrete(Base):
    """replay / instantiation on the unpatched code"""
    symbolic = False

    def __init__(self, spec, values, seed=0, small=False):
        Base.__init__(self, spec)
        self.values = values
        self.seed = seed
        self.used = {}

    def _real(self, n, lo, hi, pos):
        if n in self.values:
            v = float(self.values[n])
        else:
            r = _stable_rng(n, self.seed)
            v = r.uniform(lo, hi) if lo is not None else r.uniform(-1, 1)
            if pos:
                v = abs(v) + 1e-3
        self.used[n] = v
        return v

    def _catv(self, name, n):
        if name in self.values:
            v = int(self.values[name])
        else:
            v = _stable_rng(name, self.seed).randrange(n)
        self.used[name] = v
        return v

    def _cast(self, x, ty):
        if isinstance(x, np.ndarray):
            return x.astype(ty)
        return ty(x)

    def int(self, name, lo, hi):
        if name in self.values:
            v = int(self.values[name])
        else:
            r = _stable_rng(name, self.seed)
            v = r.randint(lo, hi) if r.random() < 0.3 else min(hi, lo + int(r.expovariate(0.15)))
        self.used[name] = v
        return v

    def jx(self, x, dtype=None):
        import jax.numpy as jnp
        return jnp.asarray(np.asarray(x), dtype=dtype)

    def np(self, x):
        return np.asarray(x)

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFailed()

    def assume_eq(self, a, b):
        if not bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) < 1e-9)):
            raise AssumeFailed()

    def eq(self, label, actual, expected, tol=None):
        tol = TOL if tol is None else tol
        self.labels.append(label)
        a, e = np.asarray(actual), np.asarray(expected)
        if a.dtype == object:
            a = a.astype(complex)
        if e.dtype == object:
            e = e.astype(complex)
        if a.shape != e.shape:
            raise Violated(label, "shape %s instead of %s" % (a.shape, e.shape))
        if a.size == 0:
            return
        if not np.all(np.isfinite(np.asarray(e, dtype=complex))):
            raise AssumeFailed()       # the reference value is undefined for these inputs
        scale = 1.0 + float(np.max(np.abs(e)))
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a - e) <= tol * scale)
        if np.any(bad):
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if a.ndim else ()
            raise Violated(label, "at %s: got %s, expected %s" % (i, a[i], e[i]))

    def near(self, label, actual, expected, tol):
        self.labels.append(label)
        a, e = np.asarray(actual, dtype=complex), np.asarray(expected, dtype=complex)
        if a.shape != e.shape:
            raise Violated(label, "shape %s instead of %s" % (a.shape, e.shape))
        d = a - e
        bad = ~(np.maximum(np.abs(d.real), np.abs(d.imag)) <= tol * 1.0001 + 1e-9)
        if np.any(bad):
            i = tuple(int(q) for q in np.argwhere(bad)[0]) if a.ndim else ()
            raise Violated(label, "at %s: got %s, expected %s" % (i, a[i], e[i]))

    def true(self, label, cond):
        self.labels.append(label)
        if not bool(np.all(cond)):
            raise Violated(label, "false")

    def note(self, *a):
        pass


class Symbolic(Base):
    symbolic = True

    def __init__(self, spec, prefix):
        Base.__init__(self, spec)
        self.prefix = list(prefix)     # [(atom id, value)]
        self.trail = []
        self.asg = {}
        self.pc = []
        self.pending = []
        self.unknown = []
        self.fork = spec.opts.get("fork", "value")
        self.zpc = []
        self.zvars = {}

    # ---- decisions
    def decide(self, p):
        p = P.restrict(p, self.asg)
        while True:
            c = p.const_value()
            if c is not None:
                return c
            if not p.cats():
                if p.is_num():
                    v = P.evaluate(p, {}, {})
                    return v
                raise Unsupported("concretisation of a real symbolic value")
            if self.fork == "value" and len(p.cats()) > 1:
                return self._branch_value(p)
            a = min(p.cats())
            self._branch(a)
            p = P.restrict(p, self.asg)

    def _branch_value(self, p):
        from . import solve
        i = len(self.trail)
        if i < len(self.prefix):
            aa, v = self.prefix[i]
            if aa != "value":
                raise Unsupported("non-deterministic re-execution")
        else:
            vs = solve.int_values(p, self.asg, self.pc)
            if not vs:
                raise PathPruned()
            for v in vs[1:]:
                self.pending.append(self.trail + [("value", v)])
            v = vs[0]
        self.trail.append(("value", v))
        self.pc.append(("eq", P.add(p, P.const(-v))))
        return v

    def _branch(self, a):
        from . import solve
        i = len(self.trail)
        if i < len(self.prefix):
            aa, k = self.prefix[i]
            if aa != a:
                raise Unsupported("non-deterministic re-execution")
            self.trail.append((a, k))
            self.asg[a] = k
            self._assigned(a, k)
            return
        n = P.ATOMS[a].n
        feas = []
        for k in range(n):
            if (P.ATOMS[a].meaning is None and not self.pc) or solve.feasible({**self.asg, a: k}, self.pc):
                feas.append(k)
        if not feas:
            raise PathPruned()
        for k in feas[1:]:
            self.pending.append(self.trail + [(a, k)])
        self.trail.append((a, feas[0]))
        self.asg[a] = feas[0]
        self._assigned(a, feas[0])

    def _assigned(self, a, k):
        pass

    # ---- unbounded integers (z3 terms)
    def int(self, name, lo, hi):
        from . import solve, symint
        v = solve.z3.Int(name)
        self.zvars[name] = v
        self.zpc += [v >= lo, v <= hi]
        return symint.SI(v)

    def zcheck(self, *extra, timeout=60000):
        from . import solve
        s = solve.z3.Solver()
        s.set("timeout", timeout)
        for c in self.zpc:
            s.add(c)
        for c in extra:
            s.add(c)
        t0 = time.time()
        r = s.check()
        st = solve.STATS
        st["time"] = st.get("time", 0) + time.time() - t0
        st["queries"] = st.get("queries", 0) + 1
        st[str(r)] = st.get(str(r), 0) + 1
        return str(r), (s.model() if str(r) == "sat" else None)

    def zbranch(self, e):
        from . import solve
        i = len(self.trail)
        if i < len(self.prefix):
            aa, v = self.prefix[i]
            if aa != "z":
                raise Unsupported("non-deterministic re-execution")
        else:
            ok = [b for b in (True, False) if self.zcheck(e if b else solve.z3.Not(e))[0] != "unsat"]
            if not ok:
                raise PathPruned()
            v = ok[0]
            for b in ok[1:]:
                self.pending.append(self.trail + [("z", b)])
        self.trail.append(("z", v))
        self.zpc.append(e if v else solve.z3.Not(e))
        return v

    def _ztrue(self, label, c):
        from . import solve
        solve.STATS["obligations"] = solve.STATS.get("obligations", 0) + 1
        r, m = self.zcheck(solve.z3.Not(c.e))
        if r == "unsat":
            return
        if r == "unknown":
            self.unknown.append((label, "integer query timed out"))
            return
        vals = {n: m.eval(v, model_completion=True).as_long() for n, v in self.zvars.items()}
        raise Cex(label, vals, "")

    # ---- inputs
    def _real(self, n, lo, hi, pos):
        v = P.var(n, pos=pos or (lo is not None and lo > 0))
        return v

    def real(self, name, shape=(), lo=None, hi=None, pos=False):
        x = Base.real(self, name, shape, lo, hi, pos)
        if lo is not None:
            for v in np.asarray(x, dtype=object).reshape(-1):
                P.set_range(v, lo, hi)
                self.assume((v >= lo))
                self.assume((v <= hi))
        return x

    def _catv(self, name, n):
        return P.cat(name, n)

    def _cast(self, x, ty):
        return x

    def jx(self, x, dtype=None):
        from . import symjax as S
        import jax.numpy as jnp
        x = S.to_obj(np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x)
        return S.sym(x, dtype)

    def np(self, x):
        from . import symjax as S
        return S.to_obj(x)

    def assume(self, c):
        from . import symint
        for x in np.asarray(c, dtype=object).reshape(-1):
            if isinstance(x, symint.SB):
                self.zpc.append(x.e)
                continue
            x = P.restrict(P.const(x), self.asg)
            v = x.const_value()
            if v is not None:
                if v == 0:
                    raise PathPruned()
                continue
            self.pc.append(x)

    def assume_eq(self, a, b):
        for x, y in zip(np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)):
            self.pc.append(("eq", P.add(P.const(x), P.neg(P.const(y)))))

    # ---- obligations
    def eq(self, label, actual, expected, tol=None):
        from . import symjax as S
        self.labels.append(label)
        a, e = S.to_obj(actual), S.to_obj(expected)
        if a.shape != e.shape:
            self._candidate(label, dict(self.asg), [], "shape %s instead of %s" % (a.shape, e.shape))
            return
        pairs = list(zip(a.reshape(-1), e.reshape(-1)))
        self._prove(label, pairs)

    def near(self, label, actual, expected, tol):
        """|actual - expected| <= tol (real and imaginary parts)"""
        from . import symjax as S
        self.labels.append(label)
        a, e = S.to_obj(actual), S.to_obj(expected)
        if a.shape != e.shape:
            self._candidate(label, dict(self.asg), [], "shape %s instead of %s" % (a.shape, e.shape))
            return
        self._prove(label, list(zip(a.reshape(-1), e.reshape(-1))), tol=P.to_frac(tol))

    def true(self, label, cond):
        self.labels.append(label)
        from . import symint
        xs = np.asarray(cond if isinstance(cond, (np.ndarray, list, tuple)) else [cond], dtype=object).reshape(-1)
        for x in xs:
            if isinstance(x, symint.SB):
                self._ztrue(label, x)
        xs = [x for x in xs if not isinstance(x, symint.SB)]
        if not xs:
            return
        self._prove(label, [(P.const(x), P.ONE) for x in xs])

    def _prove(self, label, pairs, chunk=200, tol=0):
        from . import solve
        for i in range(0, len(pairs), chunk):
            st, cats, diffs = solve.prove_equal(pairs[i:i + chunk], self.asg, self.pc, tol)
            if st == "proved":
                continue
            if st == "unknown":
                self.unknown.append((label, cats))
                # a time-out still deserves an attempt at a concrete difference
                cats = dict(self.asg)
            self._candidate(label, cats, diffs or [P.add(a, P.neg(e)) for a, e in pairs[i:i + chunk]], "")

    def _candidate(self, label, cats, diffs, detail):
        from . import solve
        diffs = [P.restrict(d, self.asg) for d in diffs]
        pc = solve.pc_restrict(self.pc, self.asg)
        if diffs:
            r = solve.instantiate(diffs, cats, pc, self.asg, self.ranges)
            if r is None:
                self.unknown.append((label, "no concrete instance of the solver's candidate"))
                return
            _, env, cc = r
        else:
            r = solve.instantiate([P.ONE], cats, pc, self.asg, self.ranges)
            if r is None:
                self.unknown.append((label, "no concrete instance"))
                return
            _, env, cc = r
        vals = dict(env)
        vals.update(cc)
        for a, k in self.asg.items():
            if P.ATOMS[a].meaning is None:
                vals.setdefault(P.ATOMS[a].data, k)
        raise Cex(label, vals, detail)

    def crash_candidate(self, exc):
        """the code raised: find a concrete input on this path"""
        from . import solve
        if self.zvars:
            r, m = self.zcheck()
            return {n: m.eval(v, model_completion=True).as_long() for n, v in self.zvars.items()} if m else {}
        pc = solve.pc_restrict(self.pc, self.asg)
        r = solve.instantiate([P.ONE], dict(self.asg), pc, self.asg, self.ranges)
        vals = {}
        if r is not None:
            vals.update(r[1])
            vals.update(r[2])
        for a, k in self.asg.items():
            if P.ATOMS[a].meaning is None:
                vals.setdefault(P.ATOMS[a].data, k)
        return vals

    def note(self, *a):
        pass


# ----------------------------------------------------------------------------------------------

class Explorer:
    def __init__(self, spec, budget_s=600, max_paths=20000):
        self.spec, self.budget, self.max_paths = spec, budget_s, max_paths

    def run(self):
        """-> dict(status=proved|cex|undecided|crash, ...)"""
        from . import symjax as S
        from . import solve, stubs
        t0 = time.time()
        todo = [[]]
        paths = pruned = checks = 0
        labels = set()
        unknown = []
        crash = None
        cexs = []
        old = P.FORK
        reached = 0
        while todo:
            prefix = todo.pop()
            if time.time() - t0 > self.budget or paths >= self.max_paths:
                unknown.append(("exploration", "budget exhausted with %d paths left" % (len(todo) + 1)))
                break
            h = Symbolic(self.spec, prefix)
            P.FORK = h
            try:
                with stubs.session(h):
                    with S.symbolic():
                        self.spec.fn(h)
                paths += 1
                if h.labels:
                    reached += 1
            except PathPruned:
                pruned += 1
            except Cex as c:
                cexs.append({"label": c.label, "values": c.values, "detail": c.detail})
                paths += 1
                if len(cexs) >= 4:
                    todo = []
                    h.pending = []
            except (Unsupported, P.DivZero, RecursionError, MemoryError) as e:
                unknown.append(("engine", "%s: %s" % (type(e).__name__, str(e)[:300]), traceback.format_exc()[-1500:]))
                paths += 1
                if len(unknown) > 3:
                    todo = []
                    h.pending = []
            except AssumeFailed:
                pruned += 1
            except Exception as e:
                tb = traceback.format_exc()
                vals = {}
                try:
                    vals = h.crash_candidate(e)
                except Exception:
                    pass
                cexs.append({"label": "exception", "values": vals,
                             "detail": "%s: %s" % (type(e).__name__, str(e)[:300]), "tb": tb[-2500:]})
                paths += 1
                if len(cexs) >= 4:
                    todo = []
                    h.pending = []
            finally:
                P.FORK = old
            unknown.extend(h.unknown)
            labels.update(h.labels)
            checks += len(h.labels)
            todo.extend(h.pending)
        if cexs:
            status = "cex"
        elif unknown:
            status = "undecided"
        elif not labels:
            status = "undecided"
            unknown.append(("vacuous", "no obligation reached"))
        else:
            status = "proved"
        return {"status": status, "paths": paths, "pruned": pruned, "labels": sorted(labels), "checks": checks,
                "cexs": cexs, "unknown": unknown[:6], "wall": time.time() - t0, "stats": dict(solve.STATS),
                "prims": S.SESSION.stats.get("prims", 0)}
