"""Discharging obligations with z3.

An obligation is  "actual == expected for every value of the symbolic inputs allowed by the path condition".
Polynomials are encoded with categories as bounded integers / booleans, comparison categories linked to the
polynomial they compare, and non-linear monomials as fresh reals (with the positivity facts known for them).
``unsat`` of the negation therefore implies the obligation; ``sat`` yields a candidate which must evaluate to a
genuine difference on concrete numbers before anything is reported.
"""
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import poly as P  # noqa: E402
from .poly import ATOMS, KIND, K_CAT, K_I, K_PRIME, Poly  # noqa: E402

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "obligations": 0, "reach": 0, "smt_size": 0}
NOISE = Fraction(1, 10 ** 9)
TIMEOUT_MS = [60000]


def frac(c):
    if isinstance(c, Fraction):
        return z3.RatVal(c.numerator, c.denominator)
    return z3.RealVal(int(c))


class Enc:
    def __init__(self, nl=False):
        self.nl = nl                  # monomials as products of their factors (otherwise as independent reals)
        self.cats = {}
        self.monos = {}
        self.side = []
        self.linked = set()
        self.vars = {}

    def cat(self, a):
        v = self.cats.get(a)
        if v is None:
            at = ATOMS[a]
            nm = "c%d" % a
            if at.n == 2:
                v = z3.Bool(nm)
            else:
                v = z3.Int(nm)
                self.side.append(z3.And(v >= 0, v < at.n))
            self.cats[a] = v
            if at.meaning is not None:
                op, q = at.meaning
                e = self.real(q)
                if e is not None:
                    if op == ">0":
                        self.side.append(v == (e > 0))
                    else:
                        self.side.append(v == (e == 0))
        return v

    def is_(self, a, k):
        v = self.cat(a)
        if ATOMS[a].n == 2:
            return v if k == 1 else z3.Not(v)
        return v == k

    def mono(self, m):
        """category free, I-free monomial"""
        if not m:
            return None
        v = self.monos.get(m)
        if v is None:
            v = z3.Real("m%d" % len(self.monos))
            self.monos[m] = v
            s = P.mono_sign(m)
            if s == 1:
                self.side.append(v > 0)
            elif s == 0:
                self.side.append(v >= 0)
            if all(a in P.RANGES and P.RANGES[a][0] > 0 and isinstance(e, int) for a, e in m):
                lo = hi = Fraction(1)
                for a, e in m:
                    l, u = P.RANGES[a]
                    lo, hi = (lo * Fraction(l) ** e, hi * Fraction(u) ** e) if e > 0 else \
                        (lo * Fraction(u) ** e, hi * Fraction(l) ** e)
                self.side.append(v >= frac(lo))
                self.side.append(v <= frac(hi))
            elif all(a in P.RANGES and isinstance(e, int) and e > 0 for a, e in m):
                hi = Fraction(1)
                for a, e in m:
                    hi *= max(abs(Fraction(P.RANGES[a][0])), abs(Fraction(P.RANGES[a][1]))) ** e
                self.side.append(v >= frac(-hi))
                self.side.append(v <= frac(hi))
            if self.nl and not (len(m) == 1 and m[0][1] == 1):
                pr = None
                for a, e in m:
                    f = self.factor(a, e)
                    pr = f if pr is None else pr * f
                self.side.append(v == pr)
            if len(m) == 1 and ATOMS[m[0][0]].kind == "E" and m[0][1] == 1:
                d = ATOMS[m[0][0]].data
                e = self.real(d)
                if e is not None:
                    self.side.append((v > 1) == (e > 0))
                    self.side.append(v >= 1 + e)
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "F" and ATOMS[m[0][0]].data[0] == "fpow":
                b, q = ATOMS[m[0][0]].data[1]
                e = self.real(b)
                if e is not None and q.const_value() > 0:
                    self.side.append((v > 1) == (e > 1))
                    self.side.append((v < 1) == (e < 1))
            if self.nl and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "P":
                e = self.real(ATOMS[m[0][0]].data)
                if e is not None:
                    self.side.append(v == e)
            if len(m) == 1 and KIND[m[0][0]] == K_PRIME:
                x = float(ATOMS[m[0][0]].data) ** float(m[0][1])
                self.side.append(v > frac(Fraction(x) - Fraction(1, 10 ** 12)))
                self.side.append(v < frac(Fraction(x) + Fraction(1, 10 ** 12)))
        return v

    def factor(self, a, e):
        """atom ** e as a z3 term"""
        e = Fraction(e)
        x = self.mono(((a, 1),))
        if e.denominator != 1:
            y = self.vars.get((a, e.denominator))
            if y is None:
                y = self.vars[(a, e.denominator)] = z3.Real("r%d_%d" % (a, e.denominator))
                pw = y
                for _ in range(e.denominator - 1):
                    pw = pw * y
                self.side.append(pw == x)
                self.side.append(y >= 0)
            x = y
        n = e.numerator
        if n < 0:
            y = self.vars.get((a, -e.denominator))
            if y is None:
                y = self.vars[(a, -e.denominator)] = z3.Real("i%d_%d" % (a, e.denominator))
                self.side.append(x * y == 1)
            x, n = y, -n
        out = x
        for _ in range(n - 1):
            out = out * x
        return out

    def parts(self, p):
        """(real term list, imag term list) of z3 reals; non-real monomials are split into two fresh reals"""
        rs, is_ = [], []
        for m, c in p.t.items():
            cats = [(a, e) for a, e in m if KIND[a] == K_CAT]
            rest = tuple((a, e) for a, e in m if KIND[a] not in (K_CAT, K_I))
            hasI = any(KIND[a] == K_I for a, e in m)
            cond = [self.is_(a, e) for a, e in cats]

            def w(t):
                return t if not cond else z3.If(z3.And(cond) if len(cond) > 1 else cond[0], t, z3.RealVal(0))
            if all(ATOMS[a].real for a, e in rest):
                v = self.mono(rest)
                t = frac(c) if v is None else frac(c) * v
                (is_ if hasI else rs).append(w(t))
            else:
                vr = self.mono((("re",),) + rest) if False else self._cplx(rest, 0)
                vi = self._cplx(rest, 1)
                if hasI:
                    rs.append(w(-frac(c) * vi))
                    is_.append(w(frac(c) * vr))
                else:
                    rs.append(w(frac(c) * vr))
                    is_.append(w(frac(c) * vi))
        return rs, is_

    def _cplx(self, rest, k):
        key = ("c", k, rest)
        v = self.monos.get(key)
        if v is None:
            v = z3.Real("m%d" % len(self.monos))
            self.monos[key] = v
        return v

    def real(self, p):
        rs, is_ = self.parts(p)
        if is_:
            return None
        return _sum(rs)


def _sum(ts):
    if not ts:
        return z3.RealVal(0)
    return z3.Sum(ts) if len(ts) > 1 else ts[0]


def clean(d):
    """remove floating point noise of constant folding"""
    if not d.t:
        return d
    t = {m: c for m, c in d.t.items() if not (-NOISE < c < NOISE)}
    if len(t) == len(d.t):
        return d
    return Poly(t)


def _below(m1, m2):
    """whether m1 < m2 in the lexicographic order of exponent vectors"""
    a, b = dict(m1), dict(m2)
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, 0), b.get(k, 0)
        if x != y:
            return x < y
    return False


def _top(ms):
    best = None
    for m in ms:
        if best is None or _below(best, m):
            best = m
    return best


def _divide(n, base):
    """exact quotient of the term dictionary n by the polynomial base, or None"""
    if any(KIND[a] in (K_CAT, K_I) for m in base.t for a, e in m):
        return None
    lead = _top(base.t)
    cl = base.t[lead]
    inv = tuple((a, -e) for a, e in lead)
    n = dict(n)
    q = {}
    steps = 2 * len(n) + 4
    while n:
        steps -= 1
        if steps < 0:
            return None
        m = _top(n)
        c, qm = P._mono_mul(m, inv)
        c = c * n[m] / cl if not isinstance(n[m], int) or not isinstance(cl, int) else Fraction(n[m], cl) * c
        q[qm] = q.get(qm, 0) + c
        for b, cb in base.t.items():
            k, mm = P._mono_mul(qm, b)
            v = n.get(mm, 0) - c * cb * k
            if v == 0 or -NOISE < v < NOISE:
                n.pop(mm, None)
            else:
                n[mm] = v
        if m in n:
            return None
    return q


def cancel(d, limit=3000):
    """cancel denominators that divide the sum of the terms they occur in"""
    if len(d.t) > limit:
        return d
    again, dead = True, set()
    while again:
        again = False
        den = {}
        for m in d.t:
            for a, e in m:
                if ATOMS[a].kind == "P" and e < 0:
                    den.setdefault(a, []).append(e)
        for a in den:
            k = min(den[a])
            part, rest = {}, {}
            for m, c in d.t.items():
                x = dict(m)
                if x.get(a) == k:
                    del x[a]
                    part[tuple(sorted(x.items()))] = c
                else:
                    rest[m] = c
            key = (a, frozenset(part))
            if key in dead:
                continue
            q = _divide(part, ATOMS[a].data)
            if q is None:
                dead.add(key)
                continue
            k = P._norm_c(k + 1)
            for m, c in q.items():
                if k != 0:
                    cc, m = P._mono_mul(m, ((a, k),))
                    c = c * cc
                v = rest.get(m, 0) + c
                if v == 0 or -NOISE < v < NOISE:
                    rest.pop(m, None)
                else:
                    rest[m] = P._norm_c(v)
            d = Poly(rest)
            again = True
            break
    return d


def clear(d):
    """multiply with the denominators"""
    d = cancel(d)
    for _ in range(6):
        need = {}
        for m in d.t:
            for a, e in m:
                if ATOMS[a].kind == "P" and e < 0:
                    k = -(e.numerator // e.denominator) if isinstance(e, Fraction) else -e
                    need[a] = max(need.get(a, 0), k)
        if not need:
            return d
        f = tuple(sorted(need.items()))
        # multiply monomial-wise, then expand
        t = {}
        for m, c in d.t.items():
            r = P._mono_mul(m, f)
            cc, mm = r
            t[mm] = t.get(mm, 0) + c * cc
        d = P._expand_patoms(Poly({m: P._norm_c(c) for m, c in t.items() if c != 0}))
        d = clean(d)
        if len(d.t) > 60000:
            raise P.Unsupported("cleared denominator too large")
    return d


def check(cons, want_model=False, timeout=None):
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS[0])
    for c in cons:
        s.add(c)
    t = time.time()
    r = s.check()
    STATS["time"] += time.time() - t
    STATS["queries"] += 1
    STATS[str(r)] += 1
    return (str(r), s.model() if r == z3.sat and want_model else None)


def pc_terms(enc, pc):
    """pc: list of Poly that must be non-zero (0/1 valued)"""
    out = []
    for p in pc:
        if isinstance(p, tuple):
            out.append(enc.real(p[1]) == 0)
        else:
            out.append(enc.real(p) != 0)
    return out


def pc_restrict(pc, asg):
    return [("eq", P.restrict(p[1], asg)) if isinstance(p, tuple) else P.restrict(p, asg) for p in pc]


def pc_polys(pc):
    return [p[1] if isinstance(p, tuple) else p for p in pc]


def int_values(p, asg, pc, limit=64):
    """feasible values of an integer valued polynomial"""
    enc = Enc()
    e = enc.real(P.restrict(p, asg))
    cons = asg_terms(enc, asg) + pc_terms(enc, pc_restrict(pc, asg))
    s = z3.Solver()
    s.set("timeout", TIMEOUT_MS[0])
    s.add(cons + enc.side)
    out = []
    t = time.time()
    while True:
        r = s.check()
        STATS["queries"] += 1
        STATS["reach"] += 1
        STATS[str(r)] += 1
        if r == z3.unsat:
            break
        if r != z3.sat or len(out) >= limit:
            raise P.Unsupported("enumeration of values")
        v = s.model().eval(e, model_completion=True)
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        out.append(P._norm_c(f))
        s.add(e != v)
    STATS["time"] += time.time() - t
    return sorted(out)


def asg_terms(enc, asg):
    return [enc.is_(a, k) for a, k in asg.items()]


def feasible(asg, pc):
    enc = Enc()
    cons = asg_terms(enc, asg) + pc_terms(enc, pc_restrict(pc, asg))
    STATS["reach"] += 1
    r, m = check(cons + enc.side)
    return r != "unsat"


def prove_equal(pairs, asg, pc, tol=0):
    """returns ("proved", None) | ("cex", cats, d) | ("unknown", reason)"""
    r = _prove_equal(pairs, asg, pc, tol, False)
    if r[0] == "cex" and r[3]:
        # the linear abstraction has a model: products of the factors taken into account
        r2 = _prove_equal(pairs, asg, pc, tol, True)
        if r2[0] != "unknown":
            r = r2
    return r[:3]


def rational(d):
    """surds replaced by rationals with 60 digits (only for comparisons with a tolerance)"""
    if not any(KIND[a] == K_PRIME for m in d.t for a, e in m):
        return d
    import decimal
    ctx = decimal.Context(prec=60)
    out = {}
    for m, c in d.t.items():
        rest = []
        for a, e in m:
            if KIND[a] == K_PRIME:
                e = Fraction(e)
                v = ctx.power(decimal.Decimal(int(ATOMS[a].data)), ctx.divide(decimal.Decimal(e.numerator), decimal.Decimal(e.denominator)))
                c = c * Fraction(v)
            else:
                rest.append((a, e))
        k = tuple(rest)
        out[k] = out.get(k, 0) + c
    return Poly({m: c for m, c in out.items() if c != 0})


def _prove_equal(pairs, asg, pc, tol, nl):
    enc = Enc(nl)
    disj = []
    diffs = []
    for a, e in pairs:
        a, e = P.restrict(a, asg), P.restrict(e, asg)
        d = P.add(a, P.neg(e))
        if tol:
            d = rational(d)
        dc = clean(d)
        STATS["obligations"] += 1
        if dc.t:
            dc2 = dc if tol else clear(dc)
            if dc2.t and tol:
                rs, is_ = enc.parts(dc2)
                for q in (rs, is_):
                    if q:
                        x = _sum(q)
                        disj.append(z3.Or(x > frac(tol), x < -frac(tol)))
                diffs.append(dc)
                STATS["smt_size"] += len(dc2.t)
                continue
            if dc2.t:
                rs, is_ = enc.parts(dc2)
                if rs:
                    disj.append(_sum(rs) != 0)
                if is_:
                    disj.append(_sum(is_) != 0)
                diffs.append(dc)
                STATS["smt_size"] += len(dc2.t)
                continue
        if tol and d.t:
            for q in enc.parts(d):
                if q:
                    x = _sum(q)
                    disj.append(z3.Or(x > frac(tol), x < -frac(tol)))
            diffs.append(d)
            STATS["smt_size"] += len(d.t)
            continue
        # structurally equal after normalisation: encode both sides anyway and let the solver confirm
        if len(a.t) <= 3000 and len(disj) < 400:
            noise = P.add(d, P.neg(dc)) if not dc.t else None
            if noise is not None and noise.t:
                a = P.add(a, P.neg(noise))
            if dc.t:
                a, e = dc2, P.ZERO
            elif tol:
                a, e = d, P.ZERO
            ra, ia = enc.parts(a)
            re_, ie = enc.parts(e)
            disj.append(_sum(ra) != _sum(re_))
            if ia or ie:
                disj.append(_sum(ia) != _sum(ie))
            STATS["smt_size"] += len(a.t) + len(e.t)
    cons = asg_terms(enc, asg) + pc_terms(enc, pc_restrict(pc, asg))
    cons.append(z3.Or(disj) if disj else z3.BoolVal(False))
    r, m = check(cons + enc.side, want_model=True, timeout=20000 if nl else None)
    if r == "unsat":
        return "proved", None, None, False
    if r == "unknown":
        return "unknown", "solver timeout", diffs, False
    cats = dict(asg)
    # worth a second look only where comparisons of real quantities are involved
    more = any(ATOMS[a].meaning is not None for a in enc.cats) or bool(pc)
    for a, v in enc.cats.items():
        mv = m.eval(v, model_completion=True)
        if ATOMS[a].n == 2:
            cats[a] = 1 if z3.is_true(mv) else 0
        else:
            cats[a] = mv.as_long()
    return "cex", cats, diffs, more


def prove_true(p, asg, pc):
    """p: 0/1 valued Poly that must be 1"""
    return prove_equal([(p, P.ONE)], asg, pc)


# ----------------------------------------------------------------------------------------------
# concrete instantiation of a symbolic counterexample

def collect(ps, depth=0, seen=None):
    """all free variables / categories / functions occurring (transitively)"""
    seen = set() if seen is None else seen
    out_v, out_c = {}, {}

    def walk(p):
        for m in p.t:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                at = ATOMS[a]
                if at.kind == "var":
                    out_v[at.data] = at
                elif at.kind == "cat":
                    if at.meaning is None:
                        out_c[at.data] = at
                    else:
                        walk(at.meaning[1])
                elif at.kind in ("E", "U", "P", "L", "abs"):
                    walk(at.data)
                elif at.kind == "arg":
                    walk(at.data[0])
                    walk(at.data[1])
                elif at.kind == "F":
                    for x in at.data[1]:
                        walk(x)
    for p in ps:
        walk(p)
    return out_v, out_c


def instantiate(diffs, cats, pc, asg, ranges=None, tries=400, seed=0):
    """find reals (and refine categories) such that some diff is clearly non-zero and pc holds"""
    rng = random.Random(seed)
    vs, cs = collect(list(diffs) + pc_polys(pc) + [Poly({((a, 1),): 1}) for a in cats])
    base = {ATOMS[a].data: k for a, k in cats.items() if ATOMS[a].meaning is None}
    want = {a: k for a, k in asg.items() if ATOMS[a].meaning is not None}
    wantm = {a: k for a, k in cats.items() if ATOMS[a].meaning is not None and a not in asg}
    ranges = ranges or {}
    best = None
    small = [-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2]
    for t in range(tries):
        env = {}
        mode = t % 4
        for n, at in vs.items():
            lo, hi = ranges.get(n, (None, None))
            if lo is not None:
                env[n] = rng.uniform(lo, hi)
                if mode == 3:
                    env[n] = rng.choice([lo, hi, (lo + hi) / 2, rng.uniform(lo, hi)])
            elif mode == 1:
                env[n] = rng.choice(small)
            elif mode == 2:
                env[n] = rng.gauss(0, 3)
            else:
                env[n] = rng.uniform(-1, 1)
            if at.pos:
                env[n] = abs(env[n]) or 0.3
        cc = {}
        for n, at in cs.items():
            if n in base and (ATOMS and t % 8 < 6 or at.id in asg):
                cc[n] = base[n]
            else:
                cc[n] = base[n] if at.id in asg else rng.randrange(at.n)
        memo = {}
        try:
            ok = True
            for a, k in want.items():
                if P._eval_atom(a, env, cc, memo) != k:
                    ok = False
                    break
            if not ok:
                continue
            for p in pc:
                if isinstance(p, tuple):
                    if abs(complex(P.evaluate(p[1], env, cc, memo))) > 1e-9:
                        ok = False
                        break
                elif abs(complex(P.evaluate(p, env, cc, memo))) < 0.5:
                    ok = False
                    break
            if not ok:
                continue
            for d in diffs:
                v = abs(complex(P.evaluate(d, env, cc, memo)))
                if v != v:
                    continue
                if v > 1e-6 and (best is None or (v > best[0] and best[0] < 1e-2)):
                    best = (v, env, cc)
        except P.EvalError:
            continue
        if best is not None and best[0] > 1e-2:
            break
    if best is None:
        return nra_instantiate(diffs, cats, pc, asg, vs, cs, ranges)
    return best


def nra_instantiate(diffs, cats, pc, asg, vs, cs, ranges):
    """ask the solver's non-linear engine for reals (polynomial atoms only)"""
    zv = {n: z3.Real("v_%s" % n) for n in vs}
    zc = {}
    side = []
    fresh = [0]

    class No(Exception):
        pass

    def catv(a):
        if a not in zc:
            at = ATOMS[a]
            zc[a] = z3.Int("c%d" % a)
            side.append(z3.And(zc[a] >= 0, zc[a] < at.n))
            if at.meaning is not None:
                op, q = at.meaning
                e = tr(q)
                side.append((zc[a] == 1) == (e > 0 if op == ">0" else e == 0))
        return zc[a]

    def atom(a):
        at = ATOMS[a]
        if at.kind == "var":
            return zv[at.data]
        if at.kind == "P" and at.real:
            return tr(at.data)
        if at.kind == "prime":
            raise No()
        raise No()

    def tr(p):
        out = []
        for m, c in p.t.items():
            t = frac(c)
            cond = []
            for a, e in m:
                if KIND[a] == K_CAT:
                    cond.append(catv(a) == e)
                elif KIND[a] == K_I:
                    raise No()
                else:
                    if not isinstance(e, int):
                        raise No()
                    x = atom(a)
                    for _ in range(abs(e)):
                        t = t * x if e > 0 else t / x
                    if e < 0:
                        side.append(x != 0)
            out.append(z3.If(z3.And(cond), t, 0) if cond else t)
        return _sum(out)
    try:
        dis = []
        for d in diffs:
            r, i = P.reim(d)
            for q in (r, i):
                if q.t:
                    x = tr(q)
                    dis.append(z3.Or(x > z3.RealVal("1/1000"), x < z3.RealVal("-1/1000")))
        cons = [z3.Or(dis)] + [(tr(p[1]) == 0 if isinstance(p, tuple) else tr(p) != 0) for p in pc] + [catv(a) == k for a, k in asg.items()]
        for n, at in vs.items():
            if n in ranges:
                lo, hi = ranges[n]
                side.append(zv[n] >= z3.RealVal(str(lo)))
                side.append(zv[n] <= z3.RealVal(str(hi)))
            else:
                side.append(z3.And(zv[n] > -100, zv[n] < 100))
            if at.pos:
                side.append(zv[n] > 0)
    except No:
        return None
    r, m = check(cons + side, want_model=True)
    if r != "sat":
        return None
    env, cc = {}, {}
    for n, v in zv.items():
        x = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        env[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    for a, v in zc.items():
        if ATOMS[a].meaning is None:
            cc[ATOMS[a].data] = m.eval(v, model_completion=True).as_long()
    for n, at in cs.items():
        cc.setdefault(n, {ATOMS[a].data: k for a, k in cats.items()}.get(n, 0))
    try:
        best = max(abs(complex(P.evaluate(d, env, cc))) for d in diffs)
    except P.EvalError:
        best = 0.0
    return (best, env, cc)
