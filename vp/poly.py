"""Symbolic scalars.

A ``Poly`` is a canonical sum of monomials with rational coefficients.  Monomials are products of

* ``I`` (imaginary unit),
* categorical indicators  [v = k]  (idempotent, mutually exclusive; booleans are the case n = 2),
* real variables, exponentials  exp(m), exp(I m),  n-th roots of primes,
* powers of irreducible sums ("P atoms", used for quotients and roots), logarithms, opaque functions,

raised to rational exponents.  Two values that are equal as Laurent polynomials in the atoms have the
same representation; everything else is left to the SMT solver (see solve.py).
"""
from fractions import Fraction
import math
import cmath

# ----------------------------------------------------------------------------------------------
# atoms

K_NORMAL, K_CAT, K_PRIME, K_I = 0, 1, 2, 3


class Atom:
    __slots__ = ("id", "kind", "data", "n", "pos", "real", "key", "meaning")

    def __repr__(self):
        return atom_str(self)


ATOMS = []
KIND = []
_intern = {}


def _new_atom(key, kind, data, k=K_NORMAL, n=0, pos=False, real=True, meaning=None):
    a = _intern.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.data, a.n, a.pos, a.real, a.key, a.meaning = kind, data, n, pos, real, key, meaning
    ATOMS.append(a)
    KIND.append(k)
    _intern[key] = a
    return a


_I = _new_atom(("I",), "I", None, K_I, real=False)


class Unsupported(Exception):
    """the engine cannot encode something"""


class TooMany(Unsupported):
    """too many cases in a case split"""


MAX_TERMS = 40000


def _norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mono_mul(a, b):
    """multiply monomials, returns (coef, mono) or None when zero"""
    if not a:
        return 1, b
    if not b:
        return 1, a
    out = []
    c = 1
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, ex = a[i]
        y, ey = b[j]
        if x < y:
            out.append(a[i])
            i += 1
        elif x > y:
            out.append(b[j])
            j += 1
        else:
            k = KIND[x]
            if k == K_NORMAL:
                e = ex + ey
                if e != 0:
                    out.append((x, _norm_c(e)))
            elif k == K_CAT:
                if ex != ey:
                    return None
                out.append(a[i])
            elif k == K_I:
                c = -c
            else:  # prime root
                e = ex + ey
                p = ATOMS[x].data
                if e >= 1:
                    c = c * p
                    e = e - 1
                if e != 0:
                    out.append((x, _norm_c(e)))
            i += 1
            j += 1
    if i < la:
        out.extend(a[i:])
    elif j < lb:
        out.extend(b[j:])
    return c, tuple(out)


def to_frac(x):
    """float -> rational: small rationals are recognised, anything else is taken exactly"""
    if isinstance(x, (int, Fraction)):
        return _norm_c(x) if not isinstance(x, bool) else int(x)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant")
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    f = Fraction(x).limit_denominator(20000)
    if f != 0 and abs(float(f) - x) <= 4e-16 * abs(x):
        return _norm_c(f)
    for d in (10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9, 10 ** 10, 10 ** 11, 10 ** 12):   # decimal constants such as 1e-6
        f = Fraction(round(x * d), d)
        if f != 0 and float(f) == x:
            return _norm_c(f)
    return Fraction(x)


_const_cache = {}


def _sqrt_recognise(x):
    """x float -> (rational q, squarefree n) with x = q*sqrt(n) or None"""
    x2 = x * x
    f = Fraction(x2).limit_denominator(5000)
    if f == 0 or abs(float(f) - x2) > 1e-15 * x2:
        return None
    # x = sqrt(num/den) = sqrt(num*den)/den
    n = f.numerator * f.denominator
    if n > 10 ** 7:
        return None
    q = Fraction(1, f.denominator)
    d = 2
    while d * d <= n:
        while n % (d * d) == 0:
            n //= d * d
            q *= d
        d += 1
    if n == 1:
        return None
    if x < 0:
        q = -q
    if abs(float(q) * math.sqrt(n) - x) > 4e-16 * abs(x):
        return None
    return q, n


def const(x):
    if isinstance(x, Poly):
        return x
    key = x if isinstance(x, (int, Fraction)) else (type(x).__name__, repr(x))
    r = _const_cache.get(key)
    if r is None:
        r = _const(x)
        _const_cache[key] = r
    return r


def _const(x):
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): _norm_c(x)}) if x != 0 else ZERO
    try:
        import numpy as np
        if isinstance(x, np.generic):
            if isinstance(x, np.bool_):
                return ONE if x else ZERO
            if isinstance(x, np.integer):
                return _const(int(x))
            x = x.item()
    except ImportError:
        pass
    if isinstance(x, (int, bool)):
        return _const(int(x))
    if isinstance(x, float):
        f = to_frac(x)
        if isinstance(f, Fraction) and f.denominator > 10 ** 12 and abs(x) < 1e6 and abs(x) > 1e-6:
            s = _sqrt_recognise(x)
            if s is not None:
                return _mul_c(root_int(s[1]), s[0])
        return Poly({(): f}) if f != 0 else ZERO
    if isinstance(x, complex):
        return add(_const(x.real), mul(IMAG, _const(x.imag)))
    raise Unsupported("constant of type %s" % type(x))


class Poly:
    __slots__ = ("t", "_h", "_cats")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._cats = None

    # hash / structural equality (python == is symbolic comparison for numpy object arrays; use same())
    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def is_num(self):
        """numeric (possibly complex / with prime roots)"""
        for m in self.t:
            for a, e in m:
                if KIND[a] not in (K_I, K_PRIME):
                    return False
        return True

    def const_value(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def cats(self):
        if self._cats is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    if KIND[a] == K_CAT:
                        s.add(a)
            self._cats = frozenset(s)
        return self._cats

    def is_real_syntactic(self):
        for m in self.t:
            for a, e in m:
                if not ATOMS[a].real:
                    return False
        return True

    # ---- arithmetic, also used through numpy object arrays
    def __add__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else add(self, neg(o))

    def __rsub__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else add(o, neg(self))

    def __mul__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else mul(self, inv(o))

    def __rtruediv__(self, o):
        o = _coerce(o)
        return NotImplemented if o is None else mul(o, inv(self))

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, Poly):
            c = k.const_value()
            if c is None:
                return power_sym(self, k)
            k = c
        return power(self, k)

    def __rpow__(self, b):
        return power_sym(const(b), self)

    def __abs__(self):
        return absolute(self)

    def __floordiv__(self, o):
        return floordiv(self, const(o))

    def __rfloordiv__(self, o):
        return floordiv(const(o), self)

    def __mod__(self, o):
        return mod(self, const(o))

    def __rmod__(self, o):
        return mod(const(o), self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        return re(self)

    @property
    def imag(self):
        return im(self)

    def sqrt(self):
        return power(self, Fraction(1, 2))

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def tanh(self):
        return tanh(self)

    def cosh(self):
        return cosh(self)

    def sinh(self):
        return sinh(self)

    def isfinite(self):
        return ONE

    # comparisons yield 0/1 valued Poly
    def __lt__(self, o):
        return gt0(const(o) - self)

    def __gt__(self, o):
        return gt0(self - const(o))

    def __le__(self, o):
        return add(ONE, neg(gt0(self - const(o))))

    def __ge__(self, o):
        return add(ONE, neg(gt0(const(o) - self)))

    def __eq__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return eq0(add(self, neg(o)))

    def __ne__(self, o):
        o = _coerce(o)
        if o is None:
            return NotImplemented
        return add(ONE, neg(eq0(add(self, neg(o)))))

    __hash__ = object.__hash__

    def __and__(self, o):
        return mul(self, const(o))

    __rand__ = __and__

    def __or__(self, o):
        o = const(o)
        return add(add(self, o), neg(mul(self, o)))

    __ror__ = __or__

    def __xor__(self, o):
        o = const(o)
        return add(add(self, o), _mul_c(mul(self, o), -2))

    __rxor__ = __xor__

    def __invert__(self):
        return add(ONE, neg(self))

    # concretisation: forks the path
    def __bool__(self):
        return truth(self)

    def __index__(self):
        v = FORK.decide(self)
        if not isinstance(v, int):
            raise TypeError("symbolic value is not an integer: %s" % (v,))
        return v

    __int__ = __index__

    def __float__(self):
        v = FORK.decide(self)
        return float(v)

    def __complex__(self):
        v = FORK.decide(self)
        return complex(v)

    def __round__(self, n=None):
        return round(float(self), n) if n is not None else round(float(self))

    def __repr__(self):
        return poly_str(self)

    def __format__(self, spec):
        return "<sym>"


class _Fork:
    """hook: set by the explorer"""

    def decide(self, p):
        p2 = p
        c = p2.const_value()
        if c is not None:
            return c
        if p.is_num():
            return evaluate(p, {}, {})
        raise Unsupported("concretisation of symbolic value outside a session")


FORK = _Fork()


def _coerce(o):
    if isinstance(o, Poly):
        return o
    try:
        return const(o)
    except Unsupported:
        return None


ZERO = Poly({})
ONE = Poly({(): 1})
IMAG = Poly({((0, 1),): 1})


def same(a, b):
    return a is b or a.t == b.t


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if s == 0:
                del t[m]
            else:
                t[m] = _norm_c(s)
    return Poly(t)


def addn(ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            o = t.get(m)
            if o is None:
                t[m] = c
            else:
                s = o + c
                if s == 0:
                    del t[m]
                else:
                    t[m] = _norm_c(s)
    return Poly(t)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def _mul_c(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return Poly({m: _norm_c(x * c) for m, x in a.t.items()})


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) == 1 and () in a.t:
        return _mul_c(b, a.t[()])
    if len(b.t) == 1 and () in b.t:
        return _mul_c(a, b.t[()])
    if len(a.t) * len(b.t) > 50 * MAX_TERMS:
        raise Unsupported("polynomial too large")
    t = {}
    special = False
    for ma, ca in a.t.items():
        for mb, cb in b.t.items():
            r = _mono_mul(ma, mb)
            if r is None:
                continue
            c, m = r
            c = ca * cb * c
            o = t.get(m)
            if o is None:
                t[m] = c
            else:
                s = o + c
                if s == 0:
                    del t[m]
                else:
                    t[m] = s
    if len(t) > MAX_TERMS:
        raise Unsupported("polynomial too large")
    for m, c in t.items():
        if type(c) is Fraction and c.denominator == 1:
            t[m] = c.numerator
    return _expand_patoms(Poly(t))


def _expand_patoms(p):
    """positive integer powers of P atoms are expanded; even powers of abs etc. are simplified"""
    todo = None
    for m in p.t:
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "P" and e >= 1:
                todo = True
                break
            if at.kind == "abs" and (e >= 2 or e <= -2):
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    out = []
    for m, c in p.t.items():
        base = []
        facs = []
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "P" and e >= 1:
                k = int(math.floor(e))
                rest = _norm_c(e - k)
                if rest != 0:
                    base.append((a, rest))
                facs.append((at.data, k))
            elif at.kind == "abs" and abs(e) >= 2:
                k = 2 * int(abs(e) // 2) * (1 if e > 0 else -1)
                rest = _norm_c(e - k)
                if rest != 0:
                    base.append((a, rest))
                facs.append((at.data, k))
            else:
                base.append((a, e))
        q = Poly({tuple(base): c})
        for b, k in facs:
            q = mul(q, power(b, k))
        out.append(q)
    return addn(out)


# ----------------------------------------------------------------------------------------------
# variables

def var(name, pos=False):
    a = _new_atom(("var", name), "var", name, pos=pos)
    return Poly({((a.id, 1),): 1})


RANGES = {}     # atom id -> (lo, hi)


def set_range(p, lo, hi):
    (m, c), = p.t.items()
    RANGES[m[0][0]] = (to_frac(lo), to_frac(hi))


def cat_atom(name, n, meaning=None):
    return _new_atom(("cat", name), "cat", name, K_CAT, n=n, meaning=meaning)


def ind(a, k):
    """indicator [a = k] of a categorical atom"""
    if k == 0:
        return Poly({(): 1, **{((a.id, j),): -1 for j in range(1, a.n)}})
    return Poly({((a.id, k),): 1})


def cat(name, n):
    """integer variable with range(n)"""
    if n <= 1:
        return ZERO
    a = cat_atom(name, n)
    return Poly({((a.id, k),): k for k in range(1, n)})


def boolean(name):
    return cat(name, 2)


def func(name, args, pos=False, real=True):
    """uninterpreted function application"""
    args = tuple(args)
    a = _new_atom(("F", name, tuple(x.key() for x in args)), "F", (name, args), pos=pos, real=real)
    return Poly({((a.id, 1),): 1})


# ----------------------------------------------------------------------------------------------
# case splitting

def restrict(p, assign):
    """substitute categorical atoms: assign {atom id: value}"""
    if not assign:
        return p
    cs = p.cats()
    if not cs or not any(a in assign for a in cs):
        return p
    t = {}
    for m, c in p.t.items():
        keep = []
        ok = True
        for a, e in m:
            if a in assign and KIND[a] == K_CAT:
                if assign[a] != e:
                    ok = False
                    break
            else:
                keep.append((a, e))
        if not ok:
            continue
        m = tuple(keep)
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if s == 0:
                del t[m]
            else:
                t[m] = _norm_c(s)
    return Poly(t)


MAX_LEAVES = 4096


def shannon(ps, f, _budget=None):
    """apply f to category-free leaves of the tuple ps, recombine"""
    budget = _budget or [MAX_LEAVES]
    cs = None
    for p in ps:
        c = p.cats()
        if c:
            cs = min(c)
            break
    if cs is None:
        budget[0] -= 1
        if budget[0] < 0:
            raise TooMany("too many cases")
        return f(*ps)
    # choose the category that occurs first
    at = ATOMS[cs]
    leaves = []
    for k in range(at.n):
        leaves.append(shannon(tuple(restrict(p, {cs: k}) for p in ps), f, budget))
    l0 = leaves[0]
    out = l0
    for k in range(1, at.n):
        d = add(leaves[k], neg(l0))
        if d.t:
            out = add(out, mul(ind(at, k), d))
    return out


def leaves(ps, budget=MAX_LEAVES):
    """list of (assignment, tuple of category-free polys)"""
    out = []

    def rec(ps, asg):
        cs = None
        for p in ps:
            c = p.cats()
            if c:
                cs = min(c)
                break
        if cs is None:
            out.append((dict(asg), ps))
            if len(out) > budget:
                raise TooMany("too many cases")
            return
        for k in range(ATOMS[cs].n):
            rec(tuple(restrict(p, {cs: k}) for p in ps), {**asg, cs: k})

    rec(tuple(ps), {})
    return out


def ite(c, a, b):
    if same(a, b):
        return a
    cv = c.const_value()
    if cv is not None:
        return a if cv != 0 else b
    return add(b, mul(c, add(a, neg(b))))


# ----------------------------------------------------------------------------------------------
# conjugation etc.

def _split_mono(m):
    """categories part, rest"""
    c = tuple(x for x in m if KIND[x[0]] == K_CAT)
    r = tuple(x for x in m if KIND[x[0]] != K_CAT)
    return c, r


def conj(p):
    if p.is_real_syntactic():
        return p
    out = []
    t = {}
    for m, c in p.t.items():
        simple = True
        for a, e in m:
            if not ATOMS[a].real and KIND[a] != K_I and ATOMS[a].kind != "U":
                simple = False
                break
        if simple:
            sgn = 1
            mm = []
            for a, e in m:
                if KIND[a] == K_I:
                    sgn = -sgn
                    mm.append((a, e))
                elif ATOMS[a].kind == "U":
                    mm.append((a, -e))
                else:
                    mm.append((a, e))
            mm = tuple(mm)
            o = t.get(mm, 0) + c * sgn
            if o == 0:
                t.pop(mm, None)
            else:
                t[mm] = _norm_c(o)
        else:
            q = Poly({(): c})
            for a, e in m:
                q = mul(q, _conj_atom(a, e))
            out.append(q)
    r = Poly(t)
    if out:
        r = addn([r] + out)
    return r


def _conj_atom(a, e):
    at = ATOMS[a]
    if at.real:
        return Poly({((a, e),): 1})
    if at.kind == "I":
        return Poly({((0, 1),): -1})
    if at.kind == "U":
        return Poly({((a, -e),): 1})
    if at.kind == "P":
        return power(conj(at.data), e)
    if at.kind == "L":
        return power(log(conj(at.data)), e)
    if at.kind == "F":
        name, args = at.data
        if name.startswith("opaque_"):
            return power(func(name, [conj(x) for x in args], real=False), e)
        return power(func("conj:" + name if not name.startswith("conj:") else name[5:], args, real=False), e)
    raise Unsupported("conj of " + at.kind)


_HALF = Fraction(1, 2)


def re(p):
    if p.is_real_syntactic():
        return p
    r, i = reim(p)
    return r


def im(p):
    if p.is_real_syntactic():
        return ZERO
    return reim(p)[1]


def reim(p):
    tr, ti, rest = {}, {}, {}
    for m, c in p.t.items():
        hasI = False
        ok = True
        for a, e in m:
            if KIND[a] == K_I:
                hasI = True
            elif not ATOMS[a].real:
                ok = False
                break
        if not ok:
            rest[m] = c
        elif hasI:
            ti[m[1:]] = c
        else:
            tr[m] = c
    r, i = Poly(tr), Poly(ti)
    if rest:
        q = Poly(rest)
        qc = conj(q)
        r = add(r, _mul_c(add(q, qc), _HALF))
        i = add(i, mul(Poly({((0, 1),): -_HALF}), add(q, neg(qc))))
    return r, i


# ----------------------------------------------------------------------------------------------
# sign knowledge

def mono_sign(m):
    """+1 if the (category free) monomial is known > 0, 0 if known >= 0, None unknown"""
    s = 1
    for a, e in m:
        at = ATOMS[a]
        if not at.real:
            return None
        if at.pos:
            continue
        if KIND[a] == K_PRIME:
            continue
        if isinstance(e, int) and e % 2 == 0:
            s = 0 if e > 0 else s
            continue
        if isinstance(e, Fraction) and e.denominator % 2 == 0:
            s = 0 if e > 0 else s
            continue
        return None
    return s


def sign_of(p):
    """category free real poly: +1 >0, -1 <0, '>=0', '<=0', 0, None"""
    if not p.t:
        return 0
    if p.is_num():
        v = evaluate(p, {}, {})
        if abs(complex(v).imag) > 1e-12:
            return None
        v = complex(v).real
        return 1 if v > 0 else (-1 if v < 0 else 0)
    strict_p = strict_n = False
    haspos = hasneg = False
    for m, c in p.t.items():
        s = mono_sign(m)
        if s is None:
            return _range_sign(p)
        if c > 0:
            haspos = True
            strict_p |= s == 1
        else:
            hasneg = True
            strict_n |= s == 1
    if haspos and hasneg:
        return _range_sign(p)
    if haspos:
        return 1 if strict_p else ">=0"
    return -1 if strict_n else "<=0"


_IV = float("inf")


def _range_sign(p):
    """sign from the declared ranges of the inputs (interval arithmetic), or None"""
    if not RANGES:
        return None
    lo = hi = 0
    for m, c in p.t.items():
        l, u = 1, 1
        for a, e in m:
            if a in RANGES and isinstance(e, int):
                x, y = RANGES[a]
                if e < 0:
                    if x <= 0 <= y:
                        return None
                    x, y, e = 1 / y, 1 / x, -e
                if e % 2 == 0 and x < 0:
                    x, y = (0 if y > 0 else (-y) ** e), max(x ** e, y ** e)
                else:
                    x, y = x ** e, y ** e
            elif ATOMS[a].pos and KIND[a] == K_NORMAL:
                x, y = 0, _IV
            else:
                return None
            if l < 0 or x < 0:
                if _IV in (y, u):
                    return None
                q = (l * x, l * y, u * x, u * y)
                l, u = min(q), max(q)
            else:
                l, u = l * x, (_IV if _IV in (y, u) else u * y)
        if not isinstance(c, (int, Fraction)):
            return None
        if c > 0:
            lo, hi = lo + c * l, (_IV if u == _IV or hi == _IV else hi + c * u)
        else:
            lo, hi = (-_IV if u == _IV or lo == -_IV else lo + c * u), hi + c * l
    if lo > 0:
        return 1
    if hi < 0:
        return -1
    if lo == 0:
        return ">=0"
    if hi == 0:
        return "<=0"
    return None


CMP_LEAVES = 1500


def truth(p):
    """whether p is non-zero, on this path"""
    if all(KIND[a] == K_CAT for m in p.t for a, _ in m):
        return bool(FORK.decide(p) != 0)
    return bool(FORK.decide(add(ONE, neg(eq0(p)))) != 0)


def gt0(p):
    c = p.const_value()
    if c is not None:
        return ONE if c > 0 else ZERO
    if p.cats():
        try:
            return shannon((p,), gt0, [CMP_LEAVES])
        except TooMany:
            if not p.is_real_syntactic():
                raise
            p = _mul_c(p, Fraction(1) / abs(_lead(p)))
            at = _new_atom(("cmp>", p.key()), "cat", None, K_CAT, n=2, meaning=(">0", p))
            return Poly({((at.id, 1),): 1})
    if not p.is_real_syntactic():
        r, i = reim(p)
        if i.t:
            raise Unsupported("ordering of complex values")
        p = r
    s = sign_of(p)
    if s == 1:
        return ONE
    if s in (-1, 0, "<=0"):
        return ZERO
    # normalise the scale
    lead = _lead(p)
    p = _mul_c(p, Fraction(1) / abs(lead))
    p = _strip_pos(p)
    for m in p.t:
        for a, e in m:
            pass
    at = _new_atom(("cmp>", p.key()), "cat", None, K_CAT, n=2, meaning=(">0", p))
    return Poly({((at.id, 1),): 1})


def _lead(p):
    m = min(p.t, key=lambda m: (len(m), m))
    return p.t[m]


def _strip_pos(p):
    """divide by common positive monomial factors"""
    common = None
    for m in p.t:
        d = {a: e for a, e in m if ATOMS[a].pos and KIND[a] == K_NORMAL}
        if common is None:
            common = d
        else:
            common = {a: (min(common.get(a, 0), d.get(a, 0))) for a in set(common) | set(d)}
    common = {a: e for a, e in (common or {}).items() if e != 0}
    if not common:
        return p
    f = tuple(sorted((a, -e) for a, e in common.items()))
    return mul(p, Poly({f: 1}))


def eq0(p):
    c = p.const_value()
    if c is not None:
        return ONE if c == 0 else ZERO
    if p.is_num():
        return ONE if abs(complex(evaluate(p, {}, {}))) < 1e-14 else ZERO
    if p.cats():
        try:
            return shannon((p,), eq0, [CMP_LEAVES])
        except TooMany:
            if not p.is_real_syntactic():
                raise
            p = _mul_c(p, Fraction(1) / _lead(p))
            at = _new_atom(("cmp=", p.key()), "cat", None, K_CAT, n=2, meaning=("=0", p))
            return Poly({((at.id, 1),): 1})
    s = sign_of(p) if p.is_real_syntactic() else None
    if s in (1, -1):
        return ZERO
    if not p.is_real_syntactic():
        r, i = reim(p)
        if i.t and r.t:
            return mul(eq0(r), eq0(i))
        p = r if r.t else i
    p = _mul_c(p, Fraction(1) / _lead(p))
    p = _strip_pos(p)
    at = _new_atom(("cmp=", p.key()), "cat", None, K_CAT, n=2, meaning=("=0", p))
    return Poly({((at.id, 1),): 1})


def absolute(p):
    if p.cats():
        return shannon((p,), absolute)
    if not p.t:
        return p
    if not p.is_real_syntactic():
        q = mul(p, conj(p))
        q = re(q)
        return power(q, _HALF) if q.t else q
    s = sign_of(p)
    if s in (1, ">=0"):
        return p
    if s in (-1, "<=0"):
        return neg(p)
    g = gt0(p)
    return ite(g, p, neg(p))


def sign(p):
    if p.cats():
        return shannon((p,), sign)
    if not p.is_real_syntactic():
        a = absolute(p)
        return mul(p, inv(a)) if a.t else a
    return add(gt0(p), neg(gt0(neg(p))))


def maximum(a, b):
    if same(a, b):
        return a
    return ite(gt0(add(a, neg(b))), a, b)


def minimum(a, b):
    if same(a, b):
        return a
    return ite(gt0(add(a, neg(b))), b, a)


# ----------------------------------------------------------------------------------------------
# powers, quotients

def _factor(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 200000:
            return None
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def root_int(n, q=_HALF):
    """n**q for positive integer n, 0<q<1"""
    f = _factor(n)
    if f is None:
        return Poly({(): Fraction(float(n) ** float(q))})
    c = Fraction(1)
    m = []
    for p, e in f.items():
        e = e * q
        k = math.floor(e)
        c *= Fraction(p) ** k
        e -= k
        if e:
            a = _new_atom(("prime", p), "prime", p, K_PRIME, pos=True)
            m.append((a.id, _norm_c(e)))
    return Poly({tuple(sorted(m)): _norm_c(c)})


def const_pow(c, q):
    """c**q for a positive rational c"""
    q = Fraction(q)
    k = math.floor(q)
    r = q - k
    base = Fraction(c) ** k
    if r == 0:
        return Poly({(): _norm_c(base)})
    c = Fraction(c)
    if c.numerator > 10 ** 9 or c.denominator > 10 ** 9 or r.denominator > 4:
        return _mul_c(Poly({(): to_frac(float(c) ** float(r))}), base)
    # c^r = num^r / den^r = num^r * den^(1-r) / den
    p = mul(root_int(c.numerator, r), root_int(c.denominator, 1 - r)) if c.denominator != 1 else root_int(c.numerator, r)
    return _mul_c(p, base / c.denominator)


def _round_coef(c):
    if isinstance(c, int) or c.denominator <= 10 ** 12:
        return c
    x = float(c)
    f = Fraction(x).limit_denominator(100000)
    if f != 0 and abs(float(f) - x) < 1e-13 * abs(x):
        return _norm_c(f)
    if x == 0:
        return 0
    e = 13 - int(math.floor(math.log10(abs(x)))) - 1
    if e > 0:
        return _norm_c(Fraction(round(c * 10 ** e), 10 ** e))
    return c


def _content(p):
    """p = coef * mono * prim with prim normalised; category free, len>1"""
    common = None
    for m in p.t:
        d = {a: e for a, e in m if KIND[a] == K_NORMAL}
        if common is None:
            common = d
        else:
            common = {a: min(common.get(a, 0), d.get(a, 0)) for a in set(common) | set(d)}
    common = {a: e for a, e in (common or {}).items() if e != 0}
    mono = tuple(sorted(common.items()))
    if mono:
        p = mul(p, Poly({tuple((a, -e) for a, e in mono): 1}))
    if not p.t:
        return 0, (), p
    lead = _lead(p)
    p = _mul_c(p, Fraction(1) / lead)
    p = Poly({m: _round_coef(c) for m, c in p.t.items()})
    return lead, mono, p


def _patom(p):
    s = sign_of(p) if p.is_real_syntactic() else None
    pos = s in (1, ">=0")
    return _new_atom(("P", p.key()), "P", p, pos=pos, real=p.is_real_syntactic())


def inv(p):
    return power(p, -1)


def power(p, q):
    if isinstance(q, float):
        q = to_frac(q)
    if isinstance(q, Fraction) and q.denominator == 1:
        q = q.numerator
    if not isinstance(q, (int, Fraction)):
        q = to_frac(float(q))
    if q == 0:
        return ONE
    if q == 1:
        return p
    if not p.t:
        if q > 0:
            return ZERO
        raise DivZero()
    if isinstance(q, int) and q > 0:
        r = p
        out = None
        while q:
            if q & 1:
                out = r if out is None else mul(out, r)
            q >>= 1
            if q:
                r = mul(r, r)
        return out
    if p.cats():
        return shannon((p,), lambda x: power_safe(x, q))
    if isinstance(q, Fraction) and q.denominator > 12 and p.const_value() is None and p.is_real_syntactic():
        return func("fpow", [p, Poly({(): q})], pos=True)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _mono_pow(m, c, q)
    lead, mono, prim = _content(p)
    if not prim.t:
        return power(prim, q)
    if len(prim.t) == 1:
        (m, c), = prim.t.items()
        _, mm = _mono_mul(m, mono)
        return _mono_pow(mm, lead * c, q)
    if isinstance(q, int):
        a = _patom(prim)
        base = _mono_pow(mono, lead, q)
        return mul(base, Poly({((a.id, q),): 1}))
    # fractional: keep the sign inside the P atom
    if lead < 0:
        prim = neg(prim)
        lead = -lead
    # perfect square?
    if q.denominator == 2:
        r = _perfect_square(prim)
        if r is not None and mono_even(mono):
            s = absolute(r) if r.is_real_syntactic() else r
            return mul(power(s, 2 * q), _mono_pow(mono, lead, q))
    if all(ATOMS[a].pos for a, e in mono):
        base = _mono_pow(mono, lead, q)
        a = _patom(prim)
        k = math.floor(q)
        return mul(base, mul(Poly({((a.id, q - k),): 1}), power(prim, k)) if k else Poly({((a.id, q),): 1}))
    full = mul(prim, Poly({mono: 1}))
    a = _patom(full)
    return mul(const_pow(lead, q), Poly({((a.id, q),): 1}))


def mono_even(m):
    for a, e in m:
        if ATOMS[a].pos:
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        return False
    return True


def _perfect_square(p):
    """p == r**2 ?  (small multivariate polynomials with integer exponents, lexicographic order)"""
    n = len(p.t)
    if n > 36:
        return None
    atoms = sorted({a for m in p.t for a, e in m if KIND[a] == K_NORMAL})
    for m in p.t:
        for a, e in m:
            if KIND[a] == K_I or not isinstance(e, int) and KIND[a] == K_NORMAL:
                return None

    def order(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)

    lm = max(p.t, key=order)
    lc = p.t[lm]
    if lc < 0:
        return None
    if lc != 1:
        r = _perfect_square(_mul_c(p, Fraction(1) / lc))
        return None if r is None else mul(r, const_pow(lc, _HALF))
    if any(KIND[a] != K_NORMAL or e % 2 for a, e in lm):
        return None
    r = Poly({tuple((a, e // 2) for a, e in lm): 1})
    il = inv(_mul_c(r, 2))
    rem = add(p, neg(mul(r, r)))
    for _ in range(n + 2):
        if not rem.t:
            return r
        m = max(rem.t, key=order)
        q = mul(Poly({m: rem.t[m]}), il)
        for mm in q.t:
            for a, e in mm:
                if KIND[a] == K_NORMAL and e < 0 and ATOMS[a].kind not in ("E", "U"):
                    return None
        r = add(r, q)
        rem = add(p, neg(mul(r, r)))
        if len(r.t) > n + 2:
            return None
    return None


class DivZero(Exception):
    pass


NAN_OK = [False]


def power_safe(p, q):
    if not p.t and q < 0:
        # division by an exact zero in a branch: an opaque value (the branch must be masked or unreachable)
        a = _new_atom(("divzero",), "F", ("divzero", ()))
        return Poly({((a.id, 1),): 1})
    return power(p, q)


def _mono_pow(m, c, q):
    out = ONE
    if isinstance(q, int):
        out = Poly({(): _norm_c(Fraction(c) ** q)})
    else:
        if c < 0:
            if q.denominator == 2:
                # principal branch
                out = mul(const_pow(-c, q), power(IMAG, q.numerator))
            else:
                raise Unsupported("root of negative number")
        else:
            out = const_pow(c, q)
    simple = []
    others = []
    for a, e in m:
        at = ATOMS[a]
        k = KIND[a]
        if k == K_I:
            if not isinstance(q, int):
                if q.denominator == 2:
                    # sqrt(i) = (1+i)/sqrt2
                    others.append(power(mul(add(ONE, IMAG), const_pow(Fraction(1, 2), _HALF)), q.numerator))
                    continue
                raise Unsupported("root of I")
            r = q % 4
            others.append([ONE, IMAG, Poly({(): -1}), Poly({((0, 1),): -1})][r])
        elif k == K_PRIME:
            ee = Fraction(e) * q
            fl = math.floor(ee)
            others.append(_mul_c(Poly({((a, _norm_c(ee - fl)),): 1}) if ee != fl else ONE, Fraction(at.data) ** fl))
        elif isinstance(q, int) or at.pos or at.kind == "U":
            simple.append((a, _norm_c(Fraction(e) * q)))
        else:
            # root of an atom of unknown sign
            if isinstance(e, int) and e % 2 == 0 and at.real:
                b = Poly({((a, 1),): 1})
                others.append(power(absolute(b), Fraction(e) * q))
            else:
                simple.append((a, _norm_c(Fraction(e) * q)))
    out = mul(out, _expand_patoms(Poly({tuple(simple): 1}))) if simple else out
    for o in others:
        out = mul(out, o)
    return out


def power_sym(b, e):
    """general power b**e"""
    c = e.const_value()
    if c is not None:
        return power(b, c)
    if e.cats() and not (Poly({m: c for m, c in e.t.items()}).is_real_syntactic() is False):
        return shannon((b, e), lambda x, y: power_sym(x, y))
    if b.is_const() and b.const_value() == 1:
        return ONE
    if not b.t:
        return ZERO
    return exp(mul(e, log(b)))


def floordiv(a, b):
    def f(x, y):
        cx, cy = x.const_value(), y.const_value()
        if cx is not None and cy is not None and cy != 0:
            return Poly({(): math.floor(Fraction(cx) / cy)}) if math.floor(Fraction(cx) / cy) else ZERO
        return func("floor", [mul(x, power_safe(y, -1))])
    return shannon((a, b), f)


def truncdiv(a, b):
    def f(x, y):
        cx, cy = x.const_value(), y.const_value()
        if cx is not None and cy is not None and cy != 0:
            return const(math.trunc(Fraction(cx) / cy))
        return func("trunc", [mul(x, power_safe(y, -1))])
    return shannon((a, b), f)


def mod(a, b):
    return add(a, neg(mul(b, floordiv(a, b))))


def floor(a):
    return floordiv(a, ONE)


# ----------------------------------------------------------------------------------------------
# exp / log / trig

def _components(p):
    """split into (category-free part, [parts connected through categories])"""
    free = {}
    groups = []  # list of (set(cats), dict)
    for m, c in p.t.items():
        cs = {a for a, e in m if KIND[a] == K_CAT}
        if not cs:
            free[m] = c
            continue
        d = {m: c}
        rest = []
        for s, g in groups:
            if s & cs:
                cs = cs | s
                d.update(g)
            else:
                rest.append((s, g))
        groups = rest + [(cs, d)]
    return Poly(free), [Poly(g) for s, g in groups]


def exp(p):
    if not p.t:
        return ONE
    if p.cats():
        free, groups = _components(p)
        out = exp(free)
        for g in groups:
            out = mul(out, shannon((g,), exp))
        return out
    out = ONE
    hard = {}
    simple = []
    logs = []
    for m, c in p.t.items():
        cplx = [a for a, e in m if not ATOMS[a].real and KIND[a] != K_I]
        hasI = bool(m) and KIND[m[0][0]] == K_I
        r = m[1:] if hasI else m
        if not r or all(KIND[a] == K_PRIME for a, e in r):
            v = float(c)
            for a, e in r:
                v *= float(ATOMS[a].data) ** float(e)
            if hasI:
                out = mul(out, cis_const(v))
            else:
                out = _mul_c(out, to_frac(math.exp(v)))
            continue
        if len(r) == 1 and ATOMS[r[0][0]].kind == "L" and r[0][1] == 1 and not hasI:
            logs.append((ATOMS[r[0][0]].data, c))
            continue
        if len(r) == 1 and ATOMS[r[0][0]].kind == "arg" and r[0][1] == 1 and hasI:
            y, x = ATOMS[r[0][0]].data
            z = add(x, mul(IMAG, y))
            z = mul(z, power(add(mul(x, x), mul(y, y)), -_HALF))
            out = mul(out, power(z, c))
            continue
        if cplx:
            hard[m] = c
            continue
        kind = "U" if hasI else "E"
        a = _new_atom((kind, r), kind, Poly({r: 1}), pos=not hasI, real=not hasI)
        simple.append((a.id, c))
    if simple:
        out = mul(out, Poly({tuple(sorted(simple)): 1}))
    for b, c in logs:
        out = mul(out, power(b, c))
    if hard:
        h = Poly(hard)
        r, i = reim(h)
        # real part
        for q, kind in ((r, "E"), (i, "U")):
            if q.t:
                a = _new_atom((kind + "p", q.key()), kind, q, pos=kind == "E", real=kind == "E")
                out = mul(out, Poly({((a.id, 1),): 1}))
    return out


def cis_const(v):
    def rec(x):
        if abs(x) < 1e-15:
            return ZERO
        for k in (1, 2):
            for d in (1, 2, 3, 4):
                pass
        return const(x) if True else None
    c, s = math.cos(v), math.sin(v)

    def clean(x):
        for t in (0.0, 0.5, 1.0, math.sqrt(0.5), math.sqrt(3) / 2):
            if abs(abs(x) - t) < 1e-15:
                return math.copysign(t, x)
        return x
    return add(const(clean(c)), mul(IMAG, const(clean(s))))


def cos(p):
    if p.cats():
        return shannon((p,), cos)
    e = exp(mul(IMAG, p))
    if p.is_real_syntactic():
        return _mul_c(add(e, conj(e)), _HALF)
    return _mul_c(add(e, exp(mul(neg(IMAG), p))), _HALF)


def sin(p):
    if p.cats():
        return shannon((p,), sin)
    e = exp(mul(IMAG, p))
    ec = conj(e) if p.is_real_syntactic() else exp(mul(neg(IMAG), p))
    return mul(Poly({((0, 1),): -_HALF}), add(e, neg(ec)))


def cosh(p):
    if p.cats():
        return shannon((p,), cosh)
    return _mul_c(add(exp(p), exp(neg(p))), _HALF)


def sinh(p):
    if p.cats():
        return shannon((p,), sinh)
    return _mul_c(add(exp(p), neg(exp(neg(p)))), _HALF)


def tanh(p):
    if p.cats():
        return shannon((p,), tanh)
    if not p.t:
        return ZERO
    # exp(2p)-form keeps the denominators canonical
    e = exp(_mul_c(p, 2))
    return mul(add(e, Poly({(): -1})), inv(add(e, ONE)))


def logistic(p):
    if p.cats():
        return shannon((p,), logistic)
    e = exp(p)
    return mul(e, inv(add(e, ONE)))


def log_const(c):
    return Poly({(): to_frac(math.log(c))}) if c != 1 else ZERO


_logprime = {}


def log(p):
    if p.cats():
        return shannon((p,), log_safe)
    if not p.t:
        return log_safe(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _log_mono(m, c)
    lead, mono, prim = _content(p)
    if not prim.t:
        return log_safe(prim)
    if prim.is_real_syntactic() and sign_of(prim) is None and lead < 0:
        prim, lead = neg(prim), -lead
    out = _log_mono(mono, lead)
    if len(prim.t) == 1:
        (m, c), = prim.t.items()
        return add(out, _log_mono(m, c))
    r = _root_of(prim)
    if r is not None:
        base, k = r
        return add(out, _mul_c(log(base), k))
    a = _new_atom(("L", prim.key()), "L", prim, real=prim.is_real_syntactic())
    return add(out, Poly({((a.id, 1),): 1}))


def _root_of(p):
    return None


def log_safe(p):
    if not p.t:
        a = _new_atom(("log0",), "F", ("log0", ()))
        return Poly({((a.id, 1),): 1})
    return log(p)


def _log_mono(m, c):
    out = []
    if c < 0:
        out.append(mul(IMAG, const(math.pi)))
        c = -c
    if c != 1:
        fn = _factor(Fraction(c).numerator) if Fraction(c).numerator < 10 ** 8 else None
        fd = _factor(Fraction(c).denominator) if Fraction(c).denominator < 10 ** 8 else None
        out.append(log_const(c))
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "E":
            out.append(_mul_c(at.data, e))
        elif at.kind == "U":
            out.append(mul(IMAG, _mul_c(at.data, e)))
        elif at.kind == "I":
            out.append(mul(IMAG, const(math.pi / 2)))
        elif at.kind == "prime":
            out.append(_mul_c(log_const(at.data), e))
        elif at.kind == "P":
            b = _new_atom(("L", at.data.key()), "L", at.data, real=at.data.is_real_syntactic())
            out.append(Poly({((b.id, 1),): e}))
        else:
            base = Poly({((a, 1),): 1})
            b = _new_atom(("L", base.key()), "L", base, real=at.real)
            out.append(Poly({((b.id, 1),): e}))
    return addn(out) if out else ZERO


def arg_of(y, x):
    """atan2(y, x)"""
    def f(y, x):
        if not y.t and sign_of(x) == 1:
            return ZERO
        if y.is_num() and x.is_num():
            return const(math.atan2(complex(evaluate(y, {}, {})).real, complex(evaluate(x, {}, {})).real))
        a = _new_atom(("arg", y.key(), x.key()), "arg", (y, x))
        return Poly({((a.id, 1),): 1})
    return shannon((y, x), f)


def angle(z):
    r, i = reim(z)
    return arg_of(i, r)


# ----------------------------------------------------------------------------------------------
# numeric evaluation

class EvalError(Exception):
    pass


def evaluate(p, env, cats, memo=None):
    """env: var name -> float;  cats: cat name -> int.  Comparison atoms are evaluated semantically."""
    if memo is None:
        memo = {}
    tot = 0
    for m, c in p.t.items():
        v = c if isinstance(c, int) else float(c)
        for a, e in m:
            x = memo.get(a)
            if x is None:
                x = _eval_atom(a, env, cats, memo)
                memo[a] = x
            if KIND[a] == K_CAT:
                if x != e:
                    v = 0
                    break
                continue
            if KIND[a] == K_I:
                v = v * 1j
                continue
            try:
                if isinstance(e, int):
                    v = v * x ** e
                else:
                    if isinstance(x, complex):
                        v = v * x ** float(e)
                    elif x < 0:
                        v = v * complex(x) ** float(e)
                    else:
                        v = v * x ** float(e)
            except (ZeroDivisionError, OverflowError):
                raise EvalError("numeric")
        tot = tot + v
    return tot


def _eval_atom(a, env, cats, memo):
    at = ATOMS[a]
    k = at.kind
    if k == "I":
        return 1j
    if k == "prime":
        return float(at.data)
    if k == "var":
        if at.data not in env:
            raise EvalError("unassigned " + str(at.data))
        return env[at.data]
    if k == "cat":
        if at.meaning is None:
            if at.data not in cats:
                raise EvalError("unassigned " + str(at.data))
            return cats[at.data]
        op, q = at.meaning[0], at.meaning[1]
        v = complex(evaluate(q, env, cats, memo)).real
        if op == ">0":
            return 1 if v > 0 else 0
        if op == "=0":
            return 1 if abs(v) < 1e-13 else 0
    try:
        if k == "E":
            return math.exp(complex(evaluate(at.data, env, cats, memo)).real)
        if k == "U":
            return cmath.exp(1j * complex(evaluate(at.data, env, cats, memo)).real)
        if k == "P":
            v = evaluate(at.data, env, cats, memo)
            return complex(v).real if at.real else complex(v)
        if k == "L":
            v = complex(evaluate(at.data, env, cats, memo))
            if v.imag == 0 and v.real > 0:
                return math.log(v.real)
            return cmath.log(v)
        if k == "arg":
            y = complex(evaluate(at.data[0], env, cats, memo)).real
            x = complex(evaluate(at.data[1], env, cats, memo)).real
            return math.atan2(y, x)
    except (OverflowError, ValueError, ZeroDivisionError):
        raise EvalError("numeric")
    if k == "F":
        name, args = at.data
        if name in ("divzero", "log0"):
            return float("nan")
        vals = [evaluate(x, env, cats, memo) for x in args]
        f = FUNCS.get(name)
        if f is not None:
            return f(*vals)
        if "F:" + name in env:
            return env["F:" + name](*vals)
        raise EvalError("uninterpreted " + name)
    raise EvalError("atom " + k)


# a value lost precision somewhere (conversion to a shorter floating point type)
NARROWED = [False]

FUNCS = {
    # exaggerated on purpose: only used to propose inputs, which are then replayed on the real code
    "narrow32": lambda x: complex(x).real * (1 + 1e-3) + 1e-4 * math.sin(1e3 * complex(x).real),
    "narrow16": lambda x: complex(x).real * (1 + 1e-2),
    "floor": lambda x: math.floor(complex(x).real),
    "trunc": lambda x: math.trunc(complex(x).real),
    "round": lambda x: round(complex(x).real),
    "fpow": lambda x, q: complex(x).real ** complex(q).real if complex(x).real > 0 else 0.0,
    "erf": lambda x: math.erf(complex(x).real),
    "cbrt": lambda x: math.copysign(abs(complex(x).real) ** (1 / 3), complex(x).real),
}


# ----------------------------------------------------------------------------------------------
# printing

def atom_str(a):
    if a.kind == "cat":
        if a.meaning is not None:
            return "[%s %s]" % (poly_str(a.meaning[1], 6), a.meaning[0])
        return str(a.data)
    if a.kind in ("E", "U"):
        return "%s(%s)" % ("exp" if a.kind == "E" else "cis", poly_str(a.data, 6))
    if a.kind == "P":
        return "(%s)" % poly_str(a.data, 6)
    if a.kind == "L":
        return "log(%s)" % poly_str(a.data, 6)
    if a.kind == "F":
        return "%s(%s)" % (a.data[0], ", ".join(poly_str(x, 6) for x in a.data[1]))
    if a.kind == "I":
        return "I"
    if a.kind == "prime":
        return str(a.data)
    return str(a.data)


def poly_str(p, limit=8):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))):
        if i >= limit:
            out.append("...%d terms" % len(p.t))
            break
        s = str(c) if not (isinstance(c, Fraction) and c.denominator > 10 ** 6) else "%.6g" % float(c)
        fs = []
        for a, e in m:
            if KIND[a] == K_CAT:
                fs.append("[%s=%s]" % (atom_str(ATOMS[a]), e))
            elif e == 1:
                fs.append(atom_str(ATOMS[a]))
            else:
                fs.append("%s^%s" % (atom_str(ATOMS[a]), e))
        if fs:
            s = "*".join(([] if c == 1 else [s]) + fs)
        out.append(s)
    return " + ".join(out)
