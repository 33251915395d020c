"""symbolic unbounded integers (z3 Int terms) for plain Python integer code; branches fork the execution"""
import builtins
import contextlib
import time

from . import poly as P


def z3m():
    from . import solve
    return solve.z3


def _e(x):
    if isinstance(x, SI):
        return x.e
    if isinstance(x, SB):
        return z3m().If(x.e, 1, 0)
    if isinstance(x, bool):
        return z3m().IntVal(int(x))
    if isinstance(x, int):
        return z3m().IntVal(x)
    import numpy as np
    if isinstance(x, np.integer):
        return z3m().IntVal(int(x))
    if isinstance(x, float) and x == int(x):
        return z3m().IntVal(int(x))
    return None


def _bin(f):
    def g(self, o):
        o = _e(o)
        return NotImplemented if o is None else SI(f(self.e, o))
    return g


def _rbin(f):
    def g(self, o):
        o = _e(o)
        return NotImplemented if o is None else SI(f(o, self.e))
    return g


def _cmp(f):
    def g(self, o):
        o = _e(o)
        return NotImplemented if o is None else SB(f(self.e, o))
    return g


class SI:
    __hash__ = None

    def __init__(self, e):
        self.e = e
    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _rbin(lambda a, b: a * b)
    __floordiv__ = _bin(lambda a, b: a / b)
    __rfloordiv__ = _rbin(lambda a, b: a / b)
    __mod__ = _bin(lambda a, b: a % b)
    __rmod__ = _rbin(lambda a, b: a % b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)

    def __neg__(self):
        return SI(-self.e)

    def __pos__(self):
        return self

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return Frac(self, o)

    def __rtruediv__(self, o):
        return Frac(o, self)

    def __bool__(self):
        return bool(self != 0)

    def __ceil__(self):
        return self

    __floor__ = __trunc__ = __round__ = __ceil__

    def item(self):
        return self

    def __repr__(self):
        return "SI(%s)" % self.e


class Frac:
    """quotient of symbolic integers (positive denominator)"""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __ceil__(self):
        return -((-self.a) // self.b)

    def __floor__(self):
        return self.a // self.b

    __trunc__ = __floor__


class SB:
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return P.FORK.zbranch(self.e)

    def __and__(self, o):
        return SB(z3m().And(self.e, o.e)) if isinstance(o, SB) else (self if o else False)

    def __or__(self, o):
        return SB(z3m().Or(self.e, o.e)) if isinstance(o, SB) else (True if o else self)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return SB(z3m().Not(self.e))

    def __add__(self, o):
        return SI(_e(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SI(_e(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SI))

    def __call__(cls, x=0, *a):
        if isinstance(x, SI):
            return x
        if isinstance(x, SB):
            return SI(_e(x))
        if isinstance(x, Frac):
            return x.__trunc__()
        return builtins.int(x, *a)


class IntShim(metaclass=_IntMeta):
    pass


def integers(*modules):
    """context factory: int() of these modules keeps symbolic integers"""
    @contextlib.contextmanager
    def cm(h):
        import importlib
        ms = [importlib.import_module(m) for m in modules]
        if h.symbolic:
            for m in ms:
                m.int = IntShim
        try:
            yield
        finally:
            if h.symbolic:
                for m in ms:
                    del m.int
    return cm
