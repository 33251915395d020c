"""Contracts for dense linear algebra during symbolic execution (see DESIGN.md, 'environment model').

eigh(A): fresh eigenvalues (ascending) and eigenvectors, the same ones for the same matrix.
pinv(A, rtol): a fresh matrix, the same one for the same matrix and tolerance.
The oracle asks for the factorisation of the matrix it expects; that the code factorised this very matrix is an
obligation.  In a concrete run the oracle factorises its own matrix with numpy.
"""
import collections
from fractions import Fraction

import numpy as np

from . import poly as P

EIGH, PINV = [], []
FORCE = [False]        # abstract the factorisation even of constant matrices
EighResult = collections.namedtuple("EighResult", ["eigenvalues", "eigenvectors"])


def reset():
    del EIGH[:]
    del PINV[:]
    FORCE[0] = False


def _iscplx(A):
    return any(not P.im(x).is_zero() if hasattr(P.im(x), "is_zero") else True for x in A.reshape(-1))


def _same(A, B):
    if A.shape != B.shape:
        return False
    return all(P.add(x, P.neg(y)).const_value() == 0 for x, y in zip(A.reshape(-1), B.reshape(-1)))


def _vars(name, shape, cpx):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        n = name + "[" + ",".join(map(str, i)) + "]"
        out[i] = P.var(n + ".re")
        if cpx:
            out[i] = P.add(out[i], P.mul(P.IMAG, P.var(n + ".im")))
    return out


def _fixed(n, cpx):
    """a fixed matrix, exact in floating point"""
    if n == 1:
        return o_(np.array([[1]]))
    if n != 2:
        raise P.Unsupported("fixed eigenvectors")
    return o_(np.array([[2, -1], [1, 2]])) * P.const(Fraction(1, 2))


def o_(A):
    f = np.frompyfunc(P.const, 1, 1)
    return f(np.asarray(A, dtype=object))


def eigh_sym(A, cpx):
    """A: object matrix -> (ev, V) object arrays"""
    for B, ev, V in EIGH:
        if _same(A, B):
            return ev, V
    k, n = len(EIGH), A.shape[0]
    ev = _vars("eig%d.ev" % k, (n,), False)
    V = _fixed(n, cpx) if FORCE[0] else _vars("eig%d.V" % k, (n, n), cpx)
    EIGH.append((A, ev, V))
    return ev, V


def pinv_sym(A, rtol, cpx):
    for B, t, X in PINV:
        if t == rtol and _same(A, B):
            return X
    X = _vars("pinv%d" % len(PINV), (A.shape[1], A.shape[0]), cpx)
    PINV.append((A, rtol, X))
    return X


def install(active):
    """called from stubs.install()"""
    import jax.numpy as jnp
    from . import symjax as S
    eigh0, pinv0 = jnp.linalg.eigh, jnp.linalg.pinv

    def dt(x):
        return np.dtype(x.dtype)

    def issym(x):
        return active[0] and (FORCE[0] or S.any_sym(x))

    def eigh(a, UPLO=None, symmetrize_input=True):
        if not issym(a):
            return eigh0(a, UPLO, symmetrize_input)
        A = S.to_obj(a)
        cpx = dt(a).kind == "c"
        ev, V = eigh_sym(A, cpx)
        return EighResult(S.sym(ev, np.float64), S.sym(V, np.complex128 if cpx else np.float64))

    def pinv(a, rtol=None, hermitian=False, *, rcond=None, **k):
        if not issym(a):
            return pinv0(a, rtol if rtol is not None else rcond, hermitian, **k)
        A = S.to_obj(a)
        rtol = rtol if rtol is not None else rcond
        cpx = dt(a).kind == "c"
        return S.sym(pinv_sym(A, None if rtol is None else float(rtol), cpx), np.complex128 if cpx else np.float64)
    jnp.linalg.eigh, jnp.linalg.pinv = eigh, pinv
    return eigh, pinv


# ---- oracle side

def _pick(h, recs, A):
    """index of the recorded matrix provably equal to A (default: the last one)"""
    from . import solve
    for k, r in enumerate(recs[:-1]):
        if r[0].shape == A.shape:
            st = solve.prove_equal(list(zip(r[0].reshape(-1), A.reshape(-1))), h.asg, h.pc, 0)
            if st[0] == "proved":
                return k
    return len(recs) - 1


def eigh(h, label, A):
    """factorisation of the expected matrix A (obligation: the code factorised A)"""
    A = np.asarray(A, dtype=object)
    if not h.symbolic:
        return np.linalg.eigh(np.asarray(A, dtype=complex))
    A = o_(A)
    for B, ev, V in EIGH:
        if _same(A, B):
            return ev, V
    if not EIGH:
        raise P.Unsupported("no eigendecomposition recorded")
    B, ev, V = EIGH[_pick(h, EIGH, A)]
    h.eq(label, B, A)
    return ev, V


def pinv(h, label, A, rtol):
    A = np.asarray(A, dtype=object)
    if not h.symbolic:
        return np.linalg.pinv(np.asarray(A, dtype=complex), rcond=rtol, hermitian=True)
    A = o_(A)
    for B, t, X in PINV:
        if t == rtol and _same(A, B):
            return X
    if not PINV:
        raise P.Unsupported("no pseudo-inverse recorded")
    B, t, X = PINV[_pick(h, PINV, A)]
    h.eq(label, B, A)
    h.true(label + ": tolerance", t == rtol)
    return X
