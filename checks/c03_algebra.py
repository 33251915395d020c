"""C03: algebra of the built-in local operators."""
import numpy as np

from vp.harness import harness
from vp.util import basis, delta, samples, isv
from checks.c01_operator import observed


def act(h, strings, s, L):
    """amplitudes of (sum of strings)|s> on all basis states"""
    import jVMC.operator as op
    H = op.BranchFreeOperator()
    for o in strings:
        H.add(o)
    sp, me = H.get_s_primes(s)
    sp, me = h.np(sp), h.np(me)
    n = me.shape[1]
    sp = sp[0].reshape((n, me.shape[2], L))
    out = []
    for b in range(n):
        out += observed(h, sp[b], me[0, b], L, 2)
    return np.array(out, dtype=object)


def diagonal(h, so, L, value):
    """value(s) |s>"""
    out = []
    for b in range(so.shape[1]):
        for t in basis(L):
            out.append(value(so[0, b]) * delta(so[0, b], t))
    return np.array(out, dtype=object)


def site(h, name, L):
    i = h.cat(name, L)
    return i, (h.jx(i, np.int32) if h.symbolic else i)


def same(i, j):
    return isv(i, j) if not h_int(i) else (1 if i == j else 0)


def h_int(i):
    return isinstance(i, (int, np.integer))


def _pair(h, L, f, g):
    s, so = samples(h, "s", 1, 1, L)
    i, ij = site(h, "i", L)
    j, jj = site(h, "j", L)
    return s, so, i, j, f(ij), g(jj)


def eqij(i, j):
    return (1 if i == j else 0) if h_int(i) else (i == j)


@harness("C03", "car_mixed", bounds="3 modes, all configurations, two arbitrary modes i, j: c_i c+_j + c+_j c_i = delta_ij")
def car_mixed(h):
    import jVMC.operator as op
    s, so, i, j, a, b = _pair(h, 3, op.annihilation, op.creation)
    d = eqij(i, j)
    h.eq("anticommutator", act(h, [a * b, b * a], s, 3), diagonal(h, so, 3, lambda x: d))


@harness("C03", "car_creation", bounds="3 modes, all configurations, arbitrary i, j: {c+_i, c+_j} = 0")
def car_creation(h):
    import jVMC.operator as op
    s, so, i, j, a, b = _pair(h, 3, op.creation, op.creation)
    h.eq("anticommutator", act(h, [a * b, b * a], s, 3), diagonal(h, so, 3, lambda x: 0))


@harness("C03", "car_annihilation", bounds="3 modes, all configurations, arbitrary i, j: {c_i, c_j} = 0")
def car_annihilation(h):
    import jVMC.operator as op
    s, so, i, j, a, b = _pair(h, 3, op.annihilation, op.annihilation)
    h.eq("anticommutator", act(h, [a * b, b * a], s, 3), diagonal(h, so, 3, lambda x: 0))


@harness("C03", "number", bounds="3 modes, all configurations, arbitrary mode: c+c = n, n|s> = s_i|s>, n^2 = n")
def number(h):
    import jVMC.operator as op
    from vp.util import select
    s, so = samples(h, "s", 1, 1, 3)
    i, ii = site(h, "i", 3)
    want = diagonal(h, so, 3, lambda x: select(list(x), i))
    h.eq("n", act(h, [(op.number(ii),)], s, 3), want)
    h.eq("c+ c", act(h, [op.creation(ii) * op.annihilation(ii)], s, 3), want)
    h.eq("n n", act(h, [op.number(ii) * op.number(ii)], s, 3), want)


@harness("C03", "quartic", bounds="4 modes, all configurations: c+_0 c+_3 c_2 c_1 = -c+_3 c+_0 c_2 c_1 and normal "
         "ordering c_2 c+_3 c_1 c+_0 = c+_3 c+_0 c_2 c_1", tiers=("quick", "thorough"))
def quartic(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 4)
    cd, c = op.creation, op.annihilation
    A = act(h, [cd(0) * cd(3) * c(2) * c(1)], s, 4)
    B = act(h, [cd(3) * cd(0) * c(2) * c(1)], s, 4)
    h.eq("antisymmetry", A + B, 0 * A)
    # c2 c+3 c1 c+0 = c+3 c2 c+0 c1 (two signs) = -c+3 c+0 c2 c1
    C = act(h, [c(2) * cd(3) * c(1) * cd(0)], s, 4)
    h.eq("normal ordering", B + C, 0 * A)


@harness("C03", "hopping_hermitian", bounds="3 modes, arbitrary i, j: <t|c+_i c_j|s> = <s|c+_j c_i|t> for all pairs of "
         "configurations s, t")
def hopping_hermitian(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 2, 3)     # s[0], s[1] = s, t
    i, ii = site(h, "i", 3)
    j, jj = site(h, "j", 3)
    A = act(h, [op.creation(ii) * op.annihilation(jj)], s, 3).reshape(2, 8)
    B = act(h, [op.creation(jj) * op.annihilation(ii)], s, 3).reshape(2, 8)
    lhs = sum(A[0][k] * delta(so[0, 1], t) for k, t in enumerate(basis(3)))
    rhs = sum(B[1][k] * delta(so[0, 0], t) for k, t in enumerate(basis(3)))
    h.eq("adjoint", lhs, rhs)


@harness("C03", "pauli_squares", bounds="2 sites, all configurations, arbitrary site: Sx^2 = Sy^2 = Sz^2 = 1, "
         "Sx Sy + Sy Sx = 0 and cyclic; identity operator")
def pauli_squares(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    i, ii = site(h, "i", 2)
    one = diagonal(h, so, 2, lambda x: 1)
    o = {"x": op.Sx, "y": op.Sy, "z": op.Sz}
    for k, f in o.items():
        h.eq("S%s^2" % k, act(h, [f(ii) * f(ii)], s, 2), one)
    for a, b in ("xy", "yz", "zx"):
        h.eq("{S%s,S%s}" % (a, b), act(h, [o[a](ii) * o[b](ii), o[b](ii) * o[a](ii)], s, 2), 0 * one)
    h.eq("Id", act(h, [(op.Id(ii),)], s, 2), one)
    h.eq("Id Sx", act(h, [op.Id(ii) * op.Sx(ii)], s, 2), act(h, [(op.Sx(ii),)], s, 2))


@harness("C03", "pauli_values", bounds="2 sites, all configurations, arbitrary site: Sz|s> = (2 s_i - 1)|s>, Sx flips, Sy connects with "
         "<s|Sy|s'> = i (1 - 2 s_i), "
         "hermiticity of Sx, Sy, Sz")
def pauli_values(h):
    import jVMC.operator as op
    from vp.util import select
    s, so = samples(h, "s", 1, 2, 2)
    i, ii = site(h, "i", 2)
    h.eq("Sz", act(h, [(op.Sz(ii),)], s, 2), diagonal(h, so, 2, lambda x: 2 * select(list(x), i) - 1))
    want = []
    for b in range(2):
        fl = [so[0, b, k] + eqij(i, k) * (1 - 2 * so[0, b, k]) for k in range(2)]
        want += [delta(fl, t) for t in basis(2)]
    h.eq("Sx", act(h, [(op.Sx(ii),)], s, 2), np.array(want, dtype=object))
    sy = [1j * (1 - 2 * select(list(so[0, b]), i)) * want[4 * b + k] for b in range(2) for k in range(4)]
    h.eq("Sy", act(h, [(op.Sy(ii),)], s, 2), np.array(sy, dtype=object))
    for n in ("Sx", "Sy", "Sz"):
        A = act(h, [(getattr(op, n)(ii),)], s, 2).reshape(2, 4)
        lhs = sum(A[0][k] * delta(so[0, 1], t) for k, t in enumerate(basis(2)))
        rhs = sum(A[1][k] * delta(so[0, 0], t) for k, t in enumerate(basis(2)))
        h.eq("%s hermitian" % n, lhs, conj(rhs))


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else np.conj(x)


@harness("C03", "ladder", bounds="2 sites, all configurations, arbitrary site: S+S+ = S-S- = 0, S+S- + S-S+ = 1, "
         "S+S- - S-S+ = Sz, S+ + S- = Sx, S- adjoint of S+, S+ raises Sz")
def ladder(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 2, 2)
    i, ii = site(h, "i", 2)
    p, m = op.Sp(ii), op.Sm(ii)
    one = diagonal(h, so, 2, lambda x: 1)
    h.eq("S+S+", act(h, [p * p], s, 2), 0 * one)
    h.eq("S-S-", act(h, [m * m], s, 2), 0 * one)
    h.eq("{S+,S-}", act(h, [p * m, m * p], s, 2), one)
    h.eq("[S+,S-]", act(h, [p * m, -1. * (m * p)], s, 2), act(h, [(op.Sz(ii),)], s, 2))
    h.eq("S+ + S-", act(h, [(p,), (m,)], s, 2), act(h, [(op.Sx(ii),)], s, 2))
    A = act(h, [(p,)], s, 2).reshape(2, 4)
    B = act(h, [(m,)], s, 2).reshape(2, 4)
    h.eq("adjoint", sum(A[0][k] * delta(so[0, 1], t) for k, t in enumerate(basis(2))),
         sum(B[1][k] * delta(so[0, 0], t) for k, t in enumerate(basis(2))))


@harness("C03", "locality", bounds="3 sites, all configurations, two arbitrary different sites: spin operators on "
         "different sites commute, density commutes with spin flips elsewhere")
def locality(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 3)
    i, ii = site(h, "i", 3)
    j, jj = site(h, "j", 3)
    h.assume(1 - eqij(i, j) if h.symbolic else i != j)
    for a, b in ((op.Sx, op.Sy), (op.Sp, op.Sz), (op.Sy, op.Sm)):
        A = act(h, [a(ii) * b(jj)], s, 3)
        B = act(h, [b(jj) * a(ii)], s, 3)
        h.eq("commute %s %s" % (a.__name__, b.__name__), A, B)


@harness("C03", "pauli_orientation", bounds="1 site, all configurations: Sx Sy = i Sz as matrix elements <s|O|s'>")
def pauli_orientation(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 1)
    h.eq("Sx Sy = i Sz", act(h, [op.Sx(0) * op.Sy(0)], s, 1), 1j * act(h, [(op.Sz(0),)], s, 1))


@harness("C03", "ladder_orientation", bounds="1 site, all configurations: S+ = (Sx + i Sy)/2")
def ladder_orientation(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 1)
    h.eq("S+ = (Sx + i Sy)/2", act(h, [(op.Sp(0),)], s, 1),
         act(h, [0.5 * op.Sx(0), 0.5j * op.Sy(0)], s, 1))
