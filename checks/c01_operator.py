"""C01: matrix elements of operators given as sums of operator strings."""
import numpy as np

from vp.harness import harness
from vp.util import basis, delta, select, samples


def apply_string(ops, s, pref=1):
    """oracle: rightmost local operator acts first; returns (matrix element, new configuration)"""
    s = np.array(s, dtype=object).reshape(-1).copy()
    m = pref
    for op in reversed(ops):
        idx, mp, me, fermi = op
        x = s[idx]
        m = m * select(me, x)
        if fermi:
            for j in range(idx + 1, len(s)):
                m = m * (1 - 2 * s[j])
        s[idx] = select(mp, x)
    return m, s


def dense(h, terms, s, L, d):
    """amplitudes of sum_terms O|s> on all basis states"""
    out = [0] * d ** L
    for pref, ops in terms:
        m, sp = apply_string(ops, s, pref)
        for k, t in enumerate(basis(L, d)):
            out[k] = out[k] + m * delta(sp, t)
    return out


def observed(h, sp, me, L, d):
    out = [0] * d ** L
    for j in range(len(me)):
        for k, t in enumerate(basis(L, d)):
            out[k] = out[k] + me[j] * delta(sp[j], t)
    return out


def check_op(h, op, terms, s, so, L, d, args=(), label="matrix elements"):
    ndev, n = so.shape[:2]
    sp, me = op.get_s_primes(s, *args)
    sp, me = h.np(sp), h.np(me)
    h.true("shape", me.shape[:2] == (ndev, n) and sp.shape == (ndev, n * me.shape[2]) + so.shape[2:])
    if me.shape[:2] != (ndev, n):
        return
    act, exp = [], []
    for a in range(ndev):
        spd = sp[a].reshape((n, me.shape[2], L))
        for b in range(n):
            act += observed(h, spd[b], me[a, b], L, d)
            exp += dense(h, terms, so[a, b].reshape(-1), L, d)
    # elements below the threshold 1e-6 may be dropped
    h.near(label, np.array(act, dtype=object), np.array(exp, dtype=object), 1e-6 * len(terms))


def std(name, i):
    return {"Sx": (i, [1, 0], [1, 1], 0), "Sz": (i, [0, 1], [-1, 1], 0), "Id": (i, [0, 1], [1, 1], 0),
            "Sp": (i, [1, 0], [1, 0], 0), "n": (i, [0, 1], [0, 1], 0),
            "c+": (i, [1, 0], [1, 0], 1), "c": (i, [1, 0], [0, 1], 1)}[name]


@harness("C01", "spin_chain", devices=2, bounds="3-site spin chain, 2 devices x 1 sample, all configurations; "
         "ZZ/X/ladder strings with arbitrary real couplings in [0.5,2]")
def spin_chain(h):
    import jVMC.operator as op
    L = 3
    s, so = samples(h, "s", 2, 1, L)
    g = h.real("g", (4,), 0.5, 2)
    H = op.BranchFreeOperator()
    terms = []
    for i in range(L):
        H.add(op.scal_opstr(h.jx(g[i]), (op.Sz(i), op.Sz((i + 1) % L))))
        terms.append((g[i], [std("Sz", i), std("Sz", (i + 1) % L)]))
        H.add((op.Sx(i),))
        terms.append((1, [std("Sx", i)]))
    H.add(op.scal_opstr(h.jx(g[3]), (op.Sp(0), op.Sp(2))))
    terms.append((g[3], [std("Sp", 0), std("Sp", 2)]))
    check_op(h, H, terms, s, so, L, 2)


def sym_local(h, name, d, L, zero=True):
    """an arbitrary local operator: symbolic site, map and matrix elements (zero allowed)"""
    idx = h.cat(name + ".idx", L)
    mp = h.cat(name + ".map", d, (d,))
    v = h.real(name + ".v", (d,), 0.5, 2)
    ph = h.cat(name + ".ph", 4 if not zero else 3, (d,))
    if zero:     # phases +1, i, or zero element
        me = [select([1, 1j, 0], ph[k]) * v[k] for k in range(d)]
    else:
        me = [select([1, 1j, -1, -1j], ph[k]) * v[k] for k in range(d)]
    return idx, list(mp), me


def mk_local(h, op, o, diag, fermi=False):
    idx, mp, me = o
    kw = {"fermionic": True} if fermi else {}
    return op.LocalOp(idx=h.jx(idx, np.int32) if h.symbolic else idx, map=h.jx(np.array(mp, dtype=object if h.symbolic else int), np.int32),
                      matEls=h.jx(np.array(me, dtype=object if h.symbolic else complex), np.complex128), diag=diag, **kw)


def apply_sym(ops, s, pref=1):
    """apply_string with symbolic sites"""
    s = list(np.array(s, dtype=object).reshape(-1))
    m = pref
    for idx, mp, me, fermi in reversed(ops):
        x = select(s, idx)
        m = m * select(me, x)
        if fermi:
            for j in range(len(s)):
                later = sum((1 * (idx == k)) for k in range(j)) if j else 0
                m = m * (1 - 2 * s[j] * later)
        y = select(mp, x)
        s = [s[j] + (idx == j) * (y - s[j]) for j in range(len(s))]
    return m, s


def sym_dense(terms, s, L, d):
    out = [0] * d ** L
    for pref, ops in terms:
        m, sp = apply_sym(ops, s, pref)
        for k, t in enumerate(basis(L, d)):
            out[k] = out[k] + m * delta(sp, t)
    return out


def check_sym(h, H, terms, s, so, L, d, nterm=None):
    ndev, n = so.shape[:2]
    sp, me = H.get_s_primes(s)
    sp, me = h.np(sp), h.np(me)
    act, exp = [], []
    for a in range(ndev):
        spd = sp[a].reshape((n, me.shape[2], L))
        for b in range(n):
            act += observed(h, spd[b], me[a, b], L, d)
            exp += sym_dense(terms, so[a, b].reshape(-1), L, d)
    h.near("matrix elements", np.array(act, dtype=object), np.array(exp, dtype=object), 1e-6 * len(terms))


@harness("C01", "generic_site", bounds="2 sites, lDim 2: one arbitrary local operator (arbitrary site, map, complex "
         "elements incl. zero) times X on site 0, plus a diagonal string; one configuration")
def generic_site(h):
    import jVMC.operator as op
    L = 2
    s, so = samples(h, "s", 1, 1, L)
    a = sym_local(h, "a", 2, L)
    x = (0, [1, 0], [1, 1])
    z = (1, [0, 1], [-1, 1])
    H = op.BranchFreeOperator()
    H.add((mk_local(h, op, a, False), mk_local(h, op, x, False)))
    H.add((mk_local(h, op, z, True),))
    check_sym(h, H, [(1, [a + (0,), x + (0,)]), (1, [z + (0,)])], s, so, L, 2)


@harness("C01", "same_site_pair", bounds="2 sites, lDim 2: product of two arbitrary local operators on the same site "
         "(arbitrary maps, positive elements in [0.5,2] or zero); one configuration")
def same_site_pair(h):
    import jVMC.operator as op
    L = 2
    s, so = samples(h, "s", 1, 1, L)
    ops = []
    for n in "ab":
        v = h.real(n + ".v", (2,), 0.5, 2)
        z = h.cat(n + ".z", 2, (2,))
        ops.append((1, list(h.cat(n + ".map", 2, (2,))), [v[0] * z[0], v[1] * z[1]]))
    H = op.BranchFreeOperator()
    H.add((mk_local(h, op, ops[0], False), mk_local(h, op, ops[1], False)))
    check_sym(h, H, [(1, [ops[0] + (0,), ops[1] + (0,)])], s, so, L, 2)


@harness("C01", "generic_ldim3", bounds="2 sites, lDim 3, one local operator with arbitrary map and elements in [0.5,2] "
         "or zero, one fixed two-site string, one diagonal string; one configuration")
def generic_ldim3(h):
    import jVMC.operator as op
    L, d = 2, 3
    s, so = samples(h, "s", 1, 1, L, d)
    v = h.real("v", (3,), 0.5, 2)
    zf = h.cat("z", 2, (3,))
    a = (0, list(h.cat("map", 3, (3,))), [v[k] * zf[k] for k in range(3)])
    x0 = (0, [1, 2, 0], [1, 1, 1])
    x1 = (1, [2, 0, 1], [1, 0.5, 2])
    z = (1, [0, 1, 2], [-1, 0, 1])
    H = op.BranchFreeOperator(lDim=3)
    H.add((mk_local(h, op, a, False),))
    H.add((mk_local(h, op, x0, False), mk_local(h, op, x1, False)))
    H.add((mk_local(h, op, z, True),))
    check_sym(h, H, [(1, [a + (0,)]), (1, [x0 + (0,), x1 + (0,)]), (1, [z + (0,)])], s, so, L, d)


@harness("C01", "diagonal_merge", bounds="2 sites, three diagonal strings of lengths 1, 2 and 1 with arbitrary real "
         "elements in [0.5,2] and one off-diagonal string; two configurations on two devices", devices=2)
def diagonal_merge(h):
    import jVMC.operator as op
    L = 2
    s, so = samples(h, "s", 2, 1, L)
    v = h.real("v", (4, 2), 0.5, 2)
    o = [(0, [0, 1], [v[0, 0], v[0, 1]]), (1, [0, 1], [v[1, 0], v[1, 1]]),
         (1, [0, 1], [v[2, 0], v[2, 1]]), (0, [0, 1], [v[3, 0], -1 * v[3, 1]])]
    x = (1, [1, 0], [1, 2])
    H = op.BranchFreeOperator()
    H.add((mk_local(h, op, x, False),))
    H.add((mk_local(h, op, o[0], True),))
    H.add((mk_local(h, op, o[1], True), mk_local(h, op, o[3], True)))
    H.add((mk_local(h, op, o[2], True),))
    check_sym(h, H, [(1, [x + (0,)]), (1, [o[0] + (0,)]), (1, [o[1] + (0,), o[3] + (0,)]), (1, [o[2] + (0,)])],
              s, so, L, 2)


@harness("C01", "sequence", bounds="2 sites; matrix elements requested twice for different configurations, then a "
         "string is added and they are requested again; arbitrary configurations and coupling")
def sequence(h):
    import jVMC.operator as op
    L = 2
    s, so = samples(h, "s", 1, 1, L)
    s2, so2 = samples(h, "t", 1, 2, L)
    g = h.real("g", (), 0.5, 2)
    H = op.BranchFreeOperator()
    H.add(op.scal_opstr(h.jx(g), (op.Sp(0), op.Sx(1))))
    terms = [(g, [std("Sp", 0), std("Sx", 1)])]
    check_op(h, H, terms, s, so, L, 2, label="first call")
    check_op(h, H, terms, s2, so2, L, 2, label="second call")
    H.add((op.Sz(1),))
    terms.append((1, [std("Sz", 1)]))
    check_op(h, H, terms, s2, so2, L, 2, label="after adding a string")
    check_op(h, H, terms, s, so, L, 2, label="first configurations again")


@harness("C01", "lattice_2d", bounds="2x2 lattice configurations, ZZ and X strings, one configuration")
def lattice_2d(h):
    import jVMC.operator as op
    L = 4
    s, so = samples(h, "s", 1, 1, (2, 2))
    g = h.real("g", (2,), 0.5, 2)
    H = op.BranchFreeOperator()
    H.add(op.scal_opstr(h.jx(g[0]), (op.Sz(0), op.Sz(3))))
    H.add(op.scal_opstr(h.jx(g[1]), (op.Sx(2),)))
    check_op(h, H, [(g[0], [std("Sz", 0), std("Sz", 3)]), (g[1], [std("Sx", 2)])], s, so, L, 2)


@harness("C01", "fermions_fixed", bounds="3 sites; hopping, pairing and density strings with arbitrary real couplings "
         "in [0.5,2]; all configurations")
def fermions_fixed(h):
    import jVMC.operator as op
    L = 3
    s, so = samples(h, "s", 1, 1, L)
    g = h.real("g", (4,), 0.5, 2)
    H = op.BranchFreeOperator()
    terms = []
    for k, (o1, o2) in enumerate([(("c+", 0), ("c", 2)), (("c", 1), ("c", 0)), (("n", 0), ("n", 2)), (("c+", 2), ("c", 1))]):
        f = {"c+": op.creation, "c": op.annihilation, "n": op.number}
        H.add(op.scal_opstr(h.jx(g[k]), (f[o1[0]](o1[1]), f[o2[0]](o2[1]))))
        terms.append((g[k], [std(*o1), std(*o2)]))
    check_op(h, H, terms, s, so, L, 2)


@harness("C01", "fermions_generic", bounds="3 sites; product of creation/annihilation operators at two arbitrary sites; "
         "all configurations", fork="value")
def fermions_generic(h):
    import jVMC.operator as op
    L = 3
    s, so = samples(h, "s", 1, 1, L)
    i, j = h.cat("i", L), h.cat("j", L)
    mk = lambda f, k: f(h.jx(k, np.int32) if h.symbolic else k)
    H = op.BranchFreeOperator()
    H.add((mk(op.creation, i), mk(op.annihilation, j)))
    check_sym(h, H, [(1, [(i, [1, 0], [1, 0], 1), (j, [1, 0], [0, 1], 1)])], s, so, L, 2)
