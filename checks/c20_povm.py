"""C20: POVM representation of open-system dynamics."""
import itertools

import numpy as np

from vp.harness import harness
from vp.util import make_psi, select, conf_index, exp, weights
from vp import poly as P
from checks.c06_reductions import run, cj

o = lambda v: np.asarray(v, dtype=object)
PAULI = [np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]])]


def mm(*ms):
    out = o(ms[0])
    for m in ms[1:]:
        m = o(m)
        out = o([[sum(out[i, k] * m[k, j] for k in range(m.shape[0])) for j in range(m.shape[1])] for i in range(out.shape[0])])
    return out


def tr(m):
    return sum(m[i, i] for i in range(m.shape[0]))


def re(x):
    return (x + cj(x)) * 0.5


def dag(A):
    return o(cj(o(A).T))


def herm(h, name, d):
    """arbitrary hermitian matrix"""
    a = h.real(name + ".re", (d, d), -1, 1)
    b = h.real(name + ".im", (d, d), -1, 1)
    out = np.empty((d, d), dtype=object if h.symbolic else complex)
    for i in range(d):
        for j in range(d):
            out[i, j] = a[i, j] + 1j * b[i, j] if i < j else a[j, i] - 1j * b[j, i] if j < i else a[i, i]
    return out


MODES = {
    "unitary": lambda A, X: -1j * (mm(A, X) - mm(X, A)),
    "dissipative": lambda A, X: mm(A, X, dag(A)) - 0.5 * (mm(dag(A), A, X) + mm(X, dag(A), A)),
    "imaginary": lambda A, X: -1 * (mm(A, X) + mm(X, A)),
}


def _matrix(h, mode, short, n=2):
    """the documented map for arbitrary matrices, measurement operators and inverse overlap matrix"""
    import jVMC.operator as op
    A = herm(h, "A", 2) if mode in ("observable", "imaginary", "unitary") else h.cplx("A", (2, 2))
    Ms = [herm(h, "M%d" % i, 2) for i in range(n)]
    t = h.real("T", (n, n), -1, 1)
    T = np.array([[t[min(i, j), max(i, j)] for j in range(n)] for i in range(n)])
    M = np.stack(Ms)
    got = h.np(op.matrix_to_povm(h.jx(A), h.jx(M), h.jx(T), mode=short))
    if mode == "observable":
        want = [sum(T[a, b] * tr(mm(M[b], A)) for b in range(n)) for a in range(n)]
    else:
        dual = [sum(T[b, c] * o(M[c]) for c in range(n)) for b in range(n)]
        want = [[tr(mm(MODES[mode](A, dual[b]), M[a])) for b in range(n)] for a in range(n)]
    h.eq("map", got, o(re(o(want))))


for mode, shorts in (("unitary", ("unitary", "uni")), ("dissipative", ("dissipative", "dis")),
                     ("observable", ("observable", "obs")), ("imaginary", ("imaginary", "imag"))):
    for s in shorts:
        harness("C20", "matrix_" + s, bounds="arbitrary 2x2 matrix, 2 arbitrary hermitian measurement operators, arbitrary "
                "symmetric inverse overlap matrix")(lambda h, mode=mode, s=s: _matrix(h, mode, s))


@harness("C20", "sic", bounds="SIC measurement operators for arbitrary angles: hermitian, complete, rank one, informationally complete")
def sic(h):
    import jVMC.operator.povm as pv
    th, ph = h.real("theta", (), -4, 4), h.real("phi", (), -4, 4)
    M = o(h.np(pv.get_M(h.jx(th), h.jx(ph), "SIC")))
    one = np.eye(2)
    h.near("complete", sum(M[a] for a in range(4)), o(one), 1e-9)
    for a in range(4):
        h.near("hermitian", M[a], dag(M[a]), 1e-9)
        for b in range(a + 1):
            h.near("overlap", o([re(tr(mm(M[a], M[b])))]), o([1 / 4 if a == b else 1 / 12]), 1e-9)


def state(h, n):
    """arbitrary operator with unit trace: coefficients in the Pauli basis"""
    mats = [np.eye(2)] + PAULI
    out = 0
    for k in itertools.product(range(4), repeat=n):
        m = mats[k[0]]
        for i in k[1:]:
            m = np.kron(m, mats[i])
        c = h.real("r%s" % "".join(map(str, k)), (), -1, 1) if any(k) else 1
        out = out + c * o(m) * (1 / 2 ** n)
    return o(out)


KNOWN = {"X": ("unitary", PAULI[0]), "Y": ("unitary", PAULI[1]), "Z": ("unitary", PAULI[2]),
         "decayup": ("dissipative", (PAULI[0] + 1j * PAULI[1]) / 2),
         "decaydown": ("dissipative", (PAULI[0] - 1j * PAULI[1]) / 2), "dephasing": ("dissipative", PAULI[2])}


def _standard(h, theta, phi):
    import jVMC.operator as op
    povm = op.POVM({"dim": "1D", "L": 2}, theta=theta, phi=phi)
    M = np.array(povm.M)
    T = np.array([[np.trace(a @ b) for a in M] for b in M])
    h.near("inverse overlaps", o(np.array(povm.T_inv) @ T), o(np.eye(4)), 1e-9)
    rho = state(h, 1)
    p = [re(tr(mm(rho, m))) for m in M]
    for k, s in zip("XYZ", PAULI):
        ob = np.array(povm.observables[k])
        h.near("expectation value of " + k, o([sum(float(ob[a]) * p[a] for a in range(4))]), o([re(tr(mm(rho, s)))]), 1e-8)
    h.true("one-body operators", set(KNOWN) <= set(povm.operators))
    for k, (mode, A) in KNOWN.items():
        W = np.array(povm.operators[k])
        d = MODES[mode](A, rho)
        h.near("equation of motion of " + k, o([sum(float(W[a, b]) * p[b] for b in range(4)) for a in range(4)]),
               o([re(tr(mm(d, m))) for m in M]), 1e-8)


@harness("C20", "standard", bounds="standard POVM, arbitrary one-qubit states")
def standard(h):
    _standard(h, 0, 0)


@harness("C20", "rotated", bounds="rotated POVM (three choices of angles), arbitrary one-qubit states")
def rotated(h):
    _standard(h, *h.choose("angles", [(0.75, 0.25), (1.5, -2.), (-0.5, 3.)]))


@harness("C20", "standard_two_body", bounds="standard POVM, built-in two-body interactions, arbitrary two-qubit states")
def standard_two(h):
    import jVMC.operator as op
    povm = op.POVM({"dim": "1D", "L": 2})
    M = np.array(povm.M)
    M2 = [np.kron(M[i], M[j]) for i in range(4) for j in range(4)]
    rho = state(h, 2)
    p = [re(tr(mm(rho, m))) for m in M2]
    k = h.choose("interaction", ["XX", "YY", "ZZ"])
    s = PAULI["XYZ".index(k[0])]
    W = np.array(povm.operators[k])
    d = MODES["unitary"](np.kron(s, s), rho)
    h.near("equation of motion", o([sum(float(W[a, b]) * p[b] for b in range(16)) for a in range(16)]),
           o([re(tr(mm(d, m))) for m in M2]), 1e-8)


@harness("C20", "product_states", bounds="the six named one-qubit states, any rotation of the POVM (three choices)")
def product_states(h):
    import jVMC.operator as op
    import jVMC.operator.povm as pv
    th, ph = h.choose("angles", [(0, 0), (0.75, 0.25), (1.5, -2.)])
    povm = op.POVM({"dim": "1D", "L": 2}, theta=th, phi=ph)
    M = np.array(povm.M)
    for i, ax in enumerate("xyz"):
        for name, sg in (("up", 1), ("down", -1)):
            rho = (np.eye(2) + sg * PAULI[i]) / 2
            got = np.array(pv.get_1_particle_distributions(ax + "_" + name, povm))
            h.near("%s_%s" % (ax, name), o(got), o([np.trace(rho @ m).real for m in M]), 1e-8)


# ---- operators

def _operator(h, L, terms, batch=1000, shape=None, rebuild=False, shared=False, nsamp=1, dev=1):
    """terms: list of (operator name, sites); arbitrary positive matrices and strengths"""
    import jVMC.operator as op
    povm = op.POVM({"dim": "1D", "L": L})
    mats, dims = {}, {}
    kinds = [povm.add_unitary, povm.add_dissipator, povm.add_imaginary]
    for name, sites in terms:
        if name not in mats:
            n = 4 ** len(sites)
            # matrix elements that distinguish every pair of outcomes
            a, b = h.real(name + ".a", (n,), 0.5, 2), h.real(name + ".b", (n,), 0.5, 2)
            mats[name] = np.array([[a[i] * b[j] + (i + 2 * j) for j in range(n)] for i in range(n)])
            kinds[len(mats) % 3](name, h.jx(mats[name]))
    g = h.real("g", (len(terms),), 0.5, 2)
    psi, tab = make_psi(h, "psi", L, d=4, cpx=False, shape=shape)
    sh = shape or (L,)
    H = op.POVMOperator(povm)
    descr = [{"name": nm, "strength": h.jx(g[i]), "sites": st} for i, (nm, st) in enumerate(terms)]
    so = o(h.cat("s", 4, (dev, nsamp, L)))
    s = h.jx(so.reshape((dev, nsamp) + sh), np.int32)
    for k, d in enumerate(descr):
        H.add(d)
        if rebuild and k == 0:
            H.get_O_loc(s, psi)
    if shared:
        G = op.POVMOperator(povm)
        for d in reversed(descr):
            G.add(d)
    got = h.np(H.get_O_loc(s, psi))
    want = np.empty((dev, nsamp), dtype=object)
    tab = list(tab)
    for ix in np.ndindex(dev, nsamp):
        c = so[ix]
        tot = 0
        lp = select(tab, conf_index(c, 4))
        for i, (nm, st) in enumerate(terms):
            m = mats[nm]
            row = conf_index([c[q] for q in st], 4)
            for out in itertools.product(range(4), repeat=len(st)):
                sp = list(c)
                for q, v in zip(st, out):
                    sp[q] = v
                col = int(conf_index(out, 4))
                tot = tot + g[i] * select(list(m[:, col]), row) * exp(select(tab, conf_index(sp, 4)) - lp)
        want[ix] = tot
    h.eq("local estimator", o(got), want)


def reg(name, bounds, devices=1, **kw):
    harness("C20", "operator_" + name, devices=devices, bounds=bounds + ", arbitrary local matrices, strengths, probabilities and outcomes")(
        lambda h: _operator(h, dev=devices, **kw))


reg("one_body", "2 sites, one-body terms", L=2, terms=[("A", (0,)), ("B", (1,)), ("B", (0,))])
reg("two_body", "2 sites, two-body term and one-body terms on both sites", L=2, terms=[("A", (0,)), ("W", (0, 1)), ("A", (1,))])
reg("reversed", "2 sites, two-body terms in both orders", L=2, terms=[("W", (1, 0)), ("W", (0, 1)), ("A", (1,))])
reg("same_first", "3 sites, two-body terms sharing their first site, term descriptions shared with another operator", L=3,
    terms=[("W", (0, 1)), ("W", (0, 2)), ("A", (2,)), ("A", (0,))], shared=True)
reg("ring", "3 sites, closed ring", L=3, terms=[("W", (0, 1)), ("W", (1, 2)), ("W", (2, 0))])
reg("repeated", "2 sites, repeated terms, terms added after a first evaluation", L=2,
    terms=[("A", (1,)), ("A", (1,)), ("W", (0, 1)), ("W", (0, 1))], rebuild=True)
reg("lattice", "2 x 1 lattice", L=2, terms=[("W", (0, 1)), ("A", (0,))], shape=(2, 1))
reg("devices", "2 sites, 2 devices x 2 samples", 2, L=2, terms=[("A", (0,)), ("B", (1,))], nsamp=2)


def _three(h, terms, fixed):
    import jVMC.operator as op
    L = 3
    povm = op.POVM({"dim": "1D", "L": L})
    rng = np.random.RandomState(3)
    mats = {n: rng.randint(1, 60, (4 ** k, 4 ** k)) for n, k in (("V", 3), ("W", 2), ("A", 1))}
    for n, m in mats.items():
        povm.add_unitary(n, np.array(m, dtype=float))
    g = h.real("g", (len(terms),), 0.5, 2)
    psi, tab = make_psi(h, "psi", L, d=4, cpx=False)
    H = op.POVMOperator(povm)
    for i, (nm, st) in enumerate(terms):
        H.add({"name": nm, "strength": h.jx(g[i]), "sites": st})
    c = [h.choose("s%d" % i, [0, 1, 2, 3]) if v is None else v for i, v in enumerate(fixed)]
    got = h.np(H.get_O_loc(h.jx(np.array([[c]]), np.int32), psi))
    tab = list(tab)
    tot = 0
    for i, (nm, st) in enumerate(terms):
        row = int(conf_index([c[q] for q in st], 4))
        for out in itertools.product(range(4), repeat=len(st)):
            sp = list(c)
            for q, v in zip(st, out):
                sp[q] = v
            tot = tot + g[i] * int(mats[nm][row, int(conf_index(out, 4))]) * exp(tab[int(conf_index(sp, 4))] - tab[int(conf_index(c, 4))])
    h.eq("local estimator", o(got), o([[tot]]))


for _n, _t, _f in (("", [("V", (0, 2, 1)), ("W", (0, 2)), ("A", (1,)), ("A", (0,))], (3, 1, None)),
                   ("_fill", [("V", (0, 1, 2)), ("W", (0, 2)), ("W", (2, 1)), ("A", (2,))], (2, None, 1)),
                   ("_ring", [("W", (1, 0)), ("V", (2, 0, 1)), ("W", (2, 1)), ("W", (2, 0)), ("V", (1, 2, 0))], (None, 0, 3))):
    harness("C20", "operator_three_body" + _n, bounds="3 sites, terms on the sites %s with fixed integer matrices, arbitrary strengths, "
            "probabilities and outcomes" % [t[1] for t in _t])(lambda h, t=_t, f=_f: _three(h, t, f))


# ---- observables

class Sampler:
    def __init__(self, data, number):
        self.data, self.number, self.calls = data, number, 0

    def sample(self, *a, **kw):
        self.calls += 1
        return self.data

    def get_last_number_of_samples(self):
        return self.number


def _measure(h, L, n, dim="1D", dev=1, ranks=1, given=False, custom=True):
    import jVMC.operator as op
    import jVMC.operator.povm as pv
    shape = (L,) if dim == "1D" else (L, L)
    full = (ranks, dev, n) + shape
    so = o(np.array([0, 1, 2, 3, 3, 1, 0, 2][:int(np.prod(full))]).reshape(full) if ranks * dev * n > 1 else h.cat("s", 4, full))
    w = weights(h, "p", (ranks, dev, n))
    ob = {"A": h.real("A", (4,)), "B": 2 * h.real("A", (4,))[::-1]} if custom else None

    def go(r):
        povm = op.POVM({"dim": dim, "L": L})
        obs = {k: h.jx(v) for k, v in ob.items()} if custom else None
        if not custom:
            povm.observables = {"A": h.jx(h.real("A", (4,)))}
        s, p = h.jx(so[r], np.int32), h.jx(w[r])
        sm = Sampler((s, None, p), 5)
        res = pv.measure_povm(povm, sm, observables=obs, **({"sampleConfigs": s, "probs": p} if given else {}))
        h.true("number of samples drawn", sm.calls == (0 if given else 1))
        return {k: {c: h.np(v) for c, v in d.items()} for k, d in res.items()}
    outs = run(h, ranks, go)
    if not custom:
        ob = {"A": h.real("A", (4,))}
    fs, fw = so.reshape((-1,) + shape), o(w).reshape(-1)

    def stats(vals):
        m = sum(a * b for a, b in zip(fw, vals))
        return m, sum(a * (b - m) ** 2 for a, b in zip(fw, vals))
    for res in outs:
        h.true("results", set(res) == set(ob) | {k + "_corr_L%d" % l for k in ob for l in range(L)})
        for k in ob:
            v = [o([select(list(ob[k]), x) for x in c.reshape(-1)]).reshape(shape) for c in fs]
            nn = L if dim == "1D" else L * L
            m, var = stats([sum(x.reshape(-1)) * (1 / nn) for x in v])
            h.eq("mean", o(res[k]["mean"]), o(m))
            h.eq("variance", o(res[k]["variance"]), o(var))
            h.eq("squared MC error", o(res[k]["MC_error"]) ** 2, o(var) / 5)
            for l in range(L):
                c = res[k + "_corr_L%d" % l]
                mc, vc = stats([sum((x * np.roll(x, l, axis=0)).reshape(-1)) * (1 / nn) for x in v])
                h.eq("correlator", o(c["mean"]), o(mc - m * m))
                h.eq("variance of the correlator", o(c["variance"]), o(vc))
                h.eq("squared MC error of the correlator", o(c["MC_error"]) ** 2, o(vc) / 5)


def regm(name, bounds, devices=1, **kw):
    harness("C20", "measure_" + name, devices=devices, bounds=bounds + (
        ", arbitrary" if kw["n"] * devices * kw.get("ranks", 1) == 1 else ", different") + " outcomes, arbitrary weights and observables")(
        lambda h: _measure(h, dev=devices, **kw))


regm("chain", "2 sites, 2 samples", L=2, n=2)
regm("three", "4 sites, 1 sample", L=4, n=1)
regm("given", "2 sites, 1 sample, given configurations", L=2, n=1, given=True)
regm("standard", "2 sites, 1 sample, observables of the POVM", L=2, n=1, custom=False)
regm("devices", "2 sites, 2 devices x 1 sample", 2, L=2, n=1)
regm("processes", "2 sites, 2 processes x 1 sample", ranks=2, L=2, n=1)
regm("square", "2 x 2 sites, 1 sample", dim="2D", L=2, n=1)
regm("square_devices", "2 x 2 sites, 2 devices x 1 sample", 2, dim="2D", L=2, n=1)
