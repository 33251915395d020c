"""C18: measurements and the ground state search."""
import numpy as np

from vp.harness import harness
from vp.util import weights
from vp.util import make_psi, samples, exp
from vp import poly as P
from checks.c02_oloc import build, expected
from checks.c06_reductions import run, cj

o = lambda v: np.asarray(v, dtype=object)


class Sampler:
    """hands out given samples and counts the calls"""

    def __init__(self, sample, number):
        self.data, self.number, self.calls = sample, number, []

    def sample(self, parameters=None, numSamples=None, multipleOf=1):
        self.calls.append(numSamples)
        return self.data

    def get_last_number_of_samples(self):
        return self.number


def stats(e, w):
    m = sum(a * b for a, b in zip(w, e))
    return m, sum(a * (b - m) * cj(b - m) for a, b in zip(w, e))


def re(x):
    return (x + cj(x)) * 0.5


def _measure(h, L, n, dev=1, ranks=1, form="single"):
    import jVMC
    import jVMC.operator as op
    shape = (ranks, dev, n)
    so = o(h.cat("s", 2, shape + (L,)))
    w = weights(h, "p", shape)
    g, a = h.real("g", (2,), 0.5, 2), h.real("a", (), 0.5, 2)
    tabs = {}

    def go(r):
        psi, tab = make_psi(h, "psi", L)
        tabs[r] = tab
        s = h.jx(so[r], np.int32)
        H, terms = build(h, L, g)
        sm = Sampler((s, psi(s), h.jx(w[r])), 7)
        if form == "single":
            ops = {"H": H}
        elif form == "list":
            ops = {"X": [op.BranchFreeOperator(), H], "H": H}
            ops["X"][0].add((op.Sz(0),))
        elif form == "mixed":
            F = op.BranchFreeOperator()
            F.add(op.scal_opstr(lambda t, u: t * t + u, (op.Sx(0),)))
            ops = {"F": [H, (F, h.jx(a), h.jx(g[0])), H, (F, h.jx(g[1]), h.jx(a))]}
        else:
            F = op.BranchFreeOperator()
            F.add(op.scal_opstr(lambda t: t, (op.Sx(0),)))
            ops = {"F": [(F, h.jx(a)), (F, h.jx(2 * a))], "H": [H]}
        res = jVMC.util.measure(ops, psi, sm, numSamples=5)
        h.true("one sample for all observables", sm.calls == [5])
        h.true("observables", set(res) == set(ops))
        return {k: {c: h.np(v) for c, v in d.items()} for k, d in res.items()}
    out = run(h, ranks, go)
    tab = tabs[0]
    fs, fw = so.reshape(1, -1, L), o(w).reshape(-1)
    _, terms = build(h, L, g)
    X = lambda c: [(c, [(0, [1, 0], [1, 1])])]
    Z = [(1, [(0, [0, 1], [-1, 1])])]
    want = {"H": [terms]} if form != "mixed" else {"F": [terms, X(a * a + g[0]), terms, X(g[1] * g[1] + a)]}
    if form == "list":
        want["X"] = [Z, terms]
    if form == "args":
        want["F"] = [X(a), X(2 * a)]
    for res in out:
        for name, tl in want.items():
            h.true("one value per operator", all(res[name][c].shape == (len(tl),) for c in ("mean", "variance", "MC_error")))
            for k, tm in enumerate(tl):
                e = expected(tm, tab, fs).reshape(-1)
                m, v = stats(e, fw)
                h.eq("mean of %s[%d]" % (name, k), res[name]["mean"][k], re(m))
                h.eq("variance of %s[%d]" % (name, k), res[name]["variance"][k], v)
                h.eq("squared MC error of %s[%d]" % (name, k), o(res[name]["MC_error"][k]) ** 2, o(v) / 7)


def reg(name, bounds, devices=1, **kw):
    harness("C18", "measure_" + name, devices=devices, bounds=bounds + ", arbitrary complex log-amplitudes, configurations, "
            "weights and couplings")(lambda h: _measure(h, dev=devices, **kw))


reg("single", "1 spin, 2 samples, one operator", L=1, n=2)
reg("list", "1 spin, 2 samples, lists of operators", L=1, n=2, form="list")
reg("args", "1 spin, 2 samples, operators with arguments", L=1, n=2, form="args")
reg("mixed", "1 spin, 2 samples, operators with and without arguments", L=1, n=2, form="mixed")
reg("two_spins", "2 spins, 1 sample", L=2, n=1)
reg("devices", "1 spin, 2 devices x 1 sample", 2, L=1, n=1)
reg("processes", "1 spin, 2 processes x 1 sample", ranks=2, L=1, n=1)


@harness("C18", "measure_exact", bounds="1 spin, exact sampling: expectation value and variance in the full state, no "
         "statistical error; arbitrary complex log-amplitudes and couplings")
def measure_exact(h):
    import jVMC
    psi, tab = make_psi(h, "psi", 1)
    H, terms = build(h, 1, h.real("g", (2,), 0.5, 2))
    res = jVMC.util.measure({"H": H}, psi, jVMC.sampler.ExactSampler(psi, (1,)))
    w = [exp(2 * re(x)) for x in tab]
    n = sum(w)
    e = expected(terms, tab, o([[[0], [1]]])).reshape(-1)
    m, v = stats(e, [x / n for x in w])
    h.eq("mean", h.np(res["H"]["mean"]), o([re(m)]))
    h.eq("variance", h.np(res["H"]["variance"]), o([v]))
    h.eq("no statistical error", h.np(res["H"]["MC_error"]), o([0]))


class Equation:
    """an arbitrary equation of motion: every evaluation returns fresh values"""

    def __init__(self, h, n):
        self.h, self.n, self.calls, self.var = h, n, [], []

    def __call__(self, y, t, **kw):
        h = self.h
        i = len(self.calls)
        k = h.real("update%d" % i, (self.n,))
        self.calls.append((h.np(y), t, kw, o(k), getattr(self, "diagonalShift", None)))
        self.var.append(h.real("variance%d" % i, (), 0.001, 3))
        return h.jx(k)

    def get_energy_variance(self):
        return self.h.jx(self.var[-1])

    def get_energy_mean(self):
        return 0.


class Shifted(Equation):
    def __init__(self, h, n, shift):
        super().__init__(h, n)
        self.diagonalShift = shift

    def set_diagonal_shift(self, delta):
        self.diagonalShift = delta


def _search(h, steps, shift):
    import jVMC
    psi, _ = make_psi(h, "psi", 1, cpx=False)
    n = 2
    y = h.np(psi.get_parameters())
    dt, tol = h.real("dt", (), 0.001, 1), h.real("tol", (), 0.01, 0.9)
    d0 = h.real("shift", (), 0.01, 1) if shift else None
    eq = Shifted(h, n, h.jx(d0)) if shift else Equation(h, n)
    ham, sm = object(), object()
    jVMC.util.ground_state_search(psi, ham, eq, sm, numSteps=steps, varianceTol=h.jx(tol), stepSize=h.jx(dt))
    k = len(eq.calls)
    h.true("at most numSteps steps", k <= steps)
    h.true("at least one step", k >= 1)
    cur = o(y)
    for i, (arg, t, kw, f, d) in enumerate(eq.calls):
        h.eq("parameters of step %d" % i, arg, cur)
        h.true("arguments", kw.get("psi") is psi and kw.get("hamiltonian") is ham and kw.get("intStep") == 0)
        if shift:
            h.eq("diagonal shift of step %d" % i, h.np(d), o(d0) * P.to_frac(0.95) ** i if h.symbolic else d0 * 0.95 ** i)
        cur = o(cur + dt * f)
        if i < k - 1:
            h.true("continues only above the variance tolerance", eq.var[i] > tol)
    h.eq("final parameters", h.np(psi.get_parameters()), cur)
    if k < steps:
        h.true("stops early only below the variance tolerance", eq.var[-1] <= tol)


def regs(name, bounds, **kw):
    harness("C18", "search_" + name, bounds=bounds + ", arbitrary updates, energy variances, step sizes and tolerances")(
        lambda h: _search(h, **kw))


regs("shift", "up to 3 steps with a diagonal shift", steps=3, shift=True)
regs("plain", "up to 3 steps of an equation without diagonal shift", steps=3, shift=False)
regs("one", "a single step", steps=1, shift=True)
