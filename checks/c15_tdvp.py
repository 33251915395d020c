"""C15: the time-dependent variational principle."""
import numpy as np

from vp.harness import harness
from vp.util import weights
from vp.util import make_psi
from vp import linalg as la, poly as P
from checks.c06_reductions import run, cj, wsum
from checks.c07_stats import moments

o = lambda v: np.asarray(v, dtype=object)


def q(x, mode):
    """q[.]: the real part, or i times the imaginary part"""
    x = o(x)
    return (x + cj(x)) * 0.5 if mode == "real" else (x - cj(x)) * 0.5


def ab(h, x):
    return P.absolute(P.const(x)) if h.symbolic else abs(x)


def matvec(A, v):
    A, v = o(A), o(v)
    return o([sum(A[i, k] * v[k] for k in range(len(v))) for i in range(A.shape[0])])


def equation(fx, fe, fw, mode, pref, shift=0):
    """(q[S] with the diagonal shift, q[-x F], S, -x F) of the sample"""
    _, _, _, _, S0 = moments(fx, fx, fw)
    _, _, _, _, F0 = moments(fx, fe.reshape(-1, 1), fw)
    F0 = o(F0[:, 0]) * (-pref)
    S = q(S0, mode)
    if shift:
        S = o([[S[i, j] * (1 + shift if i == j else 1) for j in range(len(F0))] for i in range(len(F0))])
    return S, q(F0, mode), S0, F0


def snr2(fx, fe, fw, V, mode, pref, N):
    """squared signal-to-noise ratio of the force in the eigenbasis"""
    _, _, dx, dy, _ = moments(fx, fe.reshape(-1, 1), fw)
    rho = [matvec(cj(V).T, q(cj(dx[i]) * dy[i][0] * (-pref), mode)) for i in range(len(fw))]
    m = wsum(fw, rho)
    var = wsum(fw, [o((r - m) * cj(r - m)) for r in rho])
    return o([N * m[k] * cj(m[k]) / var[k] for k in range(len(m))])


def solution(h, S, F, cut, snr2=None, tol=None):
    """regularised pseudo-inverse applied to F: (solution, squared residual)"""
    ev, V = la.eigh(h, "matrix of the equation", S)
    rho = matvec(cj(V).T, F)
    pin = []
    for k in range(len(rho)):
        ratio = ev[k] / ev[len(rho) - 1]
        inv = h.ite(ab(h, ratio) > 1e-14, 1 / ev[k], 0)
        c6 = P.to_frac(cut) ** 6 if h.symbolic else cut ** 6
        reg = 1 / (1 + c6 / ratio ** 6)
        if snr2 is not None:
            reg = reg * (1 / (1 + tol ** 6 / snr2[k] ** 3))
        pin.append(inv * reg)
    x = matvec(V, [p * r for p, r in zip(pin, rho)])
    res = sum((p * e - 1) * r * cj((p * e - 1) * r) for p, e, r in zip(pin, ev, rho))
    nrm = sum(f * cj(f) for f in F)
    return q(x, "real"), res / nrm


def mk_sampler(h, kind, psi):
    import jax
    from jVMC.sampler import ExactSampler, MCSampler
    if kind == "exact":
        return ExactSampler(psi, (1,))
    from jVMC.sampler import propose_spin_flip
    return MCSampler(psi, (1,), jax.random.PRNGKey(1), updateProposer=propose_spin_flip, numChains=1, numSamples=2)


def _solve(h, K=2, ranks=1, dev=1, n=2, mode="real", pref=1., shift=0, kind="exact", cutoff=7e-3, tol=0., cpx=True,
           device=True, data=None, ratio=False):
    import jVMC
    import jVMC.mpi_wrapper as mpi
    from jVMC.stats import SampledObs
    mk = h.cplx if cpx else h.real
    if data is None:
        x, e = mk("O", (ranks, dev, n, K)), mk("E", (ranks, dev, n))
        w = np.array([0.25, 0.75] if n == 2 else [0.5, 0.25, 0.25]).reshape(ranks, dev, n) if ratio else \
            weights(h, "p", (ranks, dev, n))
    else:
        la.FORCE[0] = True
        x, e = fixed(h, mk, data)
        x, e = x.reshape((ranks, dev, n, K)), e.reshape((ranks, dev, n))
        w = np.full((ranks, dev, n), 1. / (ranks * dev * n))
    snrTol = h.real("snrTol", (), 0.1, 5) if kind != "exact" else 2
    fx, fe, fw = o(x).reshape(-1, K), o(e).reshape(-1), o(w).reshape(-1)
    N = ranks * dev * n

    def go(r):
        psi, _ = make_psi(h, "psi", 1)
        eq = jVMC.util.TDVP(mk_sampler(h, kind, psi), snrTol=h.jx(snrTol), pinvTol=tol, pinvCutoff=cutoff, makeReal=mode,
                            rhsPrefactor=pref, diagonalShift=shift, diagonalizeOnDevice=device)
        mpi.distribute_sampling(N, localDevices=dev)
        E, G = SampledObs(h.jx(e[r]), h.jx(w[r])), SampledObs(h.jx(x[r]), h.jx(w[r]))
        S, F = eq.get_tdvp_equation(E, G)
        u, res, cut = eq.solve(E, G)
        snr = h.np(eq.snr) if hasattr(eq, "snr") else None
        sr = [h.np(v) for v in eq.get_sr_equation(E, G)]
        h.eq("S of the stochastic reconfiguration equation", sr[0], h.np(S))
        h.eq("F of the stochastic reconfiguration equation", sr[1], equation(fx, fe, fw, mode, 1., shift)[1])
        return h.np(S), h.np(F), h.np(u), h.np(res), float(cut), snr
    out = run(h, ranks, go)
    S, F, S0, F0 = equation(fx, fe, fw, mode, pref, shift)
    for r, (s, f, u, res, cut, snr) in enumerate(out):
        h.eq("S", s, S)
        h.eq("F", f, F)
        ev, V = la.eigh(h, "matrix of the equation", S)
        s2 = snr2(fx, fe, fw, V, mode, pref, N)
        if snr is not None and (kind != "exact" or ratio):
            h.eq("signal-to-noise ratio", o(snr ** 2), o([ab(h, v) for v in s2]))
        want, r2 = solution(h, S, F, cut, s2 if kind != "exact" else None, snrTol)
        h.eq("update", u, want)
        h.eq("residual", o(res * res), o(r2))
        h.true("cutoff not below its bound", cut >= cutoff)
        if cut > cutoff:
            h.true("residual below the tolerance", res[()] <= tol)


def reg(name, bounds, devices=1, **kw):
    harness("C15", "solve_" + name, devices=devices, bounds=bounds)(lambda h: _solve(h, dev=devices, **kw))


reg("gs", "2 parameters, 2 samples, arbitrary complex data, imaginary time, real part", mode="real")
reg("rt", "2 parameters, 2 samples, arbitrary complex data, real time, imaginary part", mode="imag", pref=1j)
reg("real_data", "2 parameters, 3 samples, real data, prefactor -1 (probability dynamics)", mode="real", pref=-1., n=3,
    cpx=False)
reg("shift", "2 parameters, 2 samples, diagonal shift 10", mode="real", shift=10)
reg("tolerance", "2 parameters, 2 samples, residual tolerance 0.1", mode="real", tol=0.1, cutoff=4e-3)
reg("host", "2 parameters, 2 samples, diagonalisation on the host", mode="real", device=False)


def _cutoff(h, inv, cutoff, tol=0., device=True):
    """fixed gradients with a diagonal covariance matrix, diag(1, 1/inv^2): every local energy is arbitrary"""
    import jVMC
    import jVMC.mpi_wrapper as mpi
    from jVMC.stats import SampledObs
    x = np.array([[1, 1], [-1, 1], [1, -1], [-1, -1]]) * np.array([1, 1 / inv])
    e = h.cplx("E", (4,))
    w = np.full((1, 4), 0.25)
    psi, _ = make_psi(h, "psi", 1)
    eq = jVMC.util.TDVP(mk_sampler(h, "exact", psi), pinvTol=tol, pinvCutoff=cutoff, makeReal="real", rhsPrefactor=1.,
                        diagonalizeOnDevice=device)
    mpi.distribute_sampling(4)
    E, G = SampledObs(h.jx(e.reshape(1, 4)), h.jx(w)), SampledObs(h.jx(x.reshape(1, 4, 2)), h.jx(w))
    u, res, cut = eq.solve(E, G)
    cut = float(cut)
    F = q(o([sum(x[i, k] * e[i] for i in range(4)) * (-0.25) for k in range(2)]), "real")
    ev = [1., 1 / inv ** 2]
    reg = [1 / (1 + (cut / r) ** 6) for r in ev]
    want = o([reg[k] / ev[k] * F[k] for k in range(2)])
    h.eq("update", h.np(u), want)
    res = h.np(res)[()]
    h.eq("residual", o([res * res * sum(f * f for f in F)]), o([sum(((r - 1) * f) ** 2 for r, f in zip(reg, F))]))
    h.true("cutoff not below its bound", cut >= cutoff)
    if cut > cutoff:
        h.true("residual below the tolerance", res <= tol)


for _n, _i, _c, _t, _d in (("cutoff", 12, 7e-3, 0., True), ("cutoff_host", 13, 4.2e-3, 0., False), ("cutoff_below", 16, 6e-3, 0., True),
                           ("cutoff_tolerance", 12, 4.2e-3, 0.3, True)):
    harness("C15", "solve_" + _n, bounds="2 parameters, 4 samples with fixed gradients (eigenvalues 1 and 1/%d), arbitrary complex local "
            "energies, eigenvalue cutoff %g, residual tolerance %g" % (_i * _i, _c, _t))(
        lambda h, i=_i, c=_c, t=_t, d=_d: _cutoff(h, i, c, t, d))


# four samples for which the signal-to-noise ratios are exact in floating point (with the fixed eigenvectors)
DATA = {"real": ([[-1, 1], [1, -1], [-1, 2], [1, -2]], [-1, 1, 1, -1]),
        "complex": ([[-2j, -1 + 2j], [0, 0], [1, -2j], [2, -2 + 2j]], [2, 2, -1j, -1j]),
        "one": ([[1 + 2j], [1 + 2j], [2j], [2 + 2j]], [0, 1 - 2j, 2 + 1j, -1 - 2j]),
        "imag": ([[0, 1], [-1 - 1j, 0], [-2, -1 - 2j], [-1 + 1j, -2j]], [-2 - 1j, -1 - 1j, -2j, -1 - 2j])}


def fixed(h, mk, data):
    """samples of the gradients and the local energies: fixed data (the solver varies eigenvalues and tolerances);
    arbitrary ones in a concrete run"""
    g, e = [np.array(v) for v in DATA[data]]
    if not h.symbolic:
        return np.asarray(mk("O", g.shape)), np.asarray(mk("E", e.shape))
    return g, e


MC = "; Monte Carlo sampler (signal-to-noise regularisation), equal weights, 4 fixed samples, fixed eigenvectors, " \
     "arbitrary eigenvalues and tolerance"
reg("mc", "2 parameters, real data, real part" + MC, kind="mc", mode="real", cutoff=7e-3, n=4, data="real", cpx=False)
reg("mc_cpx", "2 parameters, complex data, real part" + MC, kind="mc", mode="real", cutoff=7e-3, n=4, data="complex")
reg("mc_rt", "2 parameters, complex data, imaginary part" + MC, kind="mc", mode="imag", pref=1j, cutoff=9e-3, n=4,
    data="imag")
reg("one", "1 parameter, complex data" + MC, K=1, n=4, kind="mc", mode="real", cutoff=9e-3, data="one")
reg("ratio", "1 parameter, 3 samples of different weight, arbitrary real data", K=1, n=3, cpx=False, ratio=True, cutoff=9e-3)
reg("ratio_cpx", "1 parameter, 2 samples, arbitrary complex data", K=1, n=2, ratio=True, cutoff=9e-3)
reg("dev2", "2 parameters, 2 devices x 1 sample", 2, n=1, mode="real")
reg("mc_mpi2", "2 parameters, 2 processes x 2 samples, real data" + MC, ranks=2, n=2, kind="mc", mode="real",
    cutoff=9e-3, data="real", cpx=False)
reg("mc_mpi2_dev2", "2 parameters, 2 processes x 2 devices x 1 sample, real time" + MC, 2, ranks=2, n=1, mode="imag",
    pref=1j, cutoff=9e-3, kind="mc", data="imag")
reg("mpi2", "2 parameters, 2 processes x 1 sample, arbitrary complex data", ranks=2, n=1, mode="real")


# ---- the complete right hand side

_small = {}


def small_net(K):
    """log psi = a*f(s) (+ i*b*f(s)): one or two real parameters"""
    if K not in _small:
        import flax.linen as nn
        import jax.numpy as jnp

        class SmallNet(nn.Module):
            @nn.compact
            def __call__(self, s):
                w = jnp.array([i + 1 for i in range(s.size)])
                x = jnp.sum(s.ravel() * w)
                init = nn.initializers.normal(0.3)
                a = self.param("a", init, (1,), jnp.float64)[0]
                if K == 1:
                    return a * x
                b = self.param("b", init, (1,), jnp.float64)[0]
                return (a + 1.j * b) * x
        _small[K] = SmallNet()
    return _small[K]


def _rhs(h, K, L, mode, pref, cross=False, ranks=1, dev=1, solver="tdvp", time=True, cut=9e-3, meta=True):
    import jax.numpy as jnp
    import jVMC
    import jVMC.operator as op
    import jVMC.global_defs as gd
    from jVMC.sampler import ExactSampler
    from vp.util import basis, exp
    th, th0 = h.real("theta", (K,)), h.real("stored", (K,))
    g, t = (h.real("g", (), 0.5, 2), h.real("t", (), 0.5, 2)) if time else (2, 1)

    def go(r):
        psi = jVMC.vqs.NQS(small_net(K), batchSize=50)
        psi(jnp.zeros((gd.device_count(), 1, L), dtype=np.int32))
        psi.set_parameters(h.jx(th0))
        sm = ExactSampler(psi, (L,))
        H = op.BranchFreeOperator()
        G = h.jx(g)
        H.add(op.scal_opstr((lambda t: G * t) if time else G, (op.Sx(0),)))
        for i in range(1, L):
            H.add(op.scal_opstr(1., (op.Sx(i),)))
        T = h.jx(t)
        if solver == "tdvp":
            rhs = jVMC.util.TDVP(sm, pinvTol=-1. if cross else 0., pinvCutoff=cut, makeReal=mode, rhsPrefactor=pref, crossValidation=cross)
        else:
            rhs = jVMC.util.MinSR(sm, pinvTol=1e-10)
        u = rhs(h.jx(th), T, psi=psi, hamiltonian=H, numSamples=0, **({"intStep": 0} if meta else {}))
        out = dict(u=h.np(u), stored=h.np(psi.get_parameters()))
        if solver == "tdvp":
            out["S"] = h.np(rhs.get_S())
        if meta:
            out.update(E=h.np(rhs.get_energy_mean()), V=h.np(rhs.get_energy_variance()))
            if solver == "tdvp":
                out["res"] = [h.np(v) for v in rhs.get_residuals()]
                md = rhs.get_metadata()
                out["md"] = [h.np(v) for v in (rhs.get_snr(), rhs.get_spectrum(), md["tdvp_error"], md["tdvp_residual"])]
                out["cut"] = float(md["pinv_cutoff"])
            # a later stage of the integrator must not change the reported quantities
            u1 = rhs(h.jx(th0), T, psi=psi, hamiltonian=H, numSamples=0, intStep=1)
            out["E1"] = h.np(rhs.get_energy_mean())
            out["V1"] = h.np(rhs.get_energy_variance())
            out["stored1"] = h.np(psi.get_parameters())
            out["u1"] = h.np(u1)
            if solver == "tdvp":
                md = rhs.get_metadata()
                out["md1"] = [h.np(v) for v in (rhs.get_snr(), rhs.get_spectrum(), md["tdvp_error"], md["tdvp_residual"])]
        return out
    outs = run(h, ranks, go)
    # reference: all basis states
    ref = lambda th: _reference(th, K, L, g, t, time)
    grad, e, p, me, ve = ref(th)
    sol = None
    for out in outs:
        if meta:
            h.eq("energy", out["E"], q(o(me), "real"))
            h.eq("energy variance", out["V"], o(ve))
            h.eq("energy after a later stage", out["E1"], q(o(me), "real"))
            h.eq("energy variance after a later stage", out["V1"], o(ve))
            h.eq("stored parameters after a later stage", out["stored1"], o(th0))
        h.eq("stored parameters unchanged", out["stored"], o(th0))
        if solver == "tdvp":
            S, F, S0, F0 = equation(grad, e, p, mode, pref)
            u, r2 = solution(h, S, F, cut)
            h.eq("update", out["u"], u)
            h.eq("S", out["S"], S)
            if not meta:
                continue
            err = 1 + (sum(u[i] * S0[i, j] * u[j] for i in range(K) for j in range(K))
                       - 2 * sum(u[i] * q(F0, "real")[i] for i in range(K))) / ve
            if not cross:
                h.eq("tdvp error", o(out["res"][0]) ** 2, o(err) ** 2)
            h.eq("residual", o(out["res"][1]) ** 2, o(r2))
            h.eq("spectrum", out["md"][1], o(la.eigh(h, "matrix of the equation", S)[0]))
            h.eq("error in the metadata", out["md"][2], out["res"][0])
            h.eq("residual in the metadata", out["md"][3], out["res"][1])
            h.true("cutoff in the metadata", abs(out["cut"] - cut) < 1e-12)
            for a, b, nm in zip(out["md"], out["md1"], ("SNR", "spectrum", "error", "residual")):
                h.eq(nm + " after a later stage", b, a)
            G, e1, p1, _, _ = ref(th0)
            S, F, _, _ = equation(G, e1, p1, mode, pref)
            h.eq("update of a later stage", out["u1"], solution(h, S, F, cut)[0])
        else:
            O = o([[p[i] ** 0.5 * (grad[i][k] - wsum(p, grad)[k]) for k in range(K)] for i in range(len(p))])
            T = o([[sum(O[i, k] * cj(O[j, k]) for k in range(K)) for j in range(len(p))] for i in range(len(p))])
            X = la.pinv(h, "kernel", T, 1e-10)
            eb = o([p[i] ** 0.5 * (e[i] - me) for i in range(len(p))])
            h.eq("update", out["u"], -matvec(cj(O).T, matvec(X, eb)))


def _reference(th, K, L, g, t, time):
    """gradients, local energies, probabilities, energy, variance over all basis states"""
    from vp.util import basis, exp
    B = basis(L)
    c = th[0] if K == 1 else th[0] + 1j * th[1]
    x = [sum((i + 1) * int(b[i]) for i in range(L)) for b in B]
    w = [exp(2 * th[0] * v) for v in x]
    n = sum(w)
    p = o([v / n for v in w])
    grad = o([[v] + ([1j * v] if K == 2 else []) for v in x])
    e = []
    for k, b in enumerate(B):
        v = 0
        for i in range(L):
            xf = x[k] + (i + 1) * (1 - 2 * int(b[i]))
            v = v + (g * (t if time else 1) if i == 0 else 1) * exp(c * (xf - x[k]))
        e.append(v)
    e = o(e)
    me, _, de, _, ve = moments(e.reshape(-1, 1), e.reshape(-1, 1), p)
    return grad, e, p, me[0], ve[0, 0]


def regc(name, bounds, devices=1, tiers=("quick", "thorough"), prop="C15", **kw):
    harness(prop, "rhs_" + name, devices=devices, bounds=bounds, tiers=tiers)(lambda h: _rhs(h, dev=devices, **kw))


regc("gs", "1 spin, 2 real parameters, complete right hand side with exact sampling at arbitrary parameters, "
     "time-dependent transverse field", K=2, L=1, mode="real", pref=1., meta=False)
regc("rt", "1 spin, 2 real parameters, real time evolution", K=2, L=1, mode="imag", pref=1j, meta=False)
regc("one", "1 spin, 1 real parameter: update, energy, variance, residual, error", K=1, L=1, mode="real", pref=1.)
regc("one_dev2", "1 spin, 1 real parameter on 2 devices", 2, K=1, L=1, mode="real", pref=1.)
regc("one_mpi2", "1 spin, 1 real parameter on 2 processes", ranks=2, K=1, L=1, mode="real", pref=1.)
regc("cross", "2 spins, 1 real parameter, cross validation: reported quantities and update are those of the full sample",
     K=1, L=2, mode="real", pref=1., cross=True, time=False,
     tiers=("thorough",))


def _protocol(h, K=1, n=4, cross=False, mode="real", pref=1., calls=1, shift=0, minsr=False, stages=None):
    """right hand side with stand-ins for state, operator and sampler that return arbitrary data and record the calls"""
    import jax.numpy as jnp
    import jVMC
    import jVMC.mpi_wrapper as mpi
    from jVMC.sampler import ExactSampler
    w = np.array([[0.125, 0.375, 0.25, 0.25][:n - 1] + [1 - sum([0.125, 0.375, 0.25, 0.25][:n - 1])]])
    cut = 9e-3
    log = []

    class State(jVMC.vqs.NQS):
        def gradients(self, s):
            log.append(("gradients", h.np(self.get_parameters()), s))
            return h.jx(O[sm.k - 1])

    class Sampler(ExactSampler):
        k = 0

        def sample(self, parameters=None, numSamples=None, multipleOf=1):
            log.append(("sample", h.np(psi.get_parameters() if parameters is None else parameters), numSamples))
            mpi.distribute_sampling(n, localDevices=1)
            self.c = jnp.array([[[(i + self.k) % 2] for i in range(n)]])
            self.lp = jnp.array([[self.k + i + 0.5 for i in range(n)]])
            self.k += 1
            return self.c, self.lp, h.jx(w)

        def get_last_number_of_samples(self):
            return n

    class Ham(jVMC.operator.BranchFreeOperator):
        def get_O_loc(self, samples, psi, logPsiS=None, *args):
            log.append(("O_loc", h.np(psi.get_parameters()), samples, psi, logPsiS, args))
            return h.jx(E[sm.k - 1])

    class Outp:
        def __getattr__(self, name):
            return lambda *a, **k: None
    mk = h.cplx if mode == "imag" else h.real
    O, E = mk("O", (calls, 1, n, K)), mk("E", (calls, 1, n))
    psi, H, out = State(small_net(1)), Ham(), Outp()
    psi(jnp.zeros((1, 1, 1), dtype=np.int32))
    th, stored, t = h.real("theta", (calls, 1)), h.real("stored", (1,)), h.real("t", (calls,))
    psi.set_parameters(h.jx(stored))
    sm = Sampler(psi, (1,))
    if minsr:
        rhs = jVMC.util.MinSR(sm, pinvTol=1e-9)
    else:
        rhs = jVMC.util.TDVP(sm, pinvTol=-1., pinvCutoff=cut, makeReal=mode, rhsPrefactor=pref)
        rhs.set_cross_validation(cross)
        rhs.set_diagonal_shift(shift)
    first = None
    stages = stages or range(calls)
    for k in range(calls):
        del log[:]
        u = rhs(h.jx(th[k]), h.jx(t[k]), psi=psi, hamiltonian=H, numSamples=5 + k, intStep=stages[k], outp=out)
        h.eq("state left with its parameters", psi.get_parameters(), o(stored))
        for e in log:
            h.eq("%s at the given parameters" % e[0], e[1], o(th[k]))
        h.true("one sample of the requested size", [e[2] for e in log if e[0] == "sample"] == [5 + k])
        ol, gr = [e for e in log if e[0] == "O_loc"], [e for e in log if e[0] == "gradients"]
        h.true("local energies and gradients computed", len(ol) > 0 and len(gr) > 0)
        for e in ol + gr:
            h.eq("%s of the sampled configurations" % e[0], h.np(e[2]), o(sm.c))
        for e in ol:
            h.true("local energies of the given state", e[3] is psi)
            if e[4] is not None:
                h.eq("log-amplitudes of the sample", h.np(e[4]), o(sm.lp))
            h.true("time is passed on", len(e[5]) == 1)
            h.eq("time", h.np(e[5][0]), o(t[k]))
        fx, fe, fw = o(O)[k].reshape(-1, K), o(E)[k].reshape(-1), o(w).reshape(-1)
        if minsr:
            sq = [v ** 0.5 for v in fw]
            mx, me = wsum(fw, fx), wsum(fw, fe)
            Ob = o([[sq[i] * (fx[i, j] - mx[j]) for j in range(K)] for i in range(n)])
            eb = o([sq[i] * (fe[i] - me) for i in range(n)])
            X = la.pinv(h, "kernel matrix", o([[sum(Ob[i, l] * cj(Ob[j, l]) for l in range(K)) for j in range(n)]
                                               for i in range(n)]), 1e-9)
            h.eq("update %d" % k, h.np(u), -matvec(cj(Ob).T, matvec(X, eb)))
            if stages[k] == 0:
                _, _, _, _, ve = moments(fe.reshape(-1, 1), fe.reshape(-1, 1), fw)
                first = (q(o(me), "real"), o(ve[0, 0]))
            h.eq("energy (call %d)" % k, h.np(rhs.get_energy_mean()), first[0])
            h.eq("energy variance (call %d)" % k, h.np(rhs.get_energy_variance()), first[1])
            continue
        S, F, S0, F0 = equation(fx, fe, fw, mode, pref, shift)
        want, r2 = solution(h, S, F, cut)
        h.eq("update %d" % k, h.np(u), want)
        h.eq("S %d" % k, h.np(rhs.get_S()), S)
        h.eq("S_dot %d" % k, h.np(rhs.S_dot(h.jx(o([1.] * K) if h.symbolic else np.ones(K)))), matvec(S0, [1] * K))
        if stages[k] == 0:
            me, _, _, _, ve = moments(fe.reshape(-1, 1), fe.reshape(-1, 1), fw)
            ev = la.eigh(h, "matrix of the equation", S)[0]
            err = 1 + (sum(want[i] * S0[i, j] * want[j] for i in range(K) for j in range(K))
                       - 2 * sum(want[i] * q(F0, "real")[i] for i in range(K))) / ve[0, 0]
            first = (q(o(me[0]), "real"), o(ve[0, 0]), r2, o(ev), err)
        h.eq("energy (call %d)" % k, h.np(rhs.get_energy_mean()), first[0])
        h.eq("energy variance (call %d)" % k, h.np(rhs.get_energy_variance()), first[1])
        h.eq("residual (call %d)" % k, o(h.np(rhs.get_residuals()[1])) ** 2, o(first[2]))
        h.eq("spectrum (call %d)" % k, h.np(rhs.get_spectrum()), first[3])
        if mode == "real":
            h.eq("error (call %d)" % k, o(h.np(rhs.get_residuals()[0])) ** 2, o(first[4]) ** 2)


P_ = "right hand side with recording stand-ins for state, operator and sampler and arbitrary gradients and local energies"
harness("C15", "protocol", bounds=P_ + ": 1 parameter, 3 samples, two stages")(lambda h: _protocol(h, n=3, calls=2))
harness("C15", "protocol_steps", bounds=P_ + ": 1 parameter, 3 samples, a stage of one step and the first of the next")(
    lambda h: _protocol(h, n=3, calls=2, stages=(0, 0)))
harness("C15", "protocol_shift", bounds=P_ + ": 1 parameter, 3 samples, diagonal shift 10 set later")(
    lambda h: _protocol(h, n=3, shift=10))
harness("C15", "protocol_cross", bounds=P_ + ": 1 parameter, 4 samples, cross validation")(
    lambda h: _protocol(h, n=4, cross=True))
harness("C15", "protocol_cross_later", bounds=P_ + ": 1 parameter, 4 samples, cross validation, then a later stage",
        tiers=("thorough",))(lambda h: _protocol(h, n=4, cross=True, calls=2))
