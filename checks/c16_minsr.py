"""C16: minimum-step stochastic reconfiguration."""
import numpy as np

from vp.harness import harness
from vp.util import weights
from vp import linalg as la
from checks.c06_reductions import run, cj, wsum
from checks.c15_tdvp import regc, matvec, _protocol, P_

o = lambda v: np.asarray(v, dtype=object)


def _solve(h, K, ranks, dev, n, cpx=True, tol=1e-10):
    import jVMC
    from jVMC.stats import SampledObs
    mk = h.cplx if cpx else h.real
    x, e = mk("O", (ranks, dev, n, K)), mk("E", (ranks, dev, n))
    w = weights(h, "p", (ranks, dev, n))
    fx, fe, fw = o(x).reshape(-1, K), o(e).reshape(-1), o(w).reshape(-1)
    N = len(fw)

    def go(r):
        eq = jVMC.util.MinSR(None, pinvTol=1e-3)
        eq.set_pinv_tol(tol)
        E, G = SampledObs(h.jx(e[r]), h.jx(w[r])), SampledObs(h.jx(x[r]), h.jx(w[r]))
        return h.np(eq.solve(E, G))
    out = run(h, ranks, go)
    sq = [v ** 0.5 for v in fw]
    mx, me = wsum(fw, fx), wsum(fw, fe)
    O = o([[sq[i] * (fx[i, k] - mx[k]) for k in range(K)] for i in range(N)])
    eb = o([sq[i] * (fe[i] - me) for i in range(N)])
    T = o([[sum(O[i, k] * cj(O[j, k]) for k in range(K)) for j in range(N)] for i in range(N)])
    X = la.pinv(h, "kernel matrix", T, tol)
    want = -matvec(cj(O).T, matvec(X, eb))
    for u in out:
        h.eq("update", u, want)


def reg(name, bounds, devices=1, **kw):
    harness("C16", "solve_" + name, devices=devices, bounds=bounds + ", arbitrary gradients, local energies and weights")(
        lambda h: _solve(h, dev=devices, **kw))


reg("one_device", "3 parameters, 2 samples, complex", K=3, ranks=1, n=2)
reg("three_samples", "2 parameters, 3 samples, complex", K=2, ranks=1, n=3)
reg("cutoff", "2 parameters, 3 samples, real, relative cutoff 0.4", K=2, ranks=1, n=3, cpx=False, tol=0.4)
reg("cutoff_complex", "2 parameters, 3 samples, complex, relative cutoff 0.2", K=2, ranks=1, n=3, tol=0.2)
reg("real", "3 parameters, 3 samples, real", K=3, ranks=1, n=3, cpx=False)
reg("devices", "2 parameters, 2 devices x 2 samples, complex", 2, K=2, ranks=1, n=2)
reg("processes", "2 parameters, 2 processes x 2 samples, complex", K=2, ranks=2, n=2)
reg("processes_devices", "2 parameters, 2 processes x 2 devices x 1 sample, complex", 2, K=2, ranks=2, n=1)
reg("one_parameter", "1 parameter, 3 processes x 1 sample, complex", K=1, ranks=3, n=1)

regc("complex", "1 spin, 2 real parameters, complex log-amplitudes, complete right hand side with exact sampling at "
     "arbitrary parameters, time-dependent field", prop="C16", K=2, L=1, mode="real", pref=1., solver="minsr")
regc("real", "1 spin, 1 real parameter", prop="C16", K=1, L=1, mode="real", pref=1., solver="minsr")
regc("dev2", "1 spin, 1 real parameter on 2 devices", 2, prop="C16", K=1, L=1, mode="real", pref=1., solver="minsr")
regc("mpi2", "1 spin, 2 real parameters on 2 processes", prop="C16", ranks=2, K=2, L=1, mode="real", pref=1.,
     solver="minsr")
harness("C16", "protocol", bounds=P_ + ": 2 parameters, 3 samples, three stages")(
    lambda h: _protocol(h, K=2, n=3, calls=3, minsr=True))
harness("C16", "protocol_complex", bounds=P_ + ": 1 parameter, 4 samples, complex data, two stages")(
    lambda h: _protocol(h, K=1, n=4, calls=2, mode="imag", minsr=True))
harness("C16", "protocol_steps", bounds=P_ + ": 1 parameter, 3 samples, a stage of one step and the first of the next")(
    lambda h: _protocol(h, K=1, n=3, calls=2, minsr=True, stages=(0, 0)))
