"""C08: full enumeration of the basis."""
import numpy as np

from vp.harness import harness
from vp.util import basis, make_psi, select, conf_index, delta, exp
from checks.c06_reductions import run

o = lambda v: np.asarray(v, dtype=object)


def re(x):
    return (x + x.conjugate()) * 0.5 if hasattr(x, "conjugate") else np.real(x)


def probs(tab, lpf):
    w = [exp(re(a) * (1 / lpf)) for a in tab]
    n = sum(w)
    return [x / n for x in w]


def total(h, res, shape, L, d):
    """probability assigned to every basis state, over all processes, devices and samples"""
    out = [0] * d ** L
    for s, lp, p in res:
        s, p = h.np(s), h.np(p)
        s, p = s.reshape((-1, L)), p.reshape(-1)
        for i in range(len(p)):
            idx = conf_index(s[i], d)
            out_i = int(idx) if not hasattr(idx, "const_value") else int(idx.const_value())
            out[out_i] = out[out_i] + p[i]
    return o(out)


def _exact(h, L, d, ranks, shape=None, lpf=0.5, twice=False):
    import jVMC
    from jVMC.sampler import ExactSampler
    tabs = []

    def go(r):
        psi, tab = make_psi(h, "psi", L, d, shape=shape)
        tabs.append(tab)
        sm = ExactSampler(psi, (L,) if shape is None else shape, lDim=d, logProbFactor=lpf)
        out = [sm.sample()]
        if twice:
            out.append(sm.sample())
        return out
    res = run(h, ranks, go)
    tab = tabs[0]
    want = o(probs(tab, lpf))
    for k in range(len(res[0])):
        rs = [r[k] for r in res]
        lab = "" if k == 0 else " (second call)"
        h.eq("probabilities" + lab, total(h, rs, shape, L, d), want)
        for s, lp, p in rs:
            so = h.np(s).reshape((-1, L))
            ok = all(0 <= int(v if not hasattr(v, "const_value") else v.const_value()) < d for v in so.reshape(-1))
            h.true("configurations valid" + lab, ok)
            h.eq("log amplitudes" + lab, h.np(lp).reshape(-1), o([select(list(tab), conf_index(c, d)) for c in so]))
            h.true("shapes" + lab, h.np(s).shape[2:] == ((L,) if shape is None else shape)
                   and h.np(s).shape[:2] == h.np(p).shape == h.np(lp).shape)


def reg(name, bounds, devices=1, **kw):
    harness("C08", name, devices=devices, bounds=bounds + ", arbitrary complex log-amplitudes")(lambda h: _exact(h, **kw))


reg("spins3", "3 spins, 1 device, two calls", L=3, d=2, ranks=1, twice=True)
reg("spins3_dev3", "3 spins on 3 devices (padding)", 3, L=3, d=2, ranks=1)
reg("spins2_dev3", "2 spins on 3 devices (idle device)", 3, L=2, d=2, ranks=1)
reg("spins1_dev4", "1 spin on 4 devices (more devices than states)", 4, L=1, d=2, ranks=1)
reg("spins3_mpi3", "3 spins on 3 processes (uneven shares)", L=3, d=2, ranks=3, twice=True)
reg("spins3_mpi3_dev2", "3 spins on 3 processes x 2 devices", 2, L=3, d=2, ranks=3)
reg("spins1_mpi3", "1 spin on 3 processes (idle process)", 1, L=1, d=2, ranks=3)
reg("ldim3", "2 sites with 3 levels", L=2, d=3, ranks=1)
reg("ldim3_dev4", "2 sites with 3 levels on 4 devices", 4, L=2, d=3, ranks=1)
reg("ldim3_dev8", "2 sites with 3 levels on 8 devices", 8, L=2, d=3, ranks=1)
reg("ldim5_dev4", "1 site with 5 levels on 4 devices", 4, L=1, d=5, ranks=1)
reg("ldim4_mpi2_dev3", "1 site with 4 levels (POVM) on 2 processes x 3 devices", 3, L=1, d=4, ranks=2, lpf=1.0)
reg("lattice", "2x2 lattice, 2 devices", 2, L=4, d=2, ranks=1, shape=(2, 2))
reg("povm", "2 sites with 4 outcomes, probabilities proportional to exp(log-amplitude)", L=2, d=4, ranks=1, lpf=1.0)


@harness("C08", "given_parameters", devices=2, bounds="2 spins, 2 devices: sampling at other parameters than the stored "
         "ones, then at the stored ones; arbitrary amplitudes")
def given_parameters(h):
    from jVMC.sampler import ExactSampler
    import jax.numpy as jnp
    psi, tab = make_psi(h, "psi", 2)
    sm = ExactSampler(psi, (2,))
    q = h.real("q", (8,))
    tab2 = q[:4] + 1j * q[4:]
    r1 = sm.sample(parameters=h.jx(q))
    h.eq("probabilities at given parameters", total(h, [r1], None, 2, 2), o(probs(tab2, 0.5)))
    h.eq("stored parameters unchanged", psi.get_parameters(), np.concatenate([o([re(t) for t in tab]),
                                                                              o([re(t * -1j) for t in tab])]))
    r2 = sm.sample()
    h.eq("probabilities at stored parameters", total(h, [r2], None, 2, 2), o(probs(tab, 0.5)))
