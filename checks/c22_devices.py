"""C22: changing the devices in use."""
import contextlib

import numpy as np

from vp.harness import harness
from vp.util import make_psi, weights, samples, select, conf_index
from checks.c06_reductions import run, cj, wsum
from checks.c07_stats import moments
from checks.c02_oloc import build, expected
from checks.c08_exact import probs, total

o = lambda v: np.asarray(v, dtype=object)


@contextlib.contextmanager
def devices():
    import jax
    import jVMC.global_defs as gd
    try:
        gd.set_pmap_devices(jax.devices())
        yield gd, jax.devices()
    finally:
        gd.set_pmap_devices(jax.devices())


CHOICES = ["0", [0], [1], [0, 1], [1, 0], [0, 1, 2]]


def use(gd, devs, c):
    d = [devs[int(i)] for i in c]
    if c == "0":
        gd.set_pmap_devices(devs[0])
    else:
        gd.set_pmap_devices(d)
    return d


def _reductions(h, k, cs, n=2):
    c = h.choose("devices%d" % k, cs)
    m = len(c)
    x = h.cplx("x%d_%d" % (k, m), (m, n, 1))
    w = weights(h, "w%d_%d" % (k, m), (m, n))
    return c, x, w


def check(h, gd, devs, c, x, w, what):
    import jVMC.mpi_wrapper as mpi
    from jVMC.stats import SampledObs
    d = use(gd, devs, c)
    h.true("number of devices", gd.device_count() == len(d) and list(gd.devices()) == d)
    fx, fw = o(x).reshape(-1, 1), o(w).reshape(-1)
    X, W = h.jx(x), h.jx(w)
    mx, _, dx, _, cov = moments(fx, fx, fw)
    if what == "mpi":
        h.eq("global_sum", h.np(mpi.global_sum(X)), fx.sum(axis=0))
        h.eq("global_mean", h.np(mpi.global_mean(X, W)), o(mx))
        h.eq("global_variance", h.np(mpi.global_variance(X, W)), o([cov[0, 0]]))
        h.eq("global_covariance", h.np(mpi.global_covariance(X, W)), cov)
    else:
        A = SampledObs(X, W)
        h.eq("mean", h.np(A.mean()), o(mx))
        h.eq("var", h.np(A.var()), o([cov[0, 0]]))
        h.eq("covar", h.np(A.covar(A)), cov)
        B = A.transform(linearFun=h.jx(np.array([[2.0]])))
        h.eq("transformed", h.np(B.mean()), 2 * o(mx))


def _sequence(h, what, steps, cs):
    with devices() as (gd, devs):
        for k in range(steps):
            c, x, w = _reductions(h, k, cs, 1)
            check(h, gd, devs, c, x, w, what)


harness("C22", "reductions", devices=3, bounds="two consecutive choices of devices out of 6 (1-3 of 3 devices), one sample each, arbitrary data; "
        "sum, mean, variance, covariance")(lambda h: _sequence(h, "mpi", 2, CHOICES))
harness("C22", "statistics", devices=3, bounds="two consecutive choices of devices out of 4 (1-3 of 3 devices), one sample each, arbitrary data; SampledObs")(
    lambda h: _sequence(h, "stats", 2, ["0", [1], [0, 1], [0, 1, 2]]))
harness("C22", "three_changes", devices=3, bounds="three consecutive choices out of 3, one sample each, arbitrary data; sum, mean, "
        "variance, covariance")(lambda h: _sequence(h, "mpi", 3, ["0", [0, 1], [0, 1, 2]]))
harness("C22", "three_changes_statistics", devices=3, bounds="three consecutive choices out of 2, one sample each, arbitrary data; "
        "SampledObs")(lambda h: _sequence(h, "stats", 3, [[1], [0, 1]]))


@harness("C22", "objects", devices=2, bounds="two consecutive choices out of 1-2 devices; states, operators and exact samplers "
         "created after each choice; arbitrary amplitudes and couplings")
def objects(h):
    from jVMC.sampler import ExactSampler
    seq = [h.choose("devices%d" % k, ["0", [0, 1], [1, 0]]) for k in range(2)]
    with devices() as (gd, devs):
        for k, c in enumerate(seq):
            d = use(gd, devs, c)
            s, so = samples(h, "s%d" % k, len(d), 1, 2)
            psi, tab = make_psi(h, "psi%d" % k, 2)
            H, terms = build(h, 2, h.real("g", (2,), 0.5, 2))
            lp = psi(s)
            h.eq("log-amplitudes", h.np(lp), o([[select(list(tab), conf_index(v)) for v in r] for r in so]))
            h.eq("local estimator", h.np(H.get_O_loc(s, psi, lp)), expected(terms, tab, so))
            r = ExactSampler(psi, (2,)).sample()
            h.true("leading axis", h.np(r[0]).shape[0] == len(d))
            h.eq("probabilities", total(h, [r], None, 2, 2), o(probs(tab, 0.5)))
