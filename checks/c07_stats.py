"""C07: statistics of sampled observables."""
import numpy as np

from vp.harness import harness
from vp.util import weights
from vp.util import make_psi, samples, select, conf_index, exp
from checks.c06_reductions import run, cj, wsum

o = lambda v: np.asarray(v, dtype=object)


def moments(x, y, w):
    """means and weighted covariance sum_n w_n conj(x-mx)(y-my)"""
    mx, my = wsum(w, x), wsum(w, y)
    dx, dy = o(x - mx), o(y - my)
    cov = 0
    for i in range(len(w)):
        cov = cov + w[i] * np.multiply.outer(cj(dx[i]), dy[i])
    return mx, my, dx, dy, o(cov)


def _inputs(h, ranks, dev, n, da, db, cpx=True):
    mk = h.cplx if cpx else h.real
    x = mk("x", (ranks, dev, n, da))
    y = mk("y", (ranks, dev, n, db))
    w = weights(h, "w", (ranks, dev, n))
    return x, y, w


def _basic(h, ranks, dev, n, da=2, db=1, cpx=True):
    from jVMC.stats import SampledObs
    x, y, w = _inputs(h, ranks, dev, n, da, db, cpx)
    fx, fy, fw = o(x).reshape(-1, da), o(y).reshape(-1, db), o(w).reshape(-1)

    def go(r):
        X, Y = SampledObs(h.jx(x[r]), h.jx(w[r])), SampledObs(h.jx(y[r]), h.jx(w[r]))
        return [h.np(v) for v in (X.mean(), X.var(), X.covar(), X.covar(Y), Y.covar(X), X.tangent_kernel())]
    res = run(h, ranks, go)
    mx, my, dx, dy, cxy = moments(fx, fy, fw)
    cxx = moments(fx, fx, fw)[4]
    for r in range(ranks):
        h.eq("mean", res[r][0], o(mx))
        h.eq("var", res[r][1], o([cxx[i, i] for i in range(da)]))
        h.eq("covar", res[r][2], cxx)
        h.eq("covar(other)", res[r][3], cxy)
        h.eq("covar(other) reversed", res[r][4], o(cj(cxy.T)))
        sq = [v ** 0.5 for v in fw]
        K = o([[sum(sq[i] * sq[j] * dx[i][k] * cj(dx[j])[k] for k in range(da)) for j in range(len(fw))]
               for i in range(len(fw))])
        h.eq("tangent kernel", res[r][5], K)


@harness("C07", "one_device", bounds="1 device x 3 samples, arbitrary complex data (2 and 1 components), arbitrary weights")
def one_device(h):
    _basic(h, 1, 1, 3)


@harness("C07", "devices", devices=2, bounds="2 devices x 2 samples, arbitrary complex data (2 and 1 components)")
def devices(h):
    _basic(h, 1, 2, 2)


@harness("C07", "processes", bounds="2 processes x 1 device x 2 samples, arbitrary complex data (1 component each)")
def processes(h):
    _basic(h, 2, 1, 2, 1, 1)


@harness("C07", "processes_devices", devices=2, bounds="2 processes x 2 devices x 1 sample, arbitrary real data")
def processes_devices(h):
    _basic(h, 2, 2, 1, 1, 1, False)


@harness("C07", "scalar_data", bounds="2 samples of a scalar observable (no component axis), arbitrary weights")
def scalar_data(h):
    from jVMC.stats import SampledObs
    x = h.cplx("x", (1, 2))
    w = weights(h, "w", (1, 2))
    X = SampledObs(h.jx(x), h.jx(w))
    m = wsum(o(w)[0], o(x)[0])
    h.eq("mean", X.mean(), o([m]))
    d = o(x)[0] - m
    h.eq("var", X.var(), o([wsum(o(w)[0], d * cj(d))]))


@harness("C07", "covar_data", devices=2, bounds="2 devices x 1 sample, 2 x 1 arbitrary complex components: per-sample "
         "covariance data average to the covariance; the variance of the covariance is that of these data")
def covar_data(h):
    _covdata(h, 1, 2, 1, 2, 1)


@harness("C07", "covar_data_processes", bounds="2 processes x 1 sample, 1 x 2 arbitrary complex components")
def covar_data_processes(h):
    _covdata(h, 2, 1, 1, 1, 2)


@harness("C07", "covar_data_three", bounds="3 samples, 1 x 1 arbitrary complex components")
def covar_data_three(h):
    _covdata(h, 1, 1, 3, 1, 1)


def _covdata(h, ranks, dev, n, da, db):
    from jVMC.stats import SampledObs
    x, y, w = _inputs(h, ranks, dev, n, da, db)
    fx, fy, fw = o(x).reshape(-1, da), o(y).reshape(-1, db), o(w).reshape(-1)

    def go(r):
        X, Y = SampledObs(h.jx(x[r]), h.jx(w[r])), SampledObs(h.jx(y[r]), h.jx(w[r]))
        cd = X.covar_data(Y)
        return [h.np(v) for v in (cd.mean(), X.covar_var(Y), X.covar_var())]
    res = run(h, ranks, go)
    mx, my, dx, dy, cov = moments(fx, fy, fw)

    def second(da_, db_, c):
        out = 0
        for i in range(len(fw)):
            z = np.multiply.outer(cj(da_[i]), db_[i])
            out = out + fw[i] * o(z * cj(z))
        return out - o(c * cj(c))
    cxx = moments(fx, fx, fw)[4]
    for r in range(ranks):
        h.eq("covar_data mean", res[r][0], cov)
        h.eq("covar_var", res[r][1], second(dx, dy, cov))
        h.eq("covar_var of itself", res[r][2], second(dx, dx, cxx))


@harness("C07", "transform", devices=2, bounds="2 devices x 1 sample: statistics of transformed data are those of the "
         "function applied to the original data; element-wise square, real part, projection by an arbitrary matrix")
def transform(h):
    from jVMC.stats import SampledObs
    import jax.numpy as jnp
    x = h.cplx("x", (2, 1, 2))
    w = weights(h, "w", (2, 1))
    # weights of a normalised sample
    fx, fw = o(x).reshape(-1, 2), o(w).reshape(-1)
    X = SampledObs(h.jx(x), h.jx(w))
    T = X.transform(lambda v: v * v)
    fy = o(fx * fx)
    mx, _, _, _, c = moments(fy, fy, fw)
    h.eq("mean of squares", T.mean(), o(mx))
    h.eq("covariance of squares", T.covar(), c)
    R = X.transform(nonLinearFun=jnp.real)
    fr = o((fx + cj(fx)) * 0.5)
    mr, _, _, _, c = moments(fr, fr, fw)
    h.eq("mean of real part", R.mean(), o(mr))
    h.eq("original unchanged", X.mean(), o(wsum(fw, fx)))
    I = X.transform()
    h.eq("identity", I.mean(), o(wsum(fw, fx)))


@harness("C07", "transform_linear", bounds="2 samples of column vectors (2 x 1): linear map with arbitrary complex 2x2 matrix")
def transform_linear(h):
    from jVMC.stats import SampledObs
    import jax.numpy as jnp
    x = h.cplx("x", (1, 2, 2, 1))
    w = weights(h, "w", (1, 2))
    V = h.cplx("V", (2, 2))
    fx, fw = o(x).reshape(-1, 2), o(w).reshape(-1)
    X = SampledObs(h.jx(x), h.jx(w))
    T = X.transform(linearFun=h.jx(V), nonLinearFun=lambda v: 2. * v)
    fy = o([[sum(o(V)[i, k] * 2 * fx[n][k] for k in range(2)) for i in range(2)] for n in range(2)])
    mx, _, d, _, c = moments(fy, fy, fw)
    h.eq("mean", T.mean(), o(mx).reshape(2, 1))
    h.eq("var", T.var(), o([c[0, 0], c[1, 1]]).reshape(2, 1))


@harness("C07", "select", devices=2, bounds="2 devices x 1 sample of 3 components: statistics of selections "
         "(single, reordered, repeated, permuted components)")
def select_(h):
    from jVMC.stats import SampledObs
    import jax.numpy as jnp
    x = h.cplx("x", (2, 1, 3))
    w = weights(h, "w", (2, 1))
    ix = h.choose("ix", [[0], [1], [2, 0], [1, 1], [0, 2], [2, 1, 0], [0, 2, 1, 1]])
    X = SampledObs(h.jx(x), h.jx(w))
    S = X.select(jnp.array(ix))
    fx, fw = o(x).reshape(-1, 3)[:, ix], o(w).reshape(-1)
    m, _, _, _, c = moments(fx, fx, fw)
    h.eq("mean", S.mean(), o(m))
    h.eq("covar", S.covar(), c)
    h.eq("var", S.var(), o([c[i, i] for i in range(len(ix))]))
    h.eq("original unchanged", X.mean(), o(wsum(fw, o(x).reshape(-1, 3))))


def _subset(h, ranks, dev, n, slices):
    from jVMC.stats import SampledObs
    x = h.real("x", (ranks, dev, n, 1))
    w = weights(h, "w", (ranks, dev, n))
    sl = h.choose("slice", slices)

    def go(r):
        X = SampledObs(h.jx(x[r]), h.jx(w[r]))
        S = X.subset(*sl)
        return [h.np(v) for v in (S.mean(), S.covar(), S._weights, X.mean())]
    # the statistics of a subset are defined relative to weights normalised over the subset; the
    # total of all weights drops out
    res = run(h, ranks, go)
    fx = o(x)[:, :, slice(*sl)].reshape(-1, 1)
    fw = o(w)[:, :, slice(*sl)].reshape(-1)
    nrm = sum(fw)
    nw = o([v / nrm for v in fw])
    m, _, _, _, c = moments(fx, fx, nw)
    for r in range(ranks):
        h.eq("mean", res[r][0], o(m))
        h.eq("covar", res[r][1], c)
        h.eq("weights", res[r][2], o([[o(w)[r, d, k] / nrm for k in range(n)[slice(*sl)]] for d in range(dev)]))
        h.eq("original unchanged", res[r][3], o(wsum(o(w).reshape(-1), o(x).reshape(-1, 1))))


@harness("C07", "subset", bounds="3 samples, arbitrary real data and weights, four slices")
def subset(h):
    _subset(h, 1, 1, 3, [(0, 2), (1, None), (None, None, 2), (0, 1)])


@harness("C07", "subset_devices", devices=2, bounds="2 devices x 2 samples, two slices")
def subset_devices(h):
    _subset(h, 1, 2, 2, [(0, 1), (None, None, 1)])


@harness("C07", "subset_processes", bounds="2 processes x 2 samples, two slices")
def subset_processes(h):
    _subset(h, 2, 1, 2, [(1, 2), (0, 1)])


@harness("C07", "estimator", devices=2, bounds="2 devices x 1 sample, 1 site, table network with arbitrary parameters: "
         "estimator mean at arbitrary parameters and its gradient, observable with parameter-dependent estimator")
def estimator(h):
    from jVMC.stats import SampledObs
    import jax.numpy as jnp
    s, so = samples(h, "s", 2, 1, 1)
    w = weights(h, "w", (2, 1))
    psi, tab = make_psi(h, "psi", 1)

    def est(p, c):
        a, b = p["params"]["a_re"], p["params"]["b_im"]
        return jnp.sum(a * a) * (1 + c[0]) + 1.j * b[c[0]] * a[0]
    S = SampledObs(s, h.jx(w), estimator=est)
    P0 = psi.parameters
    m, g = S.mean_and_grad(psi, P0)
    re, im = [o(v) for v in _parts(h, "psi", 2)]
    val, gval, lg = [], [], []
    for d in range(2):
        c = so[d, 0, 0]
        val.append((re[0] * re[0] + re[1] * re[1]) * (1 + c) + 1j * select(list(im), c) * re[0])
        ind = [select([1, 0], c), select([0, 1], c)]
        gval.append([2 * re[0] * (1 + c) + 1j * select(list(im), c), 2 * re[1] * (1 + c),
                     1j * re[0] * ind[0], 1j * re[0] * ind[1]])
        lg.append([2 * ind[0], 2 * ind[1], 0, 0])          # 2 Re d log psi
    fw = o(w).reshape(-1)
    mean = fw[0] * val[0] + fw[1] * val[1]
    h.eq("mean", m, o([mean]))
    h.eq("mean at parameters", S.mean(P0), o([mean]))
    mg = [fw[0] * lg[0][k] + fw[1] * lg[1][k] for k in range(4)]
    want = [sum(fw[d] * ((lg[d][k] - mg[k]) * (val[d] - mean) + gval[d][k]) for d in range(2)) for k in range(4)]
    h.eq("gradient", g, o(want))


def _parts(h, name, n):
    return h.real(name + ".re", (n,)), h.real(name + ".im", (n,))


@harness("C07", "estimator_complex", bounds="2 samples, 1 site, holomorphic table network with arbitrary complex "
         "parameters: estimator mean and gradient with respect to real and imaginary parameter parts, for a "
         "non-holomorphic estimator")
def estimator_complex(h):
    from jVMC.stats import SampledObs
    import jVMC
    import flax.linen as nn
    import jax.numpy as jnp

    class CTable(nn.Module):
        @nn.compact
        def __call__(self, s):
            t = self.param("t", nn.initializers.normal(0.3, jnp.complex128), (2,), jnp.complex128)
            return t[s[0]]
    s, so = samples(h, "s", 1, 2, 1)
    w = weights(h, "w", (1, 2))
    psi = jVMC.vqs.NQS(CTable(), batchSize=4)
    psi(jnp.zeros((1, 1, 1), dtype=np.int32))
    t = h.cplx("t", (2,))
    psi.params = {"t": h.jx(t)}

    def est(p, c):
        a = p["params"]["t"]
        return jnp.real(a[0]) * a[1] + 1.j * jnp.imag(a[c[0]])
    S = SampledObs(s, h.jx(w), estimator=est)
    P0 = psi.parameters
    m, g = S.mean_and_grad(psi, P0)
    ot = o(t)
    re, im = [v.real for v in ot], [v.imag for v in ot]
    fw = o(w).reshape(-1)
    val, gval, lg = [], [], []
    for d in range(2):
        c = so[0, d, 0]
        ind = [select([1, 0], c), select([0, 1], c)]
        val.append(re[0] * ot[1] + 1j * select(im, c))
        gval.append([ot[1], re[0], 1j * ind[0], 1j * re[0] + 1j * ind[1]])
        lg.append([2 * ind[0], 2 * ind[1], 0, 0])
    mean = fw[0] * val[0] + fw[1] * val[1]
    h.eq("mean", m, o([mean]))
    mg = [fw[0] * lg[0][k] + fw[1] * lg[1][k] for k in range(4)]
    want = [sum(fw[d] * ((lg[d][k] - mg[k]) * (val[d] - mean) + gval[d][k]) for d in range(2)) for k in range(4)]
    h.eq("gradient", g, o(want))


@harness("C07", "estimator_updates", bounds="2 samples, 1 site: mean at two different parameter sets, in both orders, "
         "and covariance after each")
def estimator_updates(h):
    from jVMC.stats import SampledObs
    import jax.numpy as jnp
    s, so = samples(h, "s", 1, 2, 1)
    w = weights(h, "w", (1, 2))
    p = h.real("p", (3, 2))

    def est(q, c):
        return q["params"]["a"][c[0]]
    P = [{"params": {"a": h.jx(p[i])}} for i in range(3)]
    S = SampledObs(s, h.jx(w), estimator=est, params=P[0])
    fw = o(w).reshape(-1)

    def stat(i):
        fx = o([select(list(o(p)[i]), so[0, d, 0]) for d in range(2)]).reshape(-1, 1)
        return moments(fx, fx, fw)
    for k, i in enumerate([0] + h.choose("order", [[1, 2], [1, 0], [2, 2]])):
        m, _, _, _, c = stat(i)
        if k == 0:
            h.eq("initial mean", S.mean(), o(m))
        else:
            h.eq("mean at set %d" % k, S.mean(P[i]), o(m))
        h.eq("covariance %d" % k, S.covar(), c)
        h.eq("stored mean %d" % k, S.mean(), o(m))
