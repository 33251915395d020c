"""C06: reductions over samples, devices and processes."""
import numpy as np

from vp.harness import harness
from vp.util import weights


def cj(x):
    f = np.frompyfunc(lambda v: v.conjugate() if hasattr(v, "conjugate") else np.conj(v), 1, 1)
    return f(np.asarray(x, dtype=object))


def data(h, ranks, dev, n, shape, cpx=True):
    sh = (ranks, dev, n) + tuple(shape)
    x = h.cplx("x", sh) if cpx else h.real("x", sh)
    w = weights(h, "w", (ranks, dev, n))
    return x, w


def run(h, ranks, fn):
    from vp import mpisim
    return mpisim.run(h, ranks, fn) if ranks > 1 else [fn(0)]


def flat(x):
    return np.asarray(x, dtype=object).reshape((-1,) + x.shape[3:])


def wsum(w, x):
    out = 0
    for a, b in zip(w, x):
        out = out + a * b
    return out


def check(h, ranks, dev, n, shape, cpx=True, cov=True):
    import jVMC.mpi_wrapper as mpi
    x, w = data(h, ranks, dev, n, shape, cpx)
    fx, fw = flat(x), flat(w)

    def go(r):
        X, W = h.jx(x[r]), h.jx(w[r])
        out = [h.np(mpi.global_sum(X)), h.np(mpi.global_mean(X, W)), h.np(mpi.global_variance(X, W))]
        if cov:
            out.append(h.np(mpi.global_covariance(X, W)))
        return out
    res = run(h, ranks, go)
    tot = sum(fx[i] for i in range(len(fx)))
    mean = wsum(fw, fx)
    d = fx - mean
    var = wsum(fw, np.asarray(d * cj(d), dtype=object))
    if cov:
        second = 0
        for i in range(len(fx)):
            second = second + fw[i] * np.multiply.outer(fx[i], cj(fx[i]))
        covm = second - np.multiply.outer(mean, cj(mean))
    o = lambda v: np.asarray(v, dtype=object)
    for r in range(ranks):
        h.eq("sum, process %d" % r, res[r][0], o(tot))
        h.eq("mean, process %d" % r, res[r][1], o(mean))
        h.eq("variance, process %d" % r, res[r][2], o(var))
        if cov:
            h.eq("covariance, process %d" % r, res[r][3], o(covm))


@harness("C06", "one_device", bounds="1 process, 1 device, 3 samples of 2 arbitrary complex numbers, arbitrary positive "
         "weights")
def one_device(h):
    check(h, 1, 1, 3, (2,))


@harness("C06", "devices", devices=2, bounds="1 process, 2 devices x 2 samples of 2 arbitrary complex numbers")
def devices(h):
    check(h, 1, 2, 2, (2,))


@harness("C06", "devices3", devices=3, bounds="1 process, 3 devices x 1 sample of 1 arbitrary complex number")
def devices3(h):
    check(h, 1, 3, 1, (1,))


@harness("C06", "processes", bounds="2 processes, 1 device, 2 samples of 2 arbitrary complex numbers")
def processes(h):
    check(h, 2, 1, 2, (2,))


@harness("C06", "processes_devices", devices=2, bounds="3 processes x 2 devices x 1 sample, 1 real number")
def processes_devices(h):
    check(h, 3, 2, 1, (1,), cpx=False)


@harness("C06", "matrix_data", devices=2, bounds="2 devices x 2 samples of an arbitrary real 2x2 matrix (sum, mean, "
         "variance)")
def matrix_data(h):
    check(h, 1, 2, 2, (2, 2), cpx=False, cov=False)


@harness("C06", "scalar_data", bounds="2 processes x 1 device x 2 samples, scalar data (no data axis)")
def scalar_data(h):
    check(h, 2, 1, 2, (), cov=False)


@harness("C06", "uneven", bounds="2 processes with 1 and 3 samples (uneven split), 2 arbitrary complex numbers")
def uneven(h):
    import jVMC.mpi_wrapper as mpi
    n = [1, 3]
    x = [h.cplx("x%d" % r, (1, n[r], 1)) for r in range(2)]
    w = [h.real("w%d" % r, (1, n[r]), 0.1, 1) for r in range(2)]
    fx = np.concatenate([np.asarray(v, dtype=object).reshape(-1, 1) for v in x])
    fw = np.concatenate([np.asarray(v, dtype=object).reshape(-1) for v in w])

    def go(r):
        X, W = h.jx(x[r]), h.jx(w[r])
        return h.np(mpi.global_sum(X)), h.np(mpi.global_mean(X, W)), h.np(mpi.global_variance(X, W)), \
            h.np(mpi.gather(X))
    res = run(h, 2, go)
    mean = wsum(fw, fx)
    d = fx - mean
    o = lambda v: np.asarray(v, dtype=object)
    for r in range(2):
        h.eq("sum", res[r][0], o(fx.sum(axis=0)))
        h.eq("mean", res[r][1], o(mean))
        h.eq("variance", res[r][2], o(wsum(fw, o(d * cj(d)))))
        h.eq("gather", res[r][3], fx)


@harness("C06", "gather", devices=2, bounds="2 processes x 2 devices x 2 samples of 1 number: every process receives all "
         "samples in process, device, sample order")
def gather(h):
    import jVMC.mpi_wrapper as mpi
    x = h.cplx("x", (2, 2, 2, 1))
    res = run(h, 2, lambda r: h.np(mpi.gather(h.jx(x[r]))))
    for r in range(2):
        h.eq("gather", res[r], np.asarray(x, dtype=object).reshape(8, 1))


@harness("C06", "bcast", bounds="3 processes, arrays of 0..3 arbitrary numbers broadcast from any root to processes that do "
         "not know the size")
def bcast(h):
    import jVMC.mpi_wrapper as mpi
    n = h.choose("n", [0, 1, 2, 3])
    root = h.choose("root", [0, 1, 2])
    x = h.real("x", (n,))

    def go(r):
        d = None
        if r == root:
            d = h.jx(x, np.float64) if n else np.zeros(0)
        return h.np(mpi.bcast_unknown_size(d, root=root))
    res = run(h, 3, go)
    for r in range(3):
        h.eq("received by %d" % r, res[r], np.asarray(x, dtype=object))


@harness("C06", "repeated", devices=2, bounds="2 devices; three consecutive reductions with different batch sizes and data "
         "types")
def repeated(h):
    import jVMC.mpi_wrapper as mpi
    x1, x2 = h.real("x1", (2, 2, 1)), h.cplx("x2", (2, 1, 2))
    k = h.cat("k", 3, (2, 3))
    o = lambda v: np.asarray(v, dtype=object)
    h.eq("real", mpi.global_sum(h.jx(x1)), o(x1).sum(axis=(0, 1)))
    h.eq("complex", mpi.global_sum(h.jx(x2)), o(x2).sum(axis=(0, 1)))
    h.eq("integers", mpi.global_sum(h.jx(k, np.int64)), o(o(k).sum()))
    h.eq("real again", mpi.global_sum(h.jx(x1)), o(x1).sum(axis=(0, 1)))
