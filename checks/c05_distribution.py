"""C05: distribution of samples over processes, devices and chains."""
import numpy as np

from vp.harness import harness
from vp.symint import integers

MW = (integers("jVMC.mpi_wrapper"),)


def per_rank(h, ranks, fn):
    """fn() evaluated as each of the processes"""
    from vp import mpisim
    return mpisim.run(h, ranks, lambda r: fn())


def _cover(h, ranks):
    import jVMC.mpi_wrapper as mpi
    N = h.int("numSamples", 0, 10 ** 9)

    def go():
        n, g = mpi.distribute_sampling(N)
        return n, g, mpi.first_sample_id()
    res = per_rank(h, ranks, go)
    at = 0
    for r, (n, g, f) in enumerate(res):
        h.true("reported total", g == N)
        h.true("rank %d starts where the previous one ends" % r, f == at)
        h.true("even split", (n >= N // ranks) & (n <= N // ranks + 1))
        at = at + n
    h.true("all samples distributed", at == N)


for _k in (1, 2, 3, 5, 8):
    harness("C05", "cover_%d" % _k, bounds="%d processes, any number of samples up to 10^9: the processes' index ranges "
            "are contiguous, disjoint and cover everything" % _k, contexts=MW)(lambda h, k=_k: _cover(h, k))


def _chains(h, ranks, dev, chains=None):
    import jVMC.mpi_wrapper as mpi
    N = h.int("numSamples", 1, 10 ** 6)
    ch = chains if chains is not None else h.int("chains", 1, 512)
    res = per_rank(h, ranks, lambda: mpi.distribute_sampling(N, localDevices=dev, numChainsPerDevice=ch))
    tot = 0
    nc = dev * ch
    for r, (n, g) in enumerate(res):
        tot = tot + n * nc
        share = N // ranks + (1 if r == 0 else 0)
        h.true("no chain oversamples by a full sweep", (n - 1) * nc < N // ranks + 1)
    for r, (n, g) in enumerate(res):
        h.true("reported total is what the chains generate", g == tot)
    h.true("at least the requested number", tot >= N)


for _r, _d, _c in ((1, 1, None), (2, 1, None), (1, 2, None), (3, 2, 7), (4, 8, 3), (8, 1, 10), (2, 4, 100), (5, 3, 1)):
    harness("C05", "chains_%d_%d_%s" % (_r, _d, _c or "any"), bounds="%d processes, %d devices, %s chains per device, any "
            "number of samples in 1..10^6" % (_r, _d, _c or "any number (1..512) of"),
            contexts=MW)(lambda h, r=_r, d=_d, c=_c: _chains(h, r, d, c))
