"""C10: what a call of the Monte Carlo sampler returns."""
import numpy as np

from vp.harness import harness
from vp.util import basis, make_psi, select, conf_index, exp
from checks.c06_reductions import run
from checks.c08_exact import re

o = lambda v: np.asarray(v, dtype=object)
_nets = {}


def generator_net(L, d=2):
    """a generator: log-amplitudes are a table of free parameters, sampling draws a basis state"""
    if (L, d) in _nets:
        return _nets[L, d]
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    class TableGenerator(nn.Module):
        def setup(self):
            init = nn.initializers.normal(0.3)
            self.re = self.param("a_re", init, (d ** L,), jnp.float64)
            self.im = self.param("b_im", init, (d ** L,), jnp.float64)
            self.w = jnp.array([d ** (L - 1 - i) for i in range(L)])

        def __call__(self, s):
            i = jnp.sum(s.ravel().astype(jnp.int64) * self.w)
            return self.re[i] + 1.j * self.im[i]

        def sample(self, numSamples, key):
            def one(k):
                i = jax.random.categorical(k, 2 * self.re)
                return jnp.array(basis(L, d), dtype=np.int32)[i]
            return jax.vmap(one)(jax.random.split(key, numSamples))
    _nets[L, d] = TableGenerator()
    return _nets[L, d]


def make_gen(h, name, L, d=2, orbit=None, avg=None):
    import jVMC
    import jVMC.global_defs as gd
    import jax.numpy as jnp
    kw = {} if orbit is None else {"orbit": orbit}
    if avg is not None:
        kw["avgFun"] = avg
    psi = jVMC.vqs.NQS(generator_net(L, d), **kw)
    psi(jnp.zeros((gd.device_count(), 1, L), dtype=np.int32))
    re_, im = h.real(name + ".re", (d ** L,)), h.real(name + ".im", (d ** L,))
    p = {"a_re": h.jx(re_), "b_im": h.jx(im)}
    psi.params = p if orbit is None else {"net": p}
    return psi, re_ + 1j * im


def lcm(a, b):
    return int(np.lcm(a, b))


def results(h, L=2, d=2, ndev=1, ranks=1, chains=1, N=3, multipleOf=1, mu=2, lpf=0.5, shape=None, gen=False,
            given=False, default=None, calls=1, therm=0, sweep=1, batch=1000):
    import jax
    import jax.numpy as jnp
    import jVMC
    from jVMC.sampler import MCSampler
    from vp import draws
    sh = (L,) if shape is None else shape
    tabs, other = [], []

    def one(r):
        if gen:
            psi, tab = make_gen(h, "psi", L, d)
        else:
            psi, tab = make_psi(h, "psi", L, d, shape=shape, batchSize=batch)
        tabs.append(tab)
        prop = {} if gen else {"updateProposer": jVMC.sampler.propose_spin_flip}
        sm = MCSampler(psi, sh, jax.random.PRNGKey(3), numChains=chains, thermalizationSweeps=therm,
                       sweepSteps=sweep, mu=mu, logProbFactor=lpf, numSamples=5 if default is None else default, **prop)
        kw = {"multipleOf": multipleOf} if multipleOf != 1 else {}
        if given:
            pr, pi = h.real("given.re", (d ** L,)), h.real("given.im", (d ** L,))
            other.append(pr + 1j * pi)
            kw["parameters"] = jnp.concatenate([h.jx(pr), h.jx(pi)])
        before = h.np(psi.get_parameters())
        out = []
        for c in range(calls):
            if default is None:
                out.append(sm.sample(numSamples=N, **kw))
            else:
                if default != N:
                    sm.set_number_of_samples(N)
                out.append(sm.sample(**kw))
        return out, sm.get_last_number_of_samples(), before, h.np(psi.get_parameters())
    with draws.free(h):
        res = run(h, ranks, one)
    tab = list((other if given else tabs)[0])
    unit = lcm(1 if gen else chains, multipleOf)
    for c in range(calls):
        num = 0
        ws = []
        for out, last, before, after in res:
            s, lp, p = (h.np(x) for x in out[c])
            n = s.shape[1]
            h.true("shapes", s.shape == (ndev, n) + sh and lp.shape == p.shape == (ndev, n))
            h.true("samples per device are a multiple of the unit", n % unit == 0)
            num += ndev * n
            so = s.reshape((-1, L))
            h.true("configurations valid", [sum((v == k) if not isinstance(v, (int, np.integer)) else int(v == k)
                                                for k in range(d)) == 1 for v in so.reshape(-1)])
            h.eq("log-amplitudes", lp.reshape(-1), o([select(tab, conf_index(x, d)) for x in so]))
            if gen:
                ws += [1] * (ndev * n)
            else:
                ws += [exp((1 / lpf - mu) * re(select(tab, conf_index(x, d)))) for x in so]
            h.eq("parameters restored", after, before)
        tot = sum(ws)
        k = 0
        for out, last, before, after in res:
            p = h.np(out[c][2]).reshape(-1)
            h.eq("weights", p, o([w / tot for w in ws[k:k + len(p)]]))
            k += len(p)
            if c == calls - 1:
                h.true("reported number of samples", int(last) == num)
        h.true("at least the requested number of samples", num >= N)
        h.true("no more than one extra unit per device", num < N + ranks * ndev * unit)


def reg(name, bounds, devices=1, weight=1, tiers=("quick", "thorough"), **kw):
    harness("C10", name, devices=devices, nojit=True, weight=weight, tiers=tiers,
            bounds=bounds + "; all outcomes of the random draws, arbitrary complex log-amplitudes")(
        lambda h: results(h, ndev=devices, **kw))


reg("two_samples", "2 spins, 2 samples", N=2)
reg("three_chains", "1 spin, 4 samples from 3 chains", L=1, N=4, chains=3)
reg("mu1", "1 spin, 3 samples, exponent 1", L=1, N=3, mu=1)
reg("mu1_mpi", "1 spin, 3 samples, exponent 1, 2 processes with unequal shares", L=1, N=3, mu=1, ranks=2)
reg("mu05_dev_mpi", "1 spin, 4 samples, exponent 1/2, 2 processes x 2 devices", 2, L=1, N=4, mu=0.5, ranks=2)
reg("mu0_povm", "1 site, 2 samples, exponent 0, probability factor 1", L=1, N=2, mu=0, lpf=1.0)
reg("mu1_lpf", "2 spins, 2 samples, exponent 1, probability factor 1", N=2, mu=1, lpf=1.0)
reg("lattice", "1x2 lattice, 2 samples on 2 devices, exponent 1", 2, L=2, N=2, mu=1, shape=(1, 2))
reg("batched", "1 spin, 3 samples, batch size 2, exponent 1", L=1, N=3, mu=1, batch=2)
reg("given_parameters", "1 spin, 3 samples at given parameters, exponent 1", L=1, N=3, mu=1, given=True)
reg("given_parameters_mpi", "1 spin, 3 samples at given parameters, exponent 1, 2 processes, two calls", L=1, N=3, mu=1,
    given=True, ranks=2, calls=2)
reg("default_number", "1 spin, default number of samples (2)", L=1, N=2, default=2, mu=1)
reg("set_number", "1 spin, number of samples set to 3, two calls", L=1, N=3, default=2, mu=1, calls=2)
reg("multiple_of_2", "1 spin, 3 samples, multiple of 2", L=1, N=3, multipleOf=2, mu=1)
reg("multiple_of_3_chains2", "1 spin, 4 samples, multiple of 3, 2 chains", L=1, N=4, multipleOf=3, chains=2, mu=1)
reg("multiple_of_2_chains2", "1 spin, 2 samples, multiple of 2, 2 chains", L=1, N=2, multipleOf=2, chains=2, mu=1)
reg("multiple_of_2_dev_mpi", "1 spin, 5 samples, multiple of 2, 2 processes x 2 devices", 2, L=1, N=5, multipleOf=2, ranks=2, mu=1)
reg("generator", "2 spins, 3 samples from a generator", N=3, gen=True)
reg("generator_dev", "2 spins, 3 samples from a generator on 2 devices, two calls", 2, N=3, gen=True, calls=2)
reg("generator_mpi_dev", "1 spin, 5 samples from a generator on 2 processes x 2 devices", 2, L=1, N=5, gen=True, ranks=2)
reg("generator_given", "2 spins, 2 samples from a generator at given parameters", N=2, gen=True, given=True)
reg("generator_multiple_of", "2 spins, 3 samples from a generator, multiple of 2", N=3, gen=True, multipleOf=2)
reg("generator_multiple_of_mpi", "1 spin, 4 samples from a generator, multiple of 3, 2 processes", L=1, N=4, gen=True,
    multipleOf=3, ranks=2)
