"""C09: the Markov chain Monte Carlo sampler."""
import copy
import itertools
from fractions import Fraction

import numpy as np

from vp.harness import harness
from vp.util import basis, make_psi, select, conf_index, delta, exp
from vp import poly as P
from checks.c06_reductions import run
from checks.c08_exact import re

o = lambda v: np.asarray(v, dtype=object)


def mn(h, a):
    """min(1, a)"""
    if h.symbolic:
        return P.minimum(P.const(1), P.const(a))
    return min(1.0, float(np.real(a)))


def flip(i):
    return lambda s: tuple(1 - x if k == i else x for k, x in enumerate(s))


def metropolis(h, tab, mu, q, L, d=2):
    """transition matrix of one Metropolis step: q(s) -> {t: proposal probability}"""
    B = [tuple(b) for b in basis(L, d)]
    ix = {b: i for i, b in enumerate(B)}
    T = [[0] * len(B) for _ in B]
    for s in B:
        stay = 0
        for t, p in q(s).items():
            if t == s:
                stay = stay + p
                continue
            acc = mn(h, exp(mu * (re(tab[ix[t]]) - re(tab[ix[s]]))))
            T[ix[s]][ix[t]] = T[ix[s]][ix[t]] + p * acc
            stay = stay + p * (1 - acc)
        T[ix[s]][ix[s]] = T[ix[s]][ix[s]] + stay
    return T


def acceptance(h, tab, mu, q, s, L, d):
    """probability that a proposal from s is accepted"""
    ix = {tuple(b): i for i, b in enumerate(basis(L, d))}
    s = tuple(s)
    out = 0
    for t, p in q(s).items():
        out = out + p * (1 if t == s else mn(h, exp(mu * (re(tab[ix[t]]) - re(tab[ix[s]])))))
    return out


def spinflip(L):
    return lambda s: {flip(i)(s): Fraction(1, L) for i in range(L)}


def joint(h, confs, L, d=2):
    """indicator vector over joint configurations of the given samples"""
    out = []
    per = [[delta(c, t) for t in basis(L, d)] for c in confs]
    for ts in itertools.product(range(d ** L), repeat=len(confs)):
        v = 1
        for k, t in enumerate(ts):
            v = v * per[k][t]
        out.append(v)
    return o(out)


def kernel(h, L, init, mu=2, lpf=0.5, chains=1, ndev=1, sweep=1, therm=0, nsweeps=1, proposer=None, d=2, q=None,
           shape=None, calls=1, ranks=1, prep=None):
    import jax
    import jax.numpy as jnp
    import jVMC
    from jVMC.sampler import MCSampler
    from vp import draws
    tabs, bases, pre = [], {}, []
    proposer = proposer or jVMC.sampler.propose_spin_flip
    sh = (L,) if shape is None else shape

    def one_process(r):
        if r not in bases:
            psi, tab = make_psi(h, "psi", L, d, shape=shape)
            tabs.append(tab)
            bases[r] = MCSampler(psi, sh, jax.random.PRNGKey(17), updateProposer=proposer, numChains=chains,
                                 numSamples=chains * ndev * nsweeps * ranks, thermalizationSweeps=therm,
                                 sweepSteps=sweep, initState=jnp.array(init, dtype=np.int32).reshape(sh), mu=mu,
                                 logProbFactor=lpf)
        sm = copy.copy(bases[r])
        if prep is not None:
            prep(sm)
        out = []
        for _ in range(calls):
            s, _, _ = sm.sample()
            out.append(h.np(s).reshape((ndev, nsweeps, chains, L)))
        a = np.concatenate(out, axis=1)
        # one list of configurations per chain
        return [a[d_, k, c] for d_ in range(ndev) for c in range(chains) for k in range(a.shape[1])], sm.acceptance_ratio()

    def go():
        res = run(h, ranks, one_process)
        confs = [c for r in res for c in r[0]]
        return np.concatenate([joint(h, confs, L, d), h.np(res[0][1]).reshape(-1)])
    got = draws.expect(h, go)
    tab = tabs[0]
    T = metropolis(h, tab, mu, q or spinflip(L), L, d)
    one, rep = matpow(T, sweep), matpow(T, therm * sweep)
    s0 = [tuple(b) for b in basis(L, d)].index(tuple(init))
    first = matmul(rep, one)
    # probability of the sequence of samples of one chain
    n = nsweeps * calls

    def chain(ts):
        p, at = first[s0][ts[0]], ts[0]
        for k, t in enumerate(ts[1:], 1):
            p = p * ((first if therm and k % nsweeps == 0 else one)[at][t])
            at = t
        return p
    want = []
    for ts in itertools.product(range(d ** L), repeat=n * chains * ndev * ranks):
        p = 1
        for c in range(chains * ndev * ranks):
            p = p * chain(ts[c * n:(c + 1) * n])
        want.append(p if h.symbolic else float(p))
    h.eq("distribution of the samples", got[:-1], o(want))
    # expected fraction of accepted proposals in the last call
    acc = [acceptance(h, tab, mu, q or spinflip(L), b, L, d) for b in basis(L, d)]
    steps = sweep * (therm + nsweeps)
    at = [1 if i == s0 else 0 for i in range(d ** L)]
    for _ in range((calls - 1) * steps):
        at = [sum((at[i] * T[i][j] for i in range(len(T)) if not zero(at[i]) and not zero(T[i][j])), 0) for j in range(len(T))]
    tot = 0
    for _ in range(steps):
        tot = tot + sum((at[i] * acc[i] for i in range(len(T)) if not zero(at[i])), 0)
        at = [sum((at[i] * T[i][j] for i in range(len(T)) if not zero(at[i]) and not zero(T[i][j])), 0) for j in range(len(T))]
    h.eq("acceptance ratio", got[-1:], o([tot * (1 / steps) if not h.symbolic else tot / steps]))
    h.true("no random key serves two draws", draws.no_reuse(h))


def matmul(A, B):
    n = len(A)
    return [[sum((A[i][k] * B[k][j] for k in range(n) if not zero(A[i][k]) and not zero(B[k][j])), 0) for j in range(n)]
            for i in range(n)]


def zero(x):
    return isinstance(x, (int, float)) and x == 0


def matpow(T, k):
    out = [[1 if i == j else 0 for j in range(len(T))] for i in range(len(T))]
    for _ in range(k):
        out = matmul(out, T)
    return out



def reg(name, bounds, devices=1, allinit=False, tiers=("quick", "thorough"), weight=1, **kw):
    def f(h):
        import jVMC
        k = dict(kw)
        if allinit:
            k["init"] = h.choose("init", [tuple(b) for b in basis(k["L"])])
        kernel(h, ndev=devices, **k)
    harness("C09", name, devices=devices, nojit=True, weight=weight, tiers=tiers,
            bounds=bounds + ", arbitrary complex log-amplitudes")(f)


reg("one_step", "2 spins, one step from every configuration", L=2, allinit=True)
reg("one_step_3", "3 spins, one step", L=3, init=(0, 1, 0))
reg("one_step_2d", "1x2 lattice, one step", L=2, init=(0, 1), shape=(1, 2))
reg("sweep", "1 spin, sweeps of 2 steps", L=1, init=(0,), sweep=2)
reg("sweep_2", "2 spins, sweep of 2 steps", L=2, init=(0, 1), sweep=2)
reg("thermalise", "1 spin, 1 thermalisation sweep of 2 steps, then one sample", L=1, init=(1,), therm=1, sweep=2)
reg("sequence", "1 spin, two consecutive samples of one chain", L=1, init=(0,), nsweeps=2)
reg("sequence_2", "2 spins, two consecutive samples of one chain", L=2, init=(0, 0), nsweeps=2)
reg("calls", "1 spin, two calls of the sampler, 2 samples each: the chain is continued", L=1, init=(0,), nsweeps=2, calls=2)
reg("calls_thermalised", "1 spin, two calls with thermalisation", L=1, init=(0,), therm=1, calls=2)
reg("chains", "1 spin, 3 chains: independent", L=1, init=(0,), chains=3)
reg("chains_2", "2 spins, 2 chains: independent", L=2, init=(0, 1), chains=2)
reg("devices", "1 spin, 2 devices x 2 chains: independent", 2, L=1, init=(0,), chains=2)
reg("processes", "1 spin, 2 processes x 2 chains: independent", L=1, init=(0,), chains=2, ranks=2)
reg("processes_devices", "1 spin, 2 processes x 2 devices: independent", 2, L=1, init=(0,), ranks=2)
reg("mu1", "2 spins, exponent 1", L=2, init=(0, 1), mu=1)
reg("mu05", "2 spins, exponent 1/2", L=2, init=(0, 1), mu=0.5)
reg("mu0", "2 spins, exponent 0 (uniform distribution)", L=2, init=(0, 1), mu=0)
reg("povm_exponent", "2 spins, exponent 1 and probability factor 1", L=2, init=(0, 1), mu=1, lpf=1.0)


def _setkey(sm):
    import jax
    sm.set_random_key(jax.random.PRNGKey(3))


reg("set_key_processes", "1 spin, 2 processes x 2 chains after setting a random key: independent", L=1, init=(0,),
    chains=2, ranks=2, prep=_setkey)
reg("set_key_devices", "1 spin, 2 devices x 2 chains after setting a random key: independent", 2, L=1, init=(0,),
    chains=2, prep=_setkey)
