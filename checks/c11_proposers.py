"""C11: update proposers."""
import itertools
from fractions import Fraction

import numpy as np

from vp.harness import harness
from vp.util import basis, delta
from checks.c09_metropolis import flip

o = lambda v: np.asarray(v, dtype=object)


def propose(h, f, s, shape, d=2, arg=None):
    """distribution of the proposal from the concrete configuration s: {t: probability}, plus invalid outcomes"""
    import jax
    import jax.numpy as jnp
    from vp import draws
    s = np.array(s).reshape(shape)

    def go():
        t = f(jax.random.PRNGKey(5), jnp.array(s, dtype=np.int32), arg)
        c = h.np(t)
        if c.shape != s.shape:
            return o([0] * (d ** s.size))
        return o([delta(c, b) for b in basis(s.size, d)])
    return draws.expect(h, go)


def table(h, f, shape, d, arg=None, states=None):
    n = int(np.prod(shape))
    B = [tuple(b) for b in basis(n, d)]
    states = B if states is None else states
    return {s: dict(zip(B, propose(h, f, s, shape, d, arg))) for s in states}


def check(h, f, shape, d, want, states=None, arg=None):
    from vp import draws
    q = table(h, f, shape, d, arg, states)
    num = (lambda x: x) if h.symbolic else float
    for s in q:
        h.eq("proposal probabilities from %s" % (s,), o(list(q[s].values())), o([num(want(s).get(t, 0)) for t in q[s]]))
    h.true("no random key serves two draws", draws.no_reuse(h))


def symmetric(h, f, shape, d, neighbours, states=None):
    """valid, symmetric, reaches every neighbour"""
    from vp import draws
    q = table(h, f, shape, d, None, states)
    one = 1 if h.symbolic else 1.0
    h.eq("only valid configurations are proposed", o([sum(q[s][t] for t in q) for s in q]), o([one for s in q]))
    ps = list(itertools.combinations(q, 2))
    h.eq("symmetric", o([q[s][t] for s, t in ps]), o([q[t][s] for s, t in ps]))
    h.true("every neighbour can be proposed", [q[s][t] > 0 for s in q for t in neighbours(s)])
    h.true("no random key serves two draws", draws.no_reuse(h))


def flips(L):
    return lambda s: {flip(i)(s): Fraction(1, L) for i in range(L)}


def z2_neighbours(s):
    out = [flip(i)(s) for i in range(len(s))]
    return out + [tuple(1 - x for x in t) for t in out]


def exchange(s):
    up = [i for i in range(len(s)) if s[i]]
    dn = [i for i in range(len(s)) if not s[i]]
    return [tuple(1 - x if i in (a, b) else x for i, x in enumerate(s)) for a in up for b in dn]


B = "all outcomes of the random draws, all configurations"


for _n, _sh in (("1", (1,)), ("3", (3,)), ("2x2", (2, 2)), ("4", (4,))):
    harness("C11", "spin_flip_" + _n, bounds="spin flip on %s sites: %s" % (_n, B), nojit=True)(
        lambda h, sh=_sh: check(h, __import__("jVMC").sampler.propose_spin_flip, sh, 2, flips(int(np.prod(sh)))))
for _n, _sh in (("1", (1,)), ("3", (3,)), ("2x2", (2, 2))):
    harness("C11", "spin_flip_Z2_" + _n, bounds="Z2-symmetric spin flip on %s sites: %s" % (_n, B), nojit=True)(
        lambda h, sh=_sh: symmetric(h, __import__("jVMC").sampler.propose_spin_flip_Z2, sh, 2, z2_neighbours))
for _n, _sh in (("1x2", (1, 2)), ("2x2", (2, 2)), ("2x3", (2, 3)), ("4", (4,))):
    harness("C11", "zero_magnetisation_" + _n, bounds="zero-magnetisation exchange on %s sites: %s of zero magnetisation"
            % (_n, B), nojit=True)(
        lambda h, sh=_sh: symmetric(h, __import__("jVMC").sampler.propose_spin_flip_zeroMag, sh, 2, exchange,
                                    [tuple(b) for b in basis(int(np.prod(sh))) if 2 * sum(b) == np.prod(sh)]))


def povm_neighbours(s):
    return [s[:i] + (k,) + s[i + 1:] for i in range(len(s)) for k in range(4) if k != s[i]]


for _n, _sh in (("1", (1,)), ("2", (2,)), ("1x2", (1, 2))):
    harness("C11", "povm_" + _n, bounds="POVM outcome proposals on %s sites: %s" % (_n, B), nojit=True)(
        lambda h, sh=_sh: symmetric(h, __import__("jVMC").sampler.propose_POVM_outcome, sh, 4, povm_neighbours))
