"""C13: lattice symmetries and symmetrised wave functions."""
import copy
import itertools
import warnings

import numpy as np

from vp.harness import harness
from vp.util import basis, samples, select, conf_index, delta, table_net, exp
from checks.c10_samples import generator_net, make_gen
from checks.c06_reductions import run

o = lambda v: np.asarray(v, dtype=object)


# independent description of the symmetry operations: maps of sites (as permutations) and their phase factors
def ops_1d(L, sym, fac):
    """[(permutation p with (gs)_i = s_{p[i]}, spin flip?, factor)]"""
    T = [(x, fac.get("translation", 1) ** x) for x in range(L)] if "translation" in sym else [(0, 1)]
    R = [(0, 1), (1, fac.get("reflection", 1))] if "reflection" in sym else [(0, 1)]
    F = [(0, 1), (1, fac.get("spinflip", 1))] if "spinflip" in sym else [(0, 1)]
    out = {}
    for (t, a), (r, b), (f, c) in itertools.product(T, R, F):
        p = tuple(((L - 1 - i) if r else i) for i in range(L))
        p = tuple(p[(i - t) % L] for i in range(L))
        out.setdefault((p, f), a * b * c)
    return out


def ops_2d(L, sym, fac):
    T = [((x, y), fac.get("translation", 1) ** (x + y)) for x in range(L) for y in range(L)] if "translation" in sym else [((0, 0), 1)]
    M = [(0, 1)]
    if "reflection" in sym:
        M = [(0, 1), (1, fac.get("reflection", 1)), (2, fac.get("reflection", 1)), (3, 1)]
    R = [(k, fac.get("rotation", 1) ** k) for k in range(4)] if "rotation" in sym else [(0, 1)]
    F = [(0, 1), (1, fac.get("spinflip", 1))] if "spinflip" in sym else [(0, 1)]
    out = {}
    idx = np.arange(L * L).reshape((L, L))
    for (t, a), (m, b), (k, c), (f, e) in itertools.product(T, M, R, F):
        q = np.rot90(idx, -k)   # sense of rotation as implemented (the documentation leaves it open)
        if m & 1:
            q = q[::-1, :]
        if m & 2:
            q = q[:, ::-1]
        q = np.roll(q, (t[1], t[0]), axis=(0, 1))
        out.setdefault((tuple(int(v) for v in q.reshape(-1)), f), a * b * c * e)
    return out


def act(g, s):
    p, f = g
    s = o(s).reshape(-1)
    return o([(1 - s[i]) if f else s[i] for i in p])


def orbit_of(L, dim, sym, fac):
    import jVMC
    from jVMC.util import symmetries as S
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {k + "_factor": v for k, v in fac.items()}
        return (S.get_orbit_1D if dim == 1 else S.get_orbit_2D_square)(L, *sym, **kw)


def group(h, L, dim, sym, fac):
    """the orbit holds every symmetry operation once, with its factor, and is a group"""
    orb = orbit_of(L, dim, sym, fac)
    want = (ops_1d if dim == 1 else ops_2d)(L, sym, fac)
    n = L ** dim
    M, F = np.array(orb.orbit), np.array(orb.factor)
    h.true("shapes", M.shape == (len(want), n, n) and F.shape == (len(want),))
    s = h.cat("s", 2, (n,))
    spin = o([2 * v - 1 for v in s])
    got = {}
    for m, f in zip(M, F):
        rows = []
        sg = set()
        for i in range(n):
            nz = np.nonzero(m[i])[0]
            rows.append(int(nz[0]) if len(nz) == 1 else -1)
            sg.add(int(m[i][nz[0]]) if len(nz) == 1 else 0)
        key = (tuple(rows), 1 if sg == {-1} else 0)
        h.true("signed permutation", len(sg) == 1 and 0 not in sg and sorted(rows) == list(range(n)))
        h.true("listed once", key not in got)
        got[key] = f
        # action on an arbitrary configuration
        h.eq("action", o(m).dot(spin), o([2 * v - 1 for v in act(key, s)]))
    h.true("exactly the requested operations", set(got) == set(want))
    for k in want:
        h.near("factor", o([got[k]]), o([want[k]]), 1e-9)


def symmetrised(h, L, dim, sym, fac, avg="exp", cpx=True, ndev=1, net=None):
    import jax.numpy as jnp
    import jVMC
    from jVMC.nets import sym_wrapper as W
    n = L ** dim
    sh = (L,) * dim
    orb = orbit_of(L, dim, sym, fac)
    fun = {"exp": W.avgFun_Coefficients_Exp, "log": W.avgFun_Coefficients_Log, "sep": W.avgFun_Coefficients_Sep}[avg]
    psi = jVMC.vqs.NQS(table_net(n, 2, cpx), batchSize=4, orbit=orb, **({} if avg == "exp" else {"avgFun": fun}))
    psi(jnp.zeros((ndev, 1) + sh, dtype=np.int32))
    re = h.real("re", (2 ** n,))
    par, tab = {"a_re": h.jx(re)}, re
    if cpx:
        im = h.real("im", (2 ** n,))
        par["b_im"] = h.jx(im)
        tab = re + 1j * im
    psi.params = {"net": par}
    ops = (ops_1d if dim == 1 else ops_2d)(L, sym, fac)
    G = list(ops)
    s0 = h.cat("s", 2, (n,))
    confs = [s0] + [act(g, s0) for g in G]
    while len(confs) % ndev:
        confs.append(s0)
    s = h.jx(o(confs).reshape((ndev, -1) + sh), np.int32)
    v = h.np(psi(s)).reshape(-1)
    tabl = list(tab)
    terms = [(ops[g], select(tabl, conf_index(act(g, s0)))) for g in G]
    if avg == "exp":
        # the symmetrised amplitude, up to the (irrelevant) normalisation by the number of operations
        h.eq("projection", o([exp(v[0])]), o([sum(f * exp(a) for f, a in terms)]))
        h.eq("symmetry sector", o([exp(x) * ops[g] for g, x in zip(G, v[1:])]), o([exp(v[0]) for g in G]))
    else:
        h.eq("invariant", v[1:1 + len(G)], o([v[0]] * len(G)))
        if avg == "log":
            h.eq("average of the logarithms", o([v[0]]), o([sum(a for f, a in terms) * (1 / len(G))]))
        else:
            h.eq("average probability", o([exp(v[0] + conj(v[0]))]),
                 o([sum(exp(a + conj(a)) for f, a in terms) * (1 / len(G))]))


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else np.conj(x)


def sampling(h, L, sym, ndev=1, ranks=1, n=1, calls=1):
    """samples of a symmetrised generator: its distribution averaged over the orbit"""
    import jax
    import jVMC
    from jVMC.sampler import MCSampler
    from jVMC.nets.sym_wrapper import avgFun_Coefficients_Sep
    from vp import draws
    orb = orbit_of(L, 1, sym, {})
    tabs, base = [], {}

    def go():
        def one(r):
            if r not in base:
                psi, tab = make_gen(h, "psi", L, orbit=orb, avg=avgFun_Coefficients_Sep)
                tabs.append(tab)
                base[r] = MCSampler(psi, (L,), jax.random.PRNGKey(3), numSamples=n * ndev * ranks)
            sampler = copy.copy(base[r])
            return np.concatenate([h.np(sampler.sample()[0]).reshape((-1, L)) for _ in range(calls)])
        res = run(h, ranks, one)
        confs = [c for r in res for c in r]
        out = []
        for ts in itertools.product(basis(L), repeat=len(confs)):
            v = 1
            for c, t in zip(confs, ts):
                v = v * delta(c, t)
            out.append(v)
        return o(out)
    got = draws.expect(h, go)
    tab = list(tabs[0])
    w = [exp(a + conj(a)) for a in tab]
    Z = sum(w)
    ops = ops_1d(L, sym, {})
    q = []
    for t in basis(L):
        q.append(sum(w[int(conf_index(act(g, t)))] for g in ops) / Z * (1 / len(ops)))
    want = []
    for ts in itertools.product(range(2 ** L), repeat=n * ndev * ranks * calls):
        v = 1
        for t in ts:
            v = v * q[t]
        want.append(v)
    h.eq("distribution of the samples", got, o(want))
    h.true("no random key serves two draws", draws.no_reuse(h))


A = [("translation",), ("reflection",), ("spinflip",), ("translation", "reflection"),
     ("translation", "reflection", "spinflip"), ()]
for _L in (1, 2, 3, 4, 5):
    for _s in A:
        harness("C13", "group_1d_L%d_%s" % (_L, "_".join(x[0] for x in _s) or "trivial"),
                bounds="chain of %d sites, symmetries %s, every configuration" % (_L, _s or "none"))(
            lambda h, L=_L, s=_s: group(h, L, 1, s, {}))
harness("C13", "group_1d_momentum", bounds="chain of 4 sites, momentum pi and odd parity, odd under spin flip")(
    lambda h: group(h, 4, 1, ("translation", "reflection", "spinflip"), {"translation": -1., "reflection": -1., "spinflip": -1.}))
harness("C13", "group_1d_complex_momentum", bounds="chain of 3 sites, momentum 2 pi/3")(
    lambda h: group(h, 3, 1, ("translation",), {"translation": np.exp(2j * np.pi / 3)}))
for _L in (2, 3, 4):
    for _s in (("translation",), ("rotation",), ("reflection",), ("rotation", "reflection"), ("translation", "spinflip"),
               ("translation", "reflection", "rotation", "spinflip")):
        harness("C13", "group_2d_L%d_%s" % (_L, "_".join(x[:3] for x in _s)),
                tiers=("quick", "thorough") if _L < 4 else ("thorough",),
                bounds="%dx%d lattice, symmetries %s, every configuration" % (_L, _L, _s))(
            lambda h, L=_L, s=_s: group(h, L, 2, s, {}))
harness("C13", "group_2d_sector", bounds="3x3 lattice, all symmetries, odd under reflection, rotation and spin flip")(
    lambda h: group(h, 3, 2, ("reflection", "rotation", "spinflip"), {"reflection": -1., "rotation": -1., "spinflip": -1.}))
for _n, _L, _s, _f in (
        ("rotation_i", 3, ("rotation",), {"rotation": 1j}), ("rotation_i_flip", 2, ("rotation", "spinflip"), {"rotation": 1j, "spinflip": -1.}),
        ("momentum", 2, ("translation", "reflection"), {"translation": -1., "reflection": -1.}),
        ("complex_momentum", 3, ("translation",), {"translation": np.exp(2j * np.pi / 3)}),
        ("momentum4", 4, ("translation", "spinflip"), {"translation": -1., "spinflip": -1.})):
    harness("C13", "group_2d_" + _n, bounds="%dx%d lattice, symmetries %s, factors %s" % (_L, _L, _s, _f))(
        lambda h, L=_L, s=_s, f=_f: group(h, L, 2, s, f))
for _n, _L, _dim, _s, _f, _a in (
        ("square_i", 2, 2, ("rotation",), {"rotation": 1j}, "exp"),
        ("momentum3", 3, 1, ("translation",), {"translation": complex(-0.5, np.sqrt(0.75))}, "exp"),
        ("chain", 3, 1, ("translation", "reflection"), {}, "exp"),
        ("chain4", 4, 1, ("translation", "reflection", "spinflip"), {}, "exp"),
        ("momentum", 4, 1, ("translation",), {"translation": -1.}, "exp"),
        ("odd_parity", 3, 1, ("reflection",), {"reflection": -1.}, "exp"),
        ("odd_spinflip", 2, 1, ("spinflip",), {"spinflip": -1.}, "exp"),
        ("square", 2, 2, ("translation", "reflection", "rotation"), {}, "exp"),
        ("square_odd", 2, 2, ("rotation",), {"rotation": -1.}, "exp"),
        ("chain_log", 3, 1, ("translation", "reflection", "spinflip"), {}, "log"),
        ("square_log", 2, 2, ("translation", "rotation"), {}, "log"),
        ("chain_sep", 3, 1, ("translation", "reflection"), {}, "sep")):
    harness("C13", "symmetrised_" + _n, bounds="%d^%d sites, symmetries %s with factors %s, %s average, every configuration, "
            "arbitrary complex log-amplitudes of the plain network" % (_L, _dim, _s, _f, _a))(
        lambda h, L=_L, dim=_dim, s=_s, f=_f, a=_a: symmetrised(h, L, dim, s, f, a))
harness("C13", "symmetrised_real", bounds="chain of 3 sites, real log-amplitudes")(
    lambda h: symmetrised(h, 3, 1, ("translation",), {}, cpx=False))
harness("C13", "symmetrised_devices", devices=2, bounds="chain of 3 sites, 2 devices, arbitrary complex log-amplitudes")(
    lambda h: symmetrised(h, 3, 1, ("translation", "spinflip"), {}, ndev=2))
harness("C13", "sampling_translation", nojit=True, bounds="2 spins, 1 sample of a translation-symmetric generator, arbitrary amplitudes")(
    lambda h: sampling(h, 2, ("translation",)))
harness("C13", "sampling_all", nojit=True, bounds="3 spins, 1 sample, all symmetries, arbitrary amplitudes")(
    lambda h: sampling(h, 3, ("translation", "reflection", "spinflip")))
harness("C13", "sampling_two", nojit=True, bounds="2 spins, 2 samples of a symmetric generator: independent")(
    lambda h: sampling(h, 2, ("reflection", "spinflip"), n=2))
harness("C13", "sampling_devices", nojit=True, devices=2, bounds="2 spins, 1 sample on each of 2 devices: independent")(
    lambda h: sampling(h, 2, ("translation",), ndev=2))
harness("C13", "sampling_processes", nojit=True, bounds="2 spins, 1 sample on each of 2 processes: independent")(
    lambda h: sampling(h, 2, ("translation",), ranks=2))
harness("C13", "sampling_calls", nojit=True, bounds="2 spins, two calls for 1 sample of a symmetric generator: independent")(
    lambda h: sampling(h, 2, ("translation", "spinflip"), calls=2))
