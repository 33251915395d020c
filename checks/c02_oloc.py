"""C02: local estimators."""
import numpy as np

from vp.harness import harness
from vp.util import basis, select, samples, make_psi, conf_index, exp
import sys


def std(name, i):
    return {"Sx": (i, [1, 0], [1, 1]), "Sz": (i, [0, 1], [-1, 1]), "Sy": (i, [1, 0], [1j, -1j]),
            "Sp": (i, [1, 0], [1, 0])}[name]


def oloc(terms, tab, s, log=True):
    """sum_s' O_{s,s'} psi(s')/psi(s)"""
    s = np.array(s, dtype=object).reshape(-1)
    out = 0
    ps = select(tab, conf_index(s))
    for pref, ops in terms:
        m, sp = pref, list(s)
        for idx, mp, me in reversed(ops):
            m = m * select(me, sp[idx])
            sp[idx] = select(mp, sp[idx])
        pp = select(tab, conf_index(sp))
        out = out + m * (exp(pp - ps) if log else pp / ps)
    return out


def build(h, L, g):
    import jVMC.operator as op
    H = op.BranchFreeOperator()
    terms = []
    H.add(op.scal_opstr(h.jx(g[0]), (op.Sz(0),) if L == 1 else (op.Sz(0), op.Sz(1))))
    terms.append((g[0], [std("Sz", 0)] if L == 1 else [std("Sz", 0), std("Sz", 1)]))
    H.add(op.scal_opstr(h.jx(g[1]), (op.Sx(0),)))
    terms.append((g[1], [std("Sx", 0)]))
    if L > 1:
        H.add((op.Sp(1),))
        terms.append((1, [std("Sp", 1)]))
    return H, terms


def expected(terms, tab, so, log=True):
    out = np.empty(so.shape[:2], dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = oloc(terms, tab, so[i], log)
    return out


@harness("C02", "unbatched", devices=2, bounds="2 sites, 2 devices x 1 sample, arbitrary complex log-amplitudes, "
         "arbitrary couplings in [0.5,2]")
def unbatched(h):
    s, so = samples(h, "s", 2, 1, 2)
    psi, tab = make_psi(h, "psi", 2)
    H, terms = build(h, 2, h.real("g", (2,), 0.5, 2))
    h.eq("O_loc", H.get_O_loc(s, psi, psi(s)), expected(terms, tab, so))


@harness("C02", "default_logpsi", bounds="2 sites, 2 samples; amplitudes evaluated by the operator itself")
def default_logpsi(h):
    s, so = samples(h, "s", 1, 2, 2)
    psi, tab = make_psi(h, "psi", 2)
    H, terms = build(h, 2, h.real("g", (2,), 0.5, 2))
    h.eq("O_loc", H.get_O_loc(s, psi), expected(terms, tab, so))


def _batched(h, n, b, cpx=True, log=True, given=True):
    import jVMC.operator as op
    import jax.numpy as jnp
    s, so = samples(h, "s", 1, n, 1)
    psi, tab = make_psi(h, "psi", 1, cpx=cpx, logarithmic=log)
    g = h.real("g", (2,), 0.5, 2)
    H, terms = build(h, 1, g)
    H.ElocBatchSize = b
    if given:
        ls = psi(s) if log else jnp.log(psi(s))
        r = H.get_O_loc(s, psi, ls)
    else:
        r = H.get_O_loc(s, psi)
    h.eq("O_loc", r, expected(terms, tab, so, log))


@harness("C02", "batched_7_4", bounds="1 site, 7 samples in batches of 4 (remainder batch), arbitrary log-amplitudes")
def batched_7_4(h):
    _batched(h, 7, 4)


@harness("C02", "batched_5_2", bounds="1 site, 5 samples in batches of 2")
def batched_5_2(h):
    _batched(h, 5, 2)


@harness("C02", "batched_4_2", bounds="1 site, 4 samples in batches of 2, amplitudes evaluated by the operator")
def batched_4_2(h):
    _batched(h, 4, 2, given=False)


@harness("C02", "batched_2_5", bounds="1 site, 2 samples, batch size larger than the sample")
def batched_2_5(h):
    _batched(h, 2, 5)


@harness("C02", "plain_amplitudes", bounds="2 sites, 1 sample, network returning plain amplitudes")
def plain_amplitudes(h):
    import jax.numpy as jnp
    s, so = samples(h, "s", 1, 1, 2)
    psi, tab = make_psi(h, "psi", 2, logarithmic=False)
    H, terms = build(h, 2, h.real("g", (2,), 0.5, 2))
    h.eq("O_loc", H.get_O_loc(s, psi, jnp.log(psi(s))), expected(terms, tab, so, False))


@harness("C02", "plain_amplitudes_default", bounds="1 site, 2 samples, network returning plain amplitudes, "
         "amplitudes evaluated by the operator")
def plain_amplitudes_default(h):
    _batched(h, 2, -1, log=False, given=False)


@harness("C02", "plain_batched_7_4", bounds="1 site, 7 samples in batches of 4, network returning plain amplitudes")
def plain_batched_7_4(h):
    _batched(h, 7, 4, log=False)


@harness("C02", "estimator_function", bounds="2 sites, one configuration, arbitrary parameters; the returned function "
         "evaluated at other parameters than the stored ones")
def estimator_function(h):
    import jVMC.operator as op
    import jax.numpy as jnp
    s, so = samples(h, "s", 1, 1, 2)
    psi, tab = make_psi(h, "psi", 2)
    H, terms = build(h, 2, h.real("g", (2,), 0.5, 2))
    f = H.get_estimator_function(psi)
    h.eq("estimator", f(psi.parameters, s[0, 0]), np.array(oloc(terms, tab, so[0, 0]), dtype=object))
    re2 = h.real("psi2.re", (4,))
    im2 = h.real("psi2.im", (4,))
    p2 = {"params": {"a_re": h.jx(re2), "b_im": h.jx(im2)}}
    h.eq("estimator, other parameters", f(p2, s[0, 0]), np.array(oloc(terms, re2 + 1j * im2, so[0, 0]), dtype=object))


@harness("C02", "estimator_plain", bounds="1 site, network returning plain amplitudes, estimator function")
def estimator_plain(h):
    s, so = samples(h, "s", 1, 1, 1)
    psi, tab = make_psi(h, "psi", 1, logarithmic=False)
    H, terms = build(h, 1, h.real("g", (2,), 0.5, 2))
    f = H.get_estimator_function(psi)
    h.eq("estimator", f(psi.parameters, s[0, 0]), np.array(oloc(terms, tab, so[0, 0], False), dtype=object))


@harness("C02", "time_dependent", bounds="2 sites, one configuration, two consecutive calls with arbitrary times")
def time_dependent(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    psi, tab = make_psi(h, "psi", 2)
    t = h.real("t", (2,), 0.5, 2)
    c = h.real("c", (), 0.5, 2)
    cj = h.jx(c)
    H = op.BranchFreeOperator()
    H.add(op.scal_opstr(lambda t: cj * t, (op.Sx(0),)))
    H.add((op.Sy(1),))
    for k in range(2):
        terms = [(c * t[k], [std("Sx", 0)]), (1, [std("Sy", 1)])]
        h.eq("O_loc at t%d" % k, H.get_O_loc(s, psi, psi(s), h.jx(t[k])), expected(terms, tab, so))
        f = H.get_estimator_function(psi, h.jx(t[k]))
        h.eq("estimator at t%d" % k, f(psi.parameters, s[0, 0]), np.array(oloc(terms, tab, so[0, 0]), dtype=object))


@harness("C02", "custom_operator", bounds="user-defined operator (X on site 1), 2 sites, 2 samples; local estimator and "
         "estimator function")
def custom_operator(h):
    import jVMC.operator as op
    import jax.numpy as jnp

    class X1(op.Operator):
        def __init__(self):
            super().__init__()

        def compile(self):
            def f(s, *args):
                return jnp.array([s.at[1].set(1 - s[1])]), jnp.array([1.], dtype=np.complex128)
            return f
    s, so = samples(h, "s", 1, 2, 2)
    psi, tab = make_psi(h, "psi", 2)
    H = X1()
    terms = [(1, [std("Sx", 1)])]
    h.eq("O_loc", H.get_O_loc(s, psi, psi(s)), expected(terms, tab, so))
    f = H.get_estimator_function(psi)
    h.eq("estimator", f(psi.parameters, s[0, 0]), np.array(oloc(terms, tab, so[0, 0]), dtype=object))


@harness("C02", "no_connected_states", bounds="operator whose matrix elements vanish for all given configurations: "
         "ladder operator on an arbitrary configuration, 1 site, 2 samples")
def no_connected_states(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 2, 1)
    psi, tab = make_psi(h, "psi", 1)
    H = op.BranchFreeOperator()
    H.add((op.Sp(0),))
    h.eq("O_loc", H.get_O_loc(s, psi, psi(s)), expected([(1, [std("Sp", 0)])], tab, so))


@harness("C02", "batched_any", bounds="1 site, every sample count 1..4 with every batch size 1..6, arbitrary "
         "log-amplitudes and couplings")
def batched_any(h):
    _batched(h, h.choose("samples", [1, 2, 3, 4]), h.choose("batch", [1, 2, 3, 4, 5, 6]))


@harness("C02", "batched_real_network", bounds="1 site, 3 samples in batches of 2, network with real log-amplitudes and "
         "an operator with complex matrix elements")
def batched_real_network(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 3, 1)
    psi, tab = make_psi(h, "psi", 1, cpx=False)
    g = h.real("g", (2,), 0.5, 2)
    H = op.BranchFreeOperator(ElocBatchSize=2)
    H.add(op.scal_opstr(h.jx(g[0]), (op.Sy(0),)))
    H.add(op.scal_opstr(h.jx(g[1]), (op.Sz(0),)))
    terms = [(g[0], [std("Sy", 0)]), (g[1], [std("Sz", 0)])]
    h.eq("O_loc", H.get_O_loc(s, psi, psi(s)), expected(terms, tab, so))


@harness("C02", "batched_real_operator", bounds="1 site, 3 samples in batches of 2, real network and user-defined "
         "operator with real matrix elements")
def batched_real_operator(h):
    import jVMC.operator as op
    import jax.numpy as jnp
    g = h.real("g", (), 0.5, 2)
    gj = h.jx(g)

    class X0(op.Operator):
        def __init__(self):
            super().__init__(ElocBatchSize=2)

        def compile(self):
            def f(s, *args):
                return jnp.array([s.at[0].set(1 - s[0])]), jnp.array([gj])
            return f
    s, so = samples(h, "s", 1, 3, 1)
    psi, tab = make_psi(h, "psi", 1, cpx=False)
    h.eq("O_loc", X0().get_O_loc(s, psi, psi(s)), expected([(g, [std("Sx", 0)])], tab, so))


@harness("C02", "varying_arguments", bounds="user-defined operator called twice with 0, 1 or 2 further arguments each, "
         "with and without argument preprocessor, 1 site, 2 samples in batches of 1, arbitrary argument values")
def varying_arguments(h):
    import jVMC.operator as op
    import jax.numpy as jnp

    class X0(op.Operator):
        def __init__(self, pre):
            super().__init__()
            self.pre = pre

        def compile(self):
            def f(s, *args):
                g = 1.
                for a in args:
                    g = g * a
                return jnp.array([s.at[0].set(1 - s[0])]), jnp.array([g], dtype=np.complex128)
            if self.pre:
                return f, lambda *args: tuple(2. * a for a in args)
            return f
    s, so = samples(h, "s", 1, 2, 1)
    psi, tab = make_psi(h, "psi", 1)
    pre = h.choose("preprocessor", [False, True])
    H = X0(pre)
    H.ElocBatchSize = 1
    t = h.real("t", (2, 2), 0.5, 2)
    for k in range(2):
        n = h.choose("nargs%d" % k, [0, 1, 2])
        args = [h.jx(t[k, i]) for i in range(n)]
        g = 1
        for i in range(n):
            g = g * t[k, i] * (2 if pre else 1)
        h.eq("O_loc call %d" % k, H.get_O_loc(s, psi, psi(s), *args), expected([(g, [std("Sx", 0)])], tab, so))


@harness("C02", "optional_time", bounds="prefactor with default time: three calls with or without the time argument, 1 "
         "site, 1 sample")
def optional_time(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 1)
    psi, tab = make_psi(h, "psi", 1)
    c = h.real("c", (), 0.5, 2)
    cj = h.jx(c)
    t = h.real("t", (3,), 0.5, 2)
    H = op.BranchFreeOperator()
    H.add(op.scal_opstr(lambda t=3.: cj * t, (op.Sx(0),)))
    H.add((op.Sz(0),))
    for k in range(3):
        w = h.choose("given%d" % k, [False, True])
        terms = [(c * (t[k] if w else 3), [std("Sx", 0)]), (1, [std("Sz", 0)])]
        h.eq("O_loc call %d" % k, H.get_O_loc(s, psi, psi(s), *([h.jx(t[k])] if w else [])), expected(terms, tab, so))


@harness("C02", "two_states", bounds="one operator used alternately with two states (log and plain amplitudes) on "
         "samples of different size, 1 site")
def two_states(h):
    s, so = samples(h, "s", 1, 2, 1)
    z, zo = samples(h, "z", 1, 3, 1)
    psi, tab = make_psi(h, "psi", 1)
    phi, tab2 = make_psi(h, "phi", 1, cpx=False)
    H, terms = build(h, 1, h.real("g", (2,), 0.5, 2))
    H.ElocBatchSize = 2
    h.eq("first", H.get_O_loc(s, psi, psi(s)), expected(terms, tab, so))
    h.eq("second", H.get_O_loc(z, phi, phi(z)), expected(terms, tab2, zo))
    h.eq("third", H.get_O_loc(s, psi), expected(terms, tab, so))
