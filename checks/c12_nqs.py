"""C12: variational states - evaluation, parameters, gradients."""
import numpy as np

from vp.harness import harness
from vp.util import make_psi, samples, select, conf_index

o = lambda v: np.asarray(v, dtype=object)
_nets = {}


def net(kind):
    """small networks with several parameter arrays whose output is a polynomial (quadratic in every parameter)"""
    if kind in _nets:
        return _nets[kind]
    import flax.linen as nn
    import jax
    import jax.numpy as jnp

    class Net(nn.Module):
        kind: str

        @nn.compact
        def __call__(self, s):
            cpx = self.kind in ("holo", "nonholo")
            dt = jnp.complex128 if cpx else jnp.float64

            def init(key, shape, dtype):
                v = jax.random.normal(key, shape, jnp.float64)
                return v + 1j * jax.random.normal(jax.random.split(key)[0], shape, jnp.float64) if cpx else v
            x = 2 * s.ravel() - 1
            w = self.param("w", init, (x.size, 2), dt)
            b = self.param("b", init, (2,), dt)
            c = self.param("zc", init, (), dt)
            return formula(self.kind, [[w[j, k] for k in range(2)] for j in range(x.size)], [b[0], b[1]], c,
                           [x[j] for j in range(x.size)])
    _nets[kind] = Net(kind)
    return _nets[kind]


def cj(x):
    import jax.numpy as jnp
    return x.conjugate() if hasattr(x, "conjugate") else jnp.conj(x)


def formula(kind, w, b, c, x):
    y = [b[k] + sum(w[j][k] * x[j] for j in range(len(x))) for k in range(2)]
    if kind == "real":
        return y[0] * y[0] + c * y[1]
    if kind == "cpxout":
        return y[0] * y[0] + 1j * c * y[1] * y[0]
    if kind == "holo":
        return y[0] * y[0] * y[1] + c * c
    return y[0] * cj(y[1]) + 1j * (c + cj(c)) * y[0]


def wavefunction(h, kind, L, ndev, shape=None, batch=1000, two=None):
    """state with free parameters, and its defining function on (parameter tree in the oracle domain, configuration)"""
    import jax.numpy as jnp
    import jVMC
    kinds = [kind] if two is None else [kind, two]
    nets = [net(k) if i == 0 else net(k).clone() for i, k in enumerate(kinds)]
    psi = jVMC.vqs.NQS(nets[0] if two is None else tuple(nets), batchSize=batch)
    sh = (L,) if shape is None else shape
    psi(jnp.zeros((ndev, 1) + sh, dtype=np.int32))
    trees = []
    for i, k in enumerate(kinds):
        mk = h.cplx if k in ("holo", "nonholo") else h.real
        trees.append({"b": mk("b%d" % i, (2,)), "w": mk("w%d" % i, (L, 2)), "zc": mk("c%d" % i)})
    jt = [{k: h.jx(v) for k, v in t.items()} for t in trees]
    psi.params = jt[0] if two is None else {"nets_%d" % i: t for i, t in enumerate(jt)}

    def f(ts, s):
        x = [2 * v - 1 for v in o(s).reshape(-1)]
        out = []
        for t, k in zip(ts, kinds):
            z = o(t["zc"]).reshape(-1)[0]
            out.append(formula(k, o(t["w"]).tolist(), list(o(t["b"])), z, x))
        return out[0] if two is None else out[0] + 1j * out[1]
    return psi, trees, f


def flat(trees, cpx):
    out = []
    for t in trees:
        for k in ("b", "w", "zc"):
            v = o(t[k]).reshape(-1)
            if cpx:
                out += [(z + cj(z)) * 0.5 for z in v] + [(z - cj(z)) * (-0.5j) for z in v]
            else:
                out += list(v)
    return o(out)


def evaluate(h, kind, L=2, n=3, ndev=1, shape=None, batch=1000, two=None):
    import jax
    psi, trees, f = wavefunction(h, kind, L, ndev, shape, batch, two)
    s, so = samples(h, "s", ndev, n, (L,) if shape is None else shape)
    cf = so.reshape((ndev * n, -1))
    v = h.np(psi(s))
    want = o([f(trees, c) for c in cf])
    h.true("shape", v.shape == (ndev, n))
    h.eq("log-amplitudes", v.reshape(-1), want)
    real, par = psi.get_sampler_net()
    got = h.np(jax.vmap(lambda x: real(par, x))(s.reshape((ndev * n,) + s.shape[2:])))
    h.eq("sampler network", got.reshape(-1), o([(w + cj(w)) * 0.5 for w in want]))
    h.eq("parameters unchanged", psi.get_parameters(), flat(trees, kind in ("holo", "nonholo")))


def gradients(h, kind, L=2, n=2, ndev=1, shape=None, batch=1000, two=None, dct=False):
    import jax
    psi, trees, f = wavefunction(h, kind, L, ndev, shape, batch, two)
    s, so = samples(h, "s", ndev, n, (L,) if shape is None else shape)
    cf = so.reshape((ndev * n, -1))
    g = h.np(psi.gradients(s))
    cpx = kind in ("holo", "nonholo")
    K = len(flat(trees, cpx))
    h.true("shape", g.shape == (ndev, n, K))
    g = g.reshape((ndev * n, K))
    # exact derivative of a function quadratic in every parameter
    want = []
    for c in cf:
        row = []
        for i, t in enumerate(trees):
            for k in ("b", "w", "zc"):
                size = o(t[k]).size
                for unit in ((1, 1j) if cpx else (1,)):
                    for e in range(size):
                        vals = []
                        for sg in (1, -1):
                            ts = [dict(x) for x in trees]
                            v = o(t[k]).reshape(-1).copy()
                            v[e] = v[e] + sg * unit
                            ts[i][k] = v.reshape(o(t[k]).shape)
                            vals.append(f(ts, c))
                        row.append((vals[0] - vals[1]) * 0.5)
        want.append(row)
    h.eq("derivatives in the order of the parameter vector", g, o(want))
    if dct:
        gd = psi.gradients_dict(s)
        mp = psi.grad_dict_to_vec_map()
        lv = jax.tree_util.tree_leaves(gd)
        mv = jax.tree_util.tree_leaves(mp)
        h.true("one entry per parameter array", len(lv) == len(mv))
        used = []
        for a, m in zip(lv, mv):
            ix = [int(x) for x in h.np(m).reshape(-1)]
            used += ix
            h.eq("gradient dictionary", h.np(a).reshape((ndev * n, -1)), o(want)[:, ix])
        h.true("every entry of the gradient vector once", sorted(used) == list(range(K)))
    h.eq("parameters unchanged", psi.get_parameters(), flat(trees, cpx))


def parameters(h, kind, L=2, two=None):
    import jax.numpy as jnp
    psi, trees, f = wavefunction(h, kind, L, 1, None, 1000, two)
    cpx = kind in ("holo", "nonholo")
    K = len(flat(trees, cpx))
    h.eq("parameter vector", psi.get_parameters(), flat(trees, cpx))
    h.true("number of parameters", int(psi.numParameters) * (2 if cpx else 1) == K)
    p, d = h.real("p", (K,)), h.real("d", (K,))
    s, so = samples(h, "s", 1, 1, (L,))

    def value(vec):
        vec, ts, at = list(vec), [], 0
        for t in trees:
            q = {}
            for k in ("b", "w", "zc"):
                m = o(t[k]).size
                if cpx:
                    v = [vec[at + i] + 1j * vec[at + m + i] for i in range(m)]
                    at += 2 * m
                else:
                    v = vec[at:at + m]
                    at += m
                q[k] = o(v).reshape(o(t[k]).shape)
            ts.append(q)
        return o([f(ts, so.reshape(-1))])
    psi.update_parameters(h.jx(d))
    h.eq("update adds", psi.get_parameters(), flat(trees, cpx) + d)
    h.eq("state after update", psi(s), value(flat(trees, cpx) + d).reshape((1, 1)))
    psi.set_parameters(h.jx(p))
    h.eq("set replaces", psi.get_parameters(), p)
    h.eq("state after set", psi(s), value(p).reshape((1, 1)))
    old = psi.params
    psi.update_parameters(h.jx(d))
    h.eq("update after set", psi.get_parameters(), p + d)
    psi.params = old
    h.eq("parameters restored from a saved tree", psi.get_parameters(), p)
    h.eq("state at the restored parameters", psi(s), value(p).reshape((1, 1)))


def table(h, L, n, ndev, batch, d=2, shape=None):
    """arbitrary functions of the configuration: every sample gets the value of its own configuration"""
    psi, tab = make_psi(h, "psi", L, d, batchSize=batch, shape=shape)
    s, so = samples(h, "s", ndev, n, (L,) if shape is None else shape, d)
    want = [select(list(tab), conf_index(c, d)) for c in so.reshape((ndev * n, L))]
    h.eq("log-amplitudes", psi(s), o(want).reshape((ndev, n)))
    g = h.np(psi.gradients(s)).reshape((ndev * n, -1))
    K = d ** L
    rows = []
    for c in so.reshape((ndev * n, L)):
        i = conf_index(c, d)
        one = [select([1 if a == b else 0 for a in range(K)], i) for b in range(K)]
        rows.append(one + [1j * x for x in one])
    h.eq("gradients", g, o(rows))


B = ", arbitrary parameters and configurations"
for _k in ("real", "cpxout", "holo", "nonholo"):
    harness("C12", "evaluate_" + _k, bounds="3 samples of 2 sites, %s network, batches of 2%s" % (_k, B))(
        lambda h, k=_k: evaluate(h, k, batch=2))
    harness("C12", "gradients_" + _k, bounds="2 samples of 2 sites, %s network%s" % (_k, B))(
        lambda h, k=_k: gradients(h, k, dct=k != "nonholo"))
    harness("C12", "parameters_" + _k, bounds="%s network, arbitrary parameter vectors" % _k)(
        lambda h, k=_k: parameters(h, k))
harness("C12", "gradients_batched", bounds="3 samples of 2 sites, batches of 2%s" % B)(
    lambda h: gradients(h, "cpxout", n=3, batch=2, dct=True))
harness("C12", "gradients_devices", devices=2, bounds="2 samples on each of 2 devices, batches of 3%s" % B)(
    lambda h: gradients(h, "holo", n=2, ndev=2, batch=3, dct=True))
harness("C12", "gradients_lattice", bounds="2 samples of a 1x2 lattice%s" % B)(
    lambda h: gradients(h, "cpxout", shape=(1, 2), dct=True))
harness("C12", "evaluate_devices", devices=3, bounds="3 samples on each of 3 devices, batches of 2%s" % B)(
    lambda h: evaluate(h, "cpxout", n=3, ndev=3, batch=2))
harness("C12", "evaluate_two_nets", bounds="amplitude and phase network%s" % B)(
    lambda h: evaluate(h, "real", two="real", batch=2))
harness("C12", "gradients_two_nets", bounds="amplitude and phase network%s" % B)(
    lambda h: gradients(h, "real", two="real", dct=True))
harness("C12", "parameters_two_nets", bounds="amplitude and phase network, arbitrary parameter vectors")(
    lambda h: parameters(h, "real", two="real"))
for _n, _b, _d in ((1, 1, 1), (2, 3, 1), (3, 1, 1), (4, 3, 1), (5, 2, 1), (4, 2, 2)):
    harness("C12", "batches_n%d_b%d_dev%d" % (_n, _b, _d), devices=_d,
            bounds="%d samples per device of 2 sites, batch size %d, %d device(s), arbitrary log-amplitude table" % (_n, _b, _d))(
        lambda h, n=_n, b=_b, d=_d: table(h, 2, n, d, b))
harness("C12", "batches_levels3", bounds="3 samples of a 2x1 lattice with 3 levels, batch size 2, arbitrary log-amplitudes")(
    lambda h: table(h, 2, 3, 1, 2, 3, (2, 1)))


@harness("C12", "gradient_vanishing_first", bounds="2 sites, real parameters, complex log-amplitudes; the gradient vanishes "
         "at the configuration the state was initialised with; all parameters and configurations")
def gradient_vanishing_first(h):
    import jax.numpy as jnp
    import jVMC
    import flax.linen as nn
    if "lin" not in _nets:
        class Lin(nn.Module):
            @nn.compact
            def __call__(self, s):
                x = s.ravel()
                a = self.param("a", nn.initializers.normal(0.3), (x.size,), jnp.float64)
                b = self.param("b", nn.initializers.normal(0.3), (x.size,), jnp.float64)
                return jnp.sum(a * x) + 1j * jnp.sum(b * x * x)
        _nets["lin"] = Lin()
    psi = jVMC.vqs.NQS(_nets["lin"], batchSize=4)
    psi(jnp.zeros((1, 1, 2), dtype=np.int32))
    p = h.real("p", (4,))
    psi.set_parameters(h.jx(p))
    s, so = samples(h, "s", 1, 2, (2,))
    h.eq("gradients", psi.gradients(s), o([[[x[0], x[1], 1j * x[0] * x[0], 1j * x[1] * x[1]] for x in so[0]]]))
    h.eq("parameters", psi.get_parameters(), o(p))


@harness("C12", "nonholomorphic_vanishing_first", bounds="2 sites, complex parameters, non-holomorphic network whose gradient "
         "vanishes at the configuration the state was initialised with; all parameters and configurations")
def nonholomorphic_vanishing_first(h):
    import jax.numpy as jnp
    import jVMC
    import flax.linen as nn
    if "clin" not in _nets:
        class CLin(nn.Module):
            @nn.compact
            def __call__(self, s):
                x = s.ravel()
                a = self.param("a", nn.initializers.normal(0.3, jnp.complex128), (x.size,), jnp.complex128)
                return jnp.sum(jnp.conj(a) * x)
        _nets["clin"] = CLin()
    psi = jVMC.vqs.NQS(_nets["clin"], batchSize=4)
    psi(jnp.zeros((1, 1, 2), dtype=np.int32))
    p = h.real("p", (4,))
    psi.set_parameters(h.jx(p))
    s, so = samples(h, "s", 1, 2, (2,))
    h.eq("parameters", psi.get_parameters(), o(p))
    h.eq("amplitudes", psi(s), o([[sum((p[k] - 1j * p[2 + k]) * x[k] for k in range(2)) for x in so[0]]]))
    h.eq("gradients", psi.gradients(s), o([[[x[0], x[1], -1j * x[0], -1j * x[1]] for x in so[0]]]))


@harness("C12", "nearly_holomorphic", bounds="2 sites, complex parameters, network that is holomorphic up to a small term; all "
         "parameters and configurations")
def nearly_holomorphic(h):
    import jax.numpy as jnp
    import jVMC
    import flax.linen as nn
    e = 2. ** -20
    if "near" not in _nets:
        class Near(nn.Module):
            @nn.compact
            def __call__(self, s):
                x = s.ravel()
                a = self.param("a", nn.initializers.normal(0.3, jnp.complex128), (x.size,), jnp.complex128)
                return jnp.sum((a + e * jnp.conj(a)) * x)
        _nets["near"] = Near()
    psi = jVMC.vqs.NQS(_nets["near"], batchSize=4)
    psi(jnp.ones((1, 1, 2), dtype=np.int32))
    p = h.real("p", (4,))
    psi.set_parameters(h.jx(p))
    s, so = samples(h, "s", 1, 2, (2,))
    h.eq("parameters", psi.get_parameters(), o(p))
    h.eq("gradients", psi.gradients(s), o([[[x[0] * (1 + e), x[1] * (1 + e), 1j * (1 - e) * x[0], 1j * (1 - e) * x[1]] for x in so[0]]]))
