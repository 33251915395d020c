"""C19: the built-in network architectures."""
import numpy as np

from vp.harness import harness
from vp.util import free_params, samples, exp
from vp import poly as P

o = lambda v: np.asarray(v, dtype=object)


def cosh(x):
    return (exp(x) + exp(-x)) * 0.5


def psi_of(h, net, shape, n=1):
    import jVMC
    import jVMC.global_defs as gd
    import jax.numpy as jnp
    psi = jVMC.vqs.NQS(net, batchSize=2)
    psi(jnp.zeros((gd.device_count(), n) + tuple(shape), dtype=np.int32))
    return psi, free_params(h, psi)


def dense(p, x, bias):
    k = o(p["kernel"])
    return [sum(x[i] * k[i, j] for i in range(len(x))) + (o(p["bias"])[j] if bias else 0) for j in range(k.shape[1])]


def _rbm(h, kind, L, H, bias):
    import jVMC
    net = getattr(__import__("jVMC.nets.rbm", fromlist=["x"]), kind)(numHidden=H, bias=bias)
    psi, p = psi_of(h, net, (L,))
    s, so = samples(h, "s", 1, 1, L)
    v = h.np(psi(s))[0, 0]
    x = list(so[0, 0])
    if kind != "CpxRBM_Nospinflip":
        x = [2 * a - 1 for a in x]
    (name,) = list(p)
    h.true("bias parameters", ("bias" in p[name]) == bias)
    want = 1
    for t in dense(p[name], x, bias):
        want = want * cosh(t)
    h.eq("amplitude", o(exp(v)), o(want))


for kind, nm in (("RBM", "rbm"), ("CpxRBM", "cpxrbm"), ("CpxRBM_Nospinflip", "nospinflip")):
    for bias in (False, True):
        harness("C19", nm + ("_bias" if bias else ""), bounds="2 spins, 2 hidden units, arbitrary parameters and configuration")(
            lambda h, kind=kind, bias=bias: _rbm(h, kind, 2, 2, bias))


def _ffn(h, shape, layers, bias, acts):
    import jVMC
    import jVMC.nets.activation_functions as af
    net = jVMC.nets.FFN(layers=layers, bias=bias, actFun=tuple(af.activationFunctions[a] for a in acts))
    psi, p = psi_of(h, net, shape)
    s, so = samples(h, "s", 1, 1, shape)
    v = h.np(psi(s))[0, 0]
    x = [2 * a - 1 for a in so[0, 0].reshape(-1)]
    fs = [ACT[acts[min(i, len(acts) - 1)]] for i in range(len(layers) + 1)]
    for i, f in enumerate(fs):
        h.true("bias parameters", ("bias" in p["Dense_%d" % i]) == bias)
        x = [f(h, t) for t in dense(p["Dense_%d" % i], x, bias)]
    h.eq("log-amplitude", o(v), o(sum(x)))


def ex(c):
    """decimal constant"""
    return lambda h: P.to_frac(c) if h.symbolic else c


def tanh(h, x):
    a, b = exp(x), exp(-x)
    return (a - b) / (a + b)


def branch(h, x, pos, neg):
    return h.ite(x > 0, pos, neg)


ACT = {
    "square": lambda h, x: x * x,
    "poly5": lambda h, x: x - ex(0.333333333)(h) * x ** 3 + ex(0.133333333)(h) * x ** 5,
    "poly6": lambda h, x: ex(0.5)(h) * x ** 2 - ex(0.083333333)(h) * x ** 4 + ex(0.022222222)(h) * x ** 6,
    "elu": lambda h, x: branch(h, x, x, exp(x) - 1),
    "relu": lambda h, x: branch(h, x, x, 0),
    "tanh": tanh,
}


def regf(name, bounds, **kw):
    harness("C19", "ffn_" + name, bounds=bounds + ", arbitrary parameters and configuration")(lambda h: _ffn(h, **kw))


regf("square", "2 spins, one hidden layer", shape=(2,), layers=(2,), bias=True, acts=("square",))
regf("deep", "2 spins, two hidden layers, different activation functions", shape=(2,), layers=(2, 1), bias=True,
     acts=("relu", "square"))
regf("poly5", "1 spin, one hidden layer", shape=(1,), layers=(1,), bias=False, acts=("poly5", "square"))
regf("poly6", "2 spins, one hidden layer", shape=(2,), layers=(1,), bias=False, acts=("poly6", "poly5"))
regf("tanh", "2 spins, one hidden layer", shape=(2,), layers=(2,), bias=True, acts=("tanh", "square"))
regf("elu", "2 x 2 spins, one hidden layer", shape=(2, 2), layers=(1,), bias=True, acts=("elu",))


def convolve(x, K, b, strides, periodic, f, h):
    """x: lattice + (channels,); valid cross-correlation of the padded lattice"""
    x, K = o(x), o(K)
    F, d = K.shape[:-2], len(K.shape) - 2
    full = [x.shape[a] + (0 if periodic else F[a] - 1) for a in range(d)]
    outs = [(full[a] - 1) // strides[a] + 1 for a in range(d)]
    out = np.empty(tuple(outs) + (K.shape[-1],), dtype=object)
    for i in np.ndindex(*outs):
        for c in range(K.shape[-1]):
            v = b[c] if b is not None else 0
            for k in np.ndindex(*F):
                pos = [i[a] * strides[a] + k[a] - (0 if periodic else F[a] - 1) for a in range(d)]
                if periodic:
                    pos = [q % x.shape[a] for a, q in enumerate(pos)]
                elif any(q < 0 or q >= x.shape[a] for a, q in enumerate(pos)):
                    continue
                for ci in range(x.shape[-1]):
                    v = v + x[tuple(pos) + (ci,)] * K[k + (ci, c)]
            out[i + (c,)] = f(h, v)
    return out


def _cnn(h, shape, F, channels, strides, acts=("square",), bias=True, first=False, periodic=True, shift=None):
    import jVMC
    import jVMC.nets.activation_functions as af
    import jax.numpy as jnp
    net = jVMC.nets.CNN(F=F, channels=channels, strides=strides, actFun=tuple(af.activationFunctions[a] for a in acts),
                        bias=bias, firstLayerBias=first, periodicBoundary=periodic)
    psi, p = psi_of(h, net, shape)
    s, so = samples(h, "s", 1, 1, shape)
    v = h.np(psi(s))[0, 0]
    x = o(2 * so[0, 0] - 1)[..., None]
    for i in range(len(channels)):
        q = p["Conv_%d" % i]
        has = first if i == 0 else bias
        h.true("bias parameters", ("bias" in q) == has)
        x = convolve(x, q["kernel"], o(q["bias"]) if has else None, strides, periodic,
                     ACT[acts[min(i, len(acts) - 1)]], h)
    tot = sum(x.reshape(-1))
    h.eq("log-amplitude", o(v), o(tot) / (P.const(x.size) ** 0.5 if h.symbolic else x.size ** 0.5))
    if periodic:
        for ax in range(len(shape)):
            t = jnp.roll(s, strides[ax], axis=2 + ax)
            h.eq("translation along axis %d" % ax, o(h.np(psi(t))[0, 0]), o(v))


def regk(name, bounds, fn=None, **kw):
    harness("C19", name, bounds=bounds + ", arbitrary parameters and configuration")(lambda h: (fn or _cnn)(h, **kw))


regk("cnn_periodic", "4 sites, filter 2, 1 channel", shape=(4,), F=(2,), channels=(1,), strides=(1,))
regk("cnn_filter3", "4 sites, filter 3, 2 channels, bias in the first layer", shape=(4,), F=(3,), channels=(2,), strides=(1,), first=True)
regk("cnn_first_bias", "3 sites, filter 2, 2 layers, bias in the first layer only", shape=(3,), F=(2,), channels=(1, 1), strides=(1,),
     first=True, bias=False, acts=("relu", "square"))
regk("cnn_deep", "3 sites, filter 2, 2 layers", shape=(3,), F=(2,), channels=(2, 1), strides=(1,), acts=("relu", "square"))
regk("cnn_open", "3 sites, filter 2, open boundaries, 2 layers", shape=(3,), F=(2,), channels=(1, 1), strides=(1,),
     periodic=False, acts=("square", "relu"))
regk("cnn_stride", "4 sites, filter 3, stride 2", shape=(4,), F=(3,), channels=(1,), strides=(2,))
regk("cnn_2d", "2 x 3 sites, 2 x 2 filter", shape=(2, 3), F=(2, 2), channels=(1,), strides=(1, 1))
regk("cnn_2d_open", "2 x 2 sites, 2 x 1 filter, open boundaries", shape=(2, 2), F=(2, 1), channels=(1,), strides=(1, 1), periodic=False)


def same(x, K, b, strides, f, h):
    """cross-correlation of the lattice padded with zeros to the same size"""
    x, K = o(x), o(K)
    F, d = K.shape[:-2], len(K.shape) - 2
    out = np.empty(x.shape[:d] + (K.shape[-1],), dtype=object)
    for i in np.ndindex(*x.shape[:d]):
        for c in range(K.shape[-1]):
            v = b[c] if b is not None else 0
            for k in np.ndindex(*F):
                pos = [i[a] + k[a] - (F[a] - 1) // 2 for a in range(d)]
                if any(q < 0 or q >= x.shape[a] for a, q in enumerate(pos)):
                    continue
                for ci in range(x.shape[-1]):
                    v = v + x[tuple(pos) + (ci,)] * K[k + (ci, c)]
            out[i + (c,)] = f(h, v)
    return out


def cpx_value(h, p, s, channels, acts, bias, first, periodic=True, strides=None):
    x = o(2 * o(s) - 1)[..., None]
    strides = strides or (1,) * o(s).ndim
    for i in range(len(channels)):
        q = p["Conv_%d" % i]
        h.true("bias parameters", ("bias" in q) == (first if i == 0 else bias))
        b = o(q["bias"]) if (first if i == 0 else bias) else None
        f = ACT[acts[min(i, len(acts) - 1)]]
        x = convolve(x, q["kernel"], b, strides, True, f, h) if periodic else same(x, q["kernel"], b, strides, f, h)
    return sum(x.reshape(-1)) / (P.const(x.size) ** 0.5 if h.symbolic else x.size ** 0.5)


def _cpxcnn(h, shape, F, channels, acts=("square",), bias=True, first=False, periodic=True, strides=None):
    import jVMC
    import jVMC.nets.activation_functions as af
    import jax.numpy as jnp
    strides = strides or (1,) * len(shape)
    net = jVMC.nets.CpxCNN(F=F, channels=channels, strides=strides, bias=bias, firstLayerBias=first, periodicBoundary=periodic,
                           actFun=tuple(af.activationFunctions[a] for a in acts))
    psi, p = psi_of(h, net, shape)
    s, so = samples(h, "s", 1, 1, shape)
    v = h.np(psi(s))[0, 0]
    h.eq("log-amplitude", o(v), o(cpx_value(h, p, so[0, 0], channels, acts, bias, first, periodic, strides)))
    if periodic:
        for ax in range(len(shape)):
            t = jnp.roll(s, strides[ax], axis=2 + ax)
            h.eq("translation along axis %d" % ax, o(h.np(psi(t))[0, 0]), o(v))


regk("cpxcnn_periodic", "4 sites, filter 2, 1 channel, complex parameters", fn=_cpxcnn, shape=(4,), F=(2,), channels=(1,))
regk("cpxcnn_bias", "3 sites, filter 3, 2 channels, bias, complex parameters", fn=_cpxcnn, shape=(3,), F=(3,), channels=(2,), first=True)
regk("cpxcnn_deep", "3 sites, filter 2, 2 layers, complex parameters", fn=_cpxcnn, shape=(3,), F=(2,), channels=(1, 1))
regk("cpxcnn_first_bias", "3 sites, filter 2, 2 layers, bias in the first layer only, complex parameters", fn=_cpxcnn,
     shape=(3,), F=(2,), channels=(1, 1), first=True, bias=False)
regk("cpxcnn_2d", "2 x 2 sites, 2 x 2 filter, complex parameters", fn=_cpxcnn, shape=(2, 2), F=(2, 2), channels=(1,))
regk("cpxcnn_stride", "4 sites, filter 3, stride 2, complex parameters", fn=_cpxcnn, shape=(4,), F=(3,), channels=(1,), strides=(2,))
regk("cpxcnn_open", "3 sites, filter 2, open boundaries, complex parameters", fn=_cpxcnn, shape=(3,), F=(2,), channels=(1,), periodic=False)


def _cnnsym(h, L, dim, sym, acts=("square",)):
    import jVMC
    import jVMC.nets.activation_functions as af
    from checks.c13_symmetry import orbit_of, ops_1d, ops_2d, act
    shape = (L,) * dim
    orb = orbit_of(L, dim, sym, {})
    net = jVMC.nets.CpxCNNSym(orbit=orb, F=(2,) * dim, channels=(1,), strides=(1,) * dim, firstLayerBias=True,
                              actFun=tuple(af.activationFunctions[a] for a in acts))
    psi, p = psi_of(h, net, shape)
    s, so = samples(h, "s", 1, 1, shape)
    v = h.np(psi(s))[0, 0]
    G = list((ops_1d if dim == 1 else ops_2d)(L, sym, {}))
    c = so[0, 0].reshape(-1)
    vals = [cpx_value(h, p["cnn"], o(act(g, c)).reshape(shape), (1,), acts, True, True) for g in G]
    h.eq("average over the orbit", o(v), o(sum(vals)) * (P.const(1) / len(G) if h.symbolic else 1 / len(G)))
    for g in G:
        t = h.jx(o(act(g, c)).reshape((1, 1) + shape), np.int32)
        h.eq("invariance", o(h.np(psi(t))[0, 0]), o(v))


regk("cnnsym_reflection", "3 sites, reflections and spin flip", fn=_cnnsym, L=3, dim=1, sym=("reflection", "spinflip"))
regk("cnnsym_rotation", "2 x 2 sites, rotations", fn=_cnnsym, L=2, dim=2, sym=("rotation",))


def _init_net(h, type_, L, par, sym=(), fac={}, net2=None, dims=None, twice=False):
    import copy
    import warnings
    import jVMC
    from checks.c13_symmetry import ops_1d, ops_2d, act
    dims = dims or (L,)
    descr = {"batch_size": 7, "net1": {"type": type_, "parameters": par}}
    if net2 is not None:
        descr["net2"] = {"type": net2, "parameters": dict(par)}
    for k in sym:
        descr[k] = True
    for k, f in fac.items():
        descr[k + "_factor"] = f
    before = copy.deepcopy(descr)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        psi = jVMC.util.util.init_net(descr, dims, seed=3)
        h.true("description unchanged", descr == before)
        if twice:
            psi = jVMC.util.util.init_net(descr, dims, seed=3)
    h.true("batch size", psi.batchSize == 7)
    p = free_params(h, psi)
    s, so = samples(h, "s", 1, 1, dims)
    c = so[0, 0].reshape(-1)
    ops = (ops_1d if len(dims) == 1 else ops_2d)(L, sym, fac)
    v = h.np(psi(s))[0, 0]
    confs = [act(g, c) for g in ops]

    def plain(q, x):
        if type_ in ("RBM", "CpxRBM"):
            out = 1
            for t in dense(q[list(q)[0]], [2 * a - 1 for a in x], par.get("bias", False)):
                out = out * cosh(t)
            return out
        acts = par["actFun"]
        fs = [ACT[acts[min(i, len(acts) - 1)]] for i in range(len(par["layers"]) + 1)]
        y = [2 * a - 1 for a in x]
        for i, f in enumerate(fs):
            y = [f(h, t) for t in dense(q["Dense_%d" % i], y, False)]
        return exp(sum(y))
    if net2 is None:
        want = sum(f * plain(p["net"], x) for f, x in zip(ops.values(), confs))
    else:
        # real part and phase from separate networks (no symmetries)
        q = p["net"]
        a, b = [q["nets_%d" % i] for i in range(2)]
        lg = lambda q, x: sum(ACT[par["actFun"][0]](h, t) for t in dense(q["Dense_1"], [
            ACT[par["actFun"][0]](h, u) for u in dense(q["Dense_0"], [2 * y - 1 for y in x], False)], False))
        want = sum(f * exp(lg(a, x) + 1j * lg(b, x)) for f, x in zip(ops.values(), confs))
    h.eq("amplitude", o(exp(v)), o(want))


def regi(name, bounds, **kw):
    harness("C19", "init_" + name, bounds=bounds + ", arbitrary parameters and configuration")(lambda h: _init_net(h, **kw))


regi("plain", "3 sites, RBM without symmetries", type_="RBM", L=3, par={"numHidden": 1, "bias": True})
regi("sector", "3 sites, reflection with factor -1, complex parameters", type_="CpxRBM", L=3, par={"numHidden": 1, "bias": True},
     sym=("reflection",), fac={"reflection": -1})
regi("spinflip", "2 sites, translation and spin flip with factor -1, complex parameters", type_="CpxRBM", L=2,
     par={"numHidden": 1, "bias": True}, sym=("translation", "spinflip"), fac={"spinflip": -1})
regi("ffn", "2 sites, feed-forward network, description used twice", type_="FFN", L=2,
     par={"layers": (1,), "actFun": ["square", "relu"]}, sym=("translation",), twice=True)
regi("two_nets", "2 sites, two networks", type_="FFN", L=2, par={"layers": (1,), "actFun": ["square"]}, net2="FFN")
regi("square_lattice", "2 x 2 sites, rotation", type_="FFN", L=2, dims=(2, 2), par={"layers": (1,), "actFun": ["square"]},
     sym=("rotation", "reflection"))


@harness("C19", "init_generator", bounds="2 sites, recurrent network with translations: amplitudes are the root of the "
         "averaged probabilities, direct sampling is available; arbitrary real parameters and configuration")
def init_generator(h):
    import jVMC
    import jax.numpy as jnp
    par = {"L": 2, "hiddenSize": 1, "depth": 1, "logProbFactor": 0.5, "actFun": "tanh"}
    psi = jVMC.util.util.init_net({"batch_size": 5, "net1": {"type": "RNN", "parameters": par}, "translation": True}, (2,))
    h.true("generator", psi.is_generator)
    p = free_params(h, psi)
    plain = jVMC.vqs.NQS(jVMC.nets.RNN1DGeneral(L=2, hiddenSize=1, depth=1, logProbFactor=0.5, actFun=jnp.tanh))
    s, so = samples(h, "s", 1, 1, (2,))
    plain(s)
    plain.params = psi.params["net"]
    v = h.np(psi(s))[0, 0]
    c = so[0, 0]
    both = h.jx(o([[list(c), list(c)[::-1]]]), np.int32)
    w = h.np(plain(both))[0]
    pr = lambda x: exp(x + x.conjugate())
    h.eq("probability", o(pr(v)), o(pr(w[0]) + pr(w[1])) * 0.5)


def softmax_value(h, out, x, d, k, cpx):
    """logarithm of the conditional coefficient of the outcome x: probability and phase"""
    amp = [0] + list(out[:d - 1])
    lz = lg(h, sum(exp(a) for a in amp))
    ph = [0] + list(out[d - 1:]) if cpx else [0] * d
    v = 0
    for i in range(d):
        v = v + delta(x, i) * ((amp[i] - lz) * k + 1j * ph[i])
    return v


def lg(h, x):
    from vp import symjax as S
    return S._log(P.const(x)) if h.symbolic else np.log(x)


def _rnn(h, L, dim=1, depth=1, H=1, d=2, k=0.5, cpx=True, pattern=None):
    """recurrent network along the chain (or the zigzag path): every layer has its own hidden state"""
    import jVMC
    import jax.numpy as jnp
    net = getattr(jVMC.nets, "RNN%dDGeneral" % dim)(L=L, hiddenSize=H, depth=depth, inputDim=d, actFun=jnp.tanh, logProbFactor=k,
                                                    realValuedOutput=not cpx)
    psi, p = psi_of(h, net, (L,) * dim)
    mul, off = h.choose("configuration", pattern)
    c = [(i * i * mul + i * off + i // 3 + off) % d for i in range(L ** dim)]
    v = h.np(psi(h.jx(np.array(c).reshape((1, 1) + (L,) * dim), np.int32)))[0, 0]
    f = lambda y: [tanh(h, t) for t in y]
    add = lambda a, b: [s + t for s, t in zip(a, b)]
    mul_ = lambda q, y: dense(q, y, False)
    hot = lambda s: [int(s == i) for i in range(d)]
    zero, none = [[0] * H for _ in range(depth)], [0] * d
    W, D, B = p["rnnCell"]["data_in_dense"], p["outputDense"], [p["cells_%d" % j] for j in range(depth)]
    tot = 0
    hid, val = {}, {}
    if dim == 1:
        path = [((i,), (i - 1,), None) for i in range(L)]
    else:
        path = [((r, c_), (r, c_ - s), (r - 1, c_)) for r in range(L) for s in [1 - 2 * (r % 2)]
                for c_ in range(L)[::s]]
    for q, left, up in path:
        one = val.get(left, none)
        x = f(mul_(W, one if dim == 1 else one + val.get(up, none)))
        hid[q] = []
        for j in range(depth):
            if dim == 1:
                y = mul_(B[j]["cell_carry_dense"], hid.get(left, zero)[j])
            else:
                y = add(mul_(B[j]["cell_carry_dense_H"], hid.get(left, zero)[j]), mul_(B[j]["cell_carry_dense_V"], hid.get(up, zero)[j]))
            x = add(f(y), x)
            hid[q].append(x)
        s = c[sum(a * L ** (dim - 1 - i) for i, a in enumerate(q))]
        tot = tot + softmax_value(h, dense(D, x, True), s, d, k, cpx)
        val[q] = hot(s)
    h.eq("log-amplitude", o(v), o(tot))


def delta(x, i):
    return int(x == i)


PAT = [(1, 0), (0, 1)]
for _n, _k in (("", dict(L=4)), ("_deep", dict(L=3, depth=3)), ("_wide", dict(L=2, depth=2, H=2)), ("_real", dict(L=3, cpx=False, d=3, k=1.))):
    regk("rnn" + _n, "RNN1DGeneral, %s, 2 configurations" % _k, fn=_rnn, pattern=PAT, **_k)
for _n, _k in (("", dict(L=3)), ("_deep", dict(L=2, depth=3, d=3)), ("_wide", dict(L=2, H=2, cpx=False))):
    regk("rnn2d" + _n, "RNN2DGeneral, %s, 2 configurations" % _k, fn=_rnn, pattern=PAT, dim=2, **_k)


@harness("C19", "rnn_layers", bounds="1 and 2 dimensions, RNN, LSTM and GRU cells: every layer of the stack has parameters of its own")
def rnn_layers(h):
    import jVMC
    import jax
    import jax.numpy as jnp
    dim, cell = h.choose("dimension", [1, 2]), h.choose("cell", ["RNN", "LSTM", "GRU"])
    n = []
    for depth in (1, 2, 3):
        net = getattr(jVMC.nets, "RNN%dDGeneral" % dim)(L=2, hiddenSize=2, depth=depth, cell=cell)
        par = jax.eval_shape(net.init, jax.random.PRNGKey(1), jnp.zeros((2,) * dim, dtype=np.int32))
        n.append(sum(int(np.prod(x.shape)) for x in jax.tree_util.tree_leaves(par)))
    h.true("parameters of a layer", n[1] - n[0] > 0 and n[2] - n[1] == n[1] - n[0])
