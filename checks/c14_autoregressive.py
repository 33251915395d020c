"""C14: autoregressive networks are normalised and sample their own distribution."""
import itertools

import numpy as np

from vp.harness import harness
from vp.util import basis, delta, exp, free_params

o = lambda v: np.asarray(v, dtype=object)


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else np.conj(x)


def identity(x):
    return x


def network(h, cls, L, ndev=1, batch=16, **kw):
    import jax.numpy as jnp
    import jVMC
    kw = dict(kw)
    act = kw.pop("act", None)
    if act is not None:
        kw["actFun"] = {"identity": identity, "tanh": jnp.tanh}[act]
    net = getattr(jVMC.nets, cls)(L=L, **kw)
    psi = jVMC.vqs.NQS(net, batchSize=batch)
    sh = (L,) if cls.startswith("RNN1D") else (L, L)
    psi(jnp.zeros((ndev, 1) + sh, dtype=np.int32))
    free_params(h, psi)
    return psi, net, sh


def probabilities(h, psi, net, sh, d, ndev=1):
    import jax.numpy as jnp
    B = np.array(basis(int(np.prod(sh)), d))
    while len(B) % ndev:
        B = np.concatenate([B, B[:1]])
    v = h.np(psi(jnp.array(B.reshape((ndev, -1) + sh), dtype=np.int32))).reshape(-1)[:d ** int(np.prod(sh))]
    k = net.logProbFactor
    return [exp((x + conj(x)) * (0.5 / k)) for x in v]


def normalised(h, cls, L, **kw):
    d = kw.get("inputDim", 2)
    psi, net, sh = network(h, cls, L, **kw)
    p = probabilities(h, psi, net, sh, d)
    h.eq("normalisation", o([sum(p)]), o([1 if h.symbolic else 1.0]))


def sampling(h, cls, L, n=1, ndev=1, given=False, **kw):
    import jax
    from vp import draws
    d = kw.get("inputDim", 2)
    psi, net, sh = network(h, cls, L, ndev, **kw)
    par = None
    if given:
        # sampling at parameters other than the current ones
        par = dict(psi.parameters)
        old = psi.params
        free_params(h, psi, "other")
        p_now = psi.params
        psi.params = old
        par["params"] = p_now

    def go():
        s = psi.sample(n, jax.random.split(jax.random.PRNGKey(4), ndev), **({} if par is None else {"parameters": par}))
        c = h.np(s).reshape((ndev * n, -1))
        out = []
        for ts in itertools.product(basis(int(np.prod(sh)), d), repeat=ndev * n):
            v = 1
            for x, t in zip(c, ts):
                v = v * delta(x, t)
            out.append(v)
        return o(out)
    got = draws.expect(h, go)
    h.true("no random key serves two draws", draws.no_reuse(h))
    if given:
        psi.params = p_now
    p = probabilities(h, psi, net, sh, d, ndev)
    want = []
    for ts in itertools.product(p, repeat=ndev * n):
        v = 1
        for x in ts:
            v = v * x
        want.append(v)
    h.eq("sampling distribution", got, o(want))


C = {
    "rnn": ("RNN1DGeneral", 3, dict(hiddenSize=1)),
    "rnn_h2": ("RNN1DGeneral", 2, dict(hiddenSize=2)),
    "rnn_deep": ("RNN1DGeneral", 2, dict(hiddenSize=1, depth=2)),
    "rnn_real": ("RNN1DGeneral", 2, dict(hiddenSize=1, realValuedOutput=True)),
    "rnn_povm": ("RNN1DGeneral", 2, dict(hiddenSize=1, inputDim=4, logProbFactor=1., realValuedOutput=True)),
    "rnn_3level": ("RNN1DGeneral", 2, dict(hiddenSize=1, inputDim=3)),
    "lstm": ("RNN1DGeneral", 2, dict(hiddenSize=1, cell="LSTM")),
    "gru": ("RNN1DGeneral", 2, dict(hiddenSize=1, cell="GRU")),
    "rnn_linear3": ("RNN1DGeneral", 3, dict(hiddenSize=2, act="identity")),
    "rnn_tanh3": ("RNN1DGeneral", 3, dict(hiddenSize=1, act="tanh", inputDim=3)),
    "rnn2d": ("RNN2DGeneral", 2, dict(hiddenSize=1, act="identity")),
    "rnn2d_tanh": ("RNN2DGeneral", 2, dict(hiddenSize=1, act="tanh")),
    "rnn2d_h2": ("RNN2DGeneral", 2, dict(hiddenSize=2, act="identity", realValuedOutput=True, logProbFactor=1.)),
    "rnn2d_deep": ("RNN2DGeneral", 2, dict(hiddenSize=1, depth=2, act="identity", realValuedOutput=True)),
    "lstm2d": ("RNN2DGeneral", 2, dict(hiddenSize=1, cell="LSTM", act="identity", realValuedOutput=True)),
    "gru2d": ("RNN2DGeneral", 2, dict(hiddenSize=1, cell="GRU", act="identity", realValuedOutput=True)),
}
for _n, (_c, _L, _k) in C.items():
    _b = "%s, L=%d, %s, arbitrary parameters" % (_c, _L, _k)
    harness("C14", "normalised_" + _n, bounds=_b)(lambda h, c=_c, L=_L, k=_k: normalised(h, c, L, **k))
    harness("C14", "sampling_" + _n, nojit=True, tiers=("thorough",) if _n in ("rnn_tanh3", "rnn") else ("quick", "thorough"), bounds=_b + ", all outcomes of the draws")(
        lambda h, c=_c, L=_L, k=_k: sampling(h, c, L, **k))
for _n, _c, _L in (("", "RNN1DGeneral", 1), ("_2d", "RNN2DGeneral", 1)):
    harness("C14", "complex_parameters" + _n, bounds="%s with complex parameters, L=%d" % (_c, _L))(
        lambda h, c=_c, L=_L: normalised(h, c, L, hiddenSize=1, realValuedParams=False, act="identity"))
harness("C14", "sampling_independent", nojit=True, bounds="2 samples of an RNN on 2 sites: independent")(
    lambda h: sampling(h, "RNN1DGeneral", 2, n=2, hiddenSize=1))
harness("C14", "sampling_devices", nojit=True, devices=2, bounds="1 sample of an RNN on each of 2 devices: independent")(
    lambda h: sampling(h, "RNN1DGeneral", 2, ndev=2, hiddenSize=1))
harness("C14", "sampling_given_parameters", nojit=True, bounds="samples of an RNN at given parameters, 2 sites")(
    lambda h: sampling(h, "RNN1DGeneral", 2, given=True, hiddenSize=1))


def history(h, cls, L, pattern, product=False, **kw):
    """the probability with which sampling produces a configuration is the one the network assigns to it"""
    import jax
    from vp import draws
    d = kw.get("inputDim", 2)
    psi, net, sh = network(h, cls, L, batch=1, **kw)
    n = int(np.prod(sh))
    mul, off = h.choose("outcomes", pattern)
    with draws.forced(h, lambda k, m: (k * k * mul + k * off + k // 3 + off) % m) as probs:
        s = h.np(psi.sample(1, jax.random.split(jax.random.PRNGKey(3), 1)))
    h.true("shape", tuple(s.shape) == (1, 1) + sh)
    h.true("one draw for every site", len(probs) == n)
    h.true("no random key serves two draws", draws.no_reuse(h))
    c = np.array([[[int(x.const_value()) if hasattr(x, "const_value") else int(x) for x in np.asarray(s).reshape(-1)]]])
    v = h.np(psi(h.jx(c.reshape((1, 1) + sh), np.int32))).reshape(-1)[0]
    p = 0
    for x in probs:
        p = p + x
    w = (v + conj(v)) * (0.5 / net.logProbFactor)
    if product:
        h.eq("probability of the history", o([exp(p)]), o([exp(w)]))
    else:
        h.eq("log-probability of the history", o([p]), o([w]))


for _n, _c, _L, _k in (("rnn", "RNN1DGeneral", 6, dict(hiddenSize=1, act="tanh")),
                       ("rnn_deep", "RNN1DGeneral", 4, dict(hiddenSize=1, act="tanh", depth=3)),
                       ("rnn_4level", "RNN1DGeneral", 4, dict(hiddenSize=1, act="tanh", inputDim=4, logProbFactor=1.)),
                       ("lstm", "RNN1DGeneral", 3, dict(hiddenSize=1, cell="LSTM", product=True)),
                       ("gru", "RNN1DGeneral", 3, dict(hiddenSize=1, cell="GRU", product=True)),
                       ("lstm_deep", "RNN1DGeneral", 2, dict(hiddenSize=1, cell="LSTM", depth=2, product=True)),
                       ("gru_deep", "RNN1DGeneral", 2, dict(hiddenSize=1, cell="GRU", depth=2, product=True)),
                       ("rnn2d_3", "RNN2DGeneral", 3, dict(hiddenSize=1, act="tanh")),
                       ("rnn2d_4", "RNN2DGeneral", 4, dict(hiddenSize=1, act="tanh")),
                       ("rnn2d_deep", "RNN2DGeneral", 3, dict(hiddenSize=1, act="tanh", depth=2, inputDim=3)),
                       ("lstm2d", "RNN2DGeneral", 3, dict(hiddenSize=1, cell="LSTM", act="tanh", realValuedOutput=True))):
    harness("C14", "history_" + _n, nojit=True, bounds="%s, L=%d, %s, arbitrary parameters, 3 histories of the draws" % (_c, _L, _k))(
        lambda h, c=_c, L=_L, k=_k: history(h, c, L, [(1, 0), (1, 1), (0, 1)], **k))
