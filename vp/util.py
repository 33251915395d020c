"""helpers shared by scenarios (jax is imported lazily so that the registry can be read without it)"""
import itertools

import numpy as np

from . import poly as P
from .poly import Poly


def basis(L, d=2):
    return [np.array(t) for t in itertools.product(range(d), repeat=L)]


def isv(x, k):
    """[x == k] in the oracle domain"""
    if isinstance(x, Poly):
        return x == k
    return 1 if x == k else 0


def delta(x, t):
    """indicator that config x equals the concrete config t"""
    out = 1
    for a, b in zip(np.asarray(x).reshape(-1), np.asarray(t).reshape(-1)):
        out = out * isv(a, int(b))
    return out


def select(table, i):
    """table[i] for symbolic i (table: oracle-domain sequence)"""
    if isinstance(i, Poly):
        c = i.const_value()
        if c is None:
            out = 0
            for k in range(len(table)):
                v = table[k]
                if isinstance(v, (int, float)) and v == 0:
                    continue
                out = out + isv(i, k) * v
            return P.const(out)
        i = int(c)
    return table[int(i)]


def select_symtable(table, i):
    return select(table, i)


def conf_index(s, d=2):
    """big-endian index of a configuration"""
    out = 0
    for x in np.asarray(s).reshape(-1):
        out = out * d + x
    return out


_nets = {}


def table_net(L, d=2, cpx=True, logarithmic=True):
    """a flax network whose log-amplitudes are a table of free parameters"""
    key = ("table", L, d, cpx)
    if key in _nets:
        return _nets[key]
    import flax.linen as nn
    import jax.numpy as jnp

    class TableNet(nn.Module):
        @nn.compact
        def __call__(self, s):
            n = d ** L
            init = nn.initializers.normal(0.3)
            re = self.param("a_re", init, (n,), jnp.float64)
            w = jnp.array([d ** (L - 1 - i) for i in range(L)])
            i = jnp.sum(s.ravel().astype(jnp.int64) * w)
            if not cpx:
                return re[i]
            im = self.param("b_im", init, (n,), jnp.float64)
            return re[i] + 1.j * im[i]
    _nets[key] = TableNet()
    return _nets[key]


def make_psi(h, name, L, d=2, cpx=True, batchSize=1000, shape=None, logarithmic=True, **kw):
    """NQS around a table of free complex log amplitudes; returns (psi, table in the oracle domain)"""
    import jVMC
    import jVMC.global_defs as gd
    import jax.numpy as jnp
    psi = jVMC.vqs.NQS(table_net(L, d, cpx), batchSize=batchSize, logarithmic=logarithmic, **kw)
    sh = (L,) if shape is None else shape
    s0 = jnp.zeros((gd.device_count(), 1) + tuple(sh), dtype=np.int32)
    psi(s0)
    n = d ** L
    re = h.real(name + ".re", (n,))
    tab = re
    params = {"a_re": h.jx(re)}
    if cpx:
        im = h.real(name + ".im", (n,))
        params["b_im"] = h.jx(im)
        tab = re + 1j * im
    psi.params = params
    return psi, tab


def samples(h, name, ndev, n, shape, d=2, dtype=np.int32):
    """symbolic configurations (ndev, n) + shape: returns (jax array, oracle array)"""
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    o = h.cat(name, d, (ndev, n) + shape)
    return h.jx(o, dtype), o


def exp(x):
    return x.exp() if isinstance(x, Poly) else np.exp(x)


def free_params(h, psi, name="theta"):
    """replace every parameter of the state by a free one; returns the tree in the oracle domain"""
    import jax
    leaves, tree = jax.tree_util.tree_flatten_with_path(psi.params)
    out, orc = [], []
    for path, x in leaves:
        n = name + jax.tree_util.keystr(path).replace("'", "").replace("][", "/")
        v = (h.cplx if np.iscomplexobj(x) else h.real)(n, x.shape)
        orc.append(v)
        out.append(h.jx(v, x.dtype))
    psi.params = jax.tree_util.tree_unflatten(tree, out)
    return jax.tree_util.tree_unflatten(tree, orc)


def weights(h, name, shape):
    """arbitrary positive weights that sum to one (precondition of every weighted statistics)"""
    n = int(np.prod(shape))
    w = np.empty(n, dtype=object if h.symbolic else float)
    if n > 1:
        w[:-1] = h.real(name, (n - 1,), 0.1 / n, min(0.95, 1.2 / (n - 1)))
    last = 1 - sum(w[:-1])
    if n > 2:
        h.assume(last > 0.05 / n)
    w[-1] = last
    return w.reshape(shape)
