"""C04: prefactors of operator strings."""
import numpy as np

from vp.harness import harness
from vp.util import samples, conf_index
from checks.c01_operator import check_op, std


def pure(h, x):
    """python scalar in concrete runs, 0-d array otherwise"""
    return h.jx(x)


@harness("C04", "nested_scalars", bounds="2 sites, all configurations, arbitrary real prefactors a, b, c in [0.5,2]: "
         "a*(b*XZ), (a*X)*(b*Z), X*a*Z, scal_opstr nested, numpy scalars, tuples")
def nested_scalars(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    v = h.real("v", (3,), 0.5, 2)
    a, b, c = v
    A, B, C = [pure(h, x) for x in v]
    xz = [std("Sx", 0), std("Sz", 1)]
    X, Z = op.Sx(0), op.Sz(1)
    cases = {
        "a*(b*XZ)": (A * (B * (X * Z)), a * b),
        "(a*X)*(b*Z)": ((A * X) * (B * Z), a * b),
        "(a*(b*X))*(c*Z)": ((A * (B * X)) * (C * Z), a * b * c),
        "(a*X)*Z": ((A * X) * Z, a),
        "X*(a*Z)": (X * (A * Z), a),
        "(X*a)*Z": ((X * A) * Z, a),
        "scal_opstr": (op.scal_opstr(A, (X, Z)), a),
        "scal_opstr twice": (op.scal_opstr(A, op.scal_opstr(B, (X, Z))), a * b),
        "tuple": ((X, Z), 1),
        "python scalars": (2. * (3 * (X * Z)), 6),
        "numpy scalar": (np.float64(2.) * (X * Z), 2),
        "scal_opstr numpy": (op.scal_opstr(np.sqrt(4.), (X, Z)), 2),
        "complex": (1j * (A * (X * Z)), 1j * a),
        "negative": (-1. * (A * (X * Z)), -1 * a),
        "right scalar": ((X * Z) * A, a),
    }
    for n, (o, f) in cases.items():
        H = op.BranchFreeOperator()
        H.add(o)
        check_op(h, H, [(f, xz)], s, so, 2, 2, label=n)


@harness("C04", "time_functions", bounds="2 sites, all configurations; prefactors arbitrary scalars times functions of "
         "time with arbitrary coefficients, evaluated at two arbitrary times in [0.5,2]")
def time_functions(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    v = h.real("v", (2,), 0.5, 2)
    t = h.real("t", (2,), 0.5, 2)
    a, b = v
    A, B = [pure(h, x) for x in v]
    f = lambda t: A * t
    g = lambda t: 1 + t
    xz = [std("Sx", 0), std("Sz", 1)]
    X, Z = op.Sx(0), op.Sz(1)
    cases = {
        "f*XZ": (f * (X * Z), lambda t: a * t),
        "b*(f*XZ)": (B * (f * (X * Z)), lambda t: a * b * t),
        "g*(f*XZ)": (g * (f * (X * Z)), lambda t: a * t * (1 + t)),
        "f*(b*XZ)": (f * (B * (X * Z)), lambda t: a * b * t),
        "(f*X)*(g*Z)": ((f * X) * (g * Z), lambda t: a * t * (1 + t)),
        "scal": (op.scal_opstr(f, (X, Z)), lambda t: a * t),
        "scal scal": (op.scal_opstr(g, op.scal_opstr(f, (X, Z))), lambda t: a * t * (1 + t)),
        "(X*f)*Z": ((X * f) * Z, lambda t: a * t),
    }
    for n, (o, ff) in cases.items():
        H = op.BranchFreeOperator()
        H += o
        for k in range(2):
            check_op(h, H, [(ff(t[k]), xz)], s, so, 2, 2, args=(pure(h, t[k]),), label="%s at t%d" % (n, k))


@harness("C04", "two_arguments", bounds="2 sites, all configurations; prefactors depending on two arbitrary arguments, "
         "strings with and without prefactor mixed")
def two_arguments(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    t = h.real("t", (2, 2), 0.5, 2)
    H = op.BranchFreeOperator()
    H.add((op.Sx(0),))
    H.add(op.scal_opstr(lambda x, y: x - y, (op.Sz(0), op.Sz(1))))
    H.add((op.Sz(1),))
    H.add(2. * op.scal_opstr(lambda x, y: x * y, (op.Sp(1),)))
    for k in range(2):
        x, y = t[k]
        terms = [(1, [std("Sx", 0)]), (x - y, [std("Sz", 0), std("Sz", 1)]), (1, [std("Sz", 1)]),
                 (2 * x * y, [std("Sp", 1)])]
        check_op(h, H, terms, s, so, 2, 2, args=(pure(h, x), pure(h, y)), label="call %d" % k)


@harness("C04", "no_mutation", bounds="2 sites; rescaling a string leaves the original string and other operators built "
         "from it unchanged, arbitrary prefactors")
def no_mutation(h):
    import jVMC.operator as op
    s, so = samples(h, "s", 1, 1, 2)
    v = h.real("v", (2,), 0.5, 2)
    A, B = [pure(h, x) for x in v]
    base = A * (op.Sx(0) * op.Sz(1))
    xz = [std("Sx", 0), std("Sz", 1)]
    H0 = op.BranchFreeOperator()
    H0.add(base)
    other = B * base
    H1 = op.BranchFreeOperator()
    H1.add(other)
    H1.add(base)
    prod = base * other
    H2 = op.BranchFreeOperator()
    H2.add(prod)
    check_op(h, H0, [(v[0], xz)], s, so, 2, 2, label="original")
    check_op(h, H1, [(v[0] * v[1], xz), (v[0], xz)], s, so, 2, 2, label="sum")
    check_op(h, H2, [(v[0] * v[0] * v[1], xz + xz)], s, so, 2, 2, label="product")
    check_op(h, H0, [(v[0], xz)], s, so, 2, 2, label="original again")


def _many(h, n, layout, ranks, t):
    """n prefactors in an operator whose strings follow the layout (f: with, p: plain)"""
    import jVMC.operator as op
    H = op.BranchFreeOperator()
    want = []
    k = 0
    i = 0
    while k < n:
        if layout[i % len(layout)] == "f":
            H.add(op.scal_opstr(lambda t, k=k: (k + 1.) * t, (op.Sx(0),)))
            want.append((k + 1) * t)
            k += 1
        else:
            H.add((op.Sx(0),))
            want.append(1)
        i += 1
    return H, want


def _check_many(h, n, layout, ranks):
    import jax.numpy as jnp
    from vp import mpisim
    t = h.real("t", (2,), 0.5, 2)
    s, so = samples(h, "s", 1, 1, 1)

    def go(r):
        out = []
        H, _ = _many(h, n, layout, ranks, 0)
        for k in range(2):
            sp, me = H.get_s_primes(s, h.jx(t[k]))
            out.append(h.np(me))
        return out
    res = mpisim.run(h, ranks, go)
    for r in range(ranks):
        for k in range(2):
            want = _many(h, n, layout, ranks, t[k])[1]
            h.eq("rank %d call %d" % (r, k), res[r][k].reshape(-1), np.array(want, dtype=object))


@harness("C04", "many_single", bounds="53 time-dependent prefactors, single process, two arbitrary times", nojit=True)
def many_single(h):
    _check_many(h, 53, "fp", 1)


@harness("C04", "many_mpi2", bounds="50 time-dependent prefactors (all strings), 2 MPI processes, two arbitrary times",
         nojit=True)
def many_mpi2(h):
    _check_many(h, 50, "f", 2)


@harness("C04", "many_mpi3", bounds="52 time-dependent prefactors mixed with plain strings, 3 MPI processes, two "
         "arbitrary times", nojit=True)
def many_mpi3(h):
    _check_many(h, 52, "pffpp", 3)


@harness("C04", "many_mpi20", bounds="50 time-dependent prefactors, 12 MPI processes (more processes than blocks), two "
         "arbitrary times", nojit=True)
def many_mpi20(h):
    _check_many(h, 50, "f", 12)
