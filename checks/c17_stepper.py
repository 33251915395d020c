"""C17: integration of the equations of motion."""
import numpy as np

from vp.harness import harness

o = lambda v: np.asarray(v, dtype=object)


class RHS:
    """an arbitrary right hand side: every evaluation returns fresh values; the arguments are recorded"""

    def __init__(self, h, n, rounds=None):
        self.h, self.n, self.calls, self.rounds = h, n, [], rounds

    def __call__(self, y, t, **kw):
        h = self.h
        if self.rounds is not None:
            h.assume(len(self.calls) < (5 * self.rounds if h.symbolic else 500))
        k = h.real("k%d" % len(self.calls), (self.n,))
        self.calls.append((h.np(y), h.np(t), dict(kw), o(k)))
        return h.jx(k)


def passed(h, calls, args, stages):
    for i, (y, t, kw, k) in enumerate(calls):
        kk = dict(kw)
        h.true("stage number", kk.pop("intStep", None) == i % stages)
        h.true("further arguments are passed on", set(kk) == set(args) and all(kk[a] is args[a] for a in args))


def _euler(h, n):
    import jVMC.util.stepper as st
    y, t, dt = h.real("y", (n,)), h.real("t"), h.real("dt", (), 0.001, 1)
    f = RHS(h, n)
    S = st.Euler(timeStep=h.jx(dt))
    a = {"psi": object(), "numSamples": 7}
    Y, used = S.step(h.jx(t), f, h.jx(y), **a)
    h.true("one evaluation", len(f.calls) == 1)
    c = f.calls[0]
    h.eq("argument", c[0], o(y))
    h.eq("time", c[1], o(t))
    h.eq("step", h.np(Y), o(y) + dt * c[3])
    h.eq("time step", h.np(used), o(dt))
    passed(h, f.calls, a, 1)
    Y2, used2 = S.step(h.jx(t), f, Y, **a)
    h.eq("second step", h.np(Y2), o(y) + dt * c[3] + dt * f.calls[1][3])


def _heun(h, n, how):
    import jVMC.util.stepper as st
    y, t, dt = h.real("y", (n,)), h.real("t"), h.real("dt", (), 0.001, 1)
    f = RHS(h, n)
    S = st.Heun(timeStep=h.jx(dt) if how == "init" else 0.125)
    a = {"psi": object(), "numSamples": 7}
    if how == "set":
        S.set_dt(h.jx(dt))
    if how == "argument":
        a["dt"] = h.jx(dt)
    Y, used = S.step(h.jx(t), f, h.jx(y), **a)
    h.true("two evaluations", len(f.calls) == 2)
    c, d = f.calls
    h.eq("argument", c[0], o(y))
    h.eq("time", c[1], o(t))
    h.eq("second argument", d[0], o(y) + dt * c[3])
    h.eq("second time", d[1], o(t + dt))
    h.eq("step", h.np(Y), o(y) + dt * 0.5 * (c[3] + d[3]))
    h.eq("time step", h.np(used), o(dt))
    passed(h, f.calls, a, 2)


for n in (1, 3):
    harness("C17", "euler_%d" % n, bounds="%d components, arbitrary state, time, step size and right hand side values" % n)(
        lambda h, n=n: _euler(h, n))
    for how in ("init", "set", "argument"):
        harness("C17", "heun_%s_%d" % (how, n), bounds="%d components, arbitrary state, time, step size (%s) and right "
                "hand side values" % (n, {"init": "at construction", "set": "by set_dt", "argument": "per call"}[how]))(
            lambda h, n=n, how=how: _heun(h, n, how))


def mid(y, dt, k0, k10, k01, k11):
    """two Heun steps of half the size"""
    d1 = 0.25 * dt * (k0 + k10)
    return d1, d1 + 0.25 * dt * (k01 + k11)


def _adaptive(h, n, rounds, steps=1, dt0=0.25, tol=1e-3, maxStep=1, norm=None, sym=False):
    import jVMC.util.stepper as st
    y, t = h.real("y", (n,), -1, 1), h.real("t", (), 0, 1)
    f = RHS(h, n, rounds * steps)
    S = st.AdaptiveHeun(timeStep=dt0, tol=tol, maxStep=maxStep)
    a = {"psi": object(), "numSamples": 7}
    kw = dict(a)
    if norm is not None:
        kw["normFunction"] = norm
    cur, first = o(y), min(dt0, maxStep)
    Y, start = h.jx(y), 0
    for s in range(steps):
        Y, used = S.step(h.jx(t), f, Y, **kw)
        calls = f.calls[start:]
        start = len(f.calls)
        used, nxt = h.np(used)[()], h.np(S.dt)[()]
        h.true("five evaluations per attempt", len(calls) % 5 == 0)
        h.eq("first attempt uses the current step size", calls[1][1], o(t + first))
        c = calls[-5:]
        k0, k1, k10, k01, k11 = [x[3] for x in c]
        half, d1 = mid(cur, used, k0, k10, k01, k11)
        d0 = 0.5 * used * (k0 + k1)
        for x, w in zip(c, [cur, cur + used * k0, cur + 0.5 * used * k0, cur + half, cur + half + 0.5 * used * k01]):
            h.eq("arguments", x[0], o(w))
        for x, w in zip(c, [t, t + used, t + used * 0.5, t + used * 0.5, t + used]):
            h.eq("times", x[1], o(w))
        h.eq("state", h.np(Y), o(cur + d1))
        err = o(d1 - d0)
        e = (sum(v * v for v in err) ** 0.5 if n > 1 else ab(h, err[0])) if norm is None else sum(ab(h, v) for v in err)
        h.true("error of the accepted step within the tolerance", e <= tol)
        h.true("step size positive", used > 0)
        h.true("step size at most maxStep", used <= maxStep)
        h.true("next step size at most maxStep", nxt <= maxStep)
        h.true("next step size at most twice the last one", nxt <= 2 * used)
        h.true("next step size at least a fifth of the last one", nxt >= min(0.2 * used if not h.symbolic else used * 0.2, maxStep)
               if not h.symbolic else (nxt >= used * 0.2) | (nxt >= maxStep))
        fe = tol / e
        fac = fe ** 0.33333 * 0.9
        fac = h.ite(fac > 0.2, h.ite(fac < 2, fac, 2), 0.2)
        if rounds is not None and rounds <= 2:
            h.eq("next step size follows from the error", o(nxt), o(h.ite(used * fac > maxStep, maxStep, used * fac)))
        if len(calls) > 5:
            h.true("rejected steps shrink", used < first)
        passed(h, calls, a, 5)
        cur, first = o(cur + d1), nxt


def ab(h, v):
    from vp import poly as P
    return P.absolute(P.const(v)) if h.symbolic else abs(v)


def rega(name, bounds, **kw):
    harness("C17", "adaptive_" + name, bounds=bounds + ", arbitrary right hand side values")(lambda h: _adaptive(h, **kw))


def l1(x):
    import jax.numpy as jnp
    return jnp.sum(jnp.abs(x))


rega("accept", "1 component, one step accepted at the first attempt", n=1, rounds=1)
rega("reject", "1 component, one step with up to one rejected attempt", n=1, rounds=2)
rega("reject2", "1 component, one step with up to two rejected attempts", n=1, rounds=3)
rega("limit", "1 component, initial step size above maxStep, up to one rejected attempt", n=1, rounds=2, dt0=0.5, maxStep=0.125)
rega("near_limit", "1 component, step size may grow to maxStep, two steps", n=1, rounds=1, steps=2, dt0=0.1, maxStep=0.125)
rega("vector", "2 components, one step accepted at the first attempt", n=2, rounds=1)
rega("norm", "2 components, user-defined norm", n=2, rounds=1, norm=l1)
