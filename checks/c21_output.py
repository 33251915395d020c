"""C21: OutputManager keeps what was written, per group and in order, and returns checkpoints faithfully."""
import contextlib
import shutil
import tempfile
import types

import numpy as np

from vp.harness import harness
from checks.c06_reductions import run

o = lambda v: np.asarray(v, dtype=object)
EXACT = 1e-14


class Files:
    """the data files: in memory with symbolic contents, or real ones in a scratch directory"""

    def __init__(self, h):
        self.h = h

    def __enter__(self):
        import jVMC.util.output_manager as om
        self.stack = contextlib.ExitStack()
        self.dir = "/scratch"
        if self.h.symbolic:
            from vp import fakeh5
            self.File = self.stack.enter_context(fakeh5.installed(self.h, [om]))
        else:
            import h5py
            self.dir = tempfile.mkdtemp(prefix="vp_out_")
            self.stack.callback(shutil.rmtree, self.dir, True)
            self.File = h5py.File
        self.fn = self.dir + "/data.hdf5"
        return self

    def __exit__(self, *a):
        self.stack.close()

    def tree(self):
        """all groups and data sets of the file"""
        out, groups = {}, set()
        with self.File(self.fn, "r") as f:
            def walk(g, path):
                for k in g.keys():
                    v = g[k]
                    if hasattr(v, "keys"):
                        groups.add(path + "/" + k)
                        walk(v, path + "/" + k)
                    else:
                        out[path + "/" + k] = np.array(v[()])
            walk(f, "")
        return out, groups


def same(h, label, files, expected):
    got, groups = files.tree()
    h.true("%s: data sets" % label, sorted(got) == sorted(expected))
    for k in sorted(expected):
        h.eq("%s: %s" % (label, k), h.np(got[k]), o(expected[k]), tol=EXACT)
    return groups


GROUPS = ["/", "a", "a/b"]


def _history(h, steps, ranks=1, ops=None):
    """any sequence of operations on the same file"""
    import jVMC.util.output_manager as om
    prog = [h.choose("op%d" % i, ops) for i in range(steps)]
    append = h.choose("append", [False, True])
    g0 = h.choose("group", GROUPS)
    data = []
    for i, p in enumerate(prog):
        data.append({"t": h.real("t%d" % i), "x": h.real("x%d" % i, (2,)), "y": h.real("y%d" % i)})
    with Files(h) as files:
        with files.File(files.fn, "w") as f:                # data of an earlier run
            f.create_dataset("old", data=h.np(o([h.real("old", lo=0, hi=1)])) if h.symbolic else np.array([h.real("old", lo=0, hi=1)]))

        def go(r):
            out = om.OutputManager(files.fn, group=g0, append=append)
            for p, d in zip(prog, data):
                jx = lambda v: h.jx(o(v) if h.symbolic else v, np.float64)
                if p in GROUPS:
                    out.set_group(p)
                elif p == "obs":
                    out.write_observables(d["t"], E={"mean": jx(d["x"]), "var": jx(d["y"])}, S={"mean": jx(d["y"])})
                elif p == "meta":
                    out.write_metadata(d["t"], err=jx(d["y"]), spec=jx(d["x"]))
                elif p == "net":
                    out.write_network_checkpoint(d["t"], jx(d["x"]))
                elif p == "reopen":
                    out = om.OutputManager(files.fn, group=out.currentGroup.strip("/") or "/", append=True)
                elif p == "new":
                    out = om.OutputManager(files.fn)
        run(h, ranks, go)
        # what should be in the file
        store = {"/old": [h.real("old", lo=0, hi=1)]} if append else {}
        visited = {g0}
        cur = g0
        for p, d in zip(prog, data):
            pre = "/" + cur if cur != "/" else ""
            add = lambda k, v: store.setdefault(pre + k, []).append(v)
            if p in GROUPS:
                cur = p
                visited.add(p)
            elif p == "obs":
                add("/observables/times", d["t"])
                add("/observables/E/mean", d["x"])
                add("/observables/E/var", d["y"])
                add("/observables/S/mean", d["y"])
            elif p == "meta":
                add("/metadata/times", d["t"])
                add("/metadata/err", d["y"])
                add("/metadata/spec", d["x"])
            elif p == "net":
                add("/network_checkpoints/times", d["t"])
                add("/network_checkpoints/checkpoints", d["x"])
            elif p == "new":
                store, cur, visited = {}, "/", set()
        groups = same(h, "file", files, {k: np.array(v) for k, v in store.items()})
        for g in visited - {"/"}:
            h.true("group " + g, "/" + g in groups)


@harness("C21", "history", bounds="every sequence of 3 operations out of set_group (root, a, a/b), observables, metadata, checkpoint, "
         "appending re-open, truncating re-open; arbitrary times and values; opened with or without append")
def history(h):
    _history(h, 3, ops=GROUPS + ["obs", "meta", "net", "reopen", "new"])


@harness("C21", "history_group", bounds="every sequence of 4 operations out of set_group (root, a), observables, checkpoint, "
         "on 2 processes")
def history_group(h):
    _history(h, 4, ranks=2, ops=["/", "a", "obs", "net"])


@harness("C21", "history_deep", tiers=("thorough",), bounds="every sequence of 5 operations")
def history_deep(h):
    _history(h, 5, ops=["/", "a", "obs", "meta", "net", "reopen"])


@harness("C21", "late_observable", bounds="an observable first written at the second or third time, scalars, vectors and matrices")
def late(h):
    import jVMC.util.output_manager as om
    first = h.choose("first", [0, 1, 2])
    shape = h.choose("shape", [(), (1,), (2, 2)])
    t = h.real("t", (3,))
    x, y = h.real("x", (3,) + shape), h.real("y", (3,))
    with Files(h) as files:
        out = om.OutputManager(files.fn, group="g")
        for i in range(3):
            jx = lambda v: h.jx(o(v) if h.symbolic else v, np.float64)
            kw = {"E": {"mean": jx(y[i])}}
            if i >= first:
                kw["M"] = {"mean": jx(x[i])}
            out.write_observables(t[i], **kw)
        same(h, "file", files, {"/g/observables/times": t, "/g/observables/E/mean": y, "/g/observables/M/mean": x[first:]})


def _checkpoint(h, ranks, n, mode, p=2):
    """read back one of n checkpoints"""
    import jVMC.util.output_manager as om
    t = np.cumsum(h.real("dt", (n,), 0.01, 3))
    w = h.real("w", (n, p))
    grp = h.choose("group", ["/", "a"])
    other = h.choose("other", [False, True])
    if mode == "time":
        q = h.real("q", (), 0, 12)
        kw = {"time": q}
    elif mode == "idx":
        k = h.choose("k", list(range(-n, n)))
        kw = {"idx": k}
    else:
        kw = {}
    with Files(h) as files:
        def go(r):
            jx = lambda v: h.jx(o(v) if h.symbolic else v, np.float64)
            out = om.OutputManager(files.fn, group=grp)
            if other:
                out.set_group("other")
                out.write_network_checkpoint(h.real("t2", (), 0, 10), jx(h.real("w2", (p,))))
                out.set_group(grp)
            for i in range(n):
                out.write_network_checkpoint(t[i], jx(w[i]))
            a, b = out.get_network_checkpoint(**kw)
            return a, h.np(b)
        res = run(h, ranks, go)
    for r in range(ranks):
        a, b = res[r]
        if mode == "time":
            best = 0
            for i in range(1, n):                           # increasing times: nearest means on which side of the middle
                m = t[i - 1] + t[i] - 2 * q
                if not bool(m > 0) and (bool(m < 0) or bool(o(a - t[i - 1])[()] != 0)):
                    best = i
            want = best
        else:
            want = k if mode == "idx" else n - 1
        h.eq("time on process %d" % r, h.np(o(a)), h.np(o(t[want])), tol=EXACT)
        h.eq("weights on process %d" % r, b, o(w[want]), tol=EXACT)


def reg(name, bounds, tiers=("quick", "thorough"), **kw):
    harness("C21", "checkpoint_" + name, bounds=bounds, tiers=tiers)(lambda h: _checkpoint(h, **kw))


reg("latest", "1 process, 3 checkpoints, the last one", ranks=1, n=3, mode="latest")
reg("idx", "2 processes, 3 checkpoints, any index", ranks=2, n=3, mode="idx")
reg("time", "2 processes, 3 checkpoints at arbitrary increasing times, nearest to an arbitrary time", ranks=2, n=3, mode="time")
reg("time_one", "3 processes, 1 checkpoint, any time", ranks=3, n=1, mode="time")
reg("time_four", "1 process, 4 checkpoints, nearest to an arbitrary time", tiers=("thorough",), ranks=1, n=4, mode="time")


@harness("C21", "restart", bounds="2 processes; parameters of a network written and restored in a second session that appends give "
         "the same amplitudes, the next checkpoint follows; arbitrary parameters")
def restart(h):
    import jVMC.util.output_manager as om
    from vp.util import table_net
    import jVMC
    import jax.numpy as jnp
    L = 1
    p = h.real("p", (4,))
    q = h.real("q", (4,))
    t = h.real("t", (2,), 0, 10)
    s = h.bit("s", (1, 2, L))
    net = table_net(L)

    def psi():
        out = jVMC.vqs.NQS(net, batchSize=2)
        out(jnp.zeros((1, 1, L), dtype=np.int32))
        return out
    with Files(h) as files:
        def go(r):
            jx = lambda v: h.jx(o(v) if h.symbolic else v, np.float64)
            a, b = psi(), psi()
            a.set_parameters(jx(p))
            out = om.OutputManager(files.fn, group="run")
            out.write_network_checkpoint(t[0], a.get_parameters())
            out2 = om.OutputManager(files.fn, group="run", append=True)
            t1, w1 = out2.get_network_checkpoint()
            b.set_parameters(jnp.asarray(w1))
            S = h.jx(s, np.int32)
            first = h.np(a(S)), h.np(b(S)), t1
            b.set_parameters(jx(q))
            out2.write_network_checkpoint(t[1], b.get_parameters())
            return first + out2.get_network_checkpoint(idx=0) + out2.get_network_checkpoint()
        res = run(h, 2, go)
    for r in range(2):
        A, B, t1, t0, w0, t2, w2 = res[r]
        h.eq("amplitudes", B, A, tol=1e-10)
        h.eq("times", h.np(o([t1, t0, t2])), h.np(o([t[0], t[0], t[1]])), tol=EXACT)
        h.eq("first", h.np(w0), o(p), tol=EXACT)
        h.eq("second", h.np(w2), o(q), tol=EXACT)


def _data(h, fn):
    """write_dataset / write_error_data from any process"""
    import jVMC.util.output_manager as om
    ranks = 2
    x = h.real("x", (ranks, 2))
    y = h.real("y", (ranks, 1, 2))
    src = h.choose("src", [None, 0, 1])
    g = h.choose("group", ["/", "a", "a/b"])
    cur = h.choose("current", ["/", "c"])
    with Files(h) as files:
        def go(r):
            out = om.OutputManager(files.fn, group=cur)
            import jVMC.mpi_wrapper as mpi
            mpi.comm.barrier()
            kw = {} if src is None else {"mpiRank": src}
            jx = lambda v: h.jx(o(v) if h.symbolic else v, np.float64)
            if fn == "dataset":
                if g != "/":
                    kw["groupname"] = g
                out.write_dataset("n1", jx(x[r]), **kw)
                out.write_dataset("n2", jx(y[r]), **kw)
            else:
                out.write_error_data("n1", jx(x[r]), **kw)
                out.write_error_data("n2", jx(y[r]), **kw)
        run(h, ranks, go)
        pre = ("" if g == "/" else "/" + g) if fn == "dataset" else "/error_data"
        same(h, "file", files, {pre + "/n1": x[src or 0], pre + "/n2": y[src or 0]})


@harness("C21", "write_dataset", bounds="2 processes, any writing process, any group")
def dataset(h):
    _data(h, "dataset")


@harness("C21", "write_error_data", bounds="2 processes, any writing process")
def error_data(h):
    _data(h, "error")


@contextlib.contextmanager
def clock(now):
    """the clock read by the output manager"""
    import time
    import jVMC.util.output_manager as om
    fns = [time.perf_counter, time.time, time.monotonic, time.process_time]
    fake = types.SimpleNamespace(**{k: getattr(time, k) for k in dir(time) if not k.startswith("__")})
    for f in ("perf_counter", "time", "monotonic", "process_time"):
        setattr(fake, f, lambda: now[0])
    old = {k: v for k, v in vars(om).items() if v is time or any(v is f for f in fns)}
    for k, v in old.items():
        setattr(om, k, fake if v is time else (lambda: now[0]))
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(om, k, v)


@harness("C21", "timings", bounds="every sequence of 4 timing operations (start/stop of two nested or overlapping timers, add) at "
         "arbitrary times")
def timings(h):
    import jVMC.util.output_manager as om
    now = [0.0]
    dts = [h.real("dt%d" % i, lo=0, hi=5) for i in range(5)]
    ops = ["startA", "stopA", "startB", "stopB", "addA"]
    prog = ["startA"] + [h.choose("op%d" % i, ops) for i in range(4)]
    started, total, newest, count = {}, {}, {}, {}
    with Files(h) as files:
        out = om.OutputManager(files.fn)
        with clock(now):
            for p, dt in zip(prog, dts):
                now[0] = now[0] + dt
                name = p[-1]
                if p.startswith("stop"):
                    if name not in started:
                        continue                            # stopping a timer that does not run is undefined
                    out.stop_timing(name)
                    el = now[0] - started.pop(name)
                elif p.startswith("start"):
                    out.start_timing(name)
                    started[name] = now[0]
                    continue
                else:
                    el = h.real("el%d" % prog.index(p), lo=0, hi=5)
                    out.add_timing(name, el)
                total[name] = total.get(name, 0) + el
                newest[name] = el
                count[name] = count.get(name, 0) + 1
    for name in total:
        v = out.timings[name]
        h.eq("total " + name, h.np(o(v["total"])), h.np(o(total[name])), tol=1e-10)
        h.eq("newest " + name, h.np(o(v["newest"])), h.np(o(newest[name])), tol=1e-10)
        h.true("count " + name, v["count"] == count[name])
