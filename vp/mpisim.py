"""A simulated MPI communicator: the ranks run as threads, one at a time, switching only inside collective calls.

Used identically in symbolic runs and in replays; the repository's code is unmodified, only the communicator object,
the rank and the number of ranks are supplied."""
import contextlib
import copy
import sys
import threading

import numpy as np


class Deadlock(RuntimeError):
    pass


class _Abort(BaseException):
    pass


_tls = threading.local()


def _rank():
    return getattr(_tls, "rank", 0)


class Comm:
    def __init__(self, world):
        self.w = world

    def Get_rank(self):
        return _rank()

    def Get_size(self):
        return self.w.n

    rank = property(Get_rank)
    size = property(Get_size)

    # ---- lower case: python objects
    def allreduce(self, x, op=None):
        return _reduce(self.w.exchange("allreduce", _copy(x)), op)

    def reduce(self, x, op=None, root=0):
        v = self.w.exchange("reduce", _copy(x))
        return _reduce(v, op) if _rank() == root else None

    def bcast(self, x=None, root=0):
        return _copy(self.w.exchange("bcast", _copy(x))[root])

    def allgather(self, x):
        return [_copy(v) for v in self.w.exchange("allgather", _copy(x))]

    def gather(self, x, root=0):
        v = self.w.exchange("gather", _copy(x))
        return [_copy(y) for y in v] if _rank() == root else None

    def scatter(self, x, root=0):
        return _copy(self.w.exchange("scatter", copy.copy(x))[root][_rank()])

    def barrier(self):
        self.w.exchange("barrier", None)

    Barrier = barrier

    # ---- upper case: buffers
    def Allreduce(self, send, recv, op=None):
        v = self.w.exchange("Allreduce", _buf(recv if _inplace(send) else send).copy())
        self._fill(recv, _reduce(v, op))

    def Bcast(self, buf, root=0):
        v = self.w.exchange("Bcast", _buf(buf).copy())
        if _buf(buf).size != v[root].size:
            raise Deadlock("Bcast: message truncated (%d vs %d elements)" % (_buf(buf).size, v[root].size))
        self._fill(buf, v[root])

    def Allgather(self, send, recv):
        v = self.w.exchange("Allgather", _buf(send).copy())
        self._fill(recv, np.concatenate([np.asarray(x).reshape(-1) for x in v]).reshape(_buf(recv).shape))

    @staticmethod
    def _fill(buf, v):
        b = _buf(buf)
        got, into = getattr(v, "dtype", None), getattr(b, "dtype", None)
        if got is not None and into is not None and got.kind in "fc" and into.kind in "fc" and got != into:
            raise ValueError("message: mismatch in send and receive MPI datatypes (%s, %s)" % (got, into))
        b[...] = v.reshape(b.shape) if hasattr(v, "reshape") else v


def _inplace(x):
    from mpi4py import MPI
    return isinstance(x, int) or x is MPI.IN_PLACE


def _buf(x):
    return x[0] if isinstance(x, (list, tuple)) else x


def _copy(x):
    return x.copy() if isinstance(x, np.ndarray) else x


def _reduce(v, op):
    from mpi4py import MPI
    out = v[0]
    for x in v[1:]:
        if op is None or op == MPI.SUM:
            out = out + x
        elif op == MPI.PROD:
            out = out * x
        elif op == MPI.MAX:
            out = np.maximum(out, x)
        elif op == MPI.MIN:
            out = np.minimum(out, x)
        else:
            raise NotImplementedError("reduction")
    return out


class World:
    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()
        self.turn = 0
        self.state = ["run"] * n       # run | wait | done
        self.kind = [None] * n
        self.val = [None] * n
        self.abort = None
        self.out = None
        self.globals = {}              # rank -> {(module, name): value}

    # ---- module globals belong to the process
    def _mods(self):
        return [m for n, m in list(sys.modules.items()) if m is not None and (n == "jVMC" or n.startswith("jVMC."))]

    def snapshot(self):
        d = {}
        for m in self._mods():
            for k, v in vars(m).items():
                if isinstance(v, (int, float, np.ndarray, list, dict)) and not k.startswith("__"):
                    d[(m.__name__, k)] = v
        return d

    def restore(self, d):
        for (m, k), v in d.items():
            setattr(sys.modules[m], k, v)

    def exchange(self, kind, v):
        if self.n == 1:
            return [v]
        r = _tls.rank
        with self.cv:
            self.kind[r], self.val[r], self.state[r] = kind, v, "wait"
            self.globals[r] = self.snapshot()
            self._next(r)
            while not (self.turn == r and self.state[r] == "run"):
                if self.abort is not None:
                    if isinstance(self.abort, Deadlock) and not getattr(self.abort, "taken", False):
                        self.abort.taken = True
                        raise self.abort
                    raise _Abort()
                self.cv.wait()
            self.restore(self.globals[r])
            return self.out

    def _next(self, r):
        """the calling rank stops running: pass the baton on"""
        if all(s != "run" for s in self.state):
            if all(s == "done" for s in self.state):
                self.cv.notify_all()
                return
            if any(s == "done" for s in self.state) or len(set(self.kind)) > 1:
                self.abort = Deadlock("collective communication does not match: %s" %
                                      [k if s == "wait" else "finished" for k, s in zip(self.kind, self.state)])
                self.cv.notify_all()
                return
            self.out = list(self.val)
            self.state = ["run"] * self.n
            self.turn = 0
        else:
            self.turn = next(q for q in range(self.n) if self.state[q] == "run")
        self.cv.notify_all()


@contextlib.contextmanager
def single():
    """symbolic sessions: a communicator of one process that accepts symbolic buffers"""
    from mpi4py import MPI
    w = World(1)
    comm = Comm(w)
    real = MPI.COMM_WORLD
    ms = w._mods()
    for m in ms:
        for k, v in list(vars(m).items()):
            if v is real:
                setattr(m, k, comm)
    MPI.COMM_WORLD = comm
    try:
        yield
    finally:
        MPI.COMM_WORLD = real
        for m in ms:
            for k, v in list(vars(m).items()):
                if v is comm:
                    setattr(m, k, real)


def run(h, n, fn):
    """fn(rank) executed by n simulated processes; returns the list of results"""
    import jax
    from jax._src import core
    from mpi4py import MPI
    import jVMC.mpi_wrapper as mw
    w = World(n)
    comm = Comm(w)
    real = MPI.COMM_WORLD              # the real one, or the single-process stand-in of a symbolic session
    base = w.snapshot()
    for m in w._mods():
        for k, v in list(vars(m).items()):
            if v is real:
                setattr(m, k, comm)
    MPI.COMM_WORLD = comm
    ts = core.thread_local_state.trace_state if h.symbolic else None
    res, err = [None] * n, [None] * n

    def body(r):
        _tls.rank = r
        with contextlib.ExitStack() as st:
            if h.symbolic:
                core.thread_local_state.trace_state = ts
                from jax._src.core import _update_thread_local_jit_state
                _update_thread_local_jit_state(ts.trace_stack.dynamic)
                if h.spec.opts.get("nojit"):
                    st.enter_context(jax.disable_jit())
            with w.cv:
                while w.turn != r:
                    if w.abort is not None:
                        return
                    w.cv.wait()
                if w.abort is not None:
                    return
                d = dict(base)
                d[("jVMC.mpi_wrapper", "rank")] = r
                d[("jVMC.mpi_wrapper", "commSize")] = n
                w.restore(d)
            try:
                res[r] = fn(r)
            except _Abort:
                pass
            except BaseException as e:
                err[r] = e
                with w.cv:
                    if w.abort is None:
                        w.abort = e
                    w.cv.notify_all()
                return
            with w.cv:
                w.state[r] = "done"
                w.globals[r] = w.snapshot()
                w._next(r)
    th = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
    try:
        threading.stack_size(256 * 1024 * 1024)
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        threading.stack_size(0)
        MPI.COMM_WORLD = real
        for m in w._mods():
            for k, v in list(vars(m).items()):
                if v is comm:
                    setattr(m, k, real)
        w.restore(base)
    for e in err:
        if e is not None:
            raise e
    return res
