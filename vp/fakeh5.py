"""In-memory stand-in for h5py.File with the documented behaviour of the operations used; the stored numbers may be symbolic.

Active in symbolic runs only; replays use the real h5py on files in a scratch directory."""
import contextlib
import sys

import numpy as np

from . import poly as P
from . import symjax as S


def norm(path):
    return [p for p in path.split("/") if p]


class Dataset:
    def __init__(self, val, dtype, maxshape, rnd):
        self.val, self.dtype, self.maxshape, self.rnd = val, np.dtype(dtype), maxshape, rnd

    shape = property(lambda self: self.val.shape)
    size = property(lambda self: self.val.size)
    ndim = property(lambda self: self.val.ndim)

    def __len__(self):
        if not self.val.shape:
            raise TypeError("Attempt to take len() of scalar dataset")
        return self.val.shape[0]

    def resize(self, size, axis=None):
        if axis is not None:
            size = tuple(size if i == axis else n for i, n in enumerate(self.val.shape))
        size = (size,) if isinstance(size, (int, np.integer)) else tuple(int(n) for n in size)
        if self.maxshape is None:
            raise TypeError("Only chunked datasets can be resized")
        if len(size) != self.val.ndim:
            raise ValueError("unable to set extend dataset")
        for n, m in zip(size, self.maxshape):
            if m is not None and n > m:
                raise ValueError("unable to set extend dataset (dimension cannot exceed the existing maximal size)")
        new = np.empty(size, dtype=object)
        new[...] = P.ZERO
        sl = tuple(slice(0, min(a, b)) for a, b in zip(size, self.val.shape))
        new[sl] = self.val[sl]
        self.val = new

    def _idx(self, i):
        if isinstance(i, tuple):
            return tuple(self._idx(j) for j in i)
        return i if isinstance(i, slice) or i is Ellipsis else int(i)

    def _check(self, i):
        for j, n in zip(i if isinstance(i, tuple) else (i,), self.val.shape):
            if isinstance(j, int) and not -n <= j < n:
                raise IndexError("Index (%d) out of range for (0-%d)" % (j, n - 1))
        return i

    def __setitem__(self, i, v):
        i = self._check(self._idx(i))
        v = self.rnd(S.to_obj(v), self.dtype)
        if not isinstance(i, int):
            self.val[i] = v
            return
        if np.broadcast_shapes(v.shape, self.val[i].shape if isinstance(self.val[i], np.ndarray) else ()) != \
                (self.val[i].shape if isinstance(self.val[i], np.ndarray) else ()):
            raise TypeError("Can't broadcast %s -> %s" % (v.shape, self.val.shape[1:]))
        self.val[i] = v if self.val.ndim > 1 else v[()]

    def __getitem__(self, i):
        r = self.val[self._check(self._idx(i))]
        return S.symarr(r.copy(), self.dtype) if isinstance(r, np.ndarray) else r

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __array__(self, dtype=None, copy=None):
        return self.val.copy()


class Group:
    def __init__(self, rnd):
        self.items_, self.rnd = {}, rnd

    def _find(self, path):
        g = self
        for p in norm(path):
            if not isinstance(g, Group) or p not in g.items_:
                raise KeyError("Unable to open object (object '%s' doesn't exist)" % p)
            g = g.items_[p]
        return g

    def _base(self, path):
        return self.root if path.startswith("/") else self

    def __getitem__(self, path):
        return self._base(path)._find(path)

    def __contains__(self, path):
        try:
            self[path]
            return True
        except KeyError:
            return False

    def get(self, path, default=None):
        return self[path] if path in self else default

    def keys(self):
        return self.items_.keys()

    def items(self):
        return self.items_.items()

    def values(self):
        return self.items_.values()

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)

    def _new(self, path, obj):
        g, parts = self._base(path), norm(path)
        if not parts:
            raise ValueError("Unable to create (name already exists)")
        for p in parts[:-1]:
            if p not in g.items_:
                g.items_[p] = self._group()
            g = g.items_[p]
            if not isinstance(g, Group):
                raise ValueError("Unable to create (component not found)")
        if parts[-1] in g.items_:
            raise ValueError("Unable to create dataset (name already exists)")
        g.items_[parts[-1]] = obj
        return obj

    def _group(self):
        g = Group(self.rnd)
        g.root = self.root
        return g

    def create_group(self, path):
        self.writable()
        return self._new(path, self._group())

    def require_group(self, path):
        return self[path] if path in self or not norm(path) else self.create_group(path)

    def create_dataset(self, path, shape=None, dtype=None, data=None, maxshape=None, chunks=None, **kw):
        self.writable()
        if data is not None:
            sd = getattr(data, "dtype", np.dtype(float))
            val = S.to_obj(data)
            dtype = dtype or (sd if sd != object else np.dtype(float))
            if shape is not None:
                val = val.reshape(shape)
        else:
            shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
            val = np.empty(shape, dtype=object)
            val[...] = P.ZERO
        dtype = np.dtype(dtype or "f4")
        return self._new(path, Dataset(self.rnd(val, dtype), dtype, maxshape, self.rnd))

    def require_dataset(self, path, shape, dtype, **kw):
        return self[path] if path in self else self.create_dataset(path, shape, dtype, **kw)

    def writable(self):
        if self.root.mode == "r":
            raise ValueError("Unable to create (no write intent on file)")

    def __setitem__(self, path, data):
        self.create_dataset(path, data=data)

    def __delitem__(self, path):
        p = norm(path)
        g = self._base(path)._find("/".join(p[:-1]))
        if p[-1] not in g.items_:
            raise KeyError("Couldn't delete link")
        del g.items_[p[-1]]


@contextlib.contextmanager
def installed(h, modules):
    """replace h5py.File by the stand-in in the given modules; yields the File class"""
    import h5py
    files, opened, n = {}, set(), [0]

    def rnd(v, dtype):
        if dtype.kind == "f" and dtype.itemsize >= 8 or dtype.kind == "c" and dtype.itemsize >= 16 or dtype == object:
            return v
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):          # a lossy data type: the value is changed by an arbitrary small amount
            if v[i].const_value() is not None:
                out[i] = v[i]
                continue
            n[0] += 1
            out[i] = v[i] + h.real("rounding%d" % n[0], (), -1e-3, 1e-3)
        return out

    class File(Group):
        def __init__(self, fn, mode="r", **kw):
            fn = str(fn)
            if fn in opened:
                raise OSError("unable to lock file")
            if mode == "r" or mode == "r+":
                if fn not in files:
                    raise FileNotFoundError(fn)
            elif mode == "w":
                files[fn] = {}
            elif mode in ("w-", "x"):
                if fn in files:
                    raise FileExistsError(fn)
                files[fn] = {}
            elif mode == "a":
                files.setdefault(fn, {})
            else:
                raise ValueError("invalid mode")
            self.rnd, self.items_, self.root, self.mode, self.fn = rnd, files[fn], self, mode, fn
            stack = [self]
            while stack:                        # groups of a file opened earlier belong to the newly opened file
                g = stack.pop()
                g.root = self
                stack += [v for v in g.items_.values() if isinstance(v, Group)]
            opened.add(fn)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            opened.discard(self.fn)

        def flush(self):
            pass
    real = h5py.File
    changed = []
    for m in modules:
        for k, v in list(vars(m).items()):
            if v is real:
                changed.append((m, k, v))
                setattr(m, k, File)
    h5py.File = File
    try:
        yield File
    finally:
        h5py.File = real
        for m, k, v in changed:
            setattr(m, k, v)
