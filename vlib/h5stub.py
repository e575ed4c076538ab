"""The part of h5py that recorders use, in memory, able to hold symbolic values.

Modelled after h5py's documented behaviour: names are unique in a group, iteration is in
alphabetical order, mode "w" truncates, "r"/"r+" need an existing file, "x"/"w-" a new
one, data sets have fixed shapes and are filled with zeros, assignments broadcast."""
from __future__ import annotations

import contextlib
import itertools

import numpy as np


class Dataset:
    def __init__(self, name, shape, dtype, data=None):
        self.name = name
        self.shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(
            int(s) for s in shape
        )
        self.dtype = np.dtype(dtype if dtype is not None else "f4")
        self.values = np.empty(self.shape, dtype=object)
        self.values[...] = 0.0
        self.written = np.zeros(self.shape, dtype=int)
        self.file = None
        self.initial = data is not None
        if self.initial:
            self._store((Ellipsis,), data)
            self.written[...] = 0

    @property
    def size(self):
        return self.values.size

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        return self.shape[0]

    def _check(self, key):
        key = key if isinstance(key, tuple) else (key,)
        for k, n in zip(key, self.shape):
            if isinstance(k, (int, np.integer)) and not -n <= k < n:
                raise IndexError(f"Index ({k}) out of range for (0-{n - 1})")
        return key

    def __getitem__(self, key):
        if self.file is not None and not self.file._open:
            raise ValueError("Not a dataset (file is closed)")
        r = self.values[self._check(key)]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, value):
        if self.file is not None:
            self.file._writable()
        self._store(self._check(key), value)

    def _store(self, key, value):
        sel = self.written[key]
        shape = sel.shape if isinstance(sel, np.ndarray) else ()
        value = np.asarray(value, dtype=object)
        if self.dtype.kind in "iu":
            raise TypeError("symbolic values in an integer data set")
        n = int(np.prod(shape))
        if value.size == n:
            # h5py ignores axes of length one
            if [s for s in value.shape if s != 1] != [s for s in shape if s != 1]:
                raise TypeError(f"Can't broadcast {value.shape} -> {shape}")
            value = value.reshape(shape)
        else:
            try:
                value = np.broadcast_to(value, shape)
            except ValueError:
                raise TypeError(f"Can't broadcast {value.shape} -> {shape}") from None
        if shape == ():
            self.values[key] = value.item()
        else:
            self.values[key] = value
        self.written[key] += 1


class Group:
    def __init__(self, file):
        self._items = {}
        self._file = file
        self.attrs = {}

    def _handle(self):
        return self._file

    def _split(self, name):
        parts = [p for p in str(name).split("/") if p]
        g = self
        for p in parts[:-1]:
            g = g._items[p]
        return g, parts[-1]

    def create_group(self, name, **kw):
        self._file._writable()
        if not isinstance(name, str):
            raise TypeError("names are strings")
        if name in self:
            raise ValueError("Unable to create group (name already exists)")
        g = self
        parts = [p for p in name.split("/") if p]
        for p in parts:
            if p not in g._items:
                g._items[p] = Group(self._file)
            g = g._items[p]
        return g

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        self._file._writable()
        if name in self:
            raise ValueError("Unable to create dataset (name already exists)")
        if data is not None and shape is None:
            shape = np.shape(data)
        g = self
        parts = [p for p in name.split("/") if p]
        for p in parts[:-1]:
            g = g._items[p] if p in g._items else g.create_group(p)
        d = Dataset(parts[-1], shape, "f8" if data is not None and dtype is None else dtype, data)
        d.file = self._file
        g._items[parts[-1]] = d
        return d

    def require_dataset(self, name, shape, dtype=None, **kw):
        return self[name] if name in self else self.create_dataset(name, shape, dtype, **kw)

    def __getitem__(self, name):
        self._file._readable()
        try:
            g, n = self._split(name)
            return g._items[n]
        except KeyError:
            raise KeyError(f"Unable to open object '{name}'") from None

    def __setitem__(self, name, value):
        self.create_dataset(name, data=value)

    def __delitem__(self, name):
        self._file._writable()
        g, n = self._split(name)
        del g._items[n]

    def __contains__(self, name):
        try:
            g, n = self._split(name)
            return n in g._items
        except KeyError:
            return False

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __iter__(self):
        self._file._readable()
        return iter(sorted(self._items))

    def __len__(self):
        return len(self._items)

    def keys(self):
        return list(iter(self))

    def values(self):
        return [self._items[k] for k in self]

    def items(self):
        return [(k, self._items[k]) for k in self]


class Store:
    """Files by name."""

    def __init__(self):
        self.files = {}


class File(Group):
    store = Store()

    def __init__(self, name, mode="r", driver=None, comm=None, **kw):
        name = str(name)
        files = File.store.files
        self._mode = mode
        self._open = True
        if mode in ("r", "r+"):
            if name not in files:
                raise FileNotFoundError(f"Unable to open file '{name}'")
        elif mode in ("w-", "x"):
            if name in files:
                raise FileExistsError(f"Unable to create file '{name}'")
        elif mode not in ("w", "a"):
            raise ValueError("Invalid mode")
        old = files.get(name)
        if old is not None and old._open:
            raise OSError("file is already open")
        super().__init__(self)
        if old is not None and mode != "w":
            self._items = old._items
            self.attrs = old.attrs
            self._adopt(self)
        files[name] = self
        self.filename = name

    def _adopt(self, g):
        for v in g._items.values():
            if isinstance(v, Group):
                v._file = self
                self._adopt(v)
            else:
                v.file = self

    def _writable(self):
        if not self._open:
            raise ValueError("file is closed")
        if self._mode == "r":
            raise ValueError("Unable to write (no write intent on file)")

    def _readable(self):
        if not self._open:
            raise ValueError("file is closed")

    def close(self):
        self._open = False

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@contextlib.contextmanager
def in_memory(ctx, *modules):
    """Within the context the modules find this instead of h5py (symbolic runs only)."""
    if not ctx.symbolic:
        yield
        return
    import h5py

    real, old = h5py.File, File.store
    undo = [(h5py, "File", real)]
    for m in modules:
        undo += [(m, k, v) for k, v in vars(m).items() if v is real]
    File.store = Store()
    try:
        for m, k, _ in undo:
            setattr(m, k, File)
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)
        File.store = old


_serial = itertools.count()


def fresh_name(ctx):
    import os

    return os.path.join(
        os.environ.get("VERIF_SCRATCH", "/tmp"), f"rec{os.getpid()}_{next(_serial)}.h5"
    )


def content(name):
    """{group: {data set: (shape, values)}} of a file."""
    import h5py

    r = {}
    with h5py.File(name, mode="r") as f:
        for k, g in f.items():
            r[k] = {n: np.array(d[...], dtype=object) for n, d in g.items()}
    return r


def discard(ctx, name):
    import os

    if not ctx.symbolic and os.path.exists(name):
        os.unlink(name)
