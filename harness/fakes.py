"""Stand-ins for what surrounds the code under test: table files kept in memory, and random numbers."""
from collections import OrderedDict
from contextlib import contextmanager

import numpy as np
from tables_io import io as real_io

from vlib.sym import SymNum


MISSING = object()


@contextmanager
def swapped(*triples):
    old = []
    try:
        for obj, name, val in triples:
            old.append((obj, name, getattr(obj, name, MISSING)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, val in reversed(old):
            if val is MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, val)


class symint(int):
    """int() that lets a symbolic integer through"""

    def __new__(cls, v=0, *a):
        return v if isinstance(v, SymNum) and v.is_int else int(v, *a)


class Dataset:
    def __init__(self, a, name, declared=None):
        self.a, self.name, self.declared = a, name, declared

    @property
    def shape(self):
        return self.a.shape

    @property
    def dtype(self):
        return self.a.dtype

    def __len__(self):
        return len(self.a)

    def __getitem__(self, k):
        return self.a[k].copy()

    def __setitem__(self, k, v):
        self.a[k] = v


def stored(v):
    """what a file gives back: an independent array, text as bytes"""
    a = v.copy() if isinstance(v, np.ndarray) else np.array(v)
    if a.dtype.kind == "U":
        a = np.char.encode(a, "utf-8")
    return a


class Group(OrderedDict):
    """an open table (columns), or an open file (tables); closing the file closes its tables"""

    def __init__(self, *a):
        super().__init__(*a)
        self.closed = False

    def close(self):
        self.closed = True

    def create_group(self, name):
        self[name] = Group()
        return self[name]


class MemoryIO:
    """files are dictionaries: name -> table -> column (or name -> ensemble -> table -> column)"""

    def __init__(self, mk):
        self.files = {}
        self.mk = mk
        self.open = 0

    # whole tables
    def write(self, tables, basename, fmt):
        self.files[f"{basename}.{fmt}"] = Group((t, Group((k, Dataset(stored(v), k)) for k, v in cols.items())) for t, cols in tables.items())

    def _dict(self, g):
        return OrderedDict((k, d.a.copy()) for k, d in g.items())

    def read(self, filename, tType=None, fmt=None, keys=None, allow_missing_keys=False):
        f = self.files[filename]
        names = list(f) if keys is None else [k for k in keys if k in f or not allow_missing_keys]
        return OrderedDict((t, self._dict(f[t])) for t in names)

    def readNative(self, filename, fmt=None, keys=None, **kw):
        return self.read(filename, keys=keys)

    # hdf5 pieces
    def readHdf5Group(self, filename, groupname=None):
        f = self.files[filename]
        g = f
        for part in (groupname or "").split("/"):
            if part:
                g = g[part]
        return g, f

    def readHdf5GroupNames(self, filename, parent=None):
        return list(self.readHdf5Group(filename, parent)[0])

    def readHdf5GroupToDict(self, g, start=None, end=None):
        return self._dict(g)

    def readHdf5ToDict(self, filename, groupname=None):
        return self._dict(self.readHdf5Group(filename, groupname)[0])

    def readHdf5DatasetToArray(self, ds, start=None, end=None):
        return ds.a.copy() if start is None or end is None else ds.a[start:end].copy()

    def getGroupInputDataLength(self, g):
        return real_io.getGroupInputDataLength(g)

    def data_ranges_by_rank(self, *a):
        return real_io.data_ranges_by_rank(*a)

    def writeDictsToHdf5(self, tables, filename, **kw):
        self.files[filename] = Group((e, Group((t, Group((k, Dataset(stored(v), k)) for k, v in cols.items())) for t, cols in ts.items())) for e, ts in tables.items())

    def initializeHdf5Write(self, filename, comm=None, **kwds):
        f = Group()
        for t, cols in kwds.items():
            g = f.create_group(t)
            for k, (shape, dtype) in cols.items():
                shape = tuple(int(v) for v in shape)
                kept = np.dtype(dtype).kind in "iubSU?"  # numbers that may be symbolic are kept as they are, everything else by its type
                g[k] = Dataset(np.zeros(shape, dtype) if kept else self.mk(np.full(shape, np.nan, dtype=object)), k, np.dtype(dtype))
        self.files[filename] = f
        return OrderedDict(f), f

    def writeDictToHdf5Chunk(self, groups, odict, start, end, **kw):
        for t, g in groups.items():
            for k, v in odict[t].items():
                sl = g[k].a[start:end]
                if np.shape(sl) != np.shape(v):
                    raise TypeError(f"cannot write {np.shape(v)} into {np.shape(sl)}")
                g[k].a[start:end] = v

    def finalizeHdf5Write(self, fout, groupname=None, **kwds):
        g = fout if groupname is None else fout.create_group(groupname)
        for k, v in kwds.items():
            g[k] = Dataset(stored(v), k)
        fout.close()


@contextmanager
def memory_io(c):
    import qp.ensemble
    import qp.factory

    io = MemoryIO(c._mk)
    with swapped((qp.factory, "io", io), (qp.ensemble, "io", io)):
        yield io


class Uniforms(np.random.RandomState):
    """stands in for numpy's random state: hands out given uniform numbers, in order"""

    def __init__(self, c, values):
        super().__init__(0)
        self.c, self.values, self.used = c, values, 0

    def _take(self, size):
        n = int(np.prod(size)) if size is not None and size != () else 1
        v = self.values[self.used:self.used + n]
        if len(v) < n:
            raise IndexError("more random numbers asked for than given")
        self.used += n
        if size is None or size == ():
            return v[0]
        return v.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._take(size)

    def random_sample(self, size=None):
        return self._take(size)

    random = random_sample

    def standard_normal(self, size=None):
        return self._take(size)


class Digest:
    """stands in for the approximate t-digest: keeps every value, with its weight, exactly"""

    def __init__(self, x, w):
        self.x, self.w = x, w

    @classmethod
    def compute(cls, x, w=None, compression=100, **kw):
        x = np.atleast_1d(x)
        return cls(x, np.ones(len(x)) if w is None else w)

    @classmethod
    def of_centroids(cls, centroids, compression=100):
        return cls(centroids[:, 0], centroids[:, 1])

    def __add__(self, other):
        return Digest(np.concatenate([self.x, other.x]), np.concatenate([self.w, other.w]))

    def get_centroids(self):
        return np.stack([self.x, self.w], axis=1)

    @property
    def weight(self):
        return float(sum(float(v) for v in self.w))

    @property
    def mean(self):
        return np.mean(self.x)

    def inverse_cdf(self, q):
        return np.quantile(self.x, q)

    def cdf(self, x):
        """the inverse of inverse_cdf, for values which differ"""
        return np.interp(x, np.sort(self.x), np.linspace(0.0, 1.0, len(self.x)))


@contextmanager
def exact_digest():
    """the library is replaced where the code under test looks it up"""
    import types

    from qp.metrics import concrete_metric_classes, point_estimate_metric_classes

    lib = types.SimpleNamespace(TDigest=Digest)
    with swapped((concrete_metric_classes, "pytdigest", lib), (point_estimate_metric_classes, "pytdigest", lib)):
        yield Digest
