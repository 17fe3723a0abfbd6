from collections import OrderedDict

import numpy as np
import qp

from vlib.runner import task
from .fakes import memory_io
from .kinds import LONG, build, ens, eq_data, many, more

BOUNDS = "1-3 PDFs, every representation, 2-4 grid points, 1 evaluation point, up to 3 ancillary columns, up to 2 ensembles in a file, up to 2 round trips; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "the bytes written by the file libraries (HDF5, FITS, parquet): files are tables in memory, text coming back as bytes; single-precision storage"
QUICK_S = 100

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "quant", "quant_const", "norm", "packed", "packed_log", "bspline"]
METHODS = {"hist": ("pdf", "cdf", "ppf"), "interp": ("pdf", "cdf", "ppf"), "interp_irregular": ("pdf", "cdf", "ppf"), "mixmod": ("pdf", "cdf"), "quant": ("pdf", "cdf", "ppf"),
           "quant_const": ("pdf",), "norm": ("pdf", "cdf", "ppf"), "packed": ("pdf", "cdf"), "packed_log": ("pdf",), "bspline": ("pdf", "cdf")}


def anc(c, npdf, name="an"):
    return dict(z=c.array(name + "z", npdf), w=c.array(name + "w", (npdf, 2)), k=c.array(name + "k", (npdf, 1)))


def point(c, m):
    return c.real("x", 0.05, 0.95) if m == "ppf" else c.real("x", -11, 11)


def same(c, f, e, m, x, label, ancil=True):
    c.check(f.gen_class is e.gen_class, f"{label}: same representation")
    c.check(int(f.npdf) == int(e.npdf) and tuple(np.atleast_1d(f.shape)) == tuple(np.atleast_1d(e.shape)), f"{label}: same number of PDFs")
    eq_data(c, f.objdata(), e.objdata(), f"{label}: data")
    eq_data(c, f.metadata(), e.metadata(), f"{label}: metadata")
    for k, v in e.metadata().items():
        c.check(np.shape(f.metadata()[k]) == np.shape(v), f"{label}: metadata shape")
    if e.ancil is None:
        c.check(f.ancil is None, f"{label}: no ancillary data")
    else:
        c.check(f.ancil is not None, f"{label}: ancillary data")
        eq_data(c, f.ancil, e.ancil, f"{label}: ancillary data")
    if m:
        c.shaped_close(getattr(f, m)(x), getattr(e, m)(x), f"{label}: {m}")


def text(t, how):
    """the same tables as another file library would give them back"""
    out = OrderedDict()
    for name, cols in t.items():
        out[name] = OrderedDict()
        for k, v in cols.items():
            v = np.asarray(v) if not isinstance(v, np.ndarray) else v
            if how == "str" and v.dtype.kind == "S":
                v = np.char.decode(v)
            elif how == "bytes" and v.dtype.kind == "U":
                v = np.char.encode(v)
            if how == "wide" and name == "meta":
                v = np.expand_dims(v, 0) if v.ndim == 1 else v
            out[name][k] = v
    return out


@task(configs=[dict(kind=k, m=m, npdf=2) for k in KINDS for m in METHODS[k]] + [dict(kind=k, m="pdf", npdf=1) for k in KINDS] + [dict(kind="spline", m=None, npdf=2)],
      thorough=[dict(kind=k, m=m, npdf=3) for k in KINDS for m in METHODS[k][:2]])
def tables(c, kind, m, npdf):
    """an ensemble is rebuilt from its tables"""
    ctor, shared, per = build(c, kind, npdf)
    an = anc(c, npdf) if c.choice("ancil", [True, False]) else None
    e = ens(ctor, shared, per, ancil=an)
    x = point(c, m)
    t = e.build_tables()
    c.check(set(t) == ({"meta", "data"} if an is None else {"meta", "data", "ancil"}), "the tables")
    for k, v in t["data"].items():
        c.check(np.shape(v)[0] == npdf, "one row per PDF in the data")
    how = c.choice("text", ["bytes", "str", "wide"] if kind == "norm" else ["bytes", "str"])
    f = qp.from_tables(text(t, how))
    same(c, f, e, m, x, "from its tables")


@task(configs=[dict(kind=k, m=METHODS[k][0], npdf=2) for k in KINDS] + [dict(kind="hist", m="cdf", npdf=1), dict(kind="norm", m="cdf", npdf=1), dict(kind="spline", m=None, npdf=2)])
def files(c, kind, m, npdf):
    """write, then read"""
    ctor, shared, per = build(c, kind, npdf)
    an = anc(c, npdf) if c.choice("ancil", [True, False]) else None
    e = ens(ctor, shared, per, ancil=an)
    x = point(c, m)
    before = e.objdata()
    with memory_io(c) as io:
        e.write_to("dir/one.two.hdf5")
        c.check(list(io.files) == ["dir/one.two.hdf5"], "the file written is the one named")
        c.check(qp.is_qp_file("dir/one.two.hdf5"), "a written file is recognised")
        c.check(int(qp.data_length("dir/one.two.hdf5")) == npdf, "number of rows in the file")
        eq_data(c, qp.read_metadata("dir/one.two.hdf5"), {k: np.char.encode(v) if np.asarray(v).dtype.kind == "U" else v for k, v in e.metadata().items()}, "metadata in the file")
        f = qp.read("dir/one.two.hdf5")
        same(c, f, e, m, x, "read back")
        f.write_to("three.hdf5")
        same(c, qp.read("three.hdf5"), e, m, x, "read back twice")
        io.files["other.hdf5"] = {"data": {}}
        c.check(not qp.is_qp_file("other.hdf5"), "another file is not recognised")
    eq_data(c, e.objdata(), before, "writing changes nothing")


@task(configs=[dict(a="hist", b="norm"), dict(a="interp", b="mixmod"), dict(a="quant", b="interp_irregular"), dict(a="packed", b="hist")])
def several(c, a, b):
    """several ensembles in one file"""
    ea = ens(*build(c, a, 2, name="a"), ancil=anc(c, 2, "aa"))
    eb = ens(*build(c, b, 1, name="b"), ancil=anc(c, 1, "ba") if c.choice("ancil", [True, False]) else None)
    x = c.real("x", -11, 11)
    names = c.choice("names", [("first", "second"), ("z", "a")])
    with memory_io(c):
        qp.write_dict("both.hdf5", OrderedDict(zip(names, (ea, eb))))
        got = qp.read_dict("both.hdf5")
    c.check(set(got) == set(names), "the names of the ensembles")
    same(c, got[names[0]], ea, "pdf", x, "first ensemble")
    same(c, got[names[1]], eb, "pdf", x, "second ensemble")


@task(configs=[dict(kind=k, op=o) for k in ("hist", "interp", "norm", "interp_irregular", "mixmod", "quant", "bspline") for o in ("select", "append", "one")])
def after(c, kind, op):
    """ensembles which were selected from or appended to persist as well"""
    ctor, shared, per = build(c, kind, 2)
    an = anc(c, 2)
    e = ens(ctor, shared, per, ancil=an)
    x = c.real("x", -11, 11)
    if op == "select":
        e = e[c.choice("sel", [slice(None, None, -1), [1, 1, 0]])]
    elif op == "one":
        e = e[c.choice("sel", [0, 1])]
    else:
        e.append(ens(ctor, shared, more(c, kind, shared, 1, "o"), ancil=anc(c, 1, "oan")))
    with memory_io(c):
        e.write_to("f.hdf5")
        same(c, qp.read("f.hdf5"), e, "cdf" if kind != "interp" else "pdf", x, "read back")


@task(configs=[dict(dist=d, args=a) for d, a in (("uniform", ()), ("gamma", ("a",)), ("beta", ("a", "b")), ("lognorm", ("s",)), ("expon", ()), ("logistic", ()))])
def parametrised(c, dist, args):
    """distributions given by parameters keep them"""
    kw = dict(loc=c.array("loc", (2, 1), -5, 5), scale=c.array("scale", (2, 1), 0.1, 3))
    for a in args:
        kw[a] = c.array(a, (2, 1), 0.5, 3)
    e = qp.Ensemble(getattr(qp.stats, dist), data=kw)
    with memory_io(c):
        e.write_to("f.hdf5")
        f = qp.read("f.hdf5")
    same(c, f, e, None, None, "read back")
    eq_data(c, f.objdata(), kw, "the parameters")


@task(configs=[dict(kind=k) for k in LONG])
def long_tables(c, kind):
    """files of many rows, ancillary data of every type"""
    n = 140
    ctor, shared, per = many(c, kind, n)
    an = dict(i=np.arange(n) * 2**33, f=np.arange(n) / 8.0, b=np.arange(n) % 3 == 0, s=np.array(["%d" % i for i in range(n)]).astype("S4"), u=np.arange(n, dtype=np.uint8), two=np.arange(2 * n).reshape(n, 2))
    e = ens(ctor, shared, per, ancil=an)
    with memory_io(c):
        e.write_to("f.hdf5")
        c.check(int(qp.data_length("f.hdf5")) == n, "number of rows in the file")
        f = qp.read("f.hdf5")
    same(c, f, e, "pdf" if kind == "packed" else "cdf", 0.5, "read back")
    for k, v in an.items():
        c.check(np.asarray(f.ancil[k]).dtype == v.dtype, "type of the ancillary data")
        c.check(np.array_equal(np.asarray(f.ancil[k]), v), "ancillary values, exactly")
