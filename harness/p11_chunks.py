import numpy as np
import qp

from vlib.ctx import KF
from vlib.runner import task
from .fakes import memory_io
from .kinds import LONG, build, ens, eq_data, many

BOUNDS = "files of 1-5 PDFs, every chunk size from 1 to 7, 1-3 ranks, every representation; writing in up to 3 chunks at any boundaries, in any order; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "the bytes written by the file library (files are tables in memory)"
QUICK_S = 120

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "quant", "norm", "packed", "quant_const"]
METHODS = {"packed": "pdf", "interp": "pdf", "quant_const": "pdf"}


def anc(c, npdf, name="an"):
    return dict(z=c.array(name + "z", npdf), w=c.array(name + "w", (npdf, 2)))


@task(configs=[dict(kind=k, npdf=3) for k in KINDS] + [dict(kind="norm", npdf=5), dict(kind="norm", npdf=1), dict(kind="spline", npdf=3)], thorough=[dict(kind=k, npdf=4) for k in KINDS] + [dict(kind="norm", npdf=7)])
def reading(c, kind, npdf):
    """the chunks of all ranks together are the file, each row once, with its ancillary data"""
    ctor, shared, per = build(c, kind, npdf)
    an = anc(c, npdf) if c.choice("ancil", [True, False]) else None
    e = ens(ctor, shared, per, ancil=an)
    size = c.choice("chunk", list(range(1, npdf + 3)))
    ranks = c.choice("ranks", [1, 2, 3])
    seen = []
    with memory_io(c) as io:
        e.write_to("f.hdf5")
        whole = qp.read("f.hdf5")
        c.check(int(qp.data_length("f.hdf5")) == npdf, "number of rows")
        held = []
        for rank in range(ranks):
            last = -1
            for start, end, part in qp.iterator("f.hdf5", size, rank, ranks):
                start, end = int(start), int(end)
                c.check(0 <= start < end <= npdf and end - start <= size, "a chunk is a range of rows no longer than asked for")
                c.check(start > last, "chunks of a rank come in order")
                last = start
                seen.extend(range(start, end))
                held.append((start, end, part))
        c.check(sorted(seen) == list(range(npdf)), "every PDF is read exactly once")
        for start, end, part in held:
            c.check(int(part.npdf) == end - start, "number of PDFs in a chunk")
            eq_data(c, part.objdata(), {k: v[start:end] for k, v in whole.objdata().items()}, "data of a chunk")
            eq_data(c, part.metadata(), whole.metadata(), "metadata of a chunk")
            c.check(part.gen_class is e.gen_class, "representation of a chunk")
            if an is None:
                c.check(part.ancil is None, "no ancillary data in a chunk")
            else:
                eq_data(c, part.ancil, {k: v[start:end] for k, v in an.items()}, "ancillary data of a chunk")


@task(configs=[dict(kind=k) for k in KINDS + ["bspline"]])
def evaluating(c, kind):
    """a chunk evaluates as its rows do, also after the next chunk was read"""
    npdf = 2
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    m = METHODS.get(kind, "cdf")
    x = c.real("x", -11, 11)
    size = c.choice("chunk", [1, 2])
    with memory_io(c):
        e.write_to("f.hdf5")
        want = getattr(e, m)(x)
        parts = []
        for start, end, part in qp.iterator("f.hdf5", size):
            c.shaped_close(getattr(part, m)(x), want[start:end], f"{m} of a chunk")
            parts.append(part)
        got = getattr(qp.concatenate(parts), m)(x)
        c.shaped_close(got, want, f"{m} of the chunks put together")
        c.shaped_close(getattr(parts[0], m)(x), want[:size], "the first chunk stays as it was")


@task(configs=[dict(kind=k, npdf=3) for k in KINDS + ["spline", "bspline"]], thorough=[dict(kind=k, npdf=4) for k in KINDS])
def writing(c, kind, npdf):
    """a file written in chunks, by any division of the rows, is the file written at once"""
    ctor, shared, per = build(c, kind, npdf)
    an = anc(c, npdf) if c.choice("ancil", [True, False]) else None
    e = ens(ctor, shared, per, ancil=an)
    cuts = c.choice("cuts", [s for s in ([0, npdf], [0, 1, npdf], [0, npdf - 1, npdf], [0, 1, 2, npdf]) if len(set(s)) == len(s)])
    pieces = list(zip(cuts[:-1], cuts[1:]))
    if c.choice("reversed", [False, True]):
        pieces = pieces[::-1]
    with memory_io(c):
        first = e[pieces[0][0]:pieces[0][1]]
        g, f = first.initializeHdf5Write("f.hdf5", npdf)
        for a, b in pieces:
            part = e[a:b]
            part.writeHdf5Chunk(g, a, b)
        first.finalizeHdf5Write(f)
        c.check(f.closed, "the file is closed")
        got = qp.read("f.hdf5")
    c.check(int(got.npdf) == npdf, "number of PDFs in the file")
    c.check(got.gen_class is e.gen_class, "representation in the file")
    eq_data(c, got.objdata(), e.objdata(), "data in the file")
    eq_data(c, got.metadata(), e.metadata(), "metadata in the file")
    if an is None:
        c.check(got.ancil is None, "no ancillary data in the file")
    else:
        eq_data(c, got.ancil, an, "ancillary data in the file")


@task(configs=[dict(kind=k, ends=e) for k in KINDS + ["spline"] for e in ((True,) if not k.startswith("quant") else (True, False))])
def allocation(c, kind, ends):
    """the space asked for holds the tables of any number of PDFs"""
    ctor, shared, per = build(c, kind, 2)
    if not ends:
        q = np.array(shared["quants"], copy=True)
        q[0], q[-1] = 0.01, 0.99
        c.assume(q[1] <= 0.98)
        c.assume(q[1] >= 0.02)
        shared = dict(shared, quants=q)
    e = ens(ctor, shared, per)
    n = c.choice("n", [1, 2, 7])
    data = e.objdata()
    kw = e.gen_class.get_allocation_kwds(n, **{**shared, **per})
    c.check(set(kw) == set(data), "one allocation for each column of the data")
    for k, v in data.items():
        if k in kw:
            got = tuple(int(s) for s in kw[k][0])
            c.check(got == (n,) + tuple(np.shape(v)[1:]), "allocated shape", known=KF("allocation-of-unpadded-quantiles") if not ends and got == (n, len(shared["quants"])) else None)
    kw = e._get_allocation_kwds(n)["data"] if hasattr(e, "_get_allocation_kwds") else {}
    for k, v in data.items():
        if k in kw:
            c.check(tuple(int(s) for s in kw[k][0]) == (n,) + tuple(np.shape(v)[1:]), "allocated shape for a file")


@task(configs=[dict(kind=k) for k in LONG])
def long_tables(c, kind):
    """files of many rows, in chunks of any size, by any number of readers"""
    n = 130
    ctor, shared, per = many(c, kind, n)
    an = dict(i=np.arange(n) * 2**33 + 1, two=np.arange(2 * n).reshape(n, 2))
    e = ens(ctor, shared, per, ancil=an)
    size = c.choice("chunk", [7, 16, 50, 64, 65, 129, 130, 1000] + [1, 3] * (kind == "norm"))
    ranks = c.choice("ranks", [1, 2, 5])
    m = "pdf" if kind == "packed" else "cdf"
    with memory_io(c):
        e.write_to("f.hdf5")
        whole = qp.read("f.hdf5")
        seen = []
        for rank in range(ranks):
            for start, end, part in qp.iterator("f.hdf5", size, rank, ranks):
                start, end = int(start), int(end)
                c.check(0 <= start < end <= n and end - start <= size, "a chunk is a range of rows no longer than asked for")
                c.check(int(part.npdf) == end - start, "number of PDFs in a chunk")
                seen.extend(range(start, end))
                if size >= 16:
                    eq_data(c, part.objdata(), {k: v[start:end] for k, v in whole.objdata().items()}, "data of a chunk")
                c.check(np.array_equal(part.ancil["i"], an["i"][start:end]) and np.array_equal(part.ancil["two"], an["two"][start:end]), "ancillary data of a chunk")
        c.check(sorted(seen) == list(range(n)), "every PDF is read exactly once")
        if ranks == 1:
            c.close(getattr(part, m)(0.5)[-1, 0], getattr(whole, m)(0.5)[-1, 0], f"{m} in the last chunk")


TYPES = dict(i=np.array([2**53 + 1, 5, 6]), f=np.array([0.5, 1.5, -1.0]), b=np.array([True, False, True]), u=np.array([1, 255, 7], dtype=np.uint8), h=np.array([0.5, 0.25, 1.0], dtype=np.float32),
             s=np.array([b"ab", b"c", b""]), two=np.array([[1, 2], [3, 4], [2**60 + 1, 6]]), w=np.array([[0.5], [1.0], [2.0]]))


@task(configs=[dict(kind=k) for k in ("hist", "norm", "interp_irregular")])
def types(c, kind):
    """ancillary data of any type come back from a file written in chunks as they were"""
    ctor, shared, per = build(c, kind, 3)
    e = ens(ctor, shared, per, ancil={k: v.copy() for k, v in TYPES.items()})
    pieces = c.choice("pieces", [[(0, 3)], [(2, 3), (0, 2)]])
    with memory_io(c):
        g, f = e[pieces[0][0]:pieces[0][1]].initializeHdf5Write("f.hdf5", 3)
        for a, b in pieces:
            e[a:b].writeHdf5Chunk(g, a, b)
        c.check(all(g["ancil"][k].declared in (v.dtype, np.float64) for k, v in TYPES.items() if v.dtype.kind == "f"), "precision kept for the ancillary data")
        e.finalizeHdf5Write(f)
        got = qp.read("f.hdf5").ancil
    c.check(set(got) == set(TYPES), "columns")
    for k, v in TYPES.items():
        c.check(np.shape(got[k]) == v.shape and (v.dtype.kind == "f" or np.asarray(got[k]).dtype == v.dtype), f"type and shape of the ancillary data [{k}]")
        c.check(np.array_equal(got[k], v), f"ancillary values, exactly [{k}]")
