"""Packing densities into bytes loses at most half a step."""
import numpy as np
import qp
from qp.packing_utils import (PackingType, linear_pack_from_rowmax, linear_unpack_from_rowmax, log_pack_from_rowmax, log_unpack_from_rowmax,
                              pack_array, unpack_array)

from vlib.runner import task
from .kinds import given

BOUNDS = "1-2 rows of 1-3 non-negative values each, largest value of a row between 0.05 and 20, every packed byte value; logarithmic floors -1, -2, -3; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "rows of zeros only; rows whose largest value is below the offset 10**(3 floor) that is added before taking logarithms; float16/32 input"
ASSUMPTIONS = "log10 and powers of ten are uninterpreted, monotone and inverse to each other"
QUICK_S = 90

LIN, LOG = PackingType.linear_from_rowmax, PackingType.log_from_rowmax


def rows(c, npdf, n, lo=0.0):
    y = c.array("y", (npdf, n), lo, 20)
    for r in y:
        c.assume(c.lor(*[v >= 0.05 for v in r]))
    return y


def largest(c, r):
    m = r[0]
    for v in r[1:]:
        m = c.ite(v > m, v, m)
    return m


SIZES = [dict(npdf=1, n=1), dict(npdf=1, n=3), dict(npdf=2, n=2)]


@task(configs=SIZES, thorough=[dict(npdf=1, n=5), dict(npdf=3, n=2), dict(npdf=2, n=3)])
def linear(c, npdf, n):
    y = rows(c, npdf, n)
    k, m = pack_array(LIN, y)
    c.same_shape(k, (npdf, n), "one byte per value")
    c.same_shape(m, (npdf, 1), "one largest value per row")
    c.check(np.dtype(k.dtype) == np.uint8 or c.symbolic, "bytes")
    back = unpack_array(LIN, k, row_max=m)
    c.same_shape(back, (npdf, n), "unpacked shape")
    for i in range(npdf):
        top = largest(c, y[i])
        c.close(m[i, 0], top, "largest value of the row")
        for j in range(n):
            c.check(c.land(k[i, j] >= 0, k[i, j] <= 255), "byte range")
            c.close(back[i, j], y[i, j], "unpacked value is within half a step", tol=0.5005 / 255, scale=top)
            c.check(c.lor(y[i, j] > 0, back[i, j] == 0), "zero stays zero")
            if c.symbolic:
                c.check(c.lor(y[i, j] < top, back[i, j] == top), "the largest value is kept exactly")


@task(configs=[dict(npdf=1, n=100), dict(npdf=140, n=2)])
def long_rows(c, npdf, n):
    """many values, many rows"""
    y = ((53 * np.arange(npdf)[:, None] + 29 * np.arange(n)) % 509 / 32.0).astype(object)
    i, j = c.choice("at", [(0, 0), (npdf // 2, n // 2), (npdf - 1, n - 1)])
    y[i, j] = c.real("free", 14.5, 17)
    y = c._mk(y)
    k, m = pack_array(LIN, y)
    back = unpack_array(LIN, k, row_max=m)
    c.same_shape(back, (npdf, n), "unpacked shape")
    for a in range(npdf):
        top = largest(c, [v for v in y[a]]) if a == i else np.max([float(v) for v in y[a]])
        c.close(m[a, 0], top, "largest value of the row")
        for b in range(n):
            if (a + b) % 7 == 0 or a == i and abs(b - j) < 3:
                c.close(back[a, b], y[a, b], "unpacked value is within half a step", tol=0.5005 / 255, scale=top)


@task(configs=[dict(npdf=1, n=2), dict(npdf=1, n=3)])
def order(c, npdf, n):
    """packing keeps the order of the values in a row"""
    how = c.choice("how", [LIN, LOG])
    y = rows(c, npdf, n, 0.0 if how == LIN else 1e-3)
    k, _ = pack_array(how, y)
    for i in range(npdf):
        for j in range(n - 1):
            c.check(c.lor(y[i, j] > y[i, j + 1], k[i, j] <= k[i, j + 1]), "order of the packed values")


@task(configs=[dict(npdf=1, n=1), dict(npdf=2, n=1)] + [dict(npdf=1, n=2, top=t, floor=f) for t in (0.05, 1.0, 20.0) for f in (None, -2.0, -1.0)],
      thorough=[dict(npdf=1, n=3, top=t, floor=f) for t in (0.05, 1.0, 20.0) for f in (None, -2.0, -1.0)] + [dict(npdf=2, n=2, top=1.0)], budget=60)
def logarithmic(c, npdf, n, floor=None, top=None):
    if top is None:
        y = rows(c, npdf, n)
    else:
        y = np.full((npdf, n), 0.0, dtype=object)
        for i in range(npdf):
            at = c.choice(f"at{i}", [0, n - 1])
            y[i, :] = c.array(f"y{i}", n, 0, 20)
            y[i, at] = top * (i + 1)
            for j in range(n):
                if j != at:
                    c.assume(y[i, j] <= y[i, at])
        y = c._mk(y)
    kw = {} if floor is None else dict(log_floor=floor)
    k, m = pack_array(LOG, y, **kw)
    back = unpack_array(LOG, k, row_max=m, **kw)
    L = 3.0 if floor is None else -floor
    half = 0.5005 * L / 255
    eps = np.power(10.0, -3 * L)
    c.same_shape(k, (npdf, n), "one byte per value")
    c.same_shape(m, (npdf, 1), "one largest value per row")
    for i in range(npdf):
        top = largest(c, y[i])
        c.close(m[i, 0], top, "largest value of the row")
        for j in range(n):
            c.check(c.land(k[i, j] >= 0, k[i, j] <= 255), "byte range")
            t = np.log10((y[i, j] + eps) / top)
            if bool(k[i, j] > 0):
                got = np.log10(back[i, j] / top)
                c.check(c.lor(got - t <= half, got <= half - L), "unpacked value is at most half a logarithmic step above")
                c.check(c.lor(t - got <= half, got >= 0.0), "unpacked value is at most half a logarithmic step below")
                c.le(back[i, j], top * 1.0001, "no more than the largest value")
            else:
                c.close(back[i, j], 0.0, "bottom byte is zero")
                c.check(t <= half - L, "only values at the floor become zero")


@task(configs=[dict(how=h) for h in ("linear", "log", "log2")])
def unpacking(c, how):
    """every byte value, on its own"""
    k = c.ints("k", (2, 2), 0, 255)
    m = c.array("m", (2, 1), 0.05, 20)
    if how == "linear":
        a, b = unpack_array(LIN, k, row_max=m), linear_unpack_from_rowmax(k, m)
        want = [[m[i, 0] * k[i, j] / 255.0 for j in range(2)] for i in range(2)]
    else:
        L = 3.0 if how == "log" else 2.0
        kw = {} if how == "log" else dict(log_floor=-2.0)
        a, b = unpack_array(LOG, k, row_max=m, **kw), log_unpack_from_rowmax(k, m, **kw)
        want = [[m[i, 0] * np.power(10.0, L * (k[i, j] / 255.0 - 1.0)) if bool(k[i, j] > 0) else 0.0 for j in range(2)] for i in range(2)]
    c.shaped_close(a, want, "unpacked value")
    c.shaped_close(b, want, "unpacked value [function]")


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=2)])
def repacking(c, npdf, n):
    """packing what was unpacked gives the same bytes"""
    k = c.ints("k", (npdf, n), 0, 255)
    for r in k:
        c.assume(c.lor(*[v == 255 for v in r]))
    m = c.array("m", (npdf, 1), 0.05, 20)
    k2, m2 = linear_pack_from_rowmax(linear_unpack_from_rowmax(k, m))
    c.shaped_close(m2, m, "largest value")
    c.shaped_close(k2, k, "bytes")


@task(configs=[dict(how=h) for h in ("linear", "log")])
def same_functions(c, how):
    y = rows(c, 1, 2)
    floor = c.choice("floor", [-3, -2.0])
    if how == "linear":
        a, b = pack_array(LIN, y), linear_pack_from_rowmax(y)
    else:
        a, b = pack_array(LOG, y, log_floor=floor), log_pack_from_rowmax(y, floor)
    c.shaped_close(a[0], b[0], "bytes")
    c.shaped_close(a[1], b[1], "largest value")


@task(configs=[dict(how=h, npdf=n) for h in (LIN, LOG, 0, 1) for n in (1, 2)])
def ensembles(c, how, npdf):
    """a packed ensemble is the interpolation of its unpacked values; the way of packing may come as stored in a file"""
    k = c.ints("k", (npdf, 2), 1, 255)
    m = c.array("m", (npdf, 1), 0.05, 20)
    xv = c.sorted("x", 2, -5, 5, 0.05)
    log = how in (LOG, 1)
    kw = dict(log_floor=-2.0) if log else {}
    e = qp.Ensemble(qp.packed_interp, data=dict(xvals=xv, ypacked=k, ymax=m, packing_type=how, **kw))
    y = unpack_array(LOG if log else LIN, k, row_max=m, **kw)
    f = qp.Ensemble(qp.interp, data=dict(xvals=xv, yvals=y))
    x = c.real("at", -6, 6)
    c.shaped_close(e.pdf(x), f.pdf(x), "density of the unpacked values", tol=1e-5)
    c.shaped_close(e.cdf(x), f.cdf(x), "cumulative distribution of the unpacked values", tol=1e-5)


@task(configs=[dict(npdf=1), dict(npdf=2)])
def conversion(c, npdf):
    """density on the grid, to within half a logarithmic step"""
    g = np.array([-1.0, 0.5])
    y = rows(c, npdf, 2)
    if npdf > 1:
        y[:, 0] = [2.0, 0.5]
        c.assume(c.land(y[0, 1] <= 2.0, y[1, 1] <= 0.5))
    f = given(c, g, pdf=y).convert_to(qp.packed_interp_gen, xvals=g, packing_type=LOG, log_floor=-2.0)
    want, top = log_pack_from_rowmax(y, -2.0)
    d = f.objdata()
    c.shaped_close(d["ypacked"], want, "packed values")
    c.shaped_close(d["ymax"], top, "largest values")
    c.close(np.squeeze(f.metadata()["log_floor"]), -2.0, "the floor")
    c.check(np.squeeze(f.metadata()["packing_type"]) == LOG.value, "the way of packing")
