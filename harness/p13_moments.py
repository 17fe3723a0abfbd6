"""Means, variances, moments."""
import numpy as np
import qp

from vlib.runner import task
from vlib.sym import SymNum
from . import spec
from .kinds import build, ens, many, mix_in

BOUNDS = "1-3 PDFs, 1-4 bins / 2-4 grid points in [-10,10], any non-negative values with positive area, moments of order 0-4; also long tables (up to 150 PDFs, rows or objects) of which one is free and fine grids (70-120 points) of which one value is free"
OUTSIDE = "representations whose moments come from scipy's numerical quadrature (mixtures, quantiles, splines, own grids); skewness and kurtosis of nearly degenerate PDFs"
ASSUMPTIONS = "beyond the mean, a histogram bin counts as concentrated at its centre and grid values are integrated with trapezoids, as documented in the code"


def make(c, kind, npdf, n):
    ctor, shared, per = build(c, kind, npdf, n)
    e = ens(ctor, shared, per)
    return e, shared, per


def raw(c, kind, shared, per, e, i, m):
    """the m-th moment as defined for the representation"""
    if kind.startswith("hist"):
        b, h = shared["bins"], per["pdfs"][i]
        t = 0.0
        for j in range(len(h)):
            x, v = 0.5 * (b[j] + b[j + 1]), h[j] * (b[j + 1] - b[j])
            for _ in range(m):
                v = v * x
            t = t + v
        return t / spec.hist_norm(c, b, h)
    xs = shared["xvals"]
    y = per["yvals"][i] if kind == "interp" else e.dist.yvals[i]
    f = []
    for k in range(len(xs)):
        v = y[k]
        for _ in range(m):
            v = v * xs[k]
        f.append(v)
    t = spec.trapz(f, xs)
    return t / spec.trapz(y, xs)


CFG = [("hist", 1, 1), ("hist", 1, 2), ("hist", 2, 2), ("hist_even", 2, 3), ("interp", 1, 2), ("interp", 2, 2), ("interp", 2, 3), ("packed", 2, 2)]
DEEP = [("hist", 2, 3), ("hist", 3, 2), ("hist", 1, 4), ("interp", 3, 3), ("interp", 1, 4), ("packed", 1, 3)]


@task(configs=[dict(kind=k, npdf=p, n=n) for k, p, n in CFG], thorough=[dict(kind=k, npdf=p, n=n) for k, p, n in DEEP])
def moment(c, kind, npdf, n):
    e, shared, per = make(c, kind, npdf, n)
    m = c.choice("order", [0, 1, 2, 3])
    got = e.moment(m)
    if m == 0:
        return c.close(got, 1.0, "moment of order 0")
    c.check(np.size(got) == npdf, "one moment per PDF")
    c.close(np.reshape(got, (npdf,)), [raw(c, kind, shared, per, e, i, m) for i in range(npdf)], "moment", tol=1e-5, scale=10.0 ** m)


@task(configs=[dict(kind=k, npdf=p, n=n) for k, p, n in CFG], thorough=[dict(kind=k, npdf=p, n=n) for k, p, n in DEEP])
def mean_var(c, kind, npdf, n):
    """against the raw moments, which the task above decides"""
    e, shared, per = make(c, kind, npdf, n)
    what = c.choice("what", ["mean", "var", "stats", "std"])
    if what == "mean":
        m1 = [raw(c, kind, shared, per, e, i, 1) for i in range(npdf)]
    else:
        m1, m2 = np.reshape(e.moment(1), (npdf,)), np.reshape(e.moment(2), (npdf,))
    var = what != "mean" and [m2[i] - m1[i] * m1[i] for i in range(npdf)]
    if what == "mean":
        got = e.mean()
        c.check(np.size(got) == npdf, "one mean per PDF")
        c.close(np.reshape(got, (npdf,)), m1, "mean", tol=1e-5)
        lo, hi = (shared["bins"][0], shared["bins"][-1]) if kind.startswith("hist") else (shared["xvals"][0], shared["xvals"][-1])
        c.le(lo, got, "the mean is in the range", tol=1e-5)
        c.le(got, hi, "the mean is in the range", tol=1e-5)
    elif what == "var":
        got = e.var()
        c.check(np.size(got) == npdf, "one variance per PDF")
        c.close(np.reshape(got, (npdf,)), var, "variance", tol=1e-4)
    elif what == "stats":
        got = e.stats("mv")
        c.check(len(got) == 2 and np.size(got[0]) == npdf and np.size(got[1]) == npdf, "mean and variance per PDF")
        c.close(np.reshape(got[0], (npdf,)), m1, "mean", tol=1e-5)
        c.close(np.reshape(got[1], (npdf,)), var, "variance", tol=1e-4)
    else:
        for v in var:
            c.assume(v >= 1e-3)
        got = np.reshape(e.std(), (npdf,))
        for i in range(npdf):
            c.le(0.0, got[i], "standard deviation is not negative")
            c.close(got[i] * got[i], var[i], "the square of the standard deviation is the variance", tol=1e-4)


@task(configs=[dict(kind="hist", n=2), dict(kind="hist", n=1)], thorough=[dict(kind="hist", n=4)])
def true_mean(c, kind, n):
    """the mean of a histogram is the exact mean of its density"""
    e, shared, per = make(c, kind, 1, n)
    b, h = shared["bins"], per["pdfs"][0]
    t = 0.0
    for j in range(n):
        t = t + h[j] * (b[j + 1] * b[j + 1] - b[j] * b[j]) / 2.0
    c.close(np.reshape(e.mean(), (1,)), [t / spec.hist_norm(c, b, h)], "integral of x times the density", tol=1e-5)


@task(configs=[dict(npdf=1), dict(npdf=2)], thorough=[dict(npdf=3)])
def normal(c, npdf):
    """scipy distributions keep scipy's moments, PDF by PDF"""
    loc = c.array("loc", (npdf, 1), -5, 5)
    s = c.array("s", (npdf, 1), 0.1, 3)
    e = qp.Ensemble(qp.stats.norm, data=dict(loc=loc, scale=s))
    c.close(np.reshape(e.mean(), (npdf,)), loc[:, 0], "mean of a normal")
    c.close(np.reshape(e.std(), (npdf,)), s[:, 0], "standard deviation of a normal")
    c.close(np.reshape(e.var(), (npdf,)), s[:, 0] * s[:, 0], "variance of a normal")
    c.close(np.reshape(e.median(), (npdf,)), loc[:, 0], "median of a normal", tol=1e-5)


@task(configs=[dict(kind="hist", npdf=3), dict(kind="interp", npdf=3), dict(kind="norm", npdf=3)])
def selected(c, kind, npdf):
    """the moments of a selection are those of the selected PDFs"""
    ctor, shared, per = build(c, kind, npdf, 1 if kind == "hist" else 2)
    e = ens(ctor, shared, per)
    sel = c.choice("sel", [slice(1, 3), slice(None, None, 2), [2, 0], 1])
    want = np.reshape(e.mean(), (npdf,))[sel]
    got = e[sel].mean()
    c.check(np.size(got) == np.size(want), "one mean per selected PDF")
    c.close(np.ravel(got), np.ravel(want), "means of a selection", tol=1e-5)


@task(configs=[dict(kind=k, n=130) for k in ("hist", "interp", "packed", "norm")])
def long_tables(c, kind, n):
    """many PDFs, each with its own"""
    ctor, shared, per = many(c, kind, n)
    e = ens(ctor, shared, per)
    rows = sorted({0, 1, 63, 64, 65, 127, 128, n - 1})
    mean, var, two = np.ravel(e.mean()), np.ravel(e.var()), np.ravel(e.moment(2))
    c.check(len(mean) == n and len(var) == n and len(two) == n, "one mean, variance and moment per PDF")
    for i in rows:
        if kind == "norm":
            m1 = per["loc"][i, 0]
            m2 = m1 * m1 + per["scale"][i, 0] * per["scale"][i, 0]
        else:
            m1, m2 = raw(c, kind, shared, per, e, i, 1), raw(c, kind, shared, per, e, i, 2)
        c.close(mean[i], m1, "mean", tol=1e-5)
        c.close(two[i], m2, "second moment", tol=1e-5, scale=100.0)
        if kind == "norm" or not isinstance(m2, SymNum):
            c.close(var[i], m2 - m1 * m1, f"variance of row {i}", tol=1e-4)


@task(configs=[dict(kind="hist", n=70), dict(kind="interp", n=70)])
def fine(c, kind, n):
    """many bins or points"""
    at = c.choice("at", [0, n // 2, n - 1])
    g = spec.fine_grid(c, n + (kind == "hist"))
    y = spec.fine_values(c, 2, n, 1, at)
    shared, per = (dict(bins=g), dict(pdfs=y)) if kind == "hist" else (dict(xvals=g), dict(yvals=y))
    e = ens(getattr(qp, kind), shared, per)
    c.close(np.ravel(e.mean()), [raw(c, kind, shared, per, e, i, 1) for i in range(2)], "mean", tol=1e-5)
    c.close(np.ravel(e.moment(3)), [raw(c, kind, shared, per, e, i, 3) for i in range(2)], "moment", tol=1e-5, scale=1000.0)
