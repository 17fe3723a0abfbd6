"""Quantities derived from density, cumulative distribution and inverse."""
import numpy as np
import qp
from qp.utils import profile

from vlib.runner import task
from .kinds import build, ens, fixed, given, many

BOUNDS = "1-3 PDFs of every representation, 1-3 points or probabilities, 1-4 histogram bins, grids of 1-4 points, profiles of up to 6 points in up to 3 bins; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "entropy and expectations (scipy's numerical quadrature); plots"
QUICK_S = 120

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "norm", "packed", "quant"]
N = {"hist": 1, "interp": 2, "interp_irregular": 2, "packed": 2, "quant": 3, "mixmod": 2}


def make(c, kind, npdf=2):
    ctor, shared, per = build(c, kind, npdf, N.get(kind))
    return ens(ctor, shared, per)


def logs(c, v):
    out = np.empty(np.shape(v), dtype=object)
    for ix in np.ndindex(*np.shape(v)):
        out[ix] = np.log(v[ix]) if bool(v[ix] > 0) else -np.inf
    return c._mk(out)


OWN = [k for k in KINDS if k != "norm"]  # scipy supplies the normal distribution's own


@task(configs=[dict(kind=k) for k in OWN + ["bspline"]], thorough=[dict(kind=k, npdf=3) for k in OWN])
def survival(c, kind, npdf=2):
    e = make(c, kind, npdf)
    x = c.real("x", -11, 11)
    c.shaped_close(e.sf(x), 1.0 - e.cdf(x), "survival function is 1 - cdf")


@task(configs=[dict(kind=k, what=w) for k in OWN if k != "mixmod" for w in ("logpdf", "logcdf", "logsf")] + [dict(kind="mixmod", what="logpdf")])
def logarithms(c, kind, what):
    e = fixed(c, kind, 2) if kind == "quant" else make(c, kind)
    x = c.real("x", -11, 11)
    v = getattr(e, what[3:])(x)
    for u in v.ravel():
        c.assume(c.lor(u == 0, u >= 1e-3))
    c.shaped_close(getattr(e, what)(x), logs(c, v), "logarithm of the value", tol=1e-5)


@task(configs=[dict(kind=k, what=w) for k in OWN if k != "mixmod" for w in ("isf", "interval")] + [dict(kind="norm", what="interval")], thorough=[dict(kind=k, what=w, npdf=3) for k in ("hist", "interp") for w in ("isf", "interval")])
def inverses(c, kind, what, npdf=2):
    e = make(c, kind, npdf)
    if what == "isf":
        q = c.real("q", 0.01, 0.99)
        c.shaped_close(e.isf(q), e.ppf(1.0 - q), "inverse survival function", tol=1e-5)
    else:
        a = c.real("a", 0.1, 0.9)
        lo, hi = e.interval(a)
        p = e.ppf(np.array([0.5 - 0.5 * a, 0.5 + 0.5 * a], dtype=object if c.symbolic else float))
        c.close(np.ravel(lo), p[:, 0], "lower end of the interval", tol=1e-5)
        c.close(np.ravel(hi), p[:, 1], "upper end of the interval", tol=1e-5)


@task(configs=[dict(kind=k) for k in KINDS if k != "mixmod"])
def median(c, kind):
    e = make(c, kind)
    m = e.median()
    c.check(np.size(m) == 2, "one median per PDF")
    c.close(np.ravel(m), np.ravel(e.ppf(0.5)), "median is the 0.5 quantile", tol=1e-5)


@task(configs=[dict(npdf=1), dict(npdf=3)])
def given_inverses(c, npdf):
    """for any representation whatever"""
    qs = np.array([0.05, 0.25, 0.5, 0.75, 0.95])
    v = c.array("v", (npdf, 5), -9, 9)
    e = given(c, qs, ppf=v)
    c.close(np.ravel(e.median()), v[:, 2], "median is the 0.5 quantile")
    lo, hi = e.interval(0.9)
    c.close(np.ravel(lo), v[:, 0], "lower end of the interval")
    c.close(np.ravel(hi), v[:, 4], "upper end of the interval")
    c.shaped_close(e.isf(np.array([0.25, 0.05])), v[:, [3, 4]], "inverse survival function")


@task(configs=[dict(kind=k) for k in KINDS + ["given"]], thorough=[dict(kind=k, npdf=3) for k in KINDS])
def integrals(c, kind, npdf=2):
    x = c.array("x", 2, -11, 11)
    c.assume(x[1] - x[0] >= 1e-3)
    e = given(c, x, cdf=c.array("u", (npdf, 2), 0, 1)) if kind == "given" else make(c, kind, npdf) if npdf > 2 else fixed(c, kind, npdf)
    v = e.cdf(x)
    got = e.integrate((x[0], x[1]))
    c.same_shape(got, (npdf, 1), "one integral per PDF")
    c.close(got[:, 0], v[:, 1] - v[:, 0], "integral is the difference of the cdf at the limits")


@task(configs=[dict(npdf=1, nb=1), dict(npdf=2, nb=3), dict(npdf=3, nb=2)] + [dict(npdf=2, nb=2, kind=k) for k in KINDS], thorough=[dict(npdf=3, nb=5), dict(npdf=2, nb=3, kind="hist")])
def histogramize(c, npdf, nb, kind=None):
    b = c.sorted("b", nb + 1, -9, 9, 0.05)
    e = given(c, b, cdf=c.array("u", (npdf, nb + 1), 0, 1)) if kind is None else fixed(c, kind, npdf)
    v = e.cdf(b)
    edges, got = e.histogramize(b)
    c.shaped_close(edges, b, "edges are those asked for")
    c.shaped_close(got, v[:, 1:] - v[:, :-1], "bin content is the difference of the cdf at its edges")


@task(configs=[dict(npdf=1, n=1), dict(npdf=2, n=3), dict(npdf=3, n=2), dict(npdf=1, n=4)], thorough=[dict(npdf=2, n=4), dict(npdf=3, n=3)])
def mode(c, npdf, n):
    """the grid point with the highest density, the first of equals"""
    g = c.array("g", n, -9, 9)
    c.apart(g)
    p = c.array("p", (npdf, n), 0, 5)
    m = given(c, g, pdf=p).mode(g)
    c.same_shape(m, (npdf, 1), "one mode per PDF")
    for i in range(npdf):
        at = [c.land(m[i, 0] == g[k], *[p[i, k] >= p[i, j] for j in range(n)], *[p[i, k] > p[i, j] for j in range(k)]) for k in range(n)]
        c.check(c.lor(*at), "mode is the first grid point of highest density")


@task(configs=[dict(kind=k) for k in ("hist", "norm", "interp")])
def gridded(c, kind):
    """the grid asked for and the density on it, also when asked again for another grid"""
    e = fixed(c, kind, 2)
    g = c.sorted("g", 2, -4, 4, 0.05)
    h = c.sorted("h", c.choice("n", [1, 2]), -4, 4, 0.05)
    for k in (g, h, g):
        got = e.gridded(k)
        c.shaped_close(got[0], k, "the grid")
        c.shaped_close(got[1], e.pdf(k), "the density on the grid")


@task(configs=[dict(n=1, nb=1), dict(n=3, nb=2), dict(n=2, nb=3), dict(n=5, nb=2, k=(0, 1, 0, 1, 0)), dict(n=6, nb=3, k=(2, 0, 0, 2, -1, 2))],
      thorough=[dict(n=4, nb=2), dict(n=4, nb=3), dict(n=8, nb=3, k=(2, 1, 0, 1, 3, 2, 1, 2))])
def profiles(c, n, nb, k=None):
    """mean and spread of y in bins of x"""
    b = np.array([-1.0, 0.5, 1.0, 4.0])[:nb + 1]
    if k is None:
        k = [c.choice(f"k{i}", list(range(-1, nb + 1))) for i in range(n)]
    f = c.array("f", n, 0, 0.99)
    y = c.array("y", n, -5, 5)
    full = [-3.0] + list(b) + [6.0]
    x = c._mk(np.array([full[k[i] + 1] + f[i] * (full[k[i] + 2] - full[k[i] + 1]) for i in range(n)], dtype=object))
    std = c.choice("std", [True, False])
    vals, errs = profile(x, y, b) if std else profile(x, y, b, std=False)  # deviations unless told otherwise
    c.same_shape(vals, (nb,), "one mean per bin")
    c.same_shape(errs, (nb,), "one spread per bin")
    for j in range(nb):
        ys = [y[i] for i in range(n) if k[i] == j]
        if not ys:
            c.close(vals[j], np.nan, "no mean in an empty bin")
            c.close(errs[j], np.nan, "no spread in an empty bin")
            continue
        m = sum(ys) / len(ys)
        c.close(vals[j], m, "mean of the values in the bin")
        var = sum((v - m) * (v - m) for v in ys) / len(ys)
        c.le(0.0, errs[j], "spread is not negative")
        c.close(errs[j] * errs[j], var if std else var / len(ys), "standard deviation, or error of the mean", tol=1e-5)


@task(configs=[dict(n=130)])
def long_mode(c, n):
    """many PDFs and many points"""
    g = ((37 * np.arange(n)) % 131 / 8.0 - 8.0).astype(object)
    p = (((11 * np.arange(5)[:, None] + 7 * np.arange(n)) % 127) / 32.0).astype(object)
    at = c.choice("at", [0, 70, n - 1])
    p[1, at] = c.real("free", 0, 5)
    g, p = c._mk(g), c._mk(p)
    m = given(c, g, pdf=p).mode(g)
    for i in range(5):
        best = 0
        for k in range(1, n):
            best = k if bool(p[i, k] > p[i, best]) else best
        c.close(m[i, 0], g[best], "mode is the first grid point of highest density")


@task(configs=[dict(kind=k) for k in ("hist", "interp", "norm", "quant")])
def long_tables(c, kind):
    """many PDFs"""
    n = 130
    ctor, shared, per = many(c, kind, n)
    e = ens(ctor, shared, per)
    one = {i: ens(ctor, shared, per, slice(i, i + 1)) for i in (0, 1, n // 2, 127, 128, n - 1)}
    b = np.array([-3.0, 0.5, 0.75, 4.0])
    med, (_, h), lim = np.ravel(e.median()), e.histogramize(b), e.integrate((-1.0, 0.5))
    c.check(np.shape(h) == (n, 3) and len(med) == n and np.shape(lim) == (n, 1), "one per PDF")
    for i, f in one.items():
        c.close(med[i], f.ppf(0.5)[0, 0], "median is the 0.5 quantile", tol=1e-5)
        v = f.cdf(b)[0]
        for j in range(3):
            c.close(h[i, j], v[j + 1] - v[j], "bin content is the difference of the cdf at its edges")
        v = f.cdf(np.array([-1.0, 0.5]))[0]
        c.close(lim[i, 0], v[1] - v[0], "integral is the difference of the cdf at the limits")


@task(configs=[dict(n=140, nb=30)])
def long_profile(c, n, nb):
    b = np.arange(nb + 1) / 4.0
    k = (17 * np.arange(n)) % (nb - 1)
    x = b[k] + 0.1
    y = (((29 * np.arange(n)) % 83) / 16.0).astype(object)
    at = c.choice("at", [0, 70, n - 1])
    y[at] = c.real("free", -5, 5)
    y = c._mk(y)
    vals, errs = profile(x, y, b, std=True)
    for j in range(nb - 1):
        ys = [y[i] for i in range(n) if k[i] == j]
        m = sum(ys) / len(ys)
        c.close(vals[j], m, "mean of the values in the bin")
        c.close(errs[j] * errs[j], sum((v - m) * (v - m) for v in ys) / len(ys), "standard deviation", tol=1e-5)
    c.close(vals[nb - 1], np.nan, "no mean in an empty bin")
