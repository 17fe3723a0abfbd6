"""The units in which points and contents are given make no difference."""
import numpy as np
import qp

from vlib.runner import task
from .fakes import Uniforms
from .kinds import build, ens, many

BOUNDS = "1-2 PDFs of any contents on 2-3 points (or, for inverses, moments and the rest, one free PDF and one fixed one), points multiplied by 2^-24 or 2^24 or shifted by +-1024, contents multiplied by 2^-30 or 2^30, one free evaluation point"
OUTSIDE = "rounding at extreme scales (reals); splines fitted to values"
QUICK_S = 100

# what is measured in the units of the points, what in units of the contents (a power of each)
POINTS = {"hist": ("bins",), "hist_even": ("bins",), "interp": ("xvals",), "interp_irregular": ("xvals",), "quant": ("locs",), "quant_const": ("locs",),  "mixmod": ("means", "stds"), "norm": ("loc", "scale"), "packed": ("xvals",), "bspline": ("splx",)}
WIDTHS = ("stds", "scale")
HEIGHTS = {"hist": ("pdfs",), "hist_even": ("pdfs",), "interp": ("yvals",), "interp_irregular": ("yvals",), "mixmod": ("weights",), "packed": ("ymax",)}
SCALES = [2.0 ** -24, 2.0 ** 24]
SHIFTS = [-1024.0, 1024.0]
TABLES = [k for k in POINTS if k not in ("bspline", "hist_even") and k[:6] != "quant_"]


def changed(c, kind, shared, per, s=1.0, d=0.0, t=1.0):
    """the same data in other units"""
    out = []
    for dct in (shared, per):
        new = dict(dct)
        for k in dct:
            if k in POINTS[kind]:
                new[k] = c._mk(np.asarray(dct[k], dtype=object) * s + (0.0 if k in WIDTHS else d))
            elif t != 1.0 and k in HEIGHTS[kind]:
                new[k] = c._mk(np.asarray(dct[k], dtype=object) * t)
            elif k == "sply" and s != 1.0:  # coefficients of the density as they are
                new[k] = c._mk(np.asarray(dct[k], dtype=object) / s)
        out.append(new)
    return out


def same(c, got, want, label, unit=1.0):
    c.shaped_close(c._mk(np.asarray(got, dtype=object) / unit), c._mk(np.asarray(want, dtype=object)), label, tol=1e-6)


def free(c, kind, npdf):
    return build(c, kind, npdf, {"hist_even": 3, "quant_const": 3}.get(kind, 2))


def one_free(c, kind):
    """two PDFs, the second one with free contents"""
    return many(c, kind, 2, row=1)


def units(c, unit):
    if unit == "shift":
        return 1.0, c.choice("by", SHIFTS)
    return c.choice("by", SCALES), 0.0


def by_kind(kinds, **kw):
    return [dict(kind=k, unit=u, **kw) for k in kinds for u in ("scale", "shift")]


@task(configs=by_kind([k for k in POINTS if k not in ("bspline", "quant")]), thorough=by_kind(["hist", "interp", "interp_irregular", "packed"], npdf=2))
def densities(c, kind, unit, npdf=1):
    ctor, shared, per = free(c, kind, npdf)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    x = c.array("x", 1, -6, 6)
    same(c, f.pdf(x * s + d), e.pdf(x), "densities", 1 / s)
    same(c, f.cdf(x * s + d), e.cdf(x), "probabilities")


@task(configs=by_kind(["quant", "bspline"]))
def tables(c, kind, unit):
    ctor, shared, per = one_free(c, kind)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    x = c.array("x", 1, -6, 6)
    same(c, f.pdf(x * s + d), e.pdf(x), "densities", 1 / s)
    same(c, f.cdf(x * s + d), e.cdf(x), "probabilities")


@task(configs=by_kind(["hist", "interp", "interp_irregular", "packed", "quant", "norm"]))
def quantiles(c, kind, unit):
    ctor, shared, per = one_free(c, kind)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    q = c.array("q", 1, 0.02, 0.98)
    same(c, np.asarray(f.ppf(q)) - d, e.ppf(q), "quantiles", s)
    same(c, np.asarray(f.median()) - d, e.median(), "medians", s)
    u = c._mk(np.array([0.375, q[0]], dtype=object))
    same(c, np.asarray(f.rvs(size=1, random_state=Uniforms(c, u))) - d, e.rvs(size=1, random_state=Uniforms(c, u)), "samples", s)


@task(configs=[dict(kind=k, unit="scale") for k in ("hist", "interp", "norm")] + [dict(kind=k, unit="shift") for k in ("interp", "norm")])
def moments(c, kind, unit):
    ctor, shared, per = one_free(c, kind)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    same(c, np.asarray(f.mean()) - d, e.mean(), "means", s)
    if unit == "scale":
        same(c, f.moment(2), e.moment(2), "second moments", s * s)
        same(c, f.moment(3), e.moment(3), "third moments", s * s * s)
    a, b = e.moment_partial(1, (-1.0, 1.0), 0.75), f.moment_partial(1, (-1.0 * s + d, 1.0 * s + d), 0.75 * s)
    n = e.moment_partial(0, (-1.0, 1.0), 0.75)
    same(c, np.asarray(b) - np.asarray(n) * d, a, "moments between limits", s)


@task(configs=by_kind([k for k in TABLES if k != "mixmod"]))
def regions(c, kind, unit):
    """probabilities in bins and between limits, and gridded values"""
    ctor, shared, per = one_free(c, kind)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    edges = c._mk(np.array([-1.0, 0.5, c.real("x", 0.75, 6)], dtype=object))
    other = edges * s + d
    same(c, f.histogramize(other)[1], e.histogramize(edges)[1], "probabilities in bins")
    same(c, f.integrate((other[0], other[2])), e.integrate((edges[0], edges[2])), "probabilities between limits")
    same(c, f.gridded(other)[1], e.gridded(edges)[1], "values on a grid", 1 / s)


@task(configs=[dict(kind=k, to=to, unit=u) for k, to in (("hist", "interp"), ("interp", "hist"), ("hist", "quant"), ("interp_irregular", "packed"), ("quant", "hist"), ("packed", "interp_irregular")) for u in ("scale", "shift")])
def converted(c, kind, to, unit):
    """conversions take their grids in the units of the points"""
    ctor, shared, per = one_free(c, kind)
    s, d = units(c, unit)
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, s, d))
    g = np.array([-3.5, -1.0, 0.75, 2.25])
    how = lambda g: {"interp": dict(xvals=g), "interp_irregular": dict(xvals=g), "hist": dict(bins=g), "quant": dict(quants=np.array([0.125, 0.5, 0.75])), "packed": dict(xvals=g, packing_type=qp.PackingType.linear_from_rowmax)}[to]
    cls = qp.packed_interp_gen if to == "packed" else getattr(qp, to + "_gen")
    a, b = e.convert_to(cls, **how(g)), f.convert_to(cls, **how(g * s + d))
    if to == "quant":
        same(c, np.asarray(b.objdata()["locs"])[:, 1:4] - d, np.asarray(a.objdata()["locs"])[:, 1:4], "quantiles", s)
    else:
        x = np.array([-3.25, -0.5, 1.0, 2.0])
        same(c, b.pdf(x * s + d), a.pdf(x), "densities of what was converted", 1 / s)


@task(configs=[dict(kind=k) for k in HEIGHTS])
def contents(c, kind):
    """contents are relative: what they are multiplied by cancels (the mixture's weights too)"""
    ctor, shared, per = free(c, kind, 1)
    t = c.choice("times", [2.0 ** -30, 2.0 ** 30])
    e, f = ens(ctor, shared, per), ens(ctor, *changed(c, kind, shared, per, t=t))
    x = c.array("x", 1, -6, 6)
    if kind == "packed":
        same(c, f.pdf(x), e.pdf(x), "densities")
    else:
        same(c, f.pdf(x), e.pdf(x), "densities")
        same(c, f.cdf(x), e.cdf(x), "probabilities")
