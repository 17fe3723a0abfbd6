"""Ensembles arranged in several dimensions answer as the same PDFs in a row."""
import numpy as np
import qp

from vlib.runner import task
from .fakes import Uniforms
from .kinds import LONG, build, ens, many

BOUNDS = "2-4 PDFs arranged in two or three dimensions ((2,1), (1,2), (2,2), (3,1), (1,2,1), ...), of every representation, with any contents on 2-3 points (or, for sampling, inverses, mode and interpolators from user-defined grids, fixed contents and any points); one or two evaluation points, shared or of each PDF's own"
OUTSIDE = "selection, combination and tables of such ensembles (their tables are kept flat), user-defined interpolators"
QUICK_S = 120

KINDS = ["hist", "hist_even", "interp", "interp_irregular", "mixmod", "norm", "packed", "packed_log", "quant"]
SHAPES = [(2, 1), (1, 2), (2, 2)]
MORE = [(3, 1), (1, 3), (1, 2, 1), (2, 1, 1)]
TABLES = [(2, 3), (2, 1, 2)]


def points(c, lo=-6, hi=6):
    """a free point and a fixed one"""
    return c._mk(np.array([c.real("x", lo, hi), 0.75], dtype=object))


def arranged(ctor, shared, per, shape):
    """the same data, once in several dimensions and once in a row"""
    return ens(ctor, shared, {k: np.reshape(a, shape + np.shape(a)[1:]) for k, a in per.items()}), ens(ctor, shared, per)


def same(c, got, want, shape, label):
    """values of a nested ensemble against those of the flat one"""
    n = int(np.prod(shape))
    want = c._mk(np.asarray(want))
    per = (want.size // n,) if want.ndim == 2 else ()
    c.same_shape(got, shape + per, label)
    if np.shape(got) == shape + per:
        c.close(c._mk(np.reshape(np.asarray(got), want.shape)), want, label, tol=1e-7)


def one_kind(kinds, shapes):
    return [dict(kind=k, shape=s) for k in kinds for s in shapes]


def table(c, kind, shape):
    n = int(np.prod(shape))
    return arranged(*many(c, kind, n, row=n - 2), shape)


@task(configs=one_kind(KINDS[:-1], SHAPES[:2]), thorough=one_kind(KINDS, SHAPES[2:] + MORE) + one_kind(KINDS[-1:], SHAPES[:2]))
def values(c, kind, shape):
    """densities and probabilities of any contents at any point"""
    e, f = arranged(*build(c, kind, int(np.prod(shape))), shape)
    c.check(e.shape == shape and e.npdf == int(np.prod(shape)) and e.ndim == len(shape), "shape and number of PDFs")
    x = points(c)
    same(c, e.pdf(x), f.pdf(x), shape, "densities")
    same(c, e.cdf(x), f.cdf(x), shape, "probabilities")


@task(configs=one_kind(LONG, TABLES))
def tables(c, kind, shape):
    """the same of more PDFs, of which one is free"""
    e, f = table(c, kind, shape)
    x = points(c)
    c.check(e.shape == shape and e.npdf == int(np.prod(shape)) and e.ndim == len(shape), "shape and number of PDFs")
    same(c, e.pdf(x), f.pdf(x), shape, "densities")
    same(c, e.cdf(x), f.cdf(x), shape, "probabilities")
    same(c, e.sf(x), f.sf(x), shape, "probabilities of more")
    same(c, e.pdf(x[0]), f.pdf(x[0]), shape, "densities at one point")


@task(configs=one_kind([k for k in LONG if k not in ("mixmod", "norm", "bspline")], TABLES))
def own_points(c, kind, shape):
    """each PDF at a point of its own"""
    e, f = table(c, kind, shape)
    x = c._mk(np.array([[-4 + 1.5 * i] for i in range(int(np.prod(shape)) - 1)] + [[c.real("x", -6, 6)]], dtype=object))
    nested = c._mk(np.reshape(np.asarray(x), shape + (1,)))
    same(c, e.pdf(nested), f.pdf(x), shape, "densities at points of their own")


@task(configs=one_kind([k for k in LONG if k not in ("mixmod", "norm", "bspline")], TABLES))
def inverse(c, kind, shape):
    e, f = table(c, kind, shape)
    q = c.array("q", 1, 0.02, 0.98)
    same(c, e.ppf(q), f.ppf(q), shape, "quantiles")
    same(c, e.isf(q), f.isf(q), shape, "quantiles from above")
    same(c, e.median(), f.median(), shape, "medians")


@task(configs=one_kind(LONG, TABLES))
def derived(c, kind, shape):
    """differences of probabilities, and sums over a grid"""
    e, f = table(c, kind, shape)
    lo, hi = -1.0, c.real("hi", 1, 6)
    edges = c._mk(np.array([lo, 1.0, hi], dtype=object))
    n = int(np.prod(shape))
    got, want = e.histogramize(edges)[1], f.histogramize(edges)[1]
    same(c, got, want, shape, "probabilities in bins")
    got, want = e.integrate((lo, hi)), f.integrate((lo, hi))
    c.check(np.size(got) == n and np.size(want) == n, "one probability between limits per PDF")
    c.close(c._mk(np.reshape(np.asarray(got), n)), c._mk(np.reshape(np.asarray(want), n)), "probabilities between limits", tol=1e-7)
    same(c, e.gridded(edges)[1], f.gridded(edges)[1], shape, "densities on a grid")


@task(configs=one_kind([k for k in LONG if k not in ("mixmod", "norm")], TABLES))
def mode(c, kind, shape):
    """the best point of a grid of each PDF"""
    e, f = table(c, kind, shape)
    x = c._mk(np.array([-2.0, 0.5, c.real("x", 0.75, 4)], dtype=object))
    p = f.pdf(x)
    for i in range(int(np.prod(shape))):
        # where two points are equally good, rounding decides
        for a, b in ((0, 1), (0, 2), (1, 2)):
            c.assume((p[i, a] == 0.0) & (p[i, b] == 0.0) | (abs(p[i, a] - p[i, b]) >= 1e-4))
    same(c, e.mode(x), f.mode(x), shape, "modes")


@task(configs=one_kind(["hist", "hist_even", "interp", "norm"], TABLES[:1]))
def moments(c, kind, shape):
    if kind == "hist_even":
        e, f = arranged(*build(c, kind, int(np.prod(shape))), shape)
    else:
        e, f = table(c, kind, shape)
    for k in (1, 2):
        same(c, e.moment(k), f.moment(k), shape, f"moment {k}")
    same(c, e.mean(), f.mean(), shape, "means")
    same(c, e.var(), f.var(), shape, "variances")


@task(configs=one_kind(["hist", "interp_irregular", "quant", "packed", "norm"], TABLES))
def samples(c, kind, shape):
    """the same random numbers give the same samples"""
    e, f = table(c, kind, shape)
    n = int(np.prod(shape))
    u = c._mk(np.array([((37 * i) % 251 + 2) / 256.0 for i in range(n - 1)] + [c.real("u", 0.01, 0.99)], dtype=object))
    same(c, e.rvs(size=1, random_state=Uniforms(c, u)), f.rvs(size=1, random_state=Uniforms(c, u)), shape, "samples")
    v = c._mk(np.array([c.real("w", 0.01, 0.99)] + [((37 * i) % 251 + 2) / 256.0 for i in range(3 * n - 1)], dtype=object))
    same(c, e.rvs(size=3, random_state=Uniforms(c, v)), f.rvs(size=3, random_state=Uniforms(c, v)), shape, "several samples")
