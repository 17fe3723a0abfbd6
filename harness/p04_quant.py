import numpy as np
import qp

from vlib.runner import task
from . import spec
from .kinds import quant_in

BOUNDS = "1-3 PDFs, 2-5 quantiles in [0,1] at least 0.02 apart (padded or not at either end, from 1e-9 short of it), locations in [-10,10] at least 0.02 apart, 1-2 points; also fine grids (70-120 points) of which one value is free"
OUTSIDE = "values of the quadratic/cubic splines between their nodes for more than 3/4 nodes (scipy); more quantiles"


def padded(q, locs, lo, hi):
    """what the padding has to be: the end pairs extended along the end slopes"""
    qq = list(q)
    ll = [list(r) for r in locs]
    n = len(qq)
    if lo is None:
        ll = [[r[0] - q[0] * (r[1] - r[0]) / (q[1] - q[0])] + r for r in ll]
        qq = [0.0] + qq
    if hi is None:
        ll = [r + [r[-1] + (1.0 - q[n - 1]) * (r[-1] - r[-2]) / (q[n - 1] - q[n - 2])] for r in ll]
        qq = qq + [1.0]
    return qq, ll


CASES = [dict(npdf=1, n=2), dict(npdf=2, n=3), dict(npdf=2, n=2, lo=0), dict(npdf=2, n=2, hi=1), dict(npdf=1, n=3, lo=0, hi=1), dict(npdf=2, n=3, lo=0, hi=1)]
DEEP = [dict(npdf=3, n=5), dict(npdf=2, n=4, lo=0), dict(npdf=2, n=4, hi=1), dict(npdf=3, n=5, lo=0, hi=1)]


def quantile_data(e):
    return e.metadata()["quants"][0], e.objdata()["locs"]


@task(configs=CASES, thorough=DEEP)
def padding(c, npdf, n, lo=None, hi=None):
    q, locs = quant_in(c, npdf, n, lo, hi, edge=1e-9)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    qq, ll = padded(q, locs, lo, hi)
    gq, gl = quantile_data(e)
    c.shaped_close(gq, qq, "quantiles are kept and completed with 0 and 1")
    c.shaped_close(gl, ll, "locations are kept and extended along the end slopes")


@task(configs=[dict(npdf=2, n=3), dict(npdf=2, n=2)])
def no_padding(c, npdf, n):
    """without input checks the pairs are used as they are"""
    q, locs = quant_in(c, npdf, n)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, check_input=False))
    gq, gl = quantile_data(e)
    c.shaped_close(gq, list(q), "quantiles are used as they are")
    c.shaped_close(gl, locs, "locations are used as they are")


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=3), dict(npdf=2, n=3, lo=0, hi=1), dict(npdf=2, n=2, lo=0)], thorough=DEEP)
def nodes_cdf(c, npdf, n, lo=None, hi=None):
    q, locs = quant_in(c, npdf, n, lo, hi)
    if lo is None or hi is None:
        for r in padded(q, locs, lo, hi)[1]:
            c.assume(c.land(r[0] >= -50, r[-1] <= 50))
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    k = c.choice("k", list(range(n)))
    c.shaped_close(e.cdf(locs[:, k:k + 1]), [[q[k]]] * npdf, "cdf at the location of a quantile is that quantile")


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=3), dict(npdf=2, n=3, lo=0, hi=1), dict(npdf=2, n=2, hi=1)], thorough=DEEP)
def nodes_ppf(c, npdf, n, lo=None, hi=None):
    q, locs = quant_in(c, npdf, n, lo, hi)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    ks = [k for k in range(n) if not (lo is not None and k == 0) and not (hi is not None and k == n - 1)]
    if not ks:
        return
    c.shaped_close(e.ppf(q[ks[0]:ks[-1] + 1]), [[locs[i, k] for k in ks] for i in range(npdf)], "ppf at a quantile is its location")


@task(configs=[dict(npdf=1, n=3, lo=0, hi=1), dict(npdf=2, n=3, lo=0, hi=1), dict(npdf=1, n=2)], thorough=[dict(npdf=2, n=2)])
def outside(c, npdf, n, lo=None, hi=None):
    q, locs = quant_in(c, npdf, n, lo, hi)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    _, ll = padded(q, locs, lo, hi)
    d = c.real("d", 0.01, 3)
    below = c._mk(np.array([[r[0] - d] for r in ll], dtype=object))
    above = c._mk(np.array([[r[-1] + d] for r in ll], dtype=object))
    z = [[0.0]] * npdf
    c.shaped_close(e.cdf(below), z, "cdf below the first location is 0")
    c.shaped_close(e.cdf(above), [[1.0]] * npdf, "cdf above the last location is 1")
    c.shaped_close(e.pdf(below), z, "pdf below the first location is 0")
    c.shaped_close(e.pdf(above), z, "pdf above the last location is 0")


def slopes(qq, r):
    mids = [0.5 * (r[j] + r[j + 1]) for j in range(len(r) - 1)]
    d = [(qq[j + 1] - qq[j]) / (r[j + 1] - r[j]) for j in range(len(r) - 1)]
    return mids, d


@task(configs=[dict(npdf=1, n=2), dict(npdf=1, n=3, lo=0, hi=1), dict(npdf=2, n=3, lo=0, hi=1), dict(npdf=2, n=3, lo=0, hi=1, nx=2)],
      thorough=[dict(npdf=2, n=4, lo=0, hi=1), dict(npdf=2, n=3), dict(npdf=3, n=3, lo=0, hi=1, nx=2)], budget=45)
def piecewise_linear(c, npdf, n, lo=None, hi=None, nx=1):
    q, locs = quant_in(c, npdf, n, lo, hi)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    qq, ll = padded(q, locs, lo, hi)
    x = c.array("x", nx, -12, 12)
    sl = [slopes(qq, r) for r in ll]
    want = spec.grid(lambda i, v: spec.lin(c, sl[i][0], sl[i][1], v), npdf, list(x))
    c.shaped_close(e.pdf(x), want, "default pdf runs linearly through (midpoint, quantile step over location step)")


@task(configs=[dict(npdf=2, n=2), dict(npdf=2, n=3, lo=0, hi=1)], thorough=[dict(npdf=3, n=4)])
def piecewise_constant(c, npdf, n, lo=None, hi=None):
    """at the start of each step the pdf is the quantile step over the location step; 0 outside"""
    q, locs = quant_in(c, npdf, n, lo, hi)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, pdf_constructor_name="piecewise_constant"))
    qq, ll = padded(q, locs, lo, hi)
    e.dist.pdf_constructor.prepare_constructor()
    adj = e.dist.pdf_constructor.debug()[4]
    ders = e.dist.pdf_constructor.debug()[2]
    for i in range(npdf):
        m, d = slopes(qq, ll[i])
        c.shaped_close(adj[i], m, "steps start at the midpoints")
        c.shaped_close(ders[i][:len(d)], d, "steps have the slope of the cdf")
    far = c.real("far", 0.01, 3)
    below = c._mk(np.array([[slopes(qq, r)[0][0] - far] for r in ll], dtype=object))
    above = c._mk(np.array([[slopes(qq, r)[0][-1] + far] for r in ll], dtype=object))
    c.shaped_close(e.pdf(below), [[0.0]] * npdf, "pdf below the first midpoint is 0")
    c.shaped_close(e.pdf(above), [[0.0]] * npdf, "pdf above the last midpoint is 0")


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=3, lo=0, hi=1), dict(npdf=1, n=4, lo=0, hi=1)], thorough=[dict(npdf=2, n=2), dict(npdf=2, n=3)])
def between_midpoints(c, npdf, n, lo=None, hi=None):
    """of quantiles with the piecewise constant constructor"""
    q, locs = quant_in(c, npdf, n, lo, hi)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, pdf_constructor_name="piecewise_constant"))
    qq, ll = padded(q, locs, lo, hi)
    part = c.real("part", 0.001, 0.999)
    k = c.choice("step", range(len(slopes(qq, ll[0])[0]) - 1))
    x, want = [], []
    for r in ll:
        m, d = slopes(qq, r)
        x.append([m[k] + part * (m[k + 1] - m[k])])
        want.append([d[k] + part * (d[k + 1] - d[k])])
    c.shaped_close(e.pdf(c._mk(np.array(x, dtype=object))), want, "pdf between two midpoints lies between their slopes", tol=1e-5)


@task(configs=[dict(npdf=1, n=8), dict(npdf=2, n=8)])
def dual_spline(c, npdf, n):
    """the stepwise solution of the trapezoid areas, never negative"""
    q, locs = quant_in(c, npdf, n, 0, 1)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, pdf_constructor_name="dual_spline_average"))
    cons = e.dist.pdf_constructor
    cons.prepare_constructor()
    p = cons.debug()[2]
    for i in range(npdf):
        prev = 0.0
        for j in range(1, n):
            v = 2 * (q[j] - q[j - 1]) / (locs[i, j] - locs[i, j - 1]) - prev
            c.close(p[i, j], c.ite(v >= 0, v, 0.0), "next value completes the trapezoid of the quantile step")
            prev = p[i, j]


@task(configs=[dict(), dict(names=("piecewise_linear", "piecewise_constant", "cdf_spline_derivative"))])
def switching(c, names=("piecewise_constant", "piecewise_linear")):
    """changing the reconstruction changes the density to what an ensemble created with it gives, and nothing else"""
    q, locs = quant_in(c, 2, 4, 0, 1)
    x = c.array("x", 1, -12, 12)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, pdf_constructor_name=names[0]))
    e.pdf(x)
    for nm in names[1:]:
        e.dist.pdf_constructor_name = nm
        f = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs, pdf_constructor_name=nm))
        c.shaped_close(e.pdf(x), f.pdf(x), f"pdf after switching to {nm}")
        c.check(str(np.squeeze(e.metadata()["pdf_constructor_name"])) == nm, "metadata name the reconstruction in use")
    c.raises(ValueError, lambda: setattr(e.dist, "pdf_constructor_name", "nope"), "unknown reconstructions are refused")
    c.shaped_close(e.pdf(x), f.pdf(x), "a refused switch changes nothing")


@task(configs=[dict(n=40), dict(n=40, inner=True)], thorough=[dict(n=200)])
def fine(c, n, inner=False):
    """many quantiles"""
    at = c.choice("at", [0, 1, n // 2, n - 1])
    q = np.linspace(0, 1, n + 2)[1:-1] if inner else np.linspace(0, 1, n)
    locs = np.array([list(spec.fine_grid(c, n, at)), list(spec.fine_grid(c, n) * 2.0)], dtype=object)
    e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=c._mk(locs)))
    gq, gl = quantile_data(e)
    lo, hi = (None, None) if inner else (0, 1)
    qq, ll = padded(c._mk(q.astype(object)), c._mk(locs), lo, hi)
    c.shaped_close(gq, qq, "quantiles are kept and completed with 0 and 1")
    c.shaped_close(gl, ll, "locations are kept and extended along the end slopes")
    sl = [slopes(qq, r) for r in ll]
    t = [float(v) for v in locs[1]]
    xs = [t[0] - 0.5, t[1] + 0.1, t[n // 2] + 0.06, t[n // 2 - 1] + 0.3, t[n - 2] + 0.15, t[n - 1] + 0.5]
    c.shaped_close(e.pdf(np.array(xs)), spec.grid(lambda i, v: spec.lin(c, sl[i][0], sl[i][1], v), 2, xs), "pdf of many quantiles")
