import numpy as np
import qp

from vlib.ctx import KF
from vlib.runner import task
from . import spec

BOUNDS = "1-3 PDFs, 2-5 grid points (shared or per PDF) in [-10,10] at least 0.01 apart, values in [0,10], 1-2 points in [-12,12]; also fine grids (70-120 points) of which one value is free"
OUTSIDE = "larger grids; rounding (reals, tolerance 1e-6)"


def first_interval(xv, y, x):
    """known finding: the cumulative table of shared grids does not start at 0"""
    area = spec.trapz(y, xv)
    c0 = 0.5 * y[0] * (xv[1] - xv[0]) / area
    c1 = 0.5 * (y[0] + y[1]) * (xv[1] - xv[0]) / area
    return (x >= xv[0], x < xv[1]), c0 + (c1 - c0) * (x - xv[0]) / (xv[1] - xv[0])


def kf_cdf(c, xv, y, npdf, xs, want):
    when = []
    becomes = []
    for i in range(npdf):
        for x in xs:
            (a, b), v = first_interval(xv, y[i], x)
            when.append(c.land(a, b))
            becomes.append(c.ite(when[-1], v, want[i][len(becomes) % len(xs)]))
    return KF("cumulative-starts-late", when=c.lor(*when), becomes=np.array(becomes, dtype=object).reshape(np.shape(want)))


@task(configs=[dict(npdf=1, n=2, nx=1), dict(npdf=1, n=3, nx=1), dict(npdf=2, n=2, nx=1), dict(npdf=2, n=3, nx=1), dict(npdf=1, n=3, nx=2), dict(npdf=2, n=2, nx=2)],
      thorough=[dict(npdf=1, n=5, nx=1), dict(npdf=2, n=4, nx=2), dict(npdf=3, n=3, nx=2)])
def shared_density(c, npdf, n, nx):
    xv, y = spec.interp_in(c, npdf, n)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.interp, data=dict(xvals=xv, yvals=y))
    want = spec.grid(lambda i, v: spec.lin(c, xv, y[i], v) / spec.trapz(y[i], xv), npdf, list(x))
    c.shaped_close(e.pdf(x), want, "pdf is linear between the grid points, of unit trapezoidal area, 0 outside")


@task(configs=[dict(npdf=1, n=2, nx=1), dict(npdf=1, n=3, nx=1), dict(npdf=2, n=2, nx=1), dict(npdf=2, n=3, nx=1), dict(npdf=2, n=2, nx=2)],
      thorough=[dict(npdf=1, n=5, nx=1), dict(npdf=2, n=4, nx=1), dict(npdf=3, n=3, nx=1)], budget=50)
def shared_cumulative(c, npdf, n, nx):
    xv, y = spec.interp_in(c, npdf, n)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.interp, data=dict(xvals=xv, yvals=y))
    want = spec.grid(lambda i, v: spec.lin(c, xv, spec.cumtrapz(y[i], xv), v, 0.0, spec.trapz(y[i], xv)) / spec.trapz(y[i], xv), npdf, list(x))
    c.shaped_close(e.cdf(x), want, "cdf interpolates the cumulative trapezoids", known=kf_cdf(c, xv, y, npdf, list(x), want))


@task(configs=[dict(npdf=1, n=2, nx=1), dict(npdf=1, n=3, nx=1), dict(npdf=2, n=2, nx=1), dict(npdf=2, n=3, nx=1), dict(npdf=2, n=2, nx=2)],
      thorough=[dict(npdf=1, n=5, nx=1), dict(npdf=2, n=3, nx=2), dict(npdf=3, n=3, nx=1)], budget=50)
def irregular_density(c, npdf, n, nx):
    xv, y = spec.interp_in(c, npdf, n, per_pdf=True)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.interp_irregular, data=dict(xvals=xv, yvals=y))
    want = spec.grid(lambda i, v: spec.lin(c, xv[i], y[i], v) / spec.trapz(y[i], xv[i]), npdf, list(x))
    c.shaped_close(e.pdf(x), want, "pdf is linear between each PDF's own grid points, of unit trapezoidal area, 0 outside")


@task(configs=[dict(npdf=1, n=2, nx=1), dict(npdf=1, n=3, nx=1), dict(npdf=2, n=2, nx=1), dict(npdf=2, n=2, nx=2)],
      thorough=[dict(npdf=1, n=5, nx=1), dict(npdf=2, n=3, nx=1), dict(npdf=3, n=2, nx=1)], budget=50)
def irregular_cumulative(c, npdf, n, nx):
    xv, y = spec.interp_in(c, npdf, n, per_pdf=True)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.interp_irregular, data=dict(xvals=xv, yvals=y))
    want = spec.grid(lambda i, v: spec.lin(c, xv[i], spec.cumtrapz(y[i], xv[i]), v, 0.0, spec.trapz(y[i], xv[i])) / spec.trapz(y[i], xv[i]), npdf, list(x))
    c.shaped_close(e.cdf(x), want, "cdf interpolates the cumulative trapezoids of each PDF's own grid")


@task(configs=[dict(npdf=2, n=3)], thorough=[dict(npdf=3, n=4)])
def stored(c, npdf, n):
    xv, y = spec.interp_in(c, npdf, n)
    e = qp.Ensemble(qp.interp, data=dict(xvals=xv, yvals=y))
    want = [[y[i, j] / spec.trapz(y[i], xv) for j in range(n)] for i in range(npdf)]
    c.shaped_close(e.objdata()["yvals"], want, "stored values are normalised to unit trapezoidal area")
    c.shaped_close(e.metadata()["xvals"], [list(xv)], "grid is kept")
    c.shaped_close(e.pdf(xv), want, "pdf passes through the grid points")


@task(configs=[dict(npdf=2, n=2)], thorough=[dict(npdf=2, n=3)])
def stored_irregular(c, npdf, n):
    xv, y = spec.interp_in(c, npdf, n, per_pdf=True)
    e = qp.Ensemble(qp.interp_irregular, data=dict(xvals=xv, yvals=y))
    want = [[y[i, j] / spec.trapz(y[i], xv[i]) for j in range(n)] for i in range(npdf)]
    c.shaped_close(e.objdata()["yvals"], want, "stored values are normalised to unit trapezoidal area")
    c.shaped_close(e.objdata()["xvals"], xv, "grids are kept")
    c.shaped_close(e.pdf(xv), want, "pdf passes through each PDF's own grid points")


@task(configs=[dict(kind=k, n=60, what=w) for k, w in (("interp", "pdf"), ("interp_irregular", "pdf"), ("interp_irregular", "cdf"))], thorough=[dict(kind=k, n=300, what="pdf") for k in ("interp", "interp_irregular")])
def fine(c, kind, n, what):
    """many grid points, any value at one of them"""
    at = c.choice("at", [0, n // 2, n - 1])
    g = spec.fine_grid(c, n)
    xv = [g, c._mk(g[:] + 0.125)] if kind == "interp_irregular" else [g, g]
    y = spec.fine_values(c, 2, n, 1, at)
    e = qp.Ensemble(getattr(qp, kind), data=dict(xvals=g if kind == "interp" else c._mk(np.array([list(r) for r in xv], dtype=object)), yvals=y))
    t = [float(v) for v in g]
    xs = [t[0] - 0.1, t[0] + 0.13, t[1], t[at] + 0.01, t[max(at - 1, 0)] + 0.17, t[n // 3], t[2 * n // 3] + 0.1, t[-2], t[-1] - 0.05, t[-1] + 0.5]
    if what == "pdf":
        want = spec.grid(lambda i, v: spec.lin(c, xv[i], y[i], v) / spec.trapz(y[i], xv[i]), 2, xs)
    else:
        want = spec.grid(lambda i, v: spec.lin(c, xv[i], spec.cumtrapz(y[i], xv[i]), v, 0.0, spec.trapz(y[i], xv[i])) / spec.trapz(y[i], xv[i]), 2, xs)
    c.shaped_close(getattr(e, what)(np.array(xs)), want, f"{what} of many points")
