import numpy as np
import qp

from vlib.runner import task
from . import spec

BOUNDS = "1-3 PDFs, 1-5 bins with edges in [-10,10] at least 0.01 apart, bin values in [0,10], 1-2 points in [-12,12]; also fine grids (70-120 points) of which one value is free"
OUTSIDE = "input checking switched off (an ensemble checks again when it is made); more bins or PDFs; bin widths that differ by less than 1e-6; rounding (reals, tolerance 1e-6)"


@task(configs=[dict(npdf=1, nb=1, nx=1), dict(npdf=1, nb=2, nx=1), dict(npdf=2, nb=2, nx=1), dict(npdf=1, nb=3, nx=1),
               dict(npdf=1, nb=2, nx=2), dict(npdf=2, nb=2, nx=2), dict(npdf=2, nb=3, nx=1, even=True), dict(npdf=1, nb=4, nx=1, even=True)],
      thorough=[dict(npdf=2, nb=3, nx=2), dict(npdf=1, nb=5, nx=1), dict(npdf=3, nb=2, nx=2), dict(npdf=2, nb=4, nx=2, even=True)])
def density(c, npdf, nb, nx, even=False):
    bins, h = spec.hist_in(c, npdf, nb, even)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=h))
    p = e.pdf(x)
    want = spec.grid(lambda i, v: spec.hist_pdf(c, bins, h[i], v), npdf, list(x))
    c.shaped_close(p, want, "pdf is the normalised height of the bin x is in, and 0 outside")


@task(configs=[dict(npdf=1, nb=1, nx=1), dict(npdf=1, nb=2, nx=1), dict(npdf=2, nb=2, nx=1), dict(npdf=1, nb=3, nx=1), dict(npdf=2, nb=2, nx=2)],
      thorough=[dict(npdf=2, nb=3, nx=2), dict(npdf=1, nb=5, nx=1), dict(npdf=3, nb=2, nx=2)])
def cumulative(c, npdf, nb, nx):
    bins, h = spec.hist_in(c, npdf, nb)
    x = c.array("x", nx, -12, 12)
    e = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=h))
    want = spec.grid(lambda i, v: spec.hist_cdf(c, bins, h[i], v), npdf, list(x))
    c.shaped_close(e.cdf(x), want, "cdf is the area of the bins below x")


@task(configs=[dict(npdf=2, nb=2), dict(npdf=1, nb=3)], thorough=[dict(npdf=3, nb=5)])
def stored(c, npdf, nb):
    """the normalised values are what the ensemble reports"""
    bins, h = spec.hist_in(c, npdf, nb)
    e = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=h))
    want = [[h[i, j] / spec.hist_norm(c, bins, h[i]) for j in range(nb)] for i in range(npdf)]
    c.shaped_close(e.objdata()["pdfs"], want, "stored bin values are normalised to unit area")
    c.shaped_close(e.dist.bins, bins, "bin edges are kept")


@task(configs=[dict(nb=70, even=v, what=w) for v in (False, True) for w in ("pdf", "cdf")], thorough=[dict(nb=300, even=False, what=w) for w in ("pdf", "cdf")])
def fine(c, nb, even, what):
    """many bins, any value in one of them"""
    at = c.choice("at", [0, nb // 2, nb - 1])
    bins = c._mk((np.arange(nb + 1) * 0.25 - nb / 8.0).astype(object)) if even else spec.fine_grid(c, nb + 1)
    h = spec.fine_values(c, 2, nb, 1, at)
    e = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=h))
    b = [float(v) for v in bins]
    xs = [b[0] - 0.1, b[0], b[1], b[at] + 0.01, b[at + 1] - 0.01, b[nb // 3], b[2 * nb // 3] + 0.1, b[-2], b[-1] - 0.05, b[-1] + 0.5]
    f = spec.hist_pdf if what == "pdf" else spec.hist_cdf
    want = spec.grid(lambda i, v: f(c, bins, h[i], v), 2, xs)
    c.shaped_close(getattr(e, what)(np.array(xs)), want, f"{what} of many bins")
