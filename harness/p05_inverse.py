import numpy as np
import qp

from vlib.ctx import KF
from vlib.runner import task
from . import spec
from .kinds import mix_in, quant_in

BOUNDS = "1-2 PDFs, 1-4 bins / 2-4 grid points in [-10,10] at least 0.01 apart, 1-2 points, probabilities in [0,1]; also fine grids (70-120 points) of which one value is free"
OUTSIDE = "quantile ensembles between their nodes (quadratic splines are not monotone), mixtures (ppf from a 201-point table); rounding"


def make(c, kind, npdf, n, positive=False):
    """-> ensemble, edges per PDF, normalised cumulative table per PDF"""
    if kind == "hist":
        b, h = spec.hist_in(c, npdf, n)
        if positive:
            c.assume(h >= 0.05)
        e = qp.Ensemble(qp.hist, data=dict(bins=b, pdfs=h))
        return e, [b] * npdf, h
    per = kind == "interp_irregular"
    xv, y = spec.interp_in(c, npdf, n, per_pdf=per)
    if positive:
        c.assume(y >= 0.05)
    e = qp.Ensemble(getattr(qp, kind), data=dict(xvals=xv, yvals=y))
    return e, ([xv[i] for i in range(npdf)] if per else [xv] * npdf), y


def late(c, kind, ed, y, xs=(), qs=()):
    """known finding region: shared grids whose first value is not 0"""
    if kind != "interp":
        return None
    conds = []
    for i in range(len(ed)):
        c0 = 0.5 * y[i, 0] * (ed[i][1] - ed[i][0]) / spec.trapz(y[i], ed[i])
        for x in xs:
            conds.append(c.land(y[i, 0] > 0, x >= ed[i][0], x < ed[i][1]))
        for q in qs:
            conds.append(q <= c0)
    return KF("late-start-inverse", when=c.lor(*conds))


@task(configs=[dict(kind="hist", npdf=1, n=1), dict(kind="hist", npdf=1, n=2), dict(kind="hist", npdf=2, n=2), dict(kind="interp", npdf=1, n=3), dict(kind="interp", npdf=2, n=2),
               dict(kind="interp_irregular", npdf=1, n=3), dict(kind="interp_irregular", npdf=2, n=2)],
      thorough=[dict(kind="hist", npdf=2, n=3), dict(kind="interp", npdf=2, n=3), dict(kind="interp_irregular", npdf=2, n=3), dict(kind="hist", npdf=1, n=4)], budget=40)
def monotone(c, kind, npdf, n):
    e, ed, y = make(c, kind, npdf, n)
    x = c.array("x", 2, -12, 12)
    c.assume(x[0] <= x[1])
    v = e.cdf(x)
    c.same_shape(v, (npdf, 2), "cdf shape")
    for i in range(npdf):
        c.le(v[i, 0], v[i, 1], "cdf does not decrease")
        c.le(0.0, v[i, 0], "cdf is at least 0")
        c.le(v[i, 1], 1.0, "cdf is at most 1")
        c.close(c.ite(x[0] < ed[i][0], v[i, 0], 0.0), 0.0, "cdf below the grid is 0")
        c.close(c.ite(x[1] > ed[i][-1], v[i, 1], 1.0), 1.0, "cdf above the grid is 1")


@task(configs=[dict(kind="hist", npdf=2, n=2), dict(kind="interp", npdf=2, n=2), dict(kind="interp_irregular", npdf=2, n=2)], thorough=[dict(kind="hist", npdf=2, n=4)])
def ends(c, kind, npdf, n):
    e, ed, y = make(c, kind, npdf, n)
    lo = c._mk(np.array([[r[0]] for r in ed], dtype=object))
    hi = c._mk(np.array([[r[-1]] for r in ed], dtype=object))
    known = KF("late-start-inverse", when=c.lor(*[y[i, 0] > 0 for i in range(npdf)])) if kind == "interp" else None
    c.shaped_close(e.cdf(lo), [[0.0]] * npdf, "cdf at the first grid point is 0", known=known)
    c.shaped_close(e.cdf(hi), [[1.0]] * npdf, "cdf at the last grid point is 1")


@task(configs=[dict(kind="hist", npdf=1, n=1), dict(kind="hist", npdf=1, n=2), dict(kind="hist", npdf=2, n=2), dict(kind="hist", npdf=1, n=3), dict(kind="interp", npdf=1, n=2), dict(kind="interp", npdf=1, n=3),
               dict(kind="interp_irregular", npdf=1, n=2), dict(kind="interp_irregular", npdf=1, n=3), dict(kind="interp_irregular", npdf=2, n=2)],
      thorough=[dict(kind="hist", npdf=2, n=3), dict(kind="interp", npdf=2, n=3), dict(kind="interp_irregular", npdf=2, n=3), dict(kind="hist", npdf=1, n=4)], budget=40)
def inverse(c, kind, npdf, n):
    """the ppf is the place where the cdf reaches q"""
    e, ed, y = make(c, kind, npdf, n)
    q = c.real("q", 0.001, 0.999)
    x = e.ppf(q)
    c.same_shape(x, (npdf, 1), "ppf shape")
    known = late(c, kind, ed, y, qs=[q])
    for i in range(npdf):
        c.le(ed[i][0], x[i, 0], "ppf is on the grid")
        c.le(x[i, 0], ed[i][-1], "ppf is on the grid")
    back = e.cdf(x)
    c.shaped_close(back, [[q]] * npdf, "cdf(ppf(q)) is q", known=known)


@task(configs=[dict(kind="hist", npdf=1, n=2), dict(kind="hist", npdf=2, n=1), dict(kind="interp", npdf=1, n=2), dict(kind="interp_irregular", npdf=1, n=3), dict(kind="interp_irregular", npdf=2, n=2)],
      thorough=[dict(kind="hist", npdf=2, n=2), dict(kind="interp", npdf=1, n=3), dict(kind="interp_irregular", npdf=2, n=3)], budget=40)
def there_and_back(c, kind, npdf, n):
    """where the density is positive the cdf determines x"""
    e, ed, y = make(c, kind, npdf, n, positive=True)
    f = c.real("f", 0.01, 0.99)
    x = c._mk(np.array([[r[0] + f * (r[-1] - r[0])] for r in ed], dtype=object))
    known = late(c, kind, ed, y, xs=[x[i, 0] for i in range(npdf)])
    c.shaped_close(e.ppf(e.cdf(x)), x, "ppf(cdf(x)) is x", tol=1e-5, known=known)


@task(configs=[dict(kind="hist", n=2), dict(kind="interp", n=3), dict(kind="interp_irregular", n=2), dict(kind="quant", n=3)])
def ppf_ends(c, kind, n):
    """documented: ppf(0) / ppf(1) are the first / last grid point"""
    if kind == "quant":
        q, locs = quant_in(c, 2, n, 0, 1)
        e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
        ed = [locs[0], locs[1]]
    else:
        e, ed, y = make(c, kind, 2, n)
    lo = e.ppf(np.array([0.0]))
    hi = e.ppf(np.array([1.0]))
    c.shaped_close(lo, [[r[0]] for r in ed], "ppf(0) is the first grid point", known=KF("ppf-ends-infinite", becomes=np.array([[-np.inf]] * 2)))
    c.shaped_close(hi, [[r[-1]] for r in ed], "ppf(1) is the last grid point", known=KF("ppf-ends-infinite", becomes=np.array([[np.inf]] * 2)))


@task(configs=[dict(kind="hist", n=1), dict(kind="hist", n=2), dict(kind="interp", n=2), dict(kind="interp_irregular", n=2)], thorough=[dict(kind="hist", n=3), dict(kind="interp", n=3), dict(kind="interp_irregular", n=3)])
def ppf_order(c, kind, n):
    e, ed, y = make(c, kind, 1, n)
    q = c.array("q", 2, 0.001, 0.999)
    c.assume(q[0] <= q[1])
    v = e.ppf(q)
    c.le(v[0, 0], v[0, 1], "ppf does not decrease")


@task(configs=[dict(kind="hist"), dict(kind="interp"), dict(kind="interp_irregular"), dict(kind="mixmod"), dict(kind="quant")])
def invalid_probability(c, kind):
    """a probability outside [0,1] has no quantile"""
    if kind == "mixmod":
        m, s, w = mix_in(c, 2, 2)
        e = qp.Ensemble(qp.mixmod, data=dict(means=m, stds=s, weights=w))
    elif kind == "quant":
        q, locs = quant_in(c, 2, 3, 0, 1)
        e = qp.Ensemble(qp.quant, data=dict(quants=q, locs=locs))
    else:
        e, _, _ = make(c, kind, 2, 2)
    bad = c.choice("side", [-1, 1])
    d = c.real("d", 0.01, 2)
    q = np.array([1.0 + d if bad > 0 else -d], dtype=object)
    v = e.ppf(c._mk(q))
    c.shaped_close(v, [[np.nan], [np.nan]], "no quantile outside [0,1]")


@task(configs=[dict(kind=k, n=60) for k in ("hist", "interp", "interp_irregular")], thorough=[dict(kind="hist", n=200)])
def fine(c, kind, n):
    """many bins or points: the cdf reaches each probability at its quantile"""
    at = c.choice("at", [0, n // 2, n - 1])
    g = spec.fine_grid(c, n + 1 if kind == "hist" else n)
    y = spec.fine_values(c, 1, n, 0, at, 0.5, 0.6)
    if kind == "interp":  # known finding: late-start-inverse
        y[0, 0] = 0.0
    if kind == "hist":
        e = qp.Ensemble(qp.hist, data=dict(bins=g, pdfs=y))
    else:
        e = qp.Ensemble(getattr(qp, kind), data=dict(xvals=g if kind == "interp" else c._mk(np.array([list(g)], dtype=object)), yvals=y))
    q = np.array([c.choice("q", [0.01, 0.25, 0.625, 0.99])])
    x = e.ppf(q)
    c.same_shape(x, (1, len(q)), "ppf shape")
    for k in range(len(q)):
        c.le(g[0], x[0, k], "ppf is on the grid")
        c.le(x[0, k], g[-1], "ppf is on the grid")
        c.close(e.cdf(x[0, k])[0, 0], q[k], "cdf(ppf(q)) is q")
