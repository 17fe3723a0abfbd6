"""Metrics that compare PDFs on a grid."""
import numpy as np
import qp
from qp import metrics as qm
from qp.metrics import concrete_metric_classes as cm
from qp.metrics.brier import Brier

from vlib.runner import task
from .kinds import build, ens, given

BOUNDS = "1-2 PDFs with any values at 2-4 grid points, any limits in [-10,10] and spacings giving that many points, moments of order 0-3, any truth inside the limits; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "spacings whose ratio to the range is within 1% of a whole number (float division decides the number of points); divergences that come out negative (replaced by a tiny number)"
EPS = np.finfo(float).eps


def some_grid(c, n):
    """limits and a spacing for which int(range / spacing) is n, and the grid itself"""
    lo = c.real("lo", -10, 10)
    dx = c.real("dx", 0.05, 2)
    hi = lo + c.real("range", 0.05, 12)
    c.assume(hi - lo >= (n + 0.01) * dx)
    c.assume(hi - lo <= (n + 0.99) * dx)
    step = (hi - lo) / (n - 1)
    return lo, hi, dx, c._mk(np.array([lo + k * step for k in range(n)], dtype=object)), step


def some_pdfs(c, name, npdf, pts, lo=0.0):
    v = c.array(name, (npdf, len(pts)), lo, 5)
    return v, given(c, pts, pdf=v)


def through(c, fn, cls, args, limits, dx, **kw):
    """the function itself, or the class around it"""
    if c.choice("class", [False, True]):
        return cls(limits=limits, dx=dx, **kw).evaluate(*args)
    return fn(*args, *kw.values(), limits, dx)


@task(configs=[dict(npdf=2, n=3, order=o) for o in (0, 1, 2, 3)] + [dict(npdf=1, n=2, order=1)], thorough=[dict(npdf=3, n=5, order=o) for o in (1, 2, 3, 4)])
def moment(c, npdf, n, order):
    lo, hi, dx, g, step = some_grid(c, n)
    p, e = some_pdfs(c, "p", npdf, g)
    got = through(c, qm.calculate_moment, cm.MomentMetric, [e], (lo, hi), dx, **({"moment_order": order}))
    want = []
    for i in range(npdf):
        t = 0.0
        for k in range(n):
            v = p[i, k]
            for _ in range(order):
                v = v * g[k]
            t = t + v
        want.append(t * step)
    c.shaped_close(got, want, "moment is the grid sum of pdf * x^n * spacing", tol=1e-5)


@task(configs=[dict(npdf=2, n=3), dict(npdf=1, n=2), dict(npdf=2, n=2)], thorough=[dict(npdf=3, n=5)])
def rmse(c, npdf, n):
    lo, hi, dx, g, step = some_grid(c, n)
    p, e = some_pdfs(c, "p", npdf, g)
    q, f = some_pdfs(c, "q", npdf, g)
    got = through(c, qm.calculate_rmse, cm.RMSEMetric, [e, f], (lo, hi), dx)
    c.same_shape(got, (npdf,), "one value per PDF")
    for i in range(npdf):
        t = 0.0
        for k in range(n):
            t = t + (p[i, k] - q[i, k]) * (p[i, k] - q[i, k])
        c.le(0.0, got[i], "root mean square is not negative")
        c.close(got[i] * got[i] * n, t, "root mean square over the grid points", tol=1e-5)
    f2 = given(c, g, pdf=c._mk(np.concatenate([q, q])))
    c.raises(ValueError, lambda: qm.calculate_rmse(e, f2, (lo, hi), dx), "different numbers of PDFs are refused")


@task(configs=[dict(npdf=2, n=2), dict(npdf=1, n=3), dict(npdf=2, n=3)], thorough=[dict(npdf=3, n=4)])
def kld(c, npdf, n):
    lo, hi, dx, g, step = some_grid(c, n)
    p, e = some_pdfs(c, "p", npdf, g)
    q, f = some_pdfs(c, "q", npdf, g)
    want = []
    for i in range(npdf):
        t = 0.0
        for k in range(n):
            a = np.log(c.ite(p[i, k] < EPS, EPS, p[i, k]))
            b = np.log(c.ite(q[i, k] < EPS, EPS, q[i, k]))
            t = t + p[i, k] * (a - b)
        want.append(t * step)
        c.assume(want[-1] >= 0.0)
    got = through(c, qm.calculate_kld, cm.KLDMetric, [e, f], (lo, hi), dx)
    c.shaped_close(got, want, "divergence is the grid sum of p log(p/q) times the spacing", tol=1e-5)
    f2 = given(c, g, pdf=c._mk(np.concatenate([q, q])))
    c.raises(ValueError, lambda: qm.calculate_kld(e, f2, (lo, hi), dx), "different numbers of PDFs are refused")


@task(configs=[dict(npdf=9, n=4), dict(npdf=3, n=120)])
def long_tables(c, npdf, n):
    """many PDFs or many points"""
    lo, hi = -2.0, 3.0
    dx = (hi - lo) / (n + 0.5)
    g = np.linspace(lo, hi, n)
    step = (hi - lo) / (n - 1)
    at = c.choice("at", [(0, 0), (npdf // 2, n // 2), (npdf - 1, n - 1)])
    p = ((7 * np.arange(npdf)[:, None] + 5 * np.arange(n)) % 13 / 4.0 + 0.1).astype(object)
    q = ((3 * np.arange(npdf)[:, None] + 11 * np.arange(n)) % 17 / 4.0 + 0.1).astype(object)
    p[at] = c.real("free", 0.1, 3)
    p, q = c._mk(p), c._mk(q)
    e, f = given(c, g, pdf=p), given(c, g, pdf=q)
    one, two = qm.calculate_moment(e, 1, (lo, hi), dx), qm.calculate_rmse(e, f, (lo, hi), dx)
    c.same_shape(one, (npdf,), "one value per PDF")
    c.same_shape(two, (npdf,), "one value per PDF")
    z = g[(3 * np.arange(npdf)) % n]
    want = 0.0
    for i in range(npdf):
        c.close(one[i], sum(p[i, k] * g[k] for k in range(n)) * step, "moment is the grid sum of pdf * x^n * spacing", tol=1e-5)
        c.close(two[i] * two[i] * n, sum((p[i, k] - q[i, k]) * (p[i, k] - q[i, k]) for k in range(n)), "root mean square over the grid points", tol=1e-5)
        want = want + sum((p[i, k] - float(k == (3 * i) % n)) * (p[i, k] - float(k == (3 * i) % n)) for k in range(n))
    c.close(qm.calculate_brier(e, z, (lo, hi), dx) * npdf, want, "mean over PDFs of the squared distance to the one grid point nearest the truth", tol=1e-5)


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=2), dict(npdf=1, n=3), dict(npdf=2, n=3)], thorough=[dict(npdf=3, n=3), dict(npdf=1, n=5)])
def brier(c, npdf, n):
    lo, hi, dx, g, step = some_grid(c, n)
    p, e = some_pdfs(c, "p", npdf, g)
    z = c.array("z", npdf, -10, 20)
    for i in range(npdf):
        c.assume(z[i] >= lo)
        c.assume(z[i] <= hi)
        for k in range(n):
            c.assume(c.lor(z[i] - g[k] <= 0.5 * step - 1e-6, z[i] - g[k] >= 0.5 * step + 1e-6))
    got = through(c, qm.calculate_brier, cm.BrierMetric, [e, z], (lo, hi), dx)
    t = 0.0
    for i in range(npdf):
        for k in range(n):
            hit = c.ite(c.land(z[i] - g[k] < 0.5 * step, g[k] - z[i] < 0.5 * step), 1.0, 0.0)
            t = t + (p[i, k] - hit) * (p[i, k] - hit)
    c.close(got * npdf, t, "mean over PDFs of the squared distance to the one grid point nearest the truth", tol=1e-5)


@task(configs=[dict(npdf=2)])
def brier_refuses(c, npdf):
    lo, hi, dx, g, step = some_grid(c, 2)
    p, e = some_pdfs(c, "p", npdf, g)
    z = c.array("z", npdf, -10, 20)
    c.assume(z >= lo)
    c.assume(z <= hi)
    side = c.choice("side", ["low", "high", "count"])
    at = c.choice("at", list(range(npdf)))
    d = c.real("d", 0.001, 3)
    if side == "count":
        c.raises(ValueError, lambda: qm.calculate_brier(e, z[:1], (lo, hi), dx), "as many truths as PDFs are needed")
        return
    z[at] = lo - d if side == "low" else hi + d
    c.raises(ValueError, lambda: qm.calculate_brier(e, z, (lo, hi), dx), "a truth outside the limits is refused")


@task(configs=[dict(n=2, m=2), dict(n=1, m=3), dict(n=3, m=2), dict(n=0, m=3)], thorough=[dict(n=4, m=4)])
def brier_score(c, n, m):
    """the score itself; n=0: a single distribution given flat"""
    shape = (n, m) if n else (m,)
    p = c.array("p", shape, -1, 2)
    t = c.ints("t", shape, 0, 1)
    tot = 0.0
    for a, b in zip(p.ravel(), t.ravel()):
        tot = tot + (a - b) * (a - b)
    c.close(Brier(p, t).evaluate() * max(n, 1), tot, "mean of the summed squared differences", tol=1e-5)
    c.close(Brier(p, t).accumulate(), tot, "sum of the squared differences", tol=1e-5)
    c.raises(ValueError, lambda: Brier(p, t[..., :-1]).evaluate(), "different shapes are refused")
    c.raises(TypeError, lambda: Brier(np.full(shape, "a"), t).evaluate(), "text is refused")
    c.raises(TypeError, lambda: Brier(p, np.full(shape, "a")).evaluate(), "text is refused")


@task(configs=[dict(kind=k, n=n, what=w) for k, n in (("interp", 2), ("hist", 2), ("norm", 3), ("packed", 2)) for w in ("moment", "moment_partial", "rmse", "brier")], thorough=[dict(kind="interp", n=3, what=w) for w in ("moment", "brier")])
def real_pdfs(c, kind, n, what):
    """the grid values are those of the PDFs as given, on the grid and in the order of the ensemble"""
    ctor, shared, per = build(c, kind, 2, 2)
    e = ens(ctor, shared, per)
    lo, hi, dx, g, step = some_grid(c, n)
    f = given(c, g, pdf=e.pdf(g))
    z = [lo, hi]
    if what.startswith("moment"):
        m = c.choice("order", [1, 2, 3] if what == "moment_partial" else [1])
        got = qm.calculate_moment(e, m, (lo, hi), dx) if what == "moment" else e.moment_partial(m, (lo, hi), dx)
        p = f.pdf(g)
        pw = g
        for _ in range(m - 1):
            pw = pw * g
        want = [sum(p[i, k] * pw[k] for k in range(n)) * step for i in range(len(p))]
        c.shaped_close(got, want, "moment over the limits", tol=1e-5, scale=100.0)
    elif what == "rmse":
        c.shaped_close(qm.calculate_rmse(e, f, (lo, hi), dx), [0.0, 0.0], "distance to itself", tol=1e-4)
    else:
        c.close(qm.calculate_brier(e, z, (lo, hi), dx), qm.calculate_brier(f, z, (lo, hi), dx), "Brier score", tol=1e-5)
