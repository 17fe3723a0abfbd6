"""Statistics of point estimates against true values."""
import numpy as np
import qp
from qp.metrics import point_estimate_metric_classes as pm

from vlib.runner import task
from . import spec

BOUNDS = "1-5 estimates in [-1,6] with true values in [0,5]; in any order, with ties; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "errors within 1e-6 of the outlier cut"


def some(c, n):
    e = c.array("e", n, -1, 6)
    r = c.array("r", n, 0, 5)
    return e, r, [(e[i] - r[i]) / (1.0 + r[i]) for i in range(n)]


def sigma(c, ez):
    return (spec.quantile(c, ez, 0.75) - spec.quantile(c, ez, 0.25)) / 1.349


def make(c, name, cls):
    """by its class or by the name under which the factory knows it"""
    return cls() if c.choice("direct", [True, False]) else qp.metrics.create_metric(name)


@task(configs=[dict(n=1), dict(n=3)], thorough=[dict(n=6)])
def ez(c, n):
    e, r, want = some(c, n)
    c.shaped_close(pm.PointStatsEz().evaluate(e, r), want, "error scaled by 1 + truth")


@task(configs=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=6)])
def bias(c, n):
    e, r, want = some(c, n)
    c.close(make(c, "point_bias", pm.PointBias).evaluate(e, r), spec.quantile(c, want, 0.5), "median error")


@task(configs=[dict(n=1), dict(n=2), dict(n=3), dict(n=4), dict(n=5)], thorough=[dict(n=6)])
def iqr(c, n):
    e, r, want = some(c, n)
    got = make(c, "point_stats_iqr", pm.PointSigmaIQR).evaluate(e, r)
    c.close(got, sigma(c, want), "interquartile range over 1.349")
    c.le(0.0, got, "width is not negative")


@task(configs=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)])
def outliers(c, n):
    e, r, z = some(c, n)
    s = 3.0 * sigma(c, z)
    cut = c.ite(s > 0.06, s, 0.06)
    cnt = 0.0
    for v in z:
        c.assume(abs(abs(v) - cut) >= 1e-6)
        cnt = cnt + c.ite(abs(v) > cut, 1.0, 0.0)
    m = make(c, "point_outlier_rate", pm.PointOutlierRate) if n < 4 else pm.PointOutlierRate()
    c.close(m.evaluate(e, r), cnt / n, "fraction of errors beyond max(0.06, 3 sigma)")


@task(configs=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], thorough=[dict(n=5)])
def mad(c, n):
    e, r, z = some(c, n)
    m = spec.quantile(c, z, 0.5)
    c.close(make(c, "point_stats_sigma_mad", pm.PointSigmaMAD).evaluate(e, r), 1.4826 * spec.quantile(c, [abs(v - m) for v in z], 0.5), "scaled median distance to the median", tol=1e-5)


@task(configs=[dict(n=3)], thorough=[dict(n=4)])
def order(c, n):
    """the order in which the objects come does not matter"""
    e, r, _ = some(c, n)
    perm = c.choice("perm", [[2, 0, 1], [1, 0, 2], [2, 1, 0]])
    perm = perm + list(range(3, n))
    cls = c.choice("cls", [pm.PointBias, pm.PointSigmaIQR, pm.PointSigmaMAD])
    c.close(cls().evaluate(e[perm], r[perm]), cls().evaluate(e, r), "same value in another order", tol=1e-5)


@task(configs=[dict(n=21), dict(n=130)])
def many_objects(c, n):
    """many objects, one of them anywhere"""
    at = c.choice("at", [0, n // 2, n - 1])
    r = ((37 * np.arange(n)) % 11 / 4.0).astype(object)
    z = ((53 * np.arange(n)) % 131 / 512.0 - 0.125).astype(object)
    e = r + z * (1.0 + r)
    wide = (5.0, 5.0) if n < 50 else (0.0, 0.008 * (1.0 + r[at]))
    e[at] = c.real("free", r[at] - wide[0], r[at] + wide[1])
    r, e = c._mk(r), c._mk(e)
    z = [float(v) for v in z]
    z[at] = (e[at] - r[at]) / (1.0 + r[at])
    rest = np.sort(np.array([float(v) for i, v in enumerate(z) if i != at]))
    c.assume(c.land(*[c.lor(z[at] - v >= 1e-6, v - z[at] >= 1e-6) for v in rest]))

    inorder = spec.among(c, z, at)

    def q(p):
        pos = p * (n - 1)
        k = min(int(pos), n - 2)
        a, b = inorder[k], inorder[k + 1]
        return a + (pos - k) * (b - a)

    c.close(pm.PointBias().evaluate(e, r), q(0.5), "median error")
    s = (q(0.75) - q(0.25)) / 1.349
    c.close(pm.PointSigmaIQR().evaluate(e, r), s, "interquartile range over 1.349")
    cut = c.ite(3.0 * s > 0.06, 3.0 * s, 0.06)
    cnt = 0.0
    for v in z:
        c.assume(abs(abs(v) - cut) >= 1e-6)
        cnt = cnt + c.ite(abs(v) > cut, 1.0, 0.0)
    c.close(pm.PointOutlierRate().evaluate(e, r), cnt / n, "fraction of errors beyond max(0.06, 3 sigma)")
