"""Probability integral transform: samples, distribution, statistics; outlier rates."""
import numpy as np
import qp
from qp import metrics as qm
from qp.metrics import concrete_metric_classes as cm
from qp.metrics.array_metrics import quick_anderson_ksamp
from qp.metrics.pit import PIT

from vlib.runner import task
from . import spec
from .kinds import build, ens, fixed, given

BOUNDS = "2-4 PDFs, any truths, any cumulative probabilities (0 and 1 included), evaluation grids of 2-6 points; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "evaluating a PIT distribution of fewer than three nodes; p-values; the statistics library itself (rank statistics are taken from it)"
WARN = "number of PIT samples smaller than the evaluation grid"


def setup(c, npdf, lo=0.0, hi=1.0):
    """every PDF has a different cdf at every truth: the sample must be that of its own truth"""
    z = c.array("z", npdf, -5, 5)
    c.apart(z)
    u = c.array("u", (npdf, npdf), lo, hi)
    return z, u, given(c, z, cdf=u)


def own(c, u):
    return c._mk(np.array([u[i, i] for i in range(len(u))], dtype=object))


@task(configs=[dict(npdf=2), dict(npdf=3)], thorough=[dict(npdf=4)])
def samples(c, npdf):
    z, u, e = setup(c, npdf)
    s = own(c, u)
    c.apart(s)
    c.assume(s >= 0.01)
    c.assume(s <= 0.99)
    p = PIT(e, z, np.linspace(0, 1, 3))
    c.shaped_close(p.pit_samps, s, "each PDF's cdf at its own truth")


@task(configs=[dict(kind=k) for k in ("hist", "interp", "norm", "quant", "mixmod", "packed")])
def real_samples(c, kind):
    if kind == "quant":
        e = fixed(c, kind, 2)
        one = [e[0], e[1]]
    else:
        ctor, shared, per = build(c, kind, 2)
        e = ens(ctor, shared, per)
        one = [ens(ctor, shared, per, slice(i, i + 1)) for i in range(2)]
    z = c.array("z", 2, -11, 11)
    alone = [f.cdf(z[i])[0, 0] for i, f in enumerate(one)]
    for a in alone:
        c.assume(a >= 0.01)
        c.assume(a <= 0.99)
    c.assume(c.lor(alone[0] - alone[1] > 1e-3, alone[1] - alone[0] > 1e-3))  # equal samples form no distribution
    s = PIT(e, z, np.linspace(0, 1, 3)).pit_samps
    c.same_shape(s, (2,), "one sample per PDF")
    for i in range(2):
        c.close(s[i], alone[i], "the PDF's cdf at its own truth")


@task(configs=[dict(npdf=3)])
def undefined(c, npdf):
    """a sample that is not a number counts as 0"""
    z, u, e = setup(c, npdf, 0.01, 0.99)
    at = c.choice("at", list(range(npdf)))
    want = c._mk(np.array([u[i, i] if i != at else 0.0 for i in range(npdf)], dtype=object))
    c.apart(want)
    u[at, at] = np.nan
    e = given(c, z, cdf=u)
    c.shaped_close(PIT(e, z, np.linspace(0, 1, 3)).pit_samps, want, "samples")


@task(configs=[dict(npdf=2, n=2), dict(npdf=3, n=3), dict(npdf=3, n=2), dict(npdf=3, n=5), dict(npdf=2, n=4)], thorough=[dict(npdf=4, n=4), dict(npdf=4, n=3)])
def distribution(c, npdf, n):
    """the quantiles of the samples, as a quantile distribution"""
    z, u, e = setup(c, npdf)
    s = own(c, u)
    q = np.linspace(0, 1, n) if n <= npdf else np.linspace(0, 1, npdf)
    pos = [spec.quantile(c, list(s), float(v)) for v in q]
    keep, kept = [], []
    for k, v in enumerate(pos):
        if bool(v > 0.0) and bool(v < 1.0) and (not kept or bool(v > kept[-1])):
            keep.append(float(q[k]))
            kept.append(v)
    for a, b in zip(kept, kept[1:]):
        c.assume(b - a >= 1e-3)
    c.assume(len(kept) >= 2)
    c.assume(kept[0] >= 0.01)
    c.assume(kept[-1] <= 0.99)
    grid = np.linspace(0, 1, n)
    if n > npdf:  # replaced as a whole
        grid = c.choice("grid", [grid, np.linspace(0.25, 0.75, n)])
    got = cm.PITMetric(eval_grid=grid).evaluate(e, z) if c.choice("class", [True, False]) else PIT(e, z, grid).pit
    want = qp.Ensemble(qp.quant, data=dict(quants=np.array(keep), locs=c._mk(np.array([kept], dtype=object))))
    c.check(got.gen_class is want.gen_class and int(got.npdf) == 1, "one quantile distribution")
    c.shaped_close(got.metadata()["quants"], want.metadata()["quants"], "probabilities of the PIT distribution")
    c.shaped_close(got.objdata()["locs"], want.objdata()["locs"], "quantiles of the PIT distribution")


def pit_of(c, npdf):
    z, u, e = setup(c, npdf)
    s = own(c, u)
    c.apart(s)
    c.assume(s >= 0.01)
    c.assume(s <= 0.99)
    return PIT(e, z, np.linspace(0, 1, npdf)), s


@task(configs=[dict(npdf=3)], thorough=[dict(npdf=4)])
def uniformity(c, npdf):
    """distance of the samples from a uniform distribution"""
    p, s = pit_of(c, npdf)
    v = spec.ordered(c, list(s))
    ks = p.evaluate_PIT_KS().statistic
    for i in range(npdf):
        c.le((i + 1) / npdf - v[i], ks, "KS is at least every upper distance")
        c.le(v[i] - i / npdf, ks, "KS is at least every lower distance")
    c.check(c.lor(*[c.lor(abs(ks - ((i + 1) / npdf - v[i])) <= 1e-6, abs(ks - (v[i] - i / npdf)) <= 1e-6) for i in range(npdf)]), "KS is one of the distances")
    w = 1.0 / (12 * npdf)
    for i in range(npdf):
        d = (2 * i + 1) / (2 * npdf) - v[i]
        w = w + d * d
    c.close(p.evaluate_PIT_CvM().statistic, w, "Cramer-von Mises statistic")
    m = p.calculate_pit_meta_metrics()
    c.check(set(m) == {"ad", "cvm", "ks", "outlier_rate"}, "all statistics are reported")
    c.close(m["ks"].statistic, ks, "reported KS")
    c.close(m["cvm"].statistic, w, "reported CvM")
    c.close(m["ad"].statistic, p.evaluate_PIT_anderson_ksamp().statistic, "reported AD")
    c.close(m["outlier_rate"], p.evaluate_PIT_outlier_rate(), "reported outlier rate")


@task(configs=[dict(npdf=3)], thorough=[dict(npdf=4)])
def trimmed(c, npdf):
    p, s = pit_of(c, npdf)
    lo = c.real("lo", 0, 0.5)
    hi = c.real("hi", 0.5, 1)
    c.assume(hi - lo >= 0.05)
    inside = [v for v in s if bool(v >= lo) and bool(v <= hi)]
    c.assume(len(inside) >= 2)
    want = quick_anderson_ksamp(c._mk(np.array(inside, dtype=object)), np.linspace(lo, hi, len(inside)))
    got = p.evaluate_PIT_anderson_ksamp(pit_min=lo, pit_max=hi)
    c.close(got.statistic, want.statistic, "only samples inside the limits count, against points spread evenly between the limits")
    c.close(p.pit_samps, s, "the samples are kept")


@task(configs=[dict(npdf=1), dict(npdf=3), dict(npdf=9)], thorough=[dict(npdf=40)])
def outlier_rate(c, npdf):
    z = c.array("z", 2, -5, 5)
    c.assume(z[1] - z[0] >= 1e-3)
    u = c.array("u", (npdf, 2), 0, 1)
    e = given(c, z, cdf=u)
    f = c.choice("f", [lambda: qm.calculate_outlier_rate(e, z[0], z[1]), lambda: cm.OutlierMetric(cdf_limits=(z[0], z[1])).evaluate(e)])
    c.shaped_close(f(), [u[i, 0] + 1.0 - u[i, 1] for i in range(npdf)], "probability below the lower plus above the upper limit, per PDF")


@task(configs=[dict(kind="norm"), dict(kind="hist")])
def default_limits(c, kind):
    ctor, shared, per = build(c, kind, 2)
    e = ens(ctor, shared, per)
    v = e.cdf(np.array([0.0001, 0.9999]))
    want = [v[i, 0] + 1.0 - v[i, 1] for i in range(2)]
    c.shaped_close(qm.calculate_outlier_rate(e), want, "outlier rate outside 0.0001 and 0.9999")
    c.shaped_close(cm.OutlierMetric().evaluate(e), want, "outlier rate outside 0.0001 and 0.9999")


@task(configs=[dict(npdf=3)])
def pit_outliers(c, npdf):
    p, s = pit_of(c, npdf)
    lo = c.real("lo", 0.0001, 0.4)
    hi = c.real("hi", 0.6, 0.9999)
    v = p.pit.cdf(np.array([lo, hi], dtype=object) if c.symbolic else np.array([lo, hi]))
    c.close(p.evaluate_PIT_outlier_rate(lo, hi), v[0, 0] + 1.0 - v[0, 1], "share of PIT values outside the limits")


@task(configs=[dict(npdf=15)])
def many_objects(c, npdf):
    """many objects, one of them anywhere"""
    at = c.choice("at", [0, npdf // 2, npdf - 1])
    s = (((17 * np.arange(npdf)) % 41 + 1) / 43.0).astype(object)
    s[at] = c.real("free", 0.01, 0.99)
    s = c._mk(s)
    for i in range(npdf):
        if i != at:
            c.assume(c.lor(s[at] - s[i] >= 1e-4, s[i] - s[at] >= 1e-4))
    z = np.arange(npdf) / 8.0
    u = np.full((npdf, npdf), 0.5, dtype=object)
    for i in range(npdf):
        u[i, i] = s[i]
    e = given(c, z, cdf=c._mk(u))
    p = PIT(e, z, np.linspace(0, 1, 5))
    c.shaped_close(p.pit_samps, s, "each PDF's cdf at its own truth")
    v = spec.among(c, s, at)
    q = [v[0], v[npdf - 1]]
    d = p.pit.objdata()["locs"][0]
    c.check(c.land(d[0] <= q[0], d[len(d) - 1] >= q[1]), "the distribution spans the samples")
    w = 1.0 / (12 * npdf)
    for i in range(npdf):
        t = (2 * i + 1) / (2 * npdf) - v[i]
        w = w + t * t
    c.close(p.evaluate_PIT_CvM().statistic, w, "Cramer-von Mises statistic")
