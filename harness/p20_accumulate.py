"""Metrics computed chunk by chunk."""
import numpy as np
import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import point_estimate_metric_classes as pm

from vlib.runner import task
from .fakes import exact_digest, memory_io
from .kinds import build, ens, given

BOUNDS = "1-4 PDFs or points divided into chunks in every way (of any sizes, in any order), any values on grids of 2-3 points, any truths; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "the approximation made by the t-digest library (replaced by a digest that keeps every value); grids spaced within 1% of a whole number of steps"


def divisions(n):
    """every way to cut n rows into consecutive chunks"""
    out = []
    for m in range(2 ** (n - 1)):
        cuts = [0] + [i + 1 for i in range(n - 1) if m >> i & 1] + [n]
        out.append(list(zip(cuts[:-1], cuts[1:])))
    return out


def chunks(c, n):
    d = c.choice("division", divisions(n))
    return d[::-1] if c.choice("backwards", [False, True]) else d


def brier_grid(c, n):
    lo, step = -1.0, 0.75
    dx = step * (n - 1) / (n + 0.5)
    g = c._mk(np.array([lo + k * step for k in range(n)], dtype=object))
    return lo, lo + (n - 1) * step, dx, g, step


@task(configs=[dict(npdf=1, n=2), dict(npdf=2, n=3), dict(npdf=3, n=2)], thorough=[dict(npdf=4, n=2), dict(npdf=3, n=3)])
def brier(c, npdf, n):
    lo, hi, dx, g, step = brier_grid(c, n)
    p = c.array("p", (npdf, n), 0, 5)
    k = [c.choice(f"k{i}", list(range(n))) for i in range(npdf)]
    f = c.array("f", npdf, -0.49, 0.49)
    z = c._mk(np.array([lo + (k[i] + f[i]) * step for i in range(npdf)], dtype=object))
    c.assume(z >= lo)
    c.assume(z <= hi)
    parts = chunks(c, npdf)
    m = cm.BrierMetric(limits=(lo, hi), dx=dx)
    m.initialize()
    got = m.finalize([m.accumulate(given(c, g, pdf=p[a:b]), z[a:b]) for a, b in parts])
    want = 0.0
    for i in range(npdf):
        for j in range(n):
            d = p[i, j] - float(k[i] == j)
            want = want + d * d
    c.close(got * npdf, want, "score of the chunks is the mean over all PDFs", tol=1e-5)
    c.close(m.evaluate(given(c, g, pdf=p), z) * npdf, want, "score at once is the mean over all PDFs", tol=1e-5)


@task(configs=[dict(npdf=1, n=3), dict(npdf=2, n=3), dict(npdf=3, n=2)], thorough=[dict(npdf=3, n=3), dict(npdf=4, n=2), dict(npdf=2, n=4)])
def cde_loss(c, npdf, n):
    g = c.sorted("g", n, -5, 5, 0.05)
    p = c.array("p", (npdf, n), 0, 5)
    k = c.ints("k", npdf, 0, n - 1)
    z = c.array("z", npdf, -6, 6)
    for i in range(npdf):
        for j in range(n):
            # nearer to point k than to any other
            c.assume(c.lor(k[i] != j, c.land(*[abs(z[i] - g[j]) <= abs(z[i] - g[o]) - 1e-6 for o in range(n) if o != j])))
    parts = chunks(c, npdf)
    m = cm.CDELossMetric(eval_grid=g)
    got = m.finalize([m.accumulate(given(c, g, pdf=p[a:b]), z[a:b]) for a, b in parts])
    want = 0.0
    for i in range(npdf):
        for j in range(n - 1):
            want = want + 0.5 * (p[i, j] * p[i, j] + p[i, j + 1] * p[i, j + 1]) * (g[j + 1] - g[j])
        for j in range(n):
            want = want - c.ite(k[i] == j, 2.0 * p[i, j], 0.0)
    c.close(got * npdf, want, "loss of the chunks is the mean over all PDFs", tol=1e-5)
    c.close(m.evaluate(given(c, g, pdf=p), z) * npdf, want, "loss at once is the mean over all PDFs", tol=1e-5)


@task(configs=[dict(cls=k, n=n) for k, n in (("PointBias", 3), ("PointSigmaIQR", 3), ("PointOutlierRate", 3), ("PointBias", 1), ("PointSigmaIQR", 1))], thorough=[dict(cls=k, n=4) for k in ("PointBias", "PointSigmaIQR", "PointOutlierRate")])
def points(c, cls, n):
    """merged digests of the chunks are the digest of everything"""
    e = c.array("e", n, -1, 5)
    r = c.array("r", n, 0, 5)
    parts = chunks(c, n)
    with exact_digest():
        m = getattr(pm, cls)()
        got = m.eval_from_iterator([e[a:b] for a, b in parts], [r[a:b] for a, b in parts])
        c.close(got, m.evaluate(e, r), "value from chunks", tol=1e-5)
        c.close(m.finalize([m.accumulate(e[a:b], r[a:b]) for a, b in parts]), got, "the iterator does what accumulate and finalize do")


@task(configs=[dict(n=3, bins=5), dict(n=4, bins=4), dict(n=3, bins=14, free=1), dict(n=5, bins=12, free=1)], thorough=[dict(n=3, bins=9), dict(n=5, bins=6), dict(n=7, bins=20, free=1)])
def mad(c, n, bins, free=None):
    """half of the accumulated distribution lies within the deviation of its median, to half a bin"""
    e = c.array("e", n, -1, 20)
    r = np.array([0.5, 3.0, 1.0, 0.0, 7.0, 2.0, 0.25])[:n]
    if free:
        at = c.choice("at", list(range(n)))
        e = c._mk(np.array([e[k] if k == at else v for k, v in enumerate([0.25, 20.0, 6.0, 4.5, 1.0, 2.5, 5.0][:n])], dtype=object))
    ez = (e - r) / (1.0 + r)
    c.apart(ez, 0.01)
    parts = chunks(c, n)
    with exact_digest() as digest:
        m = pm.PointSigmaMAD(num_bins=bins)
        got = m.finalize([m.accumulate(e[a:b], r[a:b]) for a, b in parts]) / 1.4826
        all_of_them = digest.compute(ez)
        half = (np.max(ez) - np.min(ez)) / (bins - 1) / 2 + 1e-6
        med = np.median(ez)

        def within(d):
            return all_of_them.cdf(med + d) - all_of_them.cdf(med - d)

        c.check(got >= 0, "not negative")
        c.check(within(got + half) >= 0.5 - 1e-6, "at least half of the values within it")
        c.check(c.lor(got <= half, within(got - half) <= 0.5 + 1e-6), "at most half of the values closer")


@task(configs=[dict(npdf=2, n=2), dict(npdf=3, n=2), dict(npdf=3, n=5), dict(npdf=2, n=3)], thorough=[dict(npdf=4, n=3)])
def pit(c, npdf, n):
    z = c.array("z", npdf, -5, 5)
    u = c.array("u", npdf, 0.02, 0.98)
    c.apart(z)
    c.apart(u)
    cdf = np.empty((npdf, npdf), dtype=object)
    cdf[:] = [[u[i]] * npdf for i in range(npdf)]
    cdf = c._mk(cdf)
    parts = chunks(c, npdf)
    grid = np.linspace(0.0, 1.0, n)
    with exact_digest():
        m = cm.PITMetric(eval_grid=grid)
        got = m.finalize([m.accumulate(given(c, z, cdf=cdf[a:b]), z[a:b]) for a, b in parts])
        want = m.evaluate(given(c, z, cdf=cdf), z)
    c.check(int(got.npdf) == 1 and got.gen_class is want.gen_class, "one quantile distribution")
    c.shaped_close(got.objdata()["locs"], want.objdata()["locs"], "PIT quantiles from chunks")
    c.shaped_close(got.metadata()["quants"], want.metadata()["quants"], "PIT probabilities from chunks")


@task(configs=[dict(kind="hist", npdf=3), dict(kind="norm", npdf=3)], thorough=[dict(kind="norm", npdf=5), dict(kind="interp", npdf=2)])
def from_file(c, kind, npdf):
    """the chunks of a file, of any size"""
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    g = np.array([-1.0, 0.5, 2.0])
    z = np.array([-0.9, 1.9, 0.4, 0.6, 3.0])[:npdf]
    size = c.choice("chunk", list(range(1, npdf + 2)))
    m = cm.CDELossMetric(eval_grid=g)
    with memory_io(c):
        e.write_to("f.hdf5")
        got = m.finalize([m.accumulate(part, z[int(a):int(b)]) for a, b, part in qp.iterator("f.hdf5", size)])
        c.close(got, m.evaluate(e, z), "loss from a file in chunks is that at once", tol=1e-5)


@task(configs=[dict(what=w, n=140) for w in ("PointBias", "PointSigmaIQR", "PointOutlierRate", "PIT", "Brier", "CDELoss")])
def many_chunks(c, what, n):
    """many chunks, or chunks of many"""
    sizes = c.choice("sizes", [(1,) * n, (70, 70), (1, 136, 3), (7,) * 20])
    ends = np.cumsum((0,) + tuple(sizes))
    parts = list(zip(ends[:-1], ends[1:]))
    at = c.choice("at", [0, 70, n - 1])
    z = ((37 * np.arange(n)) % 149 / 37.0).astype(object)
    e = (z + (53 * np.arange(n)) % 151 / 100.0 - 0.7).astype(object)
    if what.startswith("Point"):
        e[at] = c.real("free", -0.05, 0.05) + e[at]
        z, e = c._mk(z), c._mk(e)
        with exact_digest():
            m = getattr(pm, what)()
            c.close(m.eval_from_iterator([e[a:b] for a, b in parts], [z[a:b] for a, b in parts]), m.evaluate(e, z), "value from chunks", tol=1e-5)
        return
    if what == "PIT":
        u = ((53 * np.arange(n)) % 151 / 152.0 + 0.001).astype(object)
        u[at] = u[at] + c.real("free", 0.0001, 0.002)
        cdf = c._mk(np.tile(u[:, None], (1, n)))
        z = np.arange(n) / 8.0
        grid = np.linspace(0, 1, 5)
        with exact_digest():
            m = cm.PITMetric(eval_grid=grid)
            got = m.finalize([m.accumulate(given(c, z, cdf=cdf[a:b]), z[a:b]) for a, b in parts])
            want = m.evaluate(given(c, z, cdf=cdf), z)
        c.shaped_close(got.objdata()["locs"], want.objdata()["locs"], "PIT quantiles from chunks")
        return
    lo, hi, dx, g, step = brier_grid(c, 3)
    p = (((7 * np.arange(n)[:, None] + 5 * np.arange(3)) % 13) / 4.0).astype(object)
    p[at, 1] = c.real("free", 0, 5)
    p = c._mk(p)
    z = g[np.arange(n) % 3]
    m = cm.BrierMetric(limits=(lo, hi), dx=dx) if what == "Brier" else cm.CDELossMetric(eval_grid=g)
    got = m.finalize([m.accumulate(given(c, g, pdf=p[a:b]), z[a:b]) for a, b in parts])
    c.close(got, m.evaluate(given(c, g, pdf=p), z), "value from chunks", tol=1e-5)
