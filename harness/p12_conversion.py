import numpy as np
import qp
from qp.packing_utils import log_pack_from_rowmax

from scipy.interpolate import make_interp_spline

from vlib.runner import task
from . import spec
from .fakes import Uniforms, swapped
from .kinds import build, ens, eq_data, fixed, given, many

BOUNDS = "1-2 PDFs of any values at the points (a user-defined representation) and of every representation with fixed contents, converted to grids of 2-3 points, 2 bins, 2-3 quantiles or 3 samples; grids symbolic; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "the fit itself (scikit-learn's mixtures and scipy's density estimates are stand-ins that return simple functions of the samples; the sparse encoding is decided by P18); how close the converted PDF is between the points it was sampled at"
QUICK_S = 120

SRC = ["given", "hist", "interp", "interp_irregular", "quant", "norm", "mixmod", "packed"]


def convert(c, e, cls, name, both=True, **kw):
    """by either way"""
    if both and c.choice("api", [0, 1]):
        return qp.convert(e, name, **kw)
    return e.convert_to(cls, **kw)


def source(c, kind, npdf, points, what, lo=0.0):
    """a fixed ensemble of some kind, or one of arbitrary values at the points"""
    if kind != "given":
        return fixed(c, kind, npdf)
    n = len(points)
    if what == "pdf":
        return given(c, points, pdf=c.array("v", (npdf, n), 0, 5))
    if what == "cdf":
        return given(c, points, cdf=c.sorted("v", n, 0, 1, 0, rows=npdf))
    return given(c, points, ppf=c.sorted("v", n, -10, 10, 0.02, rows=npdf))


def kept(c, e, before, npdf):
    c.check(int(e.npdf) == npdf, "the source keeps its PDFs")
    eq_data(c, e.objdata(), before, "the source keeps its data")


@task(configs=[dict(kind=k, npdf=n) for k in SRC for n in (1, 2) if n == 1 or k in ("given", "hist", "interp", "packed")] + [dict(kind="given", npdf=n, nb=3) for n in (1, 2)],
      thorough=[dict(kind=k, npdf=1, nb=3) for k in SRC[1:]] + [dict(kind=k, npdf=2) for k in ("interp_irregular", "quant", "norm", "mixmod")])
def to_hist(c, kind, npdf, nb=2):
    """each bin holds the probability the source has there, per unit of width"""
    b = c.sorted("b", nb + 1, -11, 11, 0.05)
    e = source(c, kind, npdf, b, "cdf")
    before = e.objdata()
    cdf = e.cdf(b)
    d = [[cdf[i, j + 1] - cdf[i, j] for j in range(nb)] for i in range(npdf)]
    tot = [cdf[i, nb] - cdf[i, 0] for i in range(npdf)]
    for t in tot:
        c.assume(t >= 0.05)
    f = convert(c, e, qp.hist_gen, "hist", bins=b)
    c.check(f.gen_class is qp.hist_gen, "the representation asked for")
    c.shaped_close(np.squeeze(f.metadata()["bins"]), b, "the bins asked for")
    p = f.objdata()["pdfs"]
    c.same_shape(p, (npdf, nb), "one value for each PDF and bin")
    for i in range(npdf):
        for j in range(nb):
            c.close(p[i, j] * (b[j + 1] - b[j]) * tot[i], d[i][j], "probability in each bin")
    kept(c, e, before, npdf)


@task(configs=[dict(kind=k, to=t, npdf=n) for k in SRC for t in ("interp", "interp_irregular") for n in (1, 2) if n == 1 or k != "mixmod"] + [dict(kind="given", to=t, npdf=n, n=3) for n in (1, 2) for t in ("interp", "interp_irregular")],
      thorough=[dict(kind=k, to=t, npdf=1, n=3) for k in SRC for t in ("interp", "interp_irregular")])
def to_grid(c, kind, to, npdf, n=2):
    """values are those of the source on the grid, normalised"""
    g = c.sorted("g", n, -11, 11, 0.05)
    e = source(c, kind, npdf, g, "pdf")
    before = e.objdata()
    y = e.pdf(g)
    tot = [spec.trapz(y[i], g) for i in range(npdf)]
    for t in tot:
        c.assume(t >= 0.05)
    if to == "interp":
        f = convert(c, e, qp.interp_gen, "interp", xvals=g)
        c.shaped_close(np.squeeze(f.metadata()["xvals"]), g, "the grid asked for")
    else:
        f = convert(c, e, qp.interp_irregular_gen, "interp_irregular", xvals=g)
        c.shaped_close(f.objdata()["xvals"], [[g[j] for j in range(n)]] * npdf, "the grid asked for, for each PDF")
    v = f.objdata()["yvals"]
    c.same_shape(v, (npdf, n), "one value for each PDF and point")
    for i in range(npdf):
        for j in range(n):
            c.close(v[i, j] * tot[i], y[i, j], "value at each grid point")
    kept(c, e, before, npdf)


@task(configs=[dict(kind=k, npdf=n) for k in ("given", "hist", "interp", "interp_irregular", "quant", "norm") for n in (1, 2)] + [dict(kind="norm", npdf=1, n=3)],
      thorough=[dict(kind=k, npdf=1, n=3) for k in ("hist", "interp", "quant", "interp_irregular")])
def to_quantiles(c, kind, npdf, n=2):
    """locations are where the source reaches the quantiles"""
    q = c.sorted("q", n, 0.02, 0.98, 0.05)
    e = source(c, kind, npdf, q, "ppf")
    before = e.objdata()
    want = e.ppf(q)
    f = convert(c, e, qp.quant_gen, "quant", quants=q)
    fq = np.squeeze(f.metadata()["quants"])
    c.same_shape(fq, (n + 2,), "quantiles, completed by 0 and 1")
    locs = f.objdata()["locs"]
    c.same_shape(locs, (npdf, n + 2), "one location for each PDF and quantile")
    for j in range(n):
        c.close(fq[j + 1], q[j], "the quantiles asked for")
        for i in range(npdf):
            c.close(locs[i, j + 1], want[i, j], "location of each quantile")
    c.close(fq[0], 0.0, "first quantile")
    c.close(fq[n + 1], 1.0, "last quantile")
    kept(c, e, before, npdf)


@task(configs=[dict(kind=k) for k in ("given", "hist", "interp", "norm", "mixmod", "quant")])
def to_packed(c, kind):
    """packed values are within half a step of the source on the grid"""
    g = c.sorted("g", 2, -11, 11, 0.05)
    e = source(c, kind, 1, g, "pdf")
    before = e.objdata()
    y = e.pdf(g)
    mx = c.ite(y[0, 0] >= y[0, 1], y[0, 0], y[0, 1])
    c.assume(mx >= 0.02)
    f = convert(c, e, qp.packed_interp_gen, "packed_interp", xvals=g, packing_type=qp.PackingType.linear_from_rowmax)
    d = f.objdata()
    c.shaped_close(d["ymax"], [[mx]], "the largest value")
    for j in range(2):
        c.close(d["ypacked"][0, j] * mx / 255.0, y[0, j], "value at each grid point", tol=0.501 / 255, scale=mx)
    c.shaped_close(np.squeeze(f.metadata()["xvals"]), g, "the grid asked for")
    kept(c, e, before, 1)


@task(configs=[dict(kind=k, npdf=n) for k, n in (("given", 1), ("given", 2), ("interp", 2), ("norm", 2), ("bspline", 2))])
def to_spline(c, kind, npdf):
    """the spline passes through the source's values on the grid, normalised"""
    g = np.array([-2.0, -0.5, 0.0, 1.5, 3.0])
    if kind == "given":
        v = np.array([[0.5, 1.5, 2.0, 0.75, 1.0], [1.25, 0.5, 0.25, 2.0, 3.0]])[:npdf].astype(object)
        at = c.choice("at", [0, 2, 4])
        for i in range(npdf):
            v[i, (at + i) % 5] = c.real(f"v{i}", 0.05, 5)
        e = given(c, g, pdf=c._mk(v))
    else:
        e = fixed(c, kind, npdf)
    before = e.objdata()
    y = e.pdf(g)
    f = convert(c, e, qp.spline_gen, "spline", xvals=g, method="xy")
    c.check(f.gen_class is qp.spline_gen, "the representation asked for")
    c.check(int(f.npdf) == npdf, "number of PDFs")
    got, F = f.pdf(g), f.cdf(g)
    w = [float(make_interp_spline(g, np.eye(5)[j], k=3).integrate(g[0], g[-1])) for j in range(5)]
    for i in range(npdf):
        a = 0.0
        for j in range(5):
            a = a + w[j] * y[i, j]
        c.assume(a >= 0.3)
        for j in range(5):
            c.close(got[i, j] * a, y[i, j], "value at each grid point")
        c.close(F[i, 0], 0.0, "nothing lies before the grid")
        c.close(F[i, 4], 1.0, "all of it lies on the grid")
    kept(c, e, before, npdf)


@task(configs=[dict(kind=k, npdf=n) for k in ("hist", "interp") for n in (1, 2)])
def by_samples(c, kind, npdf):
    """bins hold the fraction of samples that fall there"""
    size = 3 if npdf == 1 else 2
    u = c.array("u", npdf * size, 0.02, 0.98)
    e = fixed(c, kind, npdf)
    b = c.sorted("b", 3, -11, 11, 0.05) if npdf == 1 else c._mk(np.array([-1.5, 0.25, 2.0], dtype=object))
    s = [[e.ppf(u[i * size + j])[i, 0] for j in range(size)] for i in range(npdf)]
    e.dist._random_state = Uniforms(c, u)
    n = [[0, 0] for _ in range(npdf)]
    for i in range(npdf):
        for j in range(size):
            v = s[i][j]
            for k in range(3):
                c.assume(c.lor(v <= b[k] - 1e-6, v >= b[k] + 1e-6))
            if v > b[0] and v < b[2]:
                n[i][0 if v < b[1] else 1] += 1
        c.assume(sum(n[i]) > 0)
    f = convert(c, e, qp.hist_gen, "hist", both=False, bins=b, size=size, method="samples")
    p = f.objdata()["pdfs"]
    c.same_shape(p, (npdf, 2), "one value for each PDF and bin")
    for i in range(npdf):
        for k in range(2):
            c.close(p[i, k] * (b[k + 1] - b[k]) * sum(n[i]), n[i][k], "fraction of samples in each bin")


@task(configs=[dict(to=t, npdf=n) for t in ("mixmod", "spline") for n in (1, 2)])
def by_fitted_samples(c, to, npdf):
    """what is fitted to samples of a PDF (by the libraries used) comes back as that PDF"""
    import scipy.stats
    import sklearn.mixture

    size, ncomps = 3, 2
    u = np.linspace(0.1, 0.9, npdf * size).astype(object)
    for i in range(npdf):
        u[i * size + (i + 1) % 2] = c.real(f"u{i}", 0.02, 0.98)
    u = c._mk(u)
    e = fixed(c, "hist", npdf)
    before = e.objdata()
    s = [[e.ppf(u[i * size + j])[i, 0] for j in range(size)] for i in range(npdf)]
    asked = []

    class Mixture:
        """in place of scikit-learn's: components that are simple functions of the samples"""

        def __init__(self, n_components=1, **kw):
            asked.append(n_components)

        def fit(self, x, y=None):
            c.same_shape(x, (size, 1), "one PDF's samples as a column")
            v = [x[k, 0] for k in range(size)]
            self.weights_ = np.array([0.75, 0.25])
            self.means_ = c._mk(np.array([[v[0]], [v[1]]], dtype=object))
            self.covariances_ = c._mk(np.array([[[(v[2] + 11.0) ** 2]], [[(v[0] + 13.0) ** 2]]], dtype=object))
            self.converged_ = True
            return self

    def value(i, v):
        return 1.0 + i + 1.0 / (1.0 + v) + (0.5 - 0.25 * i) * v

    class Estimate:
        def __init__(self, row, *a, **kw):
            c.same_shape(row, (size,), "one PDF's samples")
            own = [i for i in range(npdf) if abs(float(row[2]) - float(s[i][2])) < 1e-6]
            c.check(len(own) == 1, "samples of one PDF")
            c.close(row, s[own[0]], "the samples of that PDF")
            self.own = own[0]

        def __call__(self, v):
            return np.array([value(self.own, float(w)) for w in v])

        evaluate = __call__

    if to == "mixmod":
        kw = dict(random_state=Uniforms(c, u)) if c.choice("state", [0, 1]) else {}
        if not kw:
            e.dist._random_state = Uniforms(c, u)
        with swapped((sklearn.mixture, "GaussianMixture", Mixture)):
            f = convert(c, e, qp.mixmod_gen, "mixmod", ncomps=ncomps, nsamples=size, **kw)
        c.check(asked == [ncomps] * npdf, "as many components as asked for, fitted once for each PDF")
        d = f.objdata()
        for k in ("weights", "means", "stds"):
            c.same_shape(d[k], (npdf, ncomps), "one value for each PDF and component")
        for i in range(npdf):
            c.close(d["weights"][i], [0.75, 0.25], "weights of the components fitted to that PDF's samples")
            c.close(d["means"][i], [s[i][0], s[i][1]], "means of the components fitted to that PDF's samples")
            c.close(d["stds"][i], [s[i][2] + 11.0, s[i][0] + 13.0], "widths of the components fitted to that PDF's samples")
    else:
        x = np.array([0.0, 1.0, 1.5, 3.0, 4.0])
        e.dist._random_state = Uniforms(c, u)
        with swapped((scipy.stats, "gaussian_kde", Estimate)):
            f = convert(c, e, qp.spline_gen, "spline", xvals=x, size=size, method="samples")
        got = f.pdf(x)
        w = [float(make_interp_spline(x, np.eye(5)[j], k=3).integrate(x[0], x[-1])) for j in range(5)]
        for i in range(npdf):
            v = [value(i, t) for t in x]
            a = sum(w[j] * v[j] for j in range(5))
            c.close(got[i] * a, v, "the estimate from that PDF's samples, normalised")
    c.check(int(f.npdf) == npdf, "number of PDFs")
    e.dist._random_state = None
    kept(c, e, before, npdf)


@task(configs=[dict(kind="hist", floor=None), dict(kind="hist", floor=-2.0)])
def to_packed_logarithms(c, kind, floor):
    """the same ensemble as one built from the packed values with the same floor"""
    g = np.array([-1.5, 0.25])
    e = source(c, kind, 1, g, "pdf")
    y = e.pdf(g)
    c.assume(c.land(y[0, 0] >= 0.02, y[0, 1] >= 0.02))
    before = e.objdata()
    kw = {} if floor is None else dict(log_floor=floor)
    f = convert(c, e, qp.packed_interp_gen, "packed_interp", xvals=g, packing_type=qp.PackingType.log_from_rowmax, **kw)
    k, top = log_pack_from_rowmax(y, -3.0 if floor is None else floor)
    d, m = f.objdata(), f.metadata()
    c.shaped_close(d["ypacked"], k, "packed values")
    c.shaped_close(d["ymax"], top, "the largest value")
    c.close(np.squeeze(m["log_floor"]), -3.0 if floor is None else floor, "the floor asked for")
    c.check(np.squeeze(m["packing_type"]) == qp.PackingType.log_from_rowmax.value, "the way of packing asked for")
    if kind == "hist":
        h = qp.Ensemble(qp.packed_interp, data=dict(xvals=g, ypacked=k, ymax=top, packing_type=qp.PackingType.log_from_rowmax, **kw))
        x = c.real("at", -2, 1)
        c.shaped_close(f.pdf(x), h.pdf(x), "density of the packed values", tol=1e-5)
    kept(c, e, before, 1)


@task(configs=[dict(kind=k) for k in ("hist", "interp", "quant")])
def unchanged(c, kind):
    """converting to the representation and grid an ensemble already has changes nothing"""
    ctor, shared, per = build(c, kind, 2, name="s", n={"hist": 2, "interp": 3, "quant": 4}[kind])
    e = ens(ctor, shared, per)
    key, cls = {"hist": ("bins", qp.hist_gen), "interp": ("xvals", qp.interp_gen), "quant": ("quants", qp.quant_gen)}[kind]
    g = shared[key]
    if kind == "quant":
        g = g[1:-1]
        f = e.convert_to(cls, **{key: g})
        c.close(f.objdata()["locs"][:, 1:-1], e.objdata()["locs"][:, 1:-1], "the inner quantiles")
        return
    f = e.convert_to(cls, **{key: g})
    eq_data(c, f.objdata(), e.objdata(), "data")
    eq_data(c, f.metadata(), e.metadata(), "metadata")


@task(configs=[dict(kind=k) for k in ("hist", "norm")])
def arguments(c, kind):
    """the caller's arguments are left alone and missing ones refused"""
    b = c.sorted("b", 3, -11, 11, 0.05)
    e = source(c, kind, 1, b, "cdf")
    cd = e.cdf(b)
    c.assume(cd[0, 2] - cd[0, 0] >= 0.05)
    kw = dict(bins=b)
    f = e.convert_to(qp.hist_gen, **kw)
    g = qp.convert(e, "hist", **kw)
    c.check(list(kw) == ["bins"], "the arguments are kept")
    eq_data(c, f.objdata(), g.objdata(), "both ways of converting agree")
    c.raises(ValueError, lambda: e.convert_to(qp.hist_gen), "bins are needed")
    c.raises(KeyError, lambda: qp.convert(e, "no_such_class", bins=b), "unknown representations are refused")


@task(configs=[dict(kind=k, to=t) for k in ("hist", "interp", "norm", "packed", "interp_irregular", "mixmod", "quant", "bspline") for t in ("hist", "interp", "interp_irregular", "quant") if (t != "quant" or k in ("norm", "hist", "interp")) and not (k in ("mixmod", "bspline") and t[:6] == "interp")])
def long_tables(c, kind, to):
    """many PDFs, each converted on its own"""
    npdf = 130
    e = ens(*many(c, kind, npdf))
    g = c._mk(np.array([-1.25, 0.5, 2.25] if kind in ("hist", "interp", "packed", "mixmod") else [-3.0, -0.7, 1.75, 3.6, 5.5, 9.0, 16.0] if kind == "quant" else [-3.0, 1.75, 5.5, 9.0, 16.0], dtype=object))
    n = len(g)
    q = c._mk(np.array([0.125, 0.5], dtype=object))
    before = e.objdata()
    if to == "hist":
        want = e.cdf(g)
        f = convert(c, e, qp.hist_gen, "hist", bins=g)
        v = f.objdata()["pdfs"]
        c.same_shape(v, (npdf, n - 1), "one value for each PDF and bin")
    elif to == "quant":
        want = e.ppf(q)
        v = convert(c, e, qp.quant_gen, "quant", quants=q).objdata()["locs"]
        c.same_shape(v, (npdf, 4), "one location for each PDF and quantile")
    else:
        want = e.pdf(g)
        v = convert(c, e, getattr(qp, to + "_gen"), to, xvals=g).objdata()["yvals"]
        c.same_shape(v, (npdf, n), "one value for each PDF and point")
    for i in sorted({0, 1, 63, 64, 65, 128, npdf - 1}):
        if to == "hist":
            tot = want[i, n - 1] - want[i, 0]
            c.assume(tot >= 0.01)
            for j in range(n - 1):
                c.close(v[i, j] * (g[j + 1] - g[j]) * tot, want[i, j + 1] - want[i, j], "probability in each bin")
        elif to == "quant":
            for j in range(2):
                c.close(v[i, j + 1], want[i, j], "location of each quantile")
        else:
            tot = spec.trapz(want[i], g)
            c.assume(tot >= 0.01)
            for j in range(n):
                c.close(v[i, j] * tot, want[i, j], "value at each grid point")
    kept(c, e, before, npdf)
