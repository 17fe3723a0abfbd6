"""Builders for ensembles of every representation with symbolic contents."""
import numpy as np
import qp
from qp.pdf_gen import Pdf_rows_gen

from . import spec

CONS = {"quant": "piecewise_linear", "quant_const": "piecewise_constant", "quant_spline": "cdf_spline_derivative", "quant_dual": "dual_spline_average"}


def mix_in(c, npdf, k, name=""):
    m = c.array(name + "m", (npdf, k), -5, 5)
    s = c.array(name + "s", (npdf, k), 0.1, 3)
    w = c.array(name + "w", (npdf, k), 0, 5)
    for i in range(npdf):
        t = 0.0
        for j in range(k):
            t = t + w[i, j]
        c.assume(t >= 0.1)
    return m, s, w


def quant_in(c, npdf, n, lo=None, hi=None, name="", edge=0.02):
    """lo/hi: None = does not reach 0 / 1 (edge away), else the exact end"""
    q = c.sorted(name + "q", n, 0.0, 1.0, 0.02)
    if lo is None:
        c.assume(q[0] >= edge)
    else:
        c.assume(q[0] == 0.0)
    if hi is None:
        c.assume(q[n - 1] <= 1 - edge)
    else:
        c.assume(q[n - 1] == 1.0)
    return q, c.sorted(name + "l", n, -10, 10, 0.02, rows=npdf)


ROWS = {"hist": ("pdfs",), "hist_even": ("pdfs",), "interp": ("yvals",), "interp_irregular": ("xvals", "yvals"), "mixmod": ("means", "stds", "weights"),
        "norm": ("loc", "scale"), "bspline": ("splx", "sply", "spln"), "packed": ("ypacked", "ymax")}


def build(c, kind, npdf, n=None, name=""):
    """-> constructor, shared data, per-PDF data"""
    if kind == "hist":
        b, h = spec.hist_in(c, npdf, n or 2, name=name + "h")
        return qp.hist, dict(bins=b), dict(pdfs=h)
    if kind == "hist_even":
        b, h = spec.hist_in(c, npdf, n or 3, even=True, name=name + "h")
        return qp.hist, dict(bins=b), dict(pdfs=h)
    if kind == "interp":
        xv, y = spec.interp_in(c, npdf, n or 2, name=name + "y")
        return qp.interp, dict(xvals=xv), dict(yvals=y)
    if kind == "interp_irregular":
        xv, y = spec.interp_in(c, npdf, n or 2, per_pdf=True, name=name + "y")
        return qp.interp_irregular, {}, dict(xvals=xv, yvals=y)
    if kind == "mixmod":
        m, s, w = mix_in(c, npdf, n or 2, name)
        return qp.mixmod, {}, dict(means=m, stds=s, weights=w)
    if kind == "norm":
        return qp.stats.norm, {}, dict(loc=c.array(name + "loc", (npdf, 1), -5, 5), scale=c.array(name + "scale", (npdf, 1), 0.1, 3))
    if kind == "spline":  # the data only: evaluation is outside the encoding
        n = n or 4
        return qp.spline, {}, dict(splx=c.sorted(name + "sx", n, rows=npdf), sply=c.array(name + "sy", (npdf, n), 0, 5), spln=np.full((npdf, 1), 3))
    if kind == "bspline":  # fixed knots, of each PDF's own
        t = np.array([-3.0, -3.0, -3.0, 0.5, 4.0, 4.0, 4.0]) - len(name) / 4.0
        return qp.spline, {}, dict(splx=t + 0.5 * np.arange(npdf)[:, None], sply=c.array(name + "sy", (npdf, 7), 0, 5), spln=np.full((npdf, 1), 2))
    if kind in ("packed", "packed_log"):
        n = n or 2
        xv = c.sorted(name + "px", n)
        yp = c.ints(name + "py", (npdf, n), 1, 255)
        ym = c.array(name + "pm", (npdf, 1), 0.1, 5)
        sh = dict(xvals=xv)
        if kind == "packed_log":
            sh.update(packing_type=qp.PackingType.log_from_rowmax, log_floor=-2.0)
        return qp.packed_interp, sh, dict(ypacked=yp, ymax=ym)
    nn = {"quant_spline": 4, "quant_dual": 8}.get(kind, n or 3)
    if kind == "quant_dual":
        q = np.linspace(0, 1, 8)
        off = [c.real(name + f"l{i}", -3, 3) for i in range(npdf)]
        locs = c._mk(np.array([[float(k) + off[i] for k in range(nn)] for i in range(npdf)], dtype=object))
    else:
        q, locs = quant_in(c, npdf, nn, 0, 1, name)
    return qp.quant, dict(quants=q, pdf_constructor_name=CONS[kind]), dict(locs=locs)


def more(c, kind, shared, npdf, name):
    """another ensemble's per-PDF data that shares the metadata of an existing one"""
    if kind in ("hist", "hist_even"):
        h = c.array(name + "h", (npdf, len(shared["bins"]) - 1), 0, 10)
        for i in range(npdf):
            c.assume(spec.hist_norm(c, shared["bins"], h[i]) >= 0.01)
        return dict(pdfs=h)
    if kind == "interp":
        y = c.array(name + "y", (npdf, len(shared["xvals"])), 0, 10)
        for i in range(npdf):
            c.assume(spec.trapz(y[i], shared["xvals"]) >= 0.01)
        return dict(yvals=y)
    if kind in ("packed", "packed_log"):
        return dict(ypacked=c.ints(name + "py", (npdf, len(shared["xvals"])), 1, 255), ymax=c.array(name + "pm", (npdf, 1), 0.1, 5))
    if kind.startswith("quant") and kind != "quant_dual":
        return dict(locs=c.sorted(name + "l", len(shared["quants"]), -10, 10, 0.02, rows=npdf))
    return build(c, kind, npdf, None, name)[2]


def many(c, kind, npdf, n=3, name="", row=None):
    """a long table of fixed contents, all rows different, of which one row (the first, a middle or the last one) is free"""
    r = c.choice(name + "row", [0, npdf // 2, npdf - 1]) if row is None else row
    h = np.array([[((7 * i + 3 * j * j + i * j) % 13 + 1) / 4.0 for j in range(n)] for i in range(npdf)])
    g = np.array([-4.0, -1.5, 0.25, 1.0, 2.5, 4.0, 5.5, 6.0, 7.25][:n + 1])

    def free(a, lo, hi):
        a = a.astype(object)
        a[r] = c.array(name + "free", a.shape[1:], lo, hi)
        return c._mk(a)

    def shifted(a):
        a = a.astype(object)
        a[r] = a[r] + c.real(name + "shift", 0.001, 0.02)
        return c._mk(a)

    if kind == "hist":
        return qp.hist, dict(bins=c._mk(g.astype(object))), dict(pdfs=free(h, 0.1, 5))
    if kind == "interp":
        return qp.interp, dict(xvals=c._mk(g[:n].astype(object))), dict(yvals=free(h, 0.1, 5))
    if kind == "interp_irregular":
        return qp.interp_irregular, {}, dict(xvals=shifted(g[:n] + np.arange(npdf)[:, None] / 16.0), yvals=c._mk(h.astype(object)))
    if kind == "quant":
        q = np.array([0.0, 0.25, 0.625, 0.75, 1.0])[-n:]
        q[0] = 0.0
        return qp.quant, dict(quants=c._mk(q.astype(object))), dict(locs=shifted(g[:n] + np.arange(npdf)[:, None] / 16.0))
    if kind == "mixmod":
        w = np.array([[1.0 + (i + j) % 3 for j in range(n)] for i in range(npdf)])
        return qp.mixmod, {}, dict(means=free(h, -5, 5), stds=c._mk((h / 2).astype(object)), weights=c._mk(w.astype(object)))
    if kind == "norm":
        return qp.stats.norm, {}, dict(loc=free(np.arange(npdf)[:, None] / 8.0, -5, 5), scale=c._mk((1.0 + np.arange(npdf)[:, None] % 5).astype(object)))
    if kind == "bspline":
        t = np.array([-3.0, -3.0, -3.0, 0.5, 4.0, 4.0, 4.0])
        hs = np.array([[((7 * i + 3 * j * j + i * j) % 13 + 1) / 4.0 for j in range(7)] for i in range(npdf)])
        return qp.spline, {}, dict(splx=t + np.arange(npdf)[:, None] / 16.0, sply=free(hs, 0.1, 5), spln=np.full((npdf, 1), 2))
    y = np.array([[(50 * i + 77 * j) % 256 for j in range(n)] for i in range(npdf)]).astype(object)
    y[:, 0] = 255
    return qp.packed_interp, dict(xvals=c._mk(g[:n].astype(object))), dict(ypacked=c._mk(y), ymax=free(1.0 + np.arange(npdf)[:, None] / 8.0, 0.1, 5))


LONG = ["hist", "interp", "interp_irregular", "quant", "mixmod", "norm", "packed", "bspline"]


def ens(ctor, shared, per, sel=None, ancil=None):
    if sel is not None:
        per = {k: a[sel] for k, a in per.items()}
    return qp.Ensemble(ctor, data={**shared, **per}, ancil=ancil)


def alone(ctor, shared, per, i):
    return ens(ctor, shared, per, slice(i, i + 1))


def eq_data(c, a, b, label):
    """two table dictionaries are equal"""
    c.check(set(a) == set(b), label + " [columns]")
    for k in a:
        if k not in b:
            continue
        u, v = a[k], b[k]
        if np.asarray(u).dtype.kind in "SU":
            c.check(np.array_equal(np.asarray(u), np.asarray(v)), f"{label} [{k}]")
        else:
            c.shaped_close(u, v, f"{label} [{k}]")


class given_gen(Pdf_rows_gen):
    """A representation as a user may define one: any values whatever at given points, nothing elsewhere"""

    name = "given"
    version = 0

    def __init__(self, points, pdf=None, cdf=None, ppf=None, **kw):
        self.points, self.given = np.atleast_1d(points), dict(pdf=pdf, cdf=cdf, ppf=ppf)
        kw["shape"] = np.shape(next(v for v in (pdf, cdf, ppf) if v is not None))[:1]
        super().__init__(**kw)
        for k, v in self.given.items():
            if v is not None:
                self._addobjdata(k, v)
        self._addmetadata("points", self.points)

    def _updated_ctor_param(self):
        return dict(super()._updated_ctor_param(), points=self.points, **self.given)

    def _look(self, what, x, row):
        x, row = np.broadcast_arrays(x, row)
        out = np.zeros(x.shape, dtype=object)
        if self.given[what] is None:
            return self.mk(out)
        for ix in np.ndindex(*x.shape):
            for k in range(len(self.points)):
                if abs(x[ix] - self.points[k]) <= 1e-9:
                    out[ix] = self.given[what][int(row[ix]), k]
                    break
        return self.mk(out)

    def _pdf(self, x, row):
        return self._look("pdf", x, row)

    def _cdf(self, x, row):
        return self._look("cdf", x, row)

    def _ppf(self, x, row):
        return self._look("ppf", x, row)


def given(c, points, **values):
    given_gen.mk = staticmethod(c._mk)
    return qp.Ensemble(given_gen.create, data=dict(points=points, **values))


def fixed(c, kind, npdf):
    """an ensemble of which nothing is symbolic"""
    mk = lambda a: c._mk(np.array(a, dtype=object))
    rows = slice(0, npdf)
    if kind == "hist":
        return qp.Ensemble(qp.hist, data=dict(bins=mk([-2.0, 0.5, 3.0]), pdfs=mk([[1.0, 2.0], [3.0, 0.5]])[rows]))
    if kind == "interp":
        return qp.Ensemble(qp.interp, data=dict(xvals=mk([-2.0, 0.5, 3.0]), yvals=mk([[0.0, 2.0, 1.0], [0.0, 0.5, 1.0]])[rows]))
    if kind == "interp_irregular":
        return qp.Ensemble(qp.interp_irregular, data=dict(xvals=mk([[-2.0, 0.5, 3.0], [-3.0, 1.0, 2.0]])[rows], yvals=mk([[1.0, 2.0, 1.0], [3.0, 0.5, 1.0]])[rows]))
    if kind == "quant":
        return qp.Ensemble(qp.quant, data=dict(quants=mk([0.0, 0.25, 1.0]), locs=mk([[-2.0, 0.5, 3.0], [-3.0, 1.0, 2.0]])[rows]))
    if kind == "norm":
        return qp.Ensemble(qp.stats.norm, data=dict(loc=mk([[0.5], [-1.0]])[rows], scale=mk([[1.0], [2.0]])[rows]))
    if kind == "bspline":
        t = np.array([[-2.5] * 3 + [0.25] + [3.5] * 3, [-3.0] * 3 + [1.0] + [4.0] * 3])
        return qp.Ensemble(qp.spline, data=dict(splx=t[rows], sply=mk([[0.0, 0.5, 0.25, 0.0, 0.0, 0.0, 0.0], [0.125, 0.25, 0.125, 0.25, 0.0, 0.0, 0.0]])[rows], spln=np.array([[2], [2]])[rows]))
    if kind == "mixmod":
        return qp.Ensemble(qp.mixmod, data=dict(means=mk([[0.5, 1.0], [-1.0, 2.0]])[rows], stds=mk([[1.0, 0.5], [2.0, 1.0]])[rows], weights=mk([[0.5, 0.5], [0.25, 0.75]])[rows]))
    return qp.Ensemble(qp.packed_interp, data=dict(xvals=mk([-2.0, 0.5, 3.0]), ypacked=mk([[0, 255, 20], [0, 20, 255]])[rows], ymax=mk([[1.0], [2.0]])[rows]))
