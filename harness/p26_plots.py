import numpy as np
import qp
from qp import plotting

from vlib.runner import task
from .fakes import swapped
from .kinds import alone, build, ens

BOUNDS = "ensembles of 2-3 PDFs of every representation with 1-3 bins or points, any contents; any axis limits; 2-5 points along the axis; any PDF chosen"
OUTSIDE = "what matplotlib draws of what it is given (replaced by axes that record it)"


class Axes:
    """records what is drawn"""

    def __init__(self, xlim=None):
        self.figure, self.drawn, self.xlim, self.labels = object(), [], xlim, {}

    def get_xlim(self):
        return self.xlim

    def set_xlim(self, a, b):
        self.xlim = (a, b)

    def set_xlabel(self, s, **kw):
        self.labels["x"] = s

    def set_ylabel(self, s, **kw):
        self.labels["y"] = s

    def plot(self, x, y, **kw):
        self.drawn.append(("plot", x, y, kw))

    def scatter(self, x, y, **kw):
        self.drawn.append(("scatter", x, y, kw))

    def hist(self, x, **kw):
        self.drawn.append(("hist", x, None, kw))


class Plt:
    """stands in for pyplot: its own axes are the current ones"""

    def __init__(self):
        self.made, self.current = [], Axes((0.0, 1.0))

    def figure(self):
        return self

    def add_subplot(self, *a):
        self.current = Axes((0.0, 1.0))
        self.made.append(self.current)
        return self.current

    def plot(self, *a, **kw):
        self.current.plot(*a, **kw)


def axis(c, k):
    lo = c.real("lo", -4, 1)
    hi = c.real("hi", 1.5, 5)
    xs = c._mk(np.array([lo + (hi - lo) * j / (k - 1) for j in range(k)], dtype=object))
    return lo, hi, xs


def call(c, e, what, key, how, lo, hi, **kw):
    """-> axes drawn on; nothing may be drawn on others"""
    plt = Plt()
    with swapped((plotting, "plt", plt)):
        given_axes = how != "limits"
        where = Axes((lo, hi)) if given_axes else None
        kws = dict(axes=where, **kw) if given_axes else dict(xlim=(lo, hi), **kw)
        if how == "function":
            fig, got = getattr(plotting, what)(e[key], **kws)
            c.check(fig is got.figure, "the figure is that of the axes")
        else:
            got = getattr(e, what)(key, **kws)
    if given_axes:
        c.check(got is where, "drawn on the axes given")
        c.check(not plt.made and not plt.current.drawn, "nothing is drawn elsewhere")
    else:
        c.check(len(plt.made) == 1 and got is plt.made[0], "drawn on the new axes")
        c.close(got.xlim[0], lo, "lower limit of the new axes")
        c.close(got.xlim[1], hi, "upper limit of the new axes")
    return got


def curve(c, item, xs, ys, label):
    c.check(item[0] == "plot", f"{label}: a curve")
    c.shaped_close(item[1], xs, f"{label}: points of the curve")
    c.shaped_close(item[2], ys, f"{label}: density at the points")


HOWS = ["axes", "limits", "function"]


@task(configs=[dict(kind=k, npdf=2, n=3) for k in ("hist", "interp", "interp_irregular", "quant", "mixmod", "norm", "packed", "bspline")] + [dict(kind="hist", npdf=3, n=2)])
def curves(c, kind, npdf, n):
    """the density of the PDF asked for along the axis"""
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    if kind == "bspline":
        lo, hi, xs = -2.0, 3.5, np.linspace(-2, 3.5, n)
    else:
        lo, hi, xs = axis(c, n)
    key = c.choice("key", list(range(npdf)) + [-1])
    how = c.choice("how", HOWS)
    got = call(c, e, "plot", key, how, lo, hi, npts=n, color="k")
    c.check(len(got.drawn) == 1, "one curve")
    curve(c, got.drawn[0], xs, alone(ctor, shared, per, key % npdf).pdf(xs)[0], "curve")
    c.check(got.drawn[0][3] == dict(color="k"), "settings are passed on")


@task(configs=[dict(kind=k) for k in ("hist", "interp_irregular", "mixmod")])
def several(c, kind):
    """several PDFs at once: one column for each"""
    ctor, shared, per = build(c, kind, 3)
    e = ens(ctor, shared, per)
    lo, hi, xs = axis(c, 2)
    got = call(c, e, "plot", slice(1, 3), "axes", lo, hi, npts=2)
    c.check(len(got.drawn) == 1, "drawn at once")
    for i in range(2):
        c.shaped_close(got.drawn[0][2][:, i], alone(ctor, shared, per, i + 1).pdf(xs)[0], "density of each PDF")


@task(configs=[dict(kind=k, npdf=2) for k in ("hist", "interp", "interp_irregular", "quant", "mixmod", "norm", "packed", "bspline")])
def native(c, kind, npdf):
    """what each representation is made of"""
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    n = 2
    lo, hi, xs = (-2.0, 3.5, np.linspace(-2, 3.5, n)) if kind == "bspline" else axis(c, n)
    key = c.choice("key", list(range(npdf)) + [-1])
    how = c.choice("how", HOWS)
    i = key % npdf
    one = alone(ctor, shared, per, i)
    kw = dict(npts=n) if kind in ("quant", "mixmod", "norm") else {}
    got = call(c, e, "plot_native", key, how, lo, hi, **kw)
    d = got.drawn
    if kind == "hist":
        c.check([q[0] for q in d] == ["scatter", "hist"], "edges and bars")
        c.shaped_close(d[0][1], shared["bins"], "the edges")
        c.shaped_close(d[0][2], np.zeros(len(shared["bins"])), "the edges lie on the axis")
        b = shared["bins"]
        c.shaped_close(d[1][1], (b[:-1] + b[1:]) / 2.0, "one entry for each bin")
        c.shaped_close(d[1][3]["bins"], b, "the bars' edges")
        c.shaped_close(d[1][3]["weights"], one.pdf((b[:-1] + b[1:]) / 2.0)[0], "the bars' heights are the PDF's density")
    elif kind == "quant":
        c.check([q[0] for q in d] == ["scatter", "plot"], "locations and curve")
        c.shaped_close(d[0][1], one.objdata()["locs"][0], "the PDF's quantile locations")
        c.shaped_close(d[0][2], np.zeros(one.objdata()["locs"].shape[1]), "the locations lie on the axis")
        curve(c, d[1], xs, one.pdf(xs)[0], "curve")
    else:
        c.check(len(d) == 1, "one curve")
        at = {"interp": shared.get("xvals"), "packed": shared.get("xvals"), "interp_irregular": per["xvals"][i] if kind == "interp_irregular" else None, "bspline": per["splx"][i] if kind == "bspline" else None}.get(kind, xs)
        curve(c, d[0], at, one.pdf(at)[0], "curve")


@task(configs=[dict(kind=k, npdf=2) for k in ("hist", "interp", "mixmod", "norm")])
def sampled(c, kind, npdf):
    """samples, and the density of the PDF they came from"""
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    lo, hi, xs = axis(c, 3)
    i = c.choice("i", [0, npdf - 1])
    s = c.array("s", 3, -4, 5)
    where, plt = Axes((lo, hi)), Plt()
    with swapped((plotting, "plt", plt)):
        got = plotting.plot_pdf_samples_on_axes(where, e[i], s, npoints=3)
    c.check(got is where and not plt.made and not plt.current.drawn, "drawn on the axes given, and nothing elsewhere")
    c.check([q[0] for q in where.drawn] == ["scatter", "plot"], "samples and curve")
    c.shaped_close(where.drawn[0][1], s, "the samples")
    c.shaped_close(where.drawn[0][2], np.zeros(3), "the samples lie on the axis")
    curve(c, where.drawn[1], xs, alone(ctor, shared, per, i).pdf(xs)[0], "curve")
    c.check("npoints" not in where.drawn[0][3] and "npoints" not in where.drawn[1][3], "the number of points is not handed to the drawing")


@task(configs=[dict(kind="norm")])
def labels(c, kind):
    """labels go to the new axes"""
    ctor, shared, per = build(c, kind, 1)
    e = ens(ctor, shared, per)
    lo, hi, xs = axis(c, 2)
    got = call(c, e, c.choice("what", ["plot", "plot_native"]), 0, "limits", lo, hi, npts=2, xlabel="z", ylabel="p")
    c.check(got.labels == dict(x="z", y="p"), "labels of the axes")
    c.check(got.drawn[0][3] == {}, "labels are not handed to the drawing")
    curve(c, got.drawn[0], xs, e.pdf(xs)[0], "curve")
