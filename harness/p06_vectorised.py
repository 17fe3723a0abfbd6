import numpy as np
import qp

from vlib.runner import task
from .kinds import LONG, build, many

BOUNDS = "2-3 PDFs (also 2x1 and 1x2 arrangements), 1-3 bins or grid points, 3-5 quantiles, 1-4 points per PDF in 9 layouts, in any order and with repeats, some of them undefined or infinite; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "larger layouts; spline values between nodes are uninterpreted functions of their nodes"
QUICK_S = 110
TASK_S = 35

def layout(c, name, npdf, lo, hi):
    """points, and the value each output element belongs to: function (i, j) -> x"""
    if name == "scalar":
        x = c.real("x", lo, hi)
        return x, (npdf, 1), lambda i, j: x
    if name == "one":
        x = c.array("x", 1, lo, hi)
        return x, (npdf, 1), lambda i, j: x[j]
    if name == "grid":  # any order
        x = c.array("x", 2, lo, hi)
        return x, (npdf, 2), lambda i, j: x[j]
    if name == "repeats":
        a = c.array("x", 2, lo, hi)
        x = c._mk(np.array([a[0], a[1], a[0]], dtype=object))
        return x, (npdf, 3), lambda i, j: x[j]
    if name == "column":  # one point per PDF
        x = c.array("x", (npdf, 1), lo, hi)
        return x, (npdf, 1), lambda i, j: x[i, 0]
    if name == "per_pdf":
        x = c.array("x", (npdf, 2), lo, hi)
        return x, (npdf, 2), lambda i, j: x[i, j]
    if name == "row":
        x = c.array("x", (1, 2), lo, hi)
        return x, (npdf, 2), lambda i, j: x[0, j]
    if name == "holes":  # some points are set aside before evaluation
        x = c.array("x", (npdf, 1), lo, hi)
        odd = [None, -0.5, 1.5, np.nan] if hi < 1 else [None, np.nan, np.inf, -np.inf]
        for i in range(npdf):
            o = c.choice(f"odd{i}", odd)
            if o is not None:
                x[i, 0] = o
        return x, (npdf, 1), lambda i, j: x[i, 0]
    raise KeyError(name)


KINDS = ["hist", "interp", "interp_irregular", "quant", "mixmod"]
CFG = [dict(kind=k, what=w, lay=l, npdf=2) for k in KINDS for w in ("pdf", "cdf") for l in ("scalar", "grid", "column", "row")]
CFG += [dict(kind=k, what="ppf", lay=l, npdf=2) for k in ("hist", "interp", "interp_irregular", "quant") for l in ("scalar", "grid", "column")]
CFG += [dict(kind=k, what="pdf", lay=l, npdf=2) for k in ("quant_spline", "quant_const") for l in ("grid", "column")]
CFG += [dict(kind="hist_even", what="pdf", lay="grid", npdf=2), dict(kind="quant_dual", what="pdf", lay="one", npdf=2)]
CFG += [dict(kind=k, what="pdf", lay="repeats", npdf=2) for k in ("hist", "interp", "mixmod")]
CFG += [dict(kind=k, what="cdf", lay="per_pdf", npdf=2) for k in ("mixmod",)]
CFG += [dict(kind=k, what=w, lay="holes", npdf=2) for k in KINDS for w in ("pdf", "ppf") if not (k == "mixmod" and w == "ppf")]
CFG += [dict(kind=k, what="cdf", lay="holes", npdf=2) for k in ("interp", "mixmod")]
CFG += [dict(kind="bspline", what=w, lay=l, npdf=2) for w in ("pdf", "cdf") for l in ("scalar", "grid", "column", "row", "per_pdf")]
DEEP = [dict(kind=k, what=w, lay="holes", npdf=3) for k in KINDS for w in ("pdf", "cdf", "ppf") if not (k == "mixmod" and w == "ppf")]
DEEP += [dict(kind=k, what=w, lay=l, npdf=n) for k in KINDS for w in ("pdf", "cdf", "ppf") for l in ("repeats", "per_pdf") for n in (2, 3) if not (k == "mixmod" and w == "ppf")]
DEEP += [dict(kind=k, what="pdf", lay=l, npdf=3) for k in ("quant_spline", "quant_dual", "quant_const", "hist_even") for l in ("grid", "column", "per_pdf")]


def _one(ctor, shared, per, i, what, v):
    """the same PDF alone, at a single point"""
    f = qp.Ensemble(ctor, data={**shared, **{k: a[i:i + 1] for k, a in per.items()}})
    r = getattr(f, what)(v)
    return r


@task(configs=CFG, thorough=DEEP)
def layouts(c, kind, what, lay, npdf):
    ctor, shared, per = build(c, kind, npdf)
    rng = (0.05, 0.95) if what == "ppf" else (-11, 11)
    x, shp, at = layout(c, lay, npdf, *rng)
    e = qp.Ensemble(ctor, data={**shared, **per})
    got = getattr(e, what)(x)
    c.same_shape(got, shp, f"{what} shape")
    for i in range(npdf):
        for j in range(shp[1]):
            one = _one(ctor, shared, per, i, what, at(i, j))
            c.same_shape(one, (1, 1), "shape for a single PDF at a single point")
            c.close(got[i, j], one[0, 0], f"{what} of each PDF at each point is that of the PDF alone at that point")


PAIRS = [(k, w) for k in KINDS + ["bspline", "packed"] for w in ("pdf", "cdf", "ppf") if not (w == "ppf" and k in ("mixmod", "bspline", "packed")) and not (k == "packed" and w == "cdf")]


@task(configs=[dict(kind=k, what=w) for k, w in PAIRS])
def pairs(c, kind, what, npdf=3):
    """pairs of point and PDF, in any order"""
    ctor, shared, per = many(c, kind, npdf)
    e = qp.Ensemble(ctor, data={**shared, **per})
    rows = np.array(c.choice("rows", [(2, 0, 1), (1, 2), (2, 1, 0, 2), (0, 0, 2), (1,)]))
    x = np.array([0.3, 0.8, 0.1, 0.6] if what == "ppf" else [1.1, -0.4, 2.2, 1.1]).astype(object)
    if what == "ppf" or kind == "mixmod":
        x = x.astype(float)
    else:
        x[0] = c.real("x", -3.5, 3.5)
        x = c._mk(x)
    x = x[:len(rows)]
    got = np.ravel(getattr(e.dist, what)(x, rows))
    c.same_shape(got, (len(rows),), "one value for each pair")
    for k, i in enumerate(rows):
        c.close(got[k], _one(ctor, shared, per, int(i), what, x[k])[0, 0], f"{what} of each pair is that of the PDF alone at that point")


@task(configs=[dict(kind=k, what=w, npdf=150) for k in LONG for w in ("pdf", "cdf", "ppf") if not (k in ("mixmod", "packed", "bspline") and w == "ppf")])
def long_tables(c, kind, what, npdf):
    """many PDFs at one point each, many pairs of PDF and point, or one PDF at many points"""
    ctor, shared, per = many(c, kind, npdf)
    e = qp.Ensemble(ctor, data={**shared, **per})
    at = sorted({0, 1, 2, npdf // 2, npdf // 2 + 1, 63, 64, 65, 127, 128, 129, npdf - 2, npdf - 1})
    pts = np.array([0.05 + 0.9 * ((37 * i) % 101) / 101 if what == "ppf" else -3.9 + 0.07 * ((37 * i) % 101) for i in range(npdf)])
    lay = c.choice("lay", ["column", "list"] + ["pairs"] * (kind != "norm"))
    if lay == "column":
        got = getattr(e, what)(pts[:, None])
        c.same_shape(got, (npdf, 1), "one value for each PDF")
        pairs = [(got[i, 0], i, pts[i]) for i in at]
    elif lay == "pairs":
        rows = np.array([0, 0, 128, 128, 64, npdf - 1, 1, 129])
        x = pts[[3, 9, 3, 9, 20, 1, 2, 3]]
        got = np.ravel(getattr(e.dist, what)(x, rows))
        c.same_shape(got, (len(rows),), "one value for each pair")
        pairs = [(got[k], int(rows[k]), x[k]) for k in range(len(rows))]
    else:
        if what == "ppf":
            pts = pts[np.arange(npdf) % 3 if kind != "norm" else slice(None)]
        got = getattr(e[[0, npdf // 2, npdf - 1]], what)(pts)
        c.same_shape(got, (3, npdf), "one value for each PDF and point")
        pairs = [(got[a, j], (0, npdf // 2, npdf - 1)[a], pts[j]) for a in range(3) for j in (0, 1, 63, 64, 127, 128, npdf - 1)]
    for v, i, x in pairs:
        c.close(v, _one(ctor, shared, per, i, what, x)[0, 0], f"{what} of each PDF at each point is that of the PDF alone at that point")


@task(configs=[dict(kind=k, what=w, shape=(2, 1)) for k in ("hist", "interp", "mixmod", "quant", "bspline") for w in ("pdf", "cdf")] + [dict(kind="hist", what="pdf", shape=(1, 2))],
      thorough=[dict(kind=k, what=w, shape=(2, 2)) for k in ("hist", "interp", "interp_irregular", "mixmod") for w in ("pdf", "cdf")])
def arrangements(c, kind, what, shape):
    """PDFs arranged in more than one dimension"""
    npdf = int(np.prod(shape))
    ctor, shared, per = build(c, kind, npdf)
    x = c.array("x", 2, -11, 11)
    e = qp.Ensemble(ctor, data={**shared, **{k: a.reshape(shape + a.shape[1:]) for k, a in per.items()}})
    c.check(tuple(np.atleast_1d(e.shape)) == shape and int(e.npdf) == npdf and e.ndim == len(shape), "shape and number of PDFs")
    got = getattr(e, what)(x)
    c.same_shape(got, shape + (2,), f"{what} shape")
    for i in range(npdf):
        for j in range(2):
            c.close(got.reshape(npdf, 2)[i, j], _one(ctor, shared, per, i, what, x[j])[0, 0], f"{what} keeps the arrangement of the PDFs")


SHARED = {"evaluate_hist_x_multi_y": (True, False), "evaluate_hist_multi_x_multi_y": (False, False), "interpolate_x_multi_y": (True, False),
          "interpolate_multi_x_multi_y": (False, False), "interpolate_multi_x_y": (False, True)}


@task(configs=[dict(fn=f, lay=l, n=2) for f in SHARED for l in ("single", "pairs", "table", "lists")] + [dict(fn=f, lay="pairs", n=2, slopes=True) for f in SHARED if "hist" in f]
      + [dict(fn=f, lay="table", n=2, slopes=True) for f in SHARED if "hist" in f],
      thorough=[dict(fn=f, lay=l, n=3) for f in SHARED for l in ("pairs", "table", "lists")] + [dict(fn=f, lay="lists", n=2, slopes=True) for f in SHARED if "hist" in f])
def tables(c, fn, lay, n, slopes=False):
    """the evaluation functions themselves: points and rows in every documented combination"""
    one_x, one_y = SHARED[fn]
    hist = "hist" in fn
    m = n + 1 if hist else n
    npdf = 3
    full = np.array([[-2.0, 0.5, 3.0, 3.5], [-3.0, 1.0, 2.0, 6.0], [-1.0, 0.0, 2.5, 3.0]])[:, :m]
    if hist and c.choice("even", [False, True]):
        full = np.array([[-2.0, 0.5, 3.0, 5.5], [-3.0, 1.0, 5.0, 9.0], [-1.0, 0.0, 1.0, 2.0]])[:, :m]
    xs = c._mk((full[0] if one_x else full).astype(object))
    ys = c.array("v", (n,) if one_y else (npdf, n), -5, 5)
    ds = c.array("d", (npdf, n), -2, 2) if slopes else None
    X = lambda r: xs if one_x else xs[r]
    Y = lambda r: ys if one_y else ys[r]

    def value(x, r):
        t, v = X(r), Y(r)
        if not hist:
            if bool(x < t[0]) or bool(x > t[n - 1]):
                return 0.0
            for k in range(n - 1):
                if bool(x <= t[k + 1]):
                    return v[k] + (v[k + 1] - v[k]) * (x - t[k]) / (t[k + 1] - t[k])
        for k in range(n):
            if bool(x >= t[k]) and bool(x < t[k + 1]):
                return v[k] + (ds[r, k] * (x - t[k]) if slopes else 0.0)
        return 0.0

    if lay == "single":
        x = c.array("x", 1, -12, 12)
        row = np.array([c.choice("r", range(npdf))])
        pairs = {(0,): (x[0], row[0])}
    elif lay == "pairs":  # one row for each point, in any combination
        row = np.array(c.choice("rows", [[0, 1], [2, 0], [1, 1], [0, 1, 0], [2, 1, 0], [1, 1, 2, 2]]))
        x = c.array("x", 4, -1.5, 3.2)[:len(row)]
        k = c.choice("same", [None, 1, 2])
        if k is not None and len(row) > k:
            x[k:] = x[:-k].copy() if len(row) == 2 * k else x[0]
        pairs = {(k,): (x[k], row[k]) for k in range(len(row))}
    elif lay == "table":  # the same points for several rows
        x = c.array("x", 2, -12, 12)
        row = np.array(c.choice("rows", [[0, 1, 2], [2, 0], [1, 1, 0]]))[:, None]
        pairs = {(i, j): (x[j], row[i, 0]) for i in range(len(row)) for j in range(2)}
    else:  # a list of points for each row
        row = np.array(c.choice("rows", [[0, 1], [2, 0]]))[:, None]
        x = c.array("x", (2, 2), -1.5, 3.2)
        pairs = {(i, j): (x[i, j], row[i, 0]) for i in range(len(row)) for j in range(2)}
    kw = dict(derivs=ds) if hist else dict(bounds_error=False, fill_value=0.0)
    got = getattr(qp.utils, fn)(x, row, xs, ys, **kw)
    if lay == "pairs":  # those which are a table come as a table
        got = np.ravel(got)
    shape = tuple(max(k[a] for k in pairs) + 1 for a in range(len(next(iter(pairs)))))
    c.same_shape(got, shape, "one value per point and row")
    for k, (xv, r) in pairs.items():
        c.close(got[k], value(xv, int(r)), "value of the row asked for at the point asked for")
