"""Nothing that is handed in is changed, and what was derived stays apart from where it came from."""
import numpy as np
import qp
from qp import utils
from qp.metrics import array_metrics
from qp.metrics import metrics as qm
from qp.metrics.brier import Brier
from qp.metrics.pit import PIT

from vlib.runner import task
from .fakes import memory_io
from .kinds import build, ens, eq_data, fixed, more

BOUNDS = "2-PDF ensembles of every representation, symbolic contents, one operation or a pair of operations each; metric inputs of 1-3 values"
OUTSIDE = "whether an array handed in may be changed by its owner afterwards without affecting the ensemble (arrays are not copied)"
QUICK_S = 100

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "norm", "packed", "quant"]


class Kept:
    """what was handed in, as it was"""

    def __init__(self, c, **things):
        self.c, self.things = c, things
        self.was = {k: self._copy(v) for k, v in things.items()}

    def _copy(self, v):
        if isinstance(v, dict):
            return {k: self._copy(u) for k, u in v.items()}
        if isinstance(v, list):
            return [self._copy(u) for u in v]
        if isinstance(v, qp.Ensemble):
            return dict(data=self._copy(v.objdata()), meta=self._copy(v.metadata()), ancil=self._copy(v.ancil), npdf=int(v.npdf))
        return v.copy() if isinstance(v, np.ndarray) else v

    def _same(self, was, now, label):
        if isinstance(now, qp.Ensemble):
            now = dict(data=now.objdata(), meta=now.metadata(), ancil=now.ancil, npdf=int(now.npdf))
        if isinstance(was, dict):
            self.c.check(isinstance(now, dict) and list(was) == list(now), f"{label} [entries]")
            for k in was:
                if k in now:
                    self._same(was[k], now[k], f"{label} [{k}]")
        elif isinstance(was, list):
            self.c.check(len(was) == len(now), f"{label} [length]")
            for u, v in zip(was, now):
                self._same(u, v, label)
        elif isinstance(was, np.ndarray):
            if was.dtype.kind in "SU":
                self.c.check(np.array_equal(was, now), label)
            else:
                self.c.shaped_close(now, was, label, tol=1e-12)
        else:
            self.c.check(was is now or was == now, label)

    def check(self, what):
        for k, v in self.things.items():
            self._same(self.was[k], v, f"{what} leaves {k} as it was")


def parts(c, kind, npdf=2, name=""):
    ctor, shared, per = build(c, kind, npdf, {"hist": 2, "quant": 3}.get(kind), name)
    ancil = dict(a=c.array(name + "a", npdf), b=c.array(name + "b", (npdf, 2)))
    return ctor, shared, per, ancil


def ops(c, kind):
    x = c.array("at", 2, -11, 11)
    q = c.array("lev", 2, 0.05, 0.95)
    fx = np.array([-1.0, 0.25, 0.5])
    o = dict(pdf=(dict(x=x), lambda e: e.pdf(x)), cdf=(dict(x=x), lambda e: e.cdf(x)))
    if kind != "mixmod":
        o["ppf"] = dict(q=q), lambda e: e.ppf(q)
    o["gridded"] = dict(grid=x), lambda e: e.gridded(x)
    o["select"] = {}, lambda e: (e[0], e[np.array([1, 0])], e[0:1])
    o["tables"] = {}, lambda e: e.build_tables()
    o["data"] = {}, lambda e: (e.objdata().clear(), e.metadata().clear())
    o["histogramize"] = dict(bins=fx), lambda e: e.histogramize(fx)
    o["hist"] = dict(bins=fx), lambda e: e.convert_to(qp.hist_gen, bins=fx)
    o["interp"] = dict(xvals=fx), lambda e: e.convert_to(qp.interp_gen, xvals=fx)
    o["sample"] = {}, lambda e: e.rvs(size=1, random_state=3)
    return o


NAMES = ["pdf", "cdf", "ppf", "gridded", "select", "tables", "data", "histogramize", "hist", "interp", "sample"]


SLOW = {(k, o) for k in KINDS for o in ("ppf", "sample", "hist", "histogramize", "interp")} | {("mixmod", "ppf"), ("mixmod", "sample")}


@task(configs=[dict(kind=k, op=o) for k in KINDS for o in NAMES if (k, o) != ("mixmod", "ppf")] + [dict(kind="bspline", op=o) for o in NAMES if o not in ("ppf", "sample")])
def using(c, kind, op):
    """arrays and dictionaries an ensemble is made of, and arguments of what is asked of it"""
    if (kind, op) in SLOW:
        e = fixed(c, kind, 2)
        args, f = ops(c, kind)[op]
        k = Kept(c, ensemble=e, **args)
    else:
        ctor, shared, per, ancil = parts(c, kind)
        data = {**shared, **per}
        k = Kept(c, data=data, ancil=ancil)
        e = qp.Ensemble(ctor, data=data, ancil=ancil)
        k.check("creation")
        args, f = ops(c, kind)[op]
        k = Kept(c, data=data, ancil=ancil, ensemble=e, **args)
    f(e)
    k.check(op)


@task(configs=[dict(kind=k) for k in KINDS + ["bspline"]])
def combining(c, kind):
    ctor, shared, per, ancil = parts(c, kind)
    other = more(c, kind, shared, 1, "z")
    o_ancil = dict(a=c.array("za", 1), b=c.array("zb", (1, 2)))
    d1, d2 = {**shared, **per}, {**shared, **other}
    e, f = qp.Ensemble(ctor, data=d1, ancil=ancil), qp.Ensemble(ctor, data=d2, ancil=o_ancil)
    twin = qp.Ensemble(ctor, data=d1, ancil=ancil)
    sel = e[np.array([1, 0])]
    both = [e, f]
    k = Kept(c, data=d1, other_data=d2, ancil=ancil, other_ancil=o_ancil, other=f, twin=twin, selection=sel)
    kl = Kept(c, ensembles=both)
    joint = qp.concatenate(both)
    k.check("concatenate")
    kl.check("concatenate")
    kj = Kept(c, joint=joint)
    e.append(f)
    k.check("append")
    kj.check("append")
    ke = Kept(c, ensemble=e, joint=joint)
    sel.append(f)
    ke.check("appending to a selection")


@task(configs=[dict(kind=k) for k in KINDS])
def replacing(c, kind):
    """changing the data or the ancillary data of one leaves the others"""
    ctor, shared, per, ancil = parts(c, kind)
    new = more(c, kind, shared, 2, "z")
    data = {**shared, **per}
    e = qp.Ensemble(ctor, data=data, ancil=ancil)
    twin = qp.Ensemble(ctor, data=data, ancil=ancil)
    sel = e[0:2]
    # columns are stored under the same names they are made from
    stored = set(e.objdata())
    given = {n: v for n, v in new.items() if n in stored}
    other = dict(t=c.array("t", 2))
    k = Kept(c, data=data, ancil=ancil, twin=twin, selection=sel, new=given, other=other)
    if set(given) == stored:
        e.update_objdata(given)
        k.check("replacing the data")
    e.set_ancil(other)
    k.check("setting ancillary data")
    e.add_to_ancil(dict(u=np.array([1.0, 2.0])))
    k.check("adding ancillary data")
    ke = Kept(c, ensemble=e)
    sel.set_ancil(other)
    sel.add_to_ancil(dict(w=np.array([3.0, 4.0])))
    twin.set_ancil(None)
    ke.check("changing a selection or a twin")


@task(configs=[dict(kind=k) for k in KINDS])
def storing(c, kind):
    ctor, shared, per, ancil = parts(c, kind)
    e = qp.Ensemble(ctor, data={**shared, **per}, ancil=ancil)
    f = qp.Ensemble(ctor, data={**shared, **per})
    k = Kept(c, ensemble=e, plain=f)
    tables = e.build_tables()
    kt = Kept(c, tables=tables)
    qp.from_tables(tables)
    kt.check("from_tables")
    with memory_io(c):
        e.write_to("one.hdf5")
        all_of = dict(e=e, f=f)
        kd = Kept(c, ensembles=all_of)
        qp.write_dict("many.hdf5", all_of)
        kd.check("write_dict")
        qp.read("one.hdf5")
    k.check("writing and reading")


def four(c):
    """PDFs and truths, one of them free, that are far enough apart for the samples to form a distribution"""
    mk = lambda a: c._mk(np.array(a, dtype=object))
    e = qp.Ensemble(qp.hist, data=dict(bins=mk([-2.0, 0.5, 3.0]), pdfs=mk([[1.0, 2.0], [3.0, 0.5], [1.0, 1.0], [0.5, 1.0]])))
    return e, mk([-1.0, -0.25, c.real("z", 0.6, 0.8), 2.0])


def calls(c):
    v = lambda n, k=2, lo=0.1, hi=5: c.array(n, k, lo, hi)
    two = lambda n: c.array(n, (2, 3), 0.1, 5)
    x3 = np.array([0.0, 0.5, 1.5])
    e2 = lambda: fixed(c, "hist", 2)
    grid = np.linspace(0.0, 1.0, 4)
    lim = (0.0, 0.25)
    return {
        "normalize_interp1d": lambda: (dict(xvals=np.array([x3, x3]), yvals=two("y")), lambda xvals, yvals: utils.normalize_interp1d(xvals, yvals)),
        "bin_widths": lambda: (dict(edges=v("e", 3)), utils.bin_widths),
        "edge_to_center": lambda: (dict(edges=v("e", 3)), utils.edge_to_center),
        "safelog": lambda: (dict(arr=v("a", 2, -1, 5)), utils.safelog),
        "profile": lambda: (dict(x_data=v("x", 2, 0.1, 2.9), y_data=v("y"), x_bins=np.array([0.0, 1.0, 3.0])), utils.profile),
        "get_bin_indices": lambda: (dict(bins=np.array([0.0, 1.0, 3.0]), x=v("x", 2, -1, 4)), utils.get_bin_indices),
        "pack": lambda: (dict(values=two("y")), lambda values: qp.packing_utils.linear_pack_from_rowmax(values)),
        "pack_log": lambda: (dict(values=c.array("y", (1, 2), 0.1, 5)), lambda values: qp.packing_utils.log_pack_from_rowmax(values)),
        "unpack": lambda: (dict(packed=c.ints("k", (2, 2), 0, 255), row_max=c.array("m", (2, 1), 0.1, 5)), lambda packed, row_max: (qp.packing_utils.linear_unpack_from_rowmax(packed, row_max), qp.packing_utils.log_unpack_from_rowmax(packed, row_max))),
        "reshape": lambda: (dict(vals=two("y")), lambda vals: (utils.reshape_to_pdf_size(vals, -1), utils.reshape_to_pdf_shape(vals, (2,), 3))),
        "quick_kld": lambda: (dict(p=two("p"), q=two("q")), lambda p, q: array_metrics.quick_kld(p, q, 0.5)),
        "quick_rmse": lambda: (dict(p=two("p"), q=two("q")), lambda p, q: array_metrics.quick_rmse(p, q, 2)),
        "quick_moment": lambda: (dict(p=two("p"), g=v("g", 3)), lambda p, g: array_metrics.quick_moment(p, g, 0.5)),
        "Brier": lambda: (dict(p=c.array("p", (2, 2), 0, 1), t=v("t", (2, 2), 0, 1)), lambda p, t: (Brier(p, t).evaluate(), Brier(p, t).accumulate())),
        "calculate_brier": lambda: (dict(p=e2(), t=c.array("t", 2, 0.01, 0.24)), lambda p, t: qm.calculate_brier(p, t, lim, 0.1)),
        "calculate_kld": lambda: (dict(p=e2(), q=fixed(c, "interp", 2)), lambda p, q: qm.calculate_kld(p, q, lim, 0.1)),
        "calculate_rmse": lambda: (dict(p=e2(), q=fixed(c, "interp", 2)), lambda p, q: qm.calculate_rmse(p, q, lim, 0.1)),
        "calculate_moment": lambda: (dict(p=e2()), lambda p: qm.calculate_moment(p, 1, lim, 0.1)),
        "calculate_outlier_rate": lambda: (dict(p=e2()), lambda p: qm.calculate_outlier_rate(p)),
        "PIT": lambda: (dict(zip(("ens", "truth"), four(c)), grid=grid), lambda ens, truth, grid: PIT(ens, truth, eval_grid=grid).pit),
    }


@task(configs=[dict(call=n) for n in ("normalize_interp1d", "bin_widths", "edge_to_center", "safelog", "profile", "get_bin_indices", "pack", "pack_log", "unpack", "reshape", "quick_kld", "quick_rmse",
                                      "quick_moment", "Brier", "calculate_brier", "calculate_kld", "calculate_rmse", "calculate_moment", "calculate_outlier_rate", "PIT")])
def functions(c, call):
    args, f = calls(c)[call]()
    k = Kept(c, **args)
    f(**args)
    k.check(call)


@task(configs=[dict(metric=m) for m in ("PointStatsEz", "PointSigmaIQR", "PointBias", "PointSigmaMAD", "PointOutlierRate", "CDELossMetric", "BrierMetric", "PITMetric", "OutlierMetric")])
def classes(c, metric):
    """metric classes leave what they compare, and their settings, as they were"""
    from qp.metrics import concrete_metric_classes as cc
    from qp.metrics import point_estimate_metric_classes as pc
    kls = getattr(cc, metric, None) or getattr(pc, metric)
    grid = np.linspace(-2.0, 3.0, 3)
    m = kls(**(dict(limits=(0.0, 0.25, 0.1)) if metric in ("BrierMetric",) else dict(eval_grid=grid if metric == "CDELossMetric" else np.linspace(0, 1, 4)) if metric in ("CDELossMetric", "PITMetric") else {}))
    if metric.startswith("Point"):
        args = dict(estimate=c.array("e", 3, 0.1, 3), reference=c.array("r", 3, 0.1, 3))
        if metric in ("PointSigmaIQR", "PointSigmaMAD", "PointBias", "PointOutlierRate"):
            args["estimate"] = c._mk(np.array([0.5, 1.5, c.real("e1", 0.1, 3)], dtype=object))
            args["reference"] = c._mk(np.array([1.0, 1.0, 1.0], dtype=object))
    elif metric == "PITMetric":
        args = dict(zip(("estimate", "reference"), four(c)))
    elif metric == "OutlierMetric":
        args = dict(estimate=fixed(c, "hist", 2))
    else:
        args = dict(estimate=fixed(c, "hist", 2), reference=c.array("z", 2, -1.5, 2.5) if metric != "BrierMetric" else c.array("z", 2, 0.01, 0.24))
    k = Kept(c, settings=grid, **args)
    m.evaluate(**args)
    k.check(metric)


ODD = [np.nan, np.inf, -np.inf, 0.0, -1.0]


def odd_calls(c):
    """plain arrays of numbers, one of which is unusual"""
    v = c.choice("value", ODD)
    at = c.choice("at", [0, 2])

    def a(*shape):
        t = (1.0 + np.arange(int(np.prod(shape))) % 5) / 4.0
        t[at] = v
        return t.reshape(shape)

    e = lambda: fixed(c, "hist", 3)
    g = np.array([-1.0, 0.25, 1.5])
    gen = lambda kls, **data: (data, lambda **kw: qp.Ensemble(kls, data=kw).pdf(g))
    return {
        "normalize_interp1d": lambda: (dict(xvals=np.array([g, g]), yvals=a(2, 3)), utils.normalize_interp1d),
        "edge_to_center": lambda: (dict(edges=a(4)), utils.edge_to_center),
        "bin_widths": lambda: (dict(edges=a(4)), utils.bin_widths),
        "safelog": lambda: (dict(arr=a(3)), utils.safelog),
        "profile": lambda: (dict(x_data=a(3), y_data=a(3), x_bins=np.array([0.0, 1.0, 3.0])), utils.profile),
        "get_bin_indices": lambda: (dict(bins=np.array([0.0, 1.0, 3.0]), x=a(3)), utils.get_bin_indices),
        "pack": lambda: (dict(values=a(2, 3)), qp.packing_utils.linear_pack_from_rowmax),
        "pack_log": lambda: (dict(values=a(2, 3)), qp.packing_utils.log_pack_from_rowmax),
        "quick_kld": lambda: (dict(p=a(2, 3), q=a(2, 3)), lambda p, q: array_metrics.quick_kld(p, q, 0.5)),
        "quick_rmse": lambda: (dict(p=a(2, 3), q=a(2, 3)), lambda p, q: array_metrics.quick_rmse(p, q, 2)),
        "quick_moment": lambda: (dict(p=a(2, 3), g=a(3)), lambda p, g: array_metrics.quick_moment(p, g, 0.5)),
        "Brier": lambda: (dict(p=a(2, 3), t=a(2, 3)), lambda p, t: Brier(p, t).evaluate()),
        "hist": lambda: gen(qp.hist, bins=np.array([-2.0, 0.0, 1.0, 3.0]), pdfs=a(2, 3)),
        "hist_unchecked": lambda: gen(qp.hist, bins=np.array([-2.0, 0.0, 1.0, 3.0]), pdfs=a(2, 3), check_input=False),
        "interp": lambda: gen(qp.interp, xvals=np.array([-2.0, 0.0, 1.0]), yvals=a(2, 3)),
        "interp_irregular": lambda: gen(qp.interp_irregular, xvals=np.array([[-2.0, 0.0, 1.0]] * 2), yvals=a(2, 3)),
        "quant": lambda: gen(qp.quant, quants=np.array([0.0, 0.5, 1.0]), locs=a(2, 3)),
        "mixmod": lambda: gen(qp.mixmod, means=a(2, 3), stds=np.ones((2, 3)), weights=a(2, 3)),
        "norm": lambda: gen(qp.stats.norm, loc=a(3, 1), scale=np.ones((3, 1))),
        "pdf": lambda: (dict(e=e(), x=a(3)), lambda e, x: (e.pdf(x), e.logpdf(x), e.gridded(x))),
        "cdf": lambda: (dict(e=e(), x=a(3)), lambda e, x: (e.cdf(x), e.sf(x))),
        "ppf": lambda: (dict(e=e(), q=a(3)), lambda e, q: e.ppf(q)),
        "ancil": lambda: (dict(e=e(), d=dict(a=a(3), b=a(3, 2))), lambda e, d: (e.set_ancil(d), e[np.array([2, 0])], e.build_tables())),
    }


ODD_CALLS = ("normalize_interp1d edge_to_center bin_widths safelog profile get_bin_indices pack pack_log quick_kld quick_rmse quick_moment Brier hist hist_unchecked interp interp_irregular"
             " quant mixmod norm pdf cdf ppf").split()


@task(configs=[dict(call=n) for n in ODD_CALLS])
def unusual(c, call):
    """numbers that are not finite, zero or negative: accepted or refused, but not changed"""
    args, f = odd_calls(c)[call]()
    was = {k: v.copy() for k, v in args.items() if isinstance(v, np.ndarray)}
    k = Kept(c, **{k: v for k, v in args.items() if k not in was})
    try:
        with np.errstate(all="ignore"):
            f(**args)
    except Exception:
        pass
    for n, v in was.items():
        c.check(v.dtype == args[n].dtype and np.array_equal(v, args[n], equal_nan=True), f"{call} leaves {n} as it was")
    k.check(call)
