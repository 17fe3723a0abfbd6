"""Metric objects: asked for by name, used again and again, each with its own settings."""
from types import SimpleNamespace

import numpy as np
import qp
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as qm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.base_metric_classes import BaseMetric, DistToDistMetric, MetricInputType, MetricOutputType, PointToPointMetric
from qp.metrics.factory import MetricFactory

from vlib.runner import task
from .fakes import Uniforms, exact_digest
from .kinds import given

BOUNDS = "two or three data sets of 1-3 PDFs (or points) of any values, on grids of 2-3 points, given to one metric object one after the other, for every metric with closed arithmetic"
OUTSIDE = "the risk-based estimate (scipy's minimiser, see P25); random numbers (any samples are allowed); the approximation made by the t-digest library"

NAMES = {
    # name: class, what is compared with what, what comes out
    "moment": (cm.MomentMetric, "single_ensemble", "one_value_per_distribution"),
    "kld": (cm.KLDMetric, "dist_to_dist", "one_value_per_distribution"),
    "rmse": (cm.RMSEMetric, "dist_to_dist", "one_value_per_distribution"),
    "rbpe": (cm.RBPEMetric, "single_ensemble", "one_value_per_distribution"),
    "brier": (cm.BrierMetric, "dist_to_point", "single_value"),
    "outlier": (cm.OutlierMetric, "single_ensemble", "one_value_per_distribution"),
    "ad": (cm.ADMetric, "dist_to_dist", "one_value_per_distribution"),
    "cvm": (cm.CvMMetric, "dist_to_dist", "one_value_per_distribution"),
    "ks": (cm.KSMetric, "dist_to_dist", "one_value_per_distribution"),
    "pit": (cm.PITMetric, "dist_to_point", "single_distribution"),
    "cdeloss": (cm.CDELossMetric, "dist_to_point", "single_value"),
    "point_stats_ez": (pm.PointStatsEz, "point_to_point", "one_value_per_distribution"),
    "point_stats_iqr": (pm.PointSigmaIQR, "point_to_point", "single_value"),
    "point_bias": (pm.PointBias, "point_to_point", "single_value"),
    "point_outlier_rate": (pm.PointOutlierRate, "point_to_point", "single_value"),
    "point_stats_sigma_mad": (pm.PointSigmaMAD, "point_to_point", "single_value"),
}


def grid(lo, n):
    """n points that limits and spacing give, in steps of 0.75"""
    step = 0.75
    return (lo, lo + (n - 1) * step), step * (n - 1) / (n + 0.5), np.array([lo + k * step for k in range(n)])


class Case:
    """what one metric takes: settings (two of them), and data sets that suit either setting"""

    def __init__(self, c, name):
        self.c, self.name, self.count = c, name, 0
        self.grids = [grid(-1.0, 2), grid(-0.25, 3)]

    def settings(self, k=0):
        lims, dx, g = self.grids[k]
        n = self.name
        if n in ("kld", "rmse", "brier"):
            return dict(limits=lims, dx=dx)
        if n == "moment":
            return dict(limits=lims, dx=dx, moment_order=2 - k)
        if n == "outlier":
            return dict(cdf_limits=[(0.0, 1.0), (-1.0, 2.0)][k])
        if n == "pit":
            return dict(eval_grid=np.array([[0.0, 0.5, 1.0], [0.25, 0.75]][k]))
        if n == "cdeloss":
            return dict(eval_grid=g)
        if n in ("ks", "cvm", "ad"):
            return dict(num_samples=1 + k)
        return {}

    def data(self, npdf, tag, k=0):
        """new data, suitable for settings k"""
        c, n, g = self.c, self.name, self.grids[k][2]
        if n == "moment":
            return (given(c, g, pdf=c.array("p" + tag, (npdf, len(g)), 0.0, 3)),)
        if n == "kld":
            v = [(np.arange(npdf * len(g)).reshape(npdf, len(g)) * m % 5 + 1.5) / 4.0 for m in (2, 3)]
            v = [w.astype(object) for w in v]
            v[0][-1, 0], v[1][0, -1] = c.real("p" + tag, 0.1, 3), c.real("q" + tag, 0.1, 3)
            for i in range(npdf):
                # the divergence is a sum of logarithms, known to be positive only as a whole
                c.assume(sum(a * (np.log(a) - np.log(b)) for a, b in zip(v[0][i], v[1][i])) >= 0.01)
            return tuple(given(c, g, pdf=c._mk(w)) for w in v)
        if n == "rmse":
            return tuple(given(c, g, pdf=c.array(s + tag, (npdf, len(g)), 0.1, 3)) for s in "pq")
        if n in ("brier", "cdeloss"):
            e = given(c, g, pdf=c.array("p" + tag, (npdf, len(g)), 0.0, 3))
            return e, c._mk(np.array([g[i % len(g)] + (c.real(f"z{tag}{i}", 0.01, 0.3) if i % len(g) == 0 else -0.125) for i in range(npdf)], dtype=object))
        if n == "pit":
            z = np.arange(npdf) + 0.5
            F = c.array("F" + tag, (npdf, npdf), 0.02, 0.98)
            c.apart(np.array([F[i, i] for i in range(npdf)], dtype=object))
            return given(c, z, cdf=F), z
        if n == "outlier":
            pts = np.array([-1.0, 0.0, 1.0, 2.0])
            return (given(c, pts, cdf=c.sorted("F" + tag, 4, 0, 1, 0.0, rows=npdf)),)
        if n in ("ks", "cvm", "ad"):
            x = np.arange(npdf * (1 + k)) + 0.25
            ppf = np.zeros((npdf, npdf * (1 + k)))
            u = np.linspace(0.1, 0.9, npdf * (1 + k))
            for i in range(npdf):
                ppf[i, i * (1 + k):(i + 1) * (1 + k)] = x[i * (1 + k):(i + 1) * (1 + k)]
            F = c.array("F" + tag, (npdf, npdf * (1 + k)), 0.05, 0.95)
            return given(c, u, ppf=ppf), given(c, x, cdf=F), u
        return c.array("e" + tag, npdf, 0, 4), c.array("r" + tag, npdf, 0, 3)

    def run(self, m, d):
        with np.errstate(all="ignore"):
            if self.name in ("ks", "cvm", "ad"):
                m.random_state = Uniforms(self.c, self.c._mk(np.array(d[2], dtype=object)))
                return m.evaluate(*d[:2])
            out = m.evaluate(*d)
        return out.objdata()["locs"] if self.name == "pit" else out

    def same(self, a, b, label):
        a, b = np.atleast_1d(a), np.atleast_1d(b)
        self.c.same_shape(a, b.shape, label)
        self.c.close(a, b, label, tol=1e-6)


USED = [n for n in NAMES if n != "rbpe"]


@task(configs=[dict(name=n) for n in USED])
def reused(c, name):
    """one object for several data sets gives what a new one gives for each"""
    case = Case(c, name)
    a, b = case.data(2, "a"), case.data(3 if name in ("moment", "rmse", "point_bias", "point_stats_ez") else 2 if name == "pit" else 1, "b")
    m = qm.create_metric(name, **case.settings()) if hasattr(qm, "create_metric") else MetricFactory.create_metric(name, **case.settings())
    first = case.run(m, a)
    second = case.run(m, b)
    case.same(second, case.run(NAMES[name][0](**case.settings()), b), "after other data: what a new object gives")
    case.same(case.run(m, a), first, "the first data again: the first result again")
    kind = NAMES[name][2]
    if kind == "one_value_per_distribution":
        c.same_shape(np.asarray(first), (2,), "one value for each")
    elif kind == "single_value":
        c.check(np.size(first) == 1, "one value for all")
    else:
        c.check(len(first) == 1, "one distribution for all")


@task(configs=[dict(name=n) for n in USED if n[:6] != "point_"])
def settings(c, name):
    """each object has its own settings, whatever others were made before or after"""
    case = Case(c, name)
    x = case.data(2, "a", 0)
    y = case.data(2, "b", 1)
    one = MetricFactory.create_metric(name, **case.settings(0))
    got1 = case.run(one, x)
    two = NAMES[name][0](**case.settings(1))
    case.same(case.run(one, x), got1, "the first object keeps its settings when another is made")
    got2 = case.run(two, y)
    case.same(case.run(one, x), case.run(NAMES[name][0](**case.settings(0)), x), "the first object keeps its settings")
    case.same(case.run(two, y), got2, "the second object keeps its settings when another is made")
    case.same(got2, case.run(MetricFactory.create_metric(name, **case.settings(1)), y), "the second object has its own")
    kw = case.settings(0)
    keys = list(kw)
    MetricFactory.create_metric(name, **kw)
    c.check(list(kw) == keys, "the settings given are left alone")


@task(configs=[dict(name=n) for n in ("brier", "cdeloss", "pit", "point_bias", "point_stats_iqr", "point_outlier_rate")])
def accumulated_twice(c, name):
    """finalising, once or twice, between or after other data, gives what its chunks give"""
    case = Case(c, name)
    if name == "pit":
        case.settings = lambda k=0: dict(eval_grid=np.array([0.0, 1.0]))
    a, b = case.data(2, "a"), case.data(2, "b")
    with exact_digest():
        m = NAMES[name][0](**case.settings())
        m.initialize()
        parts = [m.accumulate(*a)]
        m.accumulate(*b)
        show = lambda v: v.objdata()["locs"] if name == "pit" else v
        first = show(m.finalize(list(parts)))
        other = show(m.finalize([m.accumulate(*b)]))
        again = show(m.finalize(list(parts)))
        fresh = NAMES[name][0](**case.settings())
        fresh.initialize()
        case.same(first, show(fresh.finalize([fresh.accumulate(*a)])), "only the chunks given are used")
        case.same(again, first, "finalised again: the same")
        case.same(other, show(fresh.finalize([fresh.accumulate(*b)])), "other chunks: what a new object gives")


@task(configs=[{}])
def fewer_objects(c):
    """fewer objects than points of the grid, between more"""
    case = Case(c, "pit")
    a, b = case.data(3, "a"), case.data(2, "b")
    show = lambda m, d: m.finalize([m.accumulate(*d)]).objdata()["locs"]
    make = lambda: MetricFactory.create_metric("pit", eval_grid=np.array([0.0, 0.5, 1.0]))
    with exact_digest():
        m = make()
        first = show(m, a)
        c.same_shape(first, (1, 3), "one quantile for each point")
        case.same(show(m, b), show(make(), b), "few objects")
        case.same(show(m, a), first, "the first objects again")


@task(configs=[{}])
def names(c):
    """every metric is listed, found by its name, and says what it takes and gives"""
    which = c.choice("name", list(NAMES))
    update = c.choice("update", [False, True])
    cls, takes, gives = NAMES[which]
    known = MetricFactory.list_metrics(force_update=update)
    c.check(which in known and len(set(known)) == len(known), "listed once")
    m = MetricFactory.create_metric(which, force_update=update)
    c.check(type(m) is cls, "the metric of that name")
    c.check(m.metric_input_type is MetricInputType[takes] and m.metric_output_type is MetricOutputType[gives], "what it takes and gives")
    c.check(m.uses_distribution_for_estimate() == (takes[:5] != "point"), "whether the estimate is a distribution")
    c.check(m.uses_point_for_estimate() == (takes[:5] == "point"), "whether the estimate is a point")
    c.check(m.uses_distribution_for_reference() == (takes == "dist_to_dist"), "whether the reference is a distribution")
    c.check(m.uses_point_for_reference() == (takes[-5:] == "point"), "whether the reference is a point")
    c.raises(KeyError, lambda: MetricFactory.create_metric(which + "_"), "an unknown name is refused")


@task(configs=[{}])
def own_metric(c):
    """a metric defined by the user is found by its name, and passed its settings"""
    v = c.real("v", -3, 3)
    e, r = c.array("e", 2, 0, 3), c.array("r", 2, 0, 3)
    had = set(MetricFactory.list_metrics())
    kept = MetricFactory.metric_dict

    class Base(PointToPointMetric):
        def __init__(self, weight=1.0, **kw):
            super().__init__()
            self._weight = weight

    class Mine(Base):
        metric_name = "p27_mine"

        def evaluate(self, estimate, reference):
            return self._weight * np.sum(estimate - reference)

    try:
        m = MetricFactory.create_metric("p27_mine", force_update=True, weight=v)
        c.close(m.evaluate(e, r), v * ((e[0] - r[0]) + (e[1] - r[1])), "the user's metric with the user's settings")
        c.check(set(MetricFactory.list_metrics()) >= had | {"p27_mine"}, "listed with the others")
        c.check(None not in MetricFactory.list_metrics(), "classes without a name are not listed")
    finally:
        Mine.metric_name = Base.metric_name = None
        MetricFactory.metric_dict = kept
