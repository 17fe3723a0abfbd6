"""Risk-based point estimates: which integral is minimised, over which range, for which PDF."""
import sys
import types
from contextlib import contextmanager

import numpy as np
import scipy.integrate
import scipy.optimize
from qp.metrics import array_metrics
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as qm

from vlib.models import model_for
from vlib.runner import task
from .fakes import swapped
from .kinds import build, ens, given

BOUNDS = "1-3 PDFs of any values at 2-3 points (a user-defined representation), with any ranges; risks at any point; any limits; the integrator and the minimiser are stand-ins: a weighted sum over the points, and the best of two free points"
OUTSIDE = "how accurately scipy integrates and minimises"


@contextmanager
def replaced(**fakes):
    """scipy's integrator and minimiser, wherever the code under test looks them up"""
    real = dict(quad=scipy.integrate.quad, minimize_scalar=scipy.optimize.minimize_scalar)
    old = [(scipy.integrate, "quad", fakes["quad"]), (scipy.optimize, "minimize_scalar", fakes["minimize_scalar"])]
    for n, m in list(sys.modules.items()):
        if n == "qp" or n.startswith("qp."):
            for k, v in list(vars(m).items()):
                for name, r in real.items():
                    if v is r or v is model_for(r):
                        old.append((m, k, fakes[name]))
    with swapped(*old):
        yield


def loss(z, zp):
    x = (zp - z) / (1.0 + z) / 0.15
    return 1.0 - 1.0 / (1.0 + x * x)


class Standins:
    def __init__(self, c, nodes, weights, tries):
        self.c, self.nodes, self.weights, self.tries = c, nodes, weights, tries
        self.ranges, self.spans, self.bounds, self.risks = [], [], [], []

    def quad(self, f, a, b, *args, **kw):
        self.ranges.append((a, b))
        s = 0.0
        for z, w in zip(self.nodes, self.weights):
            s = s + w * f(z)
        return s, 0.0

    def minimize_scalar(self, f, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
        if bounds is not None and method not in (None, "bounded", "Bounded"):
            raise ValueError("bounds need the bounded method")
        self.bounds.append(bounds if bounds is None else tuple(bounds))
        risks, spans = [], []
        for t in self.tries:
            self.ranges = []
            risks.append(f(t))
            spans.append(self.ranges)
        self.risks.append(risks)
        self.spans.append(spans)
        r = self.risks[-1]
        best = self.tries[0] if bool(r[0] <= r[1]) else self.tries[1]
        return types.SimpleNamespace(x=best, fun=min, success=True)


@task(configs=[dict(npdf=1, n=2, how="function"), dict(npdf=2, n=2, how="function"), dict(npdf=3, n=2, how="function"), dict(npdf=2, n=2, how="class"), dict(npdf=1, n=3, how="function")],
      thorough=[dict(npdf=3, n=3, how="class"), dict(npdf=4, n=2, how="function")])
def estimates(c, npdf, n, how):
    nodes = [0.125, 0.5, 1.25][:n]
    pts = np.array([0.01, 0.99] + nodes)
    p = c.array("p", (npdf, n), 0, 5)
    lo = c.array("lo", npdf, 0, 1)
    w = c.array("w", npdf, 0.1, 2)
    pdf = np.zeros((npdf, n + 2), dtype=object)
    ppf = np.zeros((npdf, n + 2), dtype=object)
    pdf[:, 2:] = p
    ppf[:, 0], ppf[:, 1] = lo, lo + w
    e = given(c, pts, pdf=c._mk(pdf), ppf=c._mk(ppf))
    tries = [c.real("t", 0, 3), 0.625]
    weights = [0.25, 0.5, 1.0][:n]
    s = Standins(c, nodes, weights, tries)
    lim = None
    if c.choice("limited", [False, True]):
        a = c.real("from", 0, 1)
        lim = (a, a + c.real("width", 0.1, 3))
    kw = {} if lim is None else dict(limits=lim)
    with replaced(quad=s.quad, minimize_scalar=s.minimize_scalar):
        got = qm.calculate_rbpe(e, **kw) if how == "function" else cm.RBPEMetric(**kw).evaluate(e)
    c.same_shape(got, (npdf,), "one estimate for each PDF")
    c.check(len(s.risks) == npdf, "each PDF's risk is minimised once")
    for i in range(npdf):
        want = []
        for k, t in enumerate(tries):
            r = 0.0
            for j in range(n):
                r = r + weights[j] * (p[i, j] * loss(nodes[j], t))
            want.append(r)
            c.close(s.risks[i][k], r, "the risk is the integral of the PDF's own density times the loss")
            for u, v in s.spans[i][k]:
                c.close(u, lo[i], "the integral starts at the PDF's own 0.01 quantile")
                c.close(v, lo[i] + w[i], "the integral ends at the PDF's own 0.99 quantile")
        if lim is None:
            c.check(s.bounds[i] is None, "all points are considered unless limits are given")
        else:
            c.check(s.bounds[i] is not None, "the limits asked for are kept")
            c.close(s.bounds[i][0], lim[0], "the lower limit asked for")
            c.close(s.bounds[i][1], lim[1], "the upper limit asked for")
        c.check(c.lor(want[0] > want[1] - 1e-9 if bool(got[i] == tries[1]) else want[0] <= want[1] + 1e-9), "the estimate is where the risk is least")
        c.check(c.lor(got[i] == tries[0], got[i] == tries[1]), "the estimate is what was found")


@task(configs=[dict(kind=k) for k in ("hist", "interp", "norm", "quant")])
def representations(c, kind):
    """densities and ranges are those of each PDF of any representation"""
    e = ens(*build(c, kind, 2, {"hist": 1, "interp": 2, "quant": 3}.get(kind)))
    nodes = [0.375]
    s = Standins(c, nodes, [1.0], [0.75, 0.25])
    with replaced(quad=s.quad, minimize_scalar=s.minimize_scalar):
        qm.calculate_rbpe(e)
    p, q = e.pdf(0.375), e.ppf(np.array([0.01, 0.99]))
    for i in range(2):
        c.close(s.risks[i][0], p[i, 0] * loss(0.375, 0.75), "the risk of each PDF")
        for u, v in s.spans[i][0]:
            c.close(u, q[i, 0], "start of the integral", tol=1e-5)
            c.close(v, q[i, 1], "end of the integral", tol=1e-5)
