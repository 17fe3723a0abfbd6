"""Goodness of fit of samples from one ensemble to the distributions of another."""
import numpy as np
import qp
from qp import metrics as qm
from qp.metrics import concrete_metric_classes as cm

from vlib.runner import task
from .fakes import Uniforms
from .kinds import build, ens, fixed, given

BOUNDS = "1-3 PDFs, 1-3 samples each of any values in any order, any cumulative probabilities at the samples, references of 1 or as many PDFs; also 9 PDFs or 25 samples of which one is free"
OUTSIDE = "the random numbers themselves (any samples are allowed)"
CLS = {"ks": cm.KSMetric, "cvm": cm.CvMMetric, "ad": cm.ADMetric}


def sampled(c, npdf, n):
    """an ensemble of which n samples per PDF are drawn, whatever they are"""
    u = np.array([[0.1 + 0.7 * (i * n + j) / (npdf * n) for j in range(n)] for i in range(npdf)])
    x = c.array("x", (npdf, n), -8, 8)
    c.apart(x.ravel())
    ppf = np.zeros((npdf, npdf * n), dtype=object)
    for i in range(npdf):
        ppf[i, i * n:(i + 1) * n] = x[i]
    return given(c, u.ravel(), ppf=c._mk(ppf)), x, Uniforms(c, u.ravel())


def compare(c, est, ref, which, n, rs):
    how = c.choice("how", ["function", "class", "name"])
    if how == "function":
        return qm.calculate_goodness_of_fit(est, ref, fit_metric=which, num_samples=n, _random_state=rs)
    if how == "class":
        return CLS[which](num_samples=n, _random_state=rs).evaluate(est, ref)
    m = qm.create_metric(which, num_samples=n)
    m.random_state = rs
    return m.evaluate(est, ref)


def statistic(c, which, got, f, label):
    """f: the reference's cdf at the samples in increasing order"""
    n = len(f)
    if which == "cvm":
        w = 1.0 / (12 * n)
        for k in range(n):
            d = (2 * k + 1) / (2 * n) - f[k]
            w = w + d * d
        c.close(got, w, label, tol=1e-5)
    elif which == "ad":
        s = -float(n)
        for k in range(n):
            s = s - (2 * k + 1) / n * (np.log(f[k]) + np.log(1.0 - f[n - 1 - k]))
        c.close(got, s, label, tol=1e-5)
    else:
        ds = [(k + 1) / n - f[k] for k in range(n)] + [f[k] - k / n for k in range(n)]
        for d in ds:
            c.le(d, got, label)
        c.check(c.lor(*[abs(got - d) <= 1e-6 for d in ds]), label)


@task(configs=[dict(which=w, npdf=p, n=n, nref=r) for w in CLS for p, n, r in ((2, 2, 2), (2, 2, 1), (1, 1, 1), (2, 1, 2), (2, 1, 1), (1, 3, 1), (3, 1, 1))],
      thorough=[dict(which=w, npdf=p, n=n, nref=r) for w in CLS for p, n, r in ((2, 3, 2), (3, 2, 3), (3, 2, 1), (1, 4, 1))])
def fit(c, which, npdf, n, nref):
    est, x, rs = sampled(c, npdf, n)
    pts = x.ravel()
    F = c.array("F", (nref, npdf * n), 0.01, 0.99)
    got = compare(c, est, given(c, pts, cdf=F), which, n, rs)
    c.same_shape(got, (npdf,), "one statistic per PDF")
    for i in range(npdf):
        order = []
        for j in range(n):
            k = 0
            while k < len(order) and bool(x[i, order[k]] < x[i, j]):
                k += 1
            order.insert(k, j)
        r = i if nref > 1 else 0
        statistic(c, which, got[i], [F[r, i * n + j] for j in order], f"{which} statistic of the samples against the reference")


@task(configs=[dict(which=w, kind=k) for w in ("ks", "cvm") for k in ("hist", "norm", "interp", "quant")])
def real_reference(c, which, kind):
    """a reference of a real representation is used through its cdf, PDF by PDF"""
    est, x, rs = sampled(c, 2, 2)
    for i in range(2):
        c.assume(x[i, 0] < x[i, 1])
    ref = fixed(c, kind, 2)
    one = c.choice("one", [False, True])
    if one:
        ref = ref[0]
    got = qm.calculate_goodness_of_fit(est, ref, fit_metric=which, num_samples=2, _random_state=rs)
    for i in range(2):
        alone = ref if one else ref[i]
        statistic(c, which, got[i], list(alone.cdf(x[i])[0]), f"{which} against a {kind} reference")


@task(configs=[dict(npdf=2)])
def refuses(c, npdf):
    est, x, rs = sampled(c, npdf, 1)
    F = c.array("F", (npdf, npdf), 0.01, 0.99)
    name = c.choice("name", ["chi2", "KS", "", "anderson"])
    c.raises(KeyError, lambda: qm.calculate_goodness_of_fit(est, given(c, x.ravel(), cdf=F), fit_metric=name, num_samples=1, _random_state=rs), "an unknown statistic is refused")


@task(configs=[{}])
def sizes(c):
    """which numbers of PDFs go together"""
    a = c.choice("a", [1, 2, 3])
    b = c.choice("b", [1, 2, 3])
    e, r = [given(c, np.array([0.0]), pdf=c.array(n, (k, 1), 0, 1)) for n, k in (("e", a), ("r", b))]
    f = lambda: qm._check_ensembles_contain_correct_number_of_distributions(e, r)
    if a == b or b == 1:
        c.check(f() is None, "as many or one reference")
    else:
        c.raises(ValueError, f, "any other number of references is refused")
    g = lambda: qm._check_ensembles_are_same_size(e, r)
    if a == b:
        c.check(g() is None, "same size")
    else:
        c.raises(ValueError, g, "different sizes are refused")
    c.check(qm._check_ensemble_is_not_nested(e) is None, "plain ensembles are accepted")


@task(configs=[dict(which=w, npdf=p, n=n, nref=r) for w in CLS for p, n, r in ((9, 2, 9), (9, 2, 1), (1, 25, 1))])
def long_tables(c, which, npdf, n, nref):
    """many PDFs or many samples, one of them anywhere"""
    u = np.array([[0.1 + 0.7 * (i * n + j) / (npdf * n) for j in range(n)] for i in range(npdf)])
    k = npdf * n
    x = ((37 * np.arange(k)) % 53 / 4.0 - 6.0).reshape(npdf, n).astype(object)
    F = ((11 * np.arange(nref * k)) % 61 / 64.0 + 0.02).reshape(nref, k).astype(object)
    at = c.choice("at", [(0, 0), (npdf // 2, n // 2), (npdf - 1, n - 1)])
    flat = at[0] * n + at[1]
    row = at[0] if nref > 1 else 0
    near = c.choice("side", [-1, 1])
    x[at] = x[at] + near * c.real("free", 0.05, 0.3 if n > 2 else 4.0)
    F[row, flat] = c.real("F", 0.01, 0.99)
    for v in np.delete(x.ravel(), flat):
        c.assume(c.lor(x[at] - v >= 1e-3, v - x[at] >= 1e-3))
    x, F = c._mk(x), c._mk(F)
    ppf = np.zeros((npdf, k), dtype=object)
    for i in range(npdf):
        ppf[i, i * n:(i + 1) * n] = x[i]
    est = given(c, u.ravel(), ppf=c._mk(ppf))
    got = compare(c, est, given(c, x.ravel(), cdf=F), which, n, Uniforms(c, u.ravel()))
    c.same_shape(got, (npdf,), "one statistic per PDF")
    for i in range(npdf):
        order = sorted((j for j in range(n) if (i, j) != at), key=lambda j: float(x[i, j]))
        if i == at[0]:
            q = 0
            while q < len(order) and bool(x[i, order[q]] < x[at]):
                q += 1
            order.insert(q, at[1])
        statistic(c, which, got[i], [F[i if nref > 1 else 0, i * n + j] for j in order], f"{which} statistic of the samples against the reference")
