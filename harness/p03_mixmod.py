import numpy as np
import qp
from scipy import stats as sps

from vlib.runner import task
from . import spec
from .kinds import ens, many, mix_in

BOUNDS = "1-3 PDFs, 1-3 Gaussian components, means in [-5,5], widths in [0.1,3], weights in [0,5] with a sum of at least 0.1, 1-2 points in [-8,8]; also long tables of 130 PDFs, or 30 components, of which one is free"
OUTSIDE = "more components; the numerical values of the normal density and distribution function (scipy)"


def mix(c, m, s, w, x, f):
    tot = 0.0
    acc = 0.0
    for j in range(len(m)):
        tot = tot + w[j]
        acc = acc + w[j] * f((x - m[j]) / s[j], s[j])
    return acc / tot


def phi(z, s):
    return sps.norm.pdf(z) / s


def Phi(z, s):
    return sps.norm.cdf(z)


Q = [dict(npdf=1, k=1, nx=1), dict(npdf=1, k=2, nx=1), dict(npdf=2, k=2, nx=1), dict(npdf=2, k=1, nx=2), dict(npdf=2, k=2, nx=2), dict(npdf=1, k=2, nx=2), dict(npdf=3, k=2, nx=1), dict(npdf=1, k=3, nx=1)]
T = [dict(npdf=3, k=2, nx=2), dict(npdf=2, k=3, nx=2)]


def _check(c, npdf, k, nx, what):
    m, s, w = mix_in(c, npdf, k)
    x = c.array("x", nx, -8, 8)
    e = qp.Ensemble(qp.mixmod, data=dict(means=m, stds=s, weights=w))
    got = getattr(e, what)(x)
    want = spec.grid(lambda i, v: mix(c, m[i], s[i], w[i], v, phi if what == "pdf" else Phi), npdf, list(x))
    c.shaped_close(got, want, f"{what} is the weighted sum of the components")


@task(configs=Q, thorough=T)
def density(c, npdf, k, nx):
    _check(c, npdf, k, nx, "pdf")


@task(configs=Q, thorough=T)
def cumulative(c, npdf, k, nx):
    _check(c, npdf, k, nx, "cdf")


@task(configs=[dict(npdf=2, k=2), dict(npdf=2, k=3)], thorough=[dict(npdf=3, k=3)])
def stored(c, npdf, k):
    m, s, w = mix_in(c, npdf, k)
    e = qp.Ensemble(qp.mixmod, data=dict(means=m, stds=s, weights=w))
    od = e.objdata()
    for i in range(npdf):
        t = sum(list(w[i])[1:], w[i, 0])
        for j in range(k):
            c.close(od["weights"][i, j] * t, w[i, j], "weights are relative")
    c.shaped_close(od["means"], m, "means are kept")
    c.shaped_close(od["stds"], s, "widths are kept")


@task(configs=[dict(npdf=1, k=2), dict(npdf=2, k=2)])
def negative_weights(c, npdf, k):
    m, s, w = mix_in(c, npdf, k)
    w = np.array(w, copy=True)
    i = c.choice("row", list(range(npdf)))
    w[i, k - 1] = c.real("neg", -3, -1e-3)
    c.raises(ValueError, lambda: qp.Ensemble(qp.mixmod, data=dict(means=m, stds=s, weights=w)), "negative weights are refused")


@task(configs=[dict(npdf=130, k=3, what=w) for w in ("pdf", "cdf")] + [dict(npdf=2, k=30, what=w) for w in ("pdf", "cdf")])
def long_tables(c, npdf, k, what):
    """many PDFs or many components, one PDF or component of which is free"""
    if k <= 8:
        ctor, shared, per = many(c, "mixmod", npdf, k)
    else:
        j = np.arange(npdf * k).reshape(npdf, k)
        per = dict(means=(7 * j % 31 / 4.0 - 4.0).astype(object), stds=(0.5 + j % 3).astype(object), weights=(1.0 + 5 * j % 7).astype(object))
        at = c.choice("at", [0, k // 2, k - 1])
        for n, lo, hi in (("means", -5, 5), ("stds", 0.25, 3), ("weights", 0.1, 5)):
            per[n][npdf - 1, at] = c.real(n, lo, hi)
        ctor, shared, per = qp.mixmod, {}, {n: c._mk(v) for n, v in per.items()}
    e = ens(ctor, shared, per)
    x = np.array([-1.25, 0.75])
    got = getattr(e, what)(x)
    c.same_shape(got, (npdf, 2), "one value for each PDF and point")
    for i in sorted({0, 1, 63, 64, 65, 127, 128, npdf - 1} & set(range(npdf))):
        for q in range(2):
            c.close(got[i, q], mix(c, per["means"][i], per["stds"][i], per["weights"][i], x[q], phi if what == "pdf" else Phi), f"{what} is the weighted sum of the components")
