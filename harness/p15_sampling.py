"""Samples are the inverse of each PDF's distribution at uniform random numbers."""
import numpy as np
import qp
from scipy.optimize import brentq
from scipy.special import ndtr

from vlib.runner import task
from .fakes import Uniforms
from .kinds import build, ens, fixed, given

BOUNDS = "1-3 PDFs, 1-4 samples of each, of any inverse distribution (a user-defined representation) and of every representation with fixed or (histogram, interpolated) any contents; every value of the uniform random numbers in [0.01, 0.99] (gaussian mixtures: [0.45, 0.5], and their inverse in [0.02, 0.98]); also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "the random number generator itself; splines; sample sizes that are tuples"
QUICK_S = 90

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "packed", "quant"]


def uniforms(c, npdf, n, name="u", lo=0.01, hi=0.99):
    u = c.array(name, npdf * n, lo, hi)
    return u, Uniforms(c, u)


def by_hand(c, e, u, npdf, n):
    """quantile of each PDF at its own uniform numbers, one at a time"""
    out = np.empty((npdf, n), dtype=object)
    for i in range(npdf):
        for j in range(n):
            out[i, j] = e.ppf(u[i * n + j])[i, 0]
    return c._mk(out)


@task(configs=[dict(npdf=1, n=1), dict(npdf=1, n=3), dict(npdf=2, n=1), dict(npdf=2, n=2), dict(npdf=3, n=1)], thorough=[dict(npdf=2, n=3), dict(npdf=3, n=2), dict(npdf=1, n=5)])
def any_pdf(c, npdf, n):
    u, state = uniforms(c, npdf, n)
    c.apart(u)
    v = c.array("v", (npdf, npdf * n), -9, 9)
    got = given(c, u, ppf=v).rvs(size=n, random_state=state)
    c.same_shape(got, (npdf, n), "one row of samples per PDF")
    for i in range(npdf):
        for j in range(n):
            c.close(got[i, j], v[i, i * n + j], "sample is the quantile of its PDF at its random number")
    c.check(state.used == npdf * n, "every random number is used once")


@task(configs=[dict(kind=k, npdf=2, n=1) for k in KINDS] + [dict(kind=k, npdf=1, n=2) for k in KINDS] + [dict(kind=k, npdf=2, n=2) for k in ("hist", "packed", "quant")],
      thorough=[dict(kind=k, npdf=2, n=2) for k in KINDS] + [dict(kind=k, npdf=1, n=3) for k in KINDS])
def representations(c, kind, npdf, n):
    e = fixed(c, kind, npdf)
    u, state = uniforms(c, npdf, n, lo=0.45, hi=0.5) if kind == "mixmod" else uniforms(c, npdf, n)
    got = e.rvs(size=n, random_state=state)
    c.shaped_close(got, by_hand(c, e, u, npdf, n), "samples are quantiles at the random numbers", tol=1e-5)


@task(configs=[dict(kind="hist"), dict(kind="interp")], thorough=[dict(kind="hist", npdf=2, n=2)])
def contents(c, kind, npdf=2, n=1):
    ctor, shared, per = build(c, kind, npdf, 2)
    e = ens(ctor, shared, per)
    u, state = uniforms(c, npdf, n)
    got = e.rvs(size=n, random_state=state)
    c.shaped_close(got, by_hand(c, e, u, npdf, n), "samples are quantiles at the random numbers", tol=1e-5)


@task(configs=[dict(npdf=1, n=2), dict(npdf=3, n=2)])
def parametric(c, npdf, n):
    """scipy's own sampler, with each PDF's own parameters"""
    ctor, shared, per = build(c, "norm", npdf)
    z, state = uniforms(c, npdf, n)
    got = ens(ctor, shared, per).rvs(size=n, random_state=state)
    c.shaped_close(got, per["loc"] + per["scale"] * z.reshape(npdf, n), "samples follow each PDF's own parameters")


@task(configs=[dict(kind=k) for k in ("hist", "packed", "interp_irregular")])
def seeded(c, kind):
    """a seed fixes the samples; the caller's own random state is left alone"""
    ctor, shared, per = build(c, kind, 2, 1 if kind == "hist" else 2)
    e = ens(ctor, shared, per)
    seed = c.choice("seed", [0, 7])
    u = np.random.RandomState(seed).uniform(size=4)
    want = by_hand(c, e, u, 2, 2)
    c.shaped_close(e.rvs(size=2, random_state=seed), want, "samples for a seed", tol=1e-5)
    c.shaped_close(e.rvs(size=2, random_state=seed), want, "the same samples for the same seed", tol=1e-5)


@task(configs=[dict(kind=k) for k in ("hist", "quant", "given")])
def own_state(c, kind):
    """sampling with a state of the caller's does not change the distribution's own"""
    u, first = uniforms(c, 2, 1)
    w, own = uniforms(c, 2, 1, "w")
    both = np.concatenate([u, w])
    c.apart(both)
    v = c.array("v", (2, 4), -9, 9)
    e = given(c, both, ppf=v) if kind == "given" else fixed(c, kind, 2)
    e.frozen.random_state = own
    a = e.rvs(size=1, random_state=first)
    b = e.rvs(size=1)
    if kind == "given":
        c.shaped_close(a, np.reshape([v[0, 0], v[1, 1]], (2, 1)), "samples from the caller's state")
        c.shaped_close(b, np.reshape([v[0, 2], v[1, 3]], (2, 1)), "samples from the distribution's own state")
    else:
        c.shaped_close(a, by_hand(c, e, u, 2, 1), "samples from the caller's state", tol=1e-5)
        c.shaped_close(b, by_hand(c, e, w, 2, 1), "samples from the distribution's own state", tol=1e-5)


MIXES = [([[0.5, 1.0], [-1.0, 2.0]], [[1.0, 0.5], [2.0, 1.0]], [[0.5, 0.5], [0.25, 0.75]]),
         ([[0.0, 4.0], [1.0, 1.0]], [[0.5, 0.25], [3.0, 0.5]], [[1.0, 3.0], [1.0, 1.0]]),
         ([[0.0, 2.0, -3.0], [-4.0, 0.0, 1.0]], [[3.0, 1.0, 0.5], [0.5, 0.5, 1.0]], [[1.0, 1.0, 2.0], [2.0, 0.0, 1.0]]),
         ([[0.0, 1.0], [0.0, -1.0]], [[0.5, 0.5], [3.0, 3.0]], [[1.0, 1.0], [1.0, 1.0]]),
         ([[0.0, 1.0], [2.0, 1.0]], [[3.0, 0.5], [0.5, 0.25]], [[1.0, 0.0], [1.0, 3.0]])]


@task(configs=[dict(mix=m, row=r) for m in range(len(MIXES)) for r in range(2)])
def mixture_inverse(c, mix, row):
    """the inverse of a mixture is right to within the step of a 201-point table over the ensemble's range"""
    m, s, w = [np.array(a) for a in MIXES[mix]]
    h = (np.max(m + 6 * s) - np.min(m - 6 * s)) / 200
    k = c.choice("k", range(48))
    lo, hi = 0.02 + 0.02 * k, 0.02 + 0.02 * (k + 1)
    q = c.real("q", lo, hi)
    e = qp.Ensemble(qp.mixmod, data=dict(means=m, stds=s, weights=w))
    pts = [[0.5], [0.5]]
    pts[row] = [q]
    got = e.ppf(c._mk(np.array(pts, dtype=object)))[row, 0]
    F = lambda x: float(np.sum(w[row] / w[row].sum() * ndtr((x - m[row]) / s[row])))
    c.le(brentq(lambda x: F(x) - lo, -60, 60) - h, got, "not below the quantile of a smaller probability")
    c.le(got, brentq(lambda x: F(x) - hi, -60, 60) + h, "not above the quantile of a larger probability")


@task(configs=[dict(npdf=130, n=1), dict(npdf=1, n=130), dict(npdf=3, n=50)])
def many_samples(c, npdf, n):
    """many PDFs or many samples"""
    k = npdf * n
    u = (((37 * np.arange(k)) % 251 + 2) / 256.0).astype(object)
    at = c.choice("at", [0, k // 2, k - 1])
    u[at] = c.real("free", 0.01, 0.99)
    b = np.array([-2.0, 0.5, 3.0])
    h = ((7 * np.arange(npdf)[:, None] + 3 * np.arange(2)) % 13 + 1) / 4.0
    e = qp.Ensemble(qp.hist, data=dict(bins=b, pdfs=h))
    got = e.rvs(size=n, random_state=Uniforms(c, c._mk(u)))
    c.same_shape(got, (npdf, n), "one row of samples per PDF")
    w = np.diff(b)
    for i in range(npdf):
        p = h[i] * w / (h[i] * w).sum()
        for j in range(n):
            q = u[i * n + j]
            c.close(got[i, j], c.ite(q <= p[0], b[0] + q / p[0] * w[0], b[1] + (q - p[0]) / p[1] * w[1]), "sample is the quantile of its PDF at its random number", tol=1e-5)
