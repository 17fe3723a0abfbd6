"""Reference definitions (the oracle side) and common input builders. They never evaluate qp code."""
import numpy as np


# ---- inputs ---------------------------------------------------------------
def edges(c, name, n, lo=-10.0, hi=10.0, gap=0.01):
    """n+1 strictly increasing bin edges, of any widths (outside the tolerance that tells even from uneven bins)"""
    b = c.sorted(name, n + 1, lo, hi, gap)
    w0 = b[1] - b[0]
    for j in range(1, n):
        d = (b[j + 1] - b[j]) - w0
        c.assume(c.lor(d == 0, d >= 1e-6, d <= -1e-6))
    return b


def even_edges(c, name, n):
    lo = c.real(name + "_lo", -10, 10)
    w = c.real(name + "_w", 0.01, 5)
    return c._mk(np.array([lo + k * w for k in range(n + 1)], dtype=object))


def hist_in(c, npdf, nb, even=False, name="h"):
    bins = even_edges(c, name + "b", nb) if even else edges(c, name + "b", nb)
    h = c.array(name, (npdf, nb), 0, 10)
    for i in range(npdf):
        c.assume(hist_norm(c, bins, h[i]) >= 0.01)
    return bins, h


def interp_in(c, npdf, n, per_pdf=False, name="y"):
    xv = c.sorted(name + "x", n, rows=npdf if per_pdf else None)
    y = c.array(name, (npdf, n), 0, 10)
    for i in range(npdf):
        c.assume(trapz(y[i], xv[i] if per_pdf else xv) >= 0.01)
    return xv, y


# ---- densities --------------------------------------------------------------
def hist_norm(c, bins, h):
    tot = 0.0
    for j in range(len(h)):
        tot = tot + h[j] * (bins[j + 1] - bins[j])
    return tot


def hist_pdf(c, bins, h, x):
    """normalised histogram density at x ([lo, hi) bins)"""
    nrm = hist_norm(c, bins, h)
    v = 0.0
    for j in range(len(h)):
        v = c.ite(c.land(x >= bins[j], x < bins[j + 1]), h[j] / nrm, v)
    return v


def hist_cdf(c, bins, h, x):
    nrm = hist_norm(c, bins, h)
    acc = 0.0
    v = 0.0
    for j in range(len(h)):
        v = c.ite(x >= bins[j], (acc + h[j] * (x - bins[j])) / nrm, v)
        acc = acc + h[j] * (bins[j + 1] - bins[j])
    return c.ite(x >= bins[len(h)], 1.0, v)


def lin(c, xs, ys, x, below=0.0, above=0.0):
    """piecewise-linear interpolation through (xs, ys)"""
    v = below
    n = len(xs)
    for j in range(n - 1):
        s = (ys[j + 1] - ys[j]) / (xs[j + 1] - xs[j])
        v = c.ite(x >= xs[j], ys[j] + s * (x - xs[j]), v)
    v = c.ite(x == xs[n - 1], ys[n - 1], v)
    return c.ite(x > xs[n - 1], above, v)


def trapz(ys, xs):
    tot = 0.0
    for j in range(len(xs) - 1):
        tot = tot + 0.5 * (ys[j] + ys[j + 1]) * (xs[j + 1] - xs[j])
    return tot


def cumtrapz(ys, xs):
    out = [0.0]
    for j in range(len(xs) - 1):
        out.append(out[-1] + 0.5 * (ys[j] + ys[j + 1]) * (xs[j + 1] - xs[j]))
    return out


def grid(f, npdf, xs):
    """f(i, x) for every PDF i; xs: list of x or per-PDF lists"""
    out = []
    for i in range(npdf):
        row = xs[i] if np.ndim(xs[0]) else xs
        out.append([f(i, v) for v in row])
    return out


def ordered(c, xs):
    """the values in increasing order (a sorting network)"""
    v = list(xs)
    for k in range(len(v)):
        for j in range(len(v) - 1 - k):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = c.ite(a <= b, a, b), c.ite(a <= b, b, a)
    return v


def quantile(c, xs, q):
    """linearly interpolated sample quantile, 0 <= q <= 1 given as a number"""
    v = ordered(c, xs)
    pos = q * (len(v) - 1)
    k = min(int(pos), len(v) - 1)
    if k == len(v) - 1:
        return v[k]
    return v[k] + (pos - k) * (v[k + 1] - v[k])


def fine_grid(c, n, moved=None):
    """n increasing points, unevenly spaced, one of which (if asked) may lie anywhere in a small interval"""
    g = (np.cumsum(1.0 + 0.25 * (np.arange(n) % 3)) / 4.0 - n / 8.0).astype(object)
    if moved is not None:
        g[moved] = g[moved] + c.real("moved", -0.02, 0.02)
    return c._mk(g)


def fine_values(c, npdf, n, row, at, lo=0, hi=10):
    """values of long PDFs, of which one is free"""
    h = (((5 * np.arange(npdf)[:, None] + 3 * np.arange(n) ** 2) % 11 + 1) / 8.0).astype(object)
    h[row, at] = c.real("free", lo, hi)
    return c._mk(h)


def among(c, values, at):
    """the values in order, where all but one are known"""
    free = values[at]
    rest = sorted(float(v) for i, v in enumerate(values) if i != at)
    lo, hi = [-np.inf] + rest, rest + [np.inf]
    return [c.ite(free < a, a, c.ite(free > b, b, free)) for a, b in zip(lo, hi)]
