import numpy as np
import qp
from scipy.interpolate import make_interp_spline

from vlib.runner import task
from .fakes import swapped

BOUNDS = ("1-3 PDFs, splines of degree 1-3 with 1-3 pieces over fixed uneven knots (also knots of each PDF's own), PDFs of equal or different degrees, coefficients in [-5,5]; "
          "coefficients free at chosen points inside, at and between all knots, or points free and coefficients fixed; from 4-6 values on fixed uneven grids, any one of each PDF's free")
OUTSIDE = "free knots; smoothing splines; densities beyond the first and last knot (splines continue there); the inverse (scipy's root search); the kernel density estimates of samples (replaced by a stand-in)"

GRIDS = [[-2.0, 0.5, 1.0, 4.0, 4.5, 6.0], [0.0, 1.0, 2.5, 3.0], [-3.0, -2.5, 0.0, 4.0]]


def knots(k, pieces, which=0):
    g = GRIDS[which][:pieces + 1]
    return np.array([g[0]] * k + g + [g[-1]] * k)


def basis(t, k, i, x):
    """the i-th basis function, by its definition"""
    if k == 0:
        last = t[i + 1] == t[-1] and t[i] < t[i + 1] and x == t[-1]
        return 1.0 if t[i] <= x < t[i + 1] or last else 0.0
    v = 0.0
    if t[i + k] > t[i]:
        v += (x - t[i]) / (t[i + k] - t[i]) * basis(t, k - 1, i, x)
    if t[i + k + 1] > t[i + 1]:
        v += (t[i + k + 1] - x) / (t[i + k + 1] - t[i + 1]) * basis(t, k - 1, i + 1, x)
    return v


def poly(t, coef, k, lo, hi):
    """the piece of a spline between two neighbouring knots, as a polynomial"""
    xs = np.linspace(lo, hi, k + 3)[1:-1]
    ys = [sum(coef[i] * basis(t, k, i, x) for i in range(len(t) - k - 1)) for x in xs]
    return np.polynomial.Polynomial.fit(xs, ys, k).convert()


def gauss(t, k, i, lo, hi):
    """integral of a basis function"""
    brk = sorted({lo, hi} | {v for v in t if lo < v < hi})
    gx, gw = np.polynomial.legendre.leggauss(3)
    return sum((v - u) / 2 * w * basis(t, k, i, (u + v) / 2 + (v - u) / 2 * g) for u, v in zip(brk, brk[1:]) for g, w in zip(gx, gw))


def points(t):
    g = sorted(set(t))
    xs = list(g)
    for u, v in zip(g, g[1:]):
        xs += [u + 0.25 * (v - u), u + 0.8 * (v - u)]
    return sorted(xs)


def make(c, npdf, k, pieces, own, free=True, start=0.0):
    """k: degree of all splines, or of each"""
    ks, ps = np.broadcast_to(k, npdf), np.broadcast_to(pieces, npdf)
    t = [knots(int(ks[i]), int(ps[i]), i if own else 0) + start for i in range(npdf)]
    n = len(t[0])
    if free:
        y = c.array("c", (npdf, n), -5, 5)
    else:
        y = c._mk(np.array([[((5 * i + 3 * j * j + 2 * j) % 11) / 2.0 - 1.0 for j in range(n)] for i in range(npdf)], dtype=object))
    e = qp.Ensemble(qp.spline, data=dict(splx=np.array(t), sply=y, spln=np.array(ks)[:, None]))
    return e, t, y


SH = [dict(npdf=1, k=1, pieces=2), dict(npdf=2, k=3, pieces=1), dict(npdf=2, k=2, pieces=2), dict(npdf=2, k=3, pieces=3), dict(npdf=3, k=3, pieces=2, own=True), dict(npdf=2, k=1, pieces=3, own=True),
      dict(npdf=2, k=(3, 1), pieces=(1, 3 + 2)), dict(npdf=2, k=(2, 3), pieces=(3, 1), own=True), dict(npdf=2, k=2, pieces=3, start=4.5), dict(npdf=2, k=3, pieces=2, start=-9.0, own=True)]


@task(configs=[dict(what=w, **s) for w in ("pdf", "cdf") for s in SH])
def values(c, what, npdf, k, pieces, own=False, start=0.0):
    """any coefficients"""
    e, t, y = make(c, npdf, k, pieces, own, start=start)
    ks = np.broadcast_to(k, npdf)
    first = min(v[0] for v in t)
    inside = [x for x in points(np.concatenate(t)) if what == "cdf" or all(v[0] <= x <= v[-1] for v in t)]
    xs = inside if what == "pdf" else [first - 1.0] + inside + [12.0]
    got = getattr(e, what)(np.array(xs))
    c.same_shape(got, (npdf, len(xs)), "one value for each PDF and point")
    for i in range(npdf):
        k = int(ks[i])
        n = len(t[i]) - k - 1
        for q, x in enumerate(xs):
            if what == "pdf":
                w = [basis(t[i], k, j, x) for j in range(n)]
            else:
                w = [gauss(t[i], k, j, t[i][0], min(max(x, t[i][0]), t[i][-1])) for j in range(n)]
            want = 0.0
            for j in range(n):
                want = want + w[j] * y[i, j]
            c.close(got[i, q], want, f"{what} is the {'value' if what == 'pdf' else 'integral from the start'} of the PDF's own spline")


@task(configs=[dict(what=w, npdf=p, k=k, pieces=s) for w in ("pdf", "cdf") for p, k, s in ((1, 1, 2), (2, 2, 2), (2, 3, 3))])
def anywhere(c, what, npdf, k, pieces):
    """any point"""
    e, t, y = make(c, npdf, k, pieces, False, free=False)
    x = c.real("x", -2, 4 if pieces == 3 else 1)
    got = getattr(e, what)(x)
    g = sorted(set(t[0]))
    j = 0
    while j < len(g) - 2 and bool(x >= g[j + 1]):
        j += 1
    for i in range(npdf):
        p = [poly(t[i], y[i], k, u, v) for u, v in zip(g, g[1:])]
        if what == "pdf":
            co, base = p[j].coef, 0.0
        else:
            q = [r.integ() for r in p]
            base = sum(q[m](g[m + 1]) - q[m](g[m]) for m in range(j)) - q[j](g[j])
            co = q[j].coef
        want = 0.0
        for a in co[::-1]:
            want = want * x + float(a)
        c.close(got.ravel()[i], want + float(base), f"{what} at any point")


XY = [[0.0, 1.0, 1.5, 3.0, 3.5, 5.0], [0.0, 0.5, 2.0, 2.5, 4.5, 5.0], [-1.0, 1.0, 2.0, 2.5, 4.0, 5.0]]


def own_spline(x, j):
    """the cubic through 1 at the j-th point and 0 at the others"""
    return make_interp_spline(x, np.eye(len(x))[j], k=3)


def xy(c, npdf, n, ranges):
    x = np.array([XY[i if ranges == "own" else i % 2][:n] for i in range(npdf)])
    if ranges == "same" and n < 6:
        x[:, -1] = x.max()
    size = c.choice("size", [0.02, 50.0]) if npdf == 1 else [0.02, 50.0, 1.0][(n + npdf) % 3]
    y = size * np.array([[0.5 + ((3 * i + 5 * j + j * j) % 7) / 2.0 for j in range(n)] for i in range(npdf)], dtype=object)
    at = c.choice("at", [0, n // 2, n - 1])
    for i in range(npdf):
        y[i, (at + i) % n] = c.real(f"y{i}", 0.05, 5) * size
    y = c._mk(y)
    area = []
    for i in range(npdf):
        a = 0.0
        for j in range(n):
            a = a + float(own_spline(x[i], j).integrate(x[i, 0], x[i, -1])) * y[i, j]
        c.assume(a >= 0.5 * size)
        area.append(a)
    return x, y, area


@task(configs=[dict(npdf=1, n=4), dict(npdf=2, n=5), dict(npdf=2, n=6), dict(npdf=3, n=4, ranges="own"), dict(npdf=2, n=5, ranges="own")])
def through_points(c, npdf, n, ranges="same"):
    """splines made from the values at given points"""
    x, y, area = xy(c, npdf, n, ranges)
    e = qp.Ensemble(qp.spline_from_xy, data=dict(xvals=x, yvals=y))
    c.check(int(e.npdf) == npdf, "one PDF for each row")
    for i in range(npdf):
        got = e[i].pdf(x[i]).ravel()
        for j in range(n):
            c.close(got[j] * area[i], y[i, j], "the density passes through the normalised values")
        F = e[i].cdf(np.array([x[i, 0], x[i, 2], x[i, -1], 20.0])).ravel()
        part = 0.0
        for j in range(n):
            part = part + float(own_spline(x[i], j).integrate(x[i, 0], x[i, 2])) * y[i, j]
        c.close(F[0], 0.0, "nothing lies below the first point")
        c.close(F[1] * area[i], part, "the cumulative distribution is the integral of the spline through the values")
        c.close(F[2], 1.0, "the whole lies below the last point")
        c.close(F[3], 1.0, "the whole lies below any later point")


@task(configs=[dict(npdf=1), dict(npdf=2), dict(npdf=3, method=True)])
def from_samples(c, npdf, method=False):
    """splines through the density estimate of each PDF's own samples"""
    import scipy.stats

    x = np.array([0.0, 1.0, 1.5, 3.0, 4.0])
    s = np.array([[0.5 + i, 2.0 - 0.5 * i] for i in range(npdf)], dtype=object)
    for i in range(npdf):
        s[i, i % 2] = c.real(f"s{i}", 0.5, 5)
    s = c._mk(s)

    def value(row, v):
        return 0.25 + row[0] * float(1.0 / (1.0 + v)) + row[1] * float(v) / 4.0

    class Estimate:
        def __init__(self, row, **kw):
            c.same_shape(row, (2,), "one PDF's samples")
            self.row = row

        def __call__(self, v):
            return c._mk(np.array([value(self.row, float(u)) for u in v], dtype=object))

    with swapped((scipy.stats, "gaussian_kde", Estimate)):
        ctor = qp.spline_pdf.spline_gen.creation_method("samples") if method else qp.spline_from_samples
        e = qp.Ensemble(ctor, data=dict(xvals=x, samples=s))
    c.check(int(e.npdf) == npdf, "one PDF for each row of samples")
    got = e.pdf(x)
    for i in range(npdf):
        area = 0.0
        for j in range(len(x)):
            area = area + float(own_spline(x, j).integrate(x[0], x[-1])) * value(s[i], x[j])
        for j in range(len(x)):
            c.close(got[i, j] * area, value(s[i], x[j]), "the density passes through the normalised estimate")
    c.shaped_close(e.cdf(np.array([x[0], x[-1]])), np.array([[0.0, 1.0]] * npdf), "the whole lies between the first and the last point")
