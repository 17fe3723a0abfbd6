"""Models of the compiled scipy pieces the code under test calls (stated as assumptions).

Every model is checked on the fly: the runner replays a concrete model of every path on
the real, unpatched code and compares the observed outputs.
"""
import builtins
import collections
import importlib
import math
import sys
import types

import numpy as np
import scipy.integrate
import scipy.interpolate
import scipy.special
import scipy.stats
import z3

from . import npshim, sym
from .npshim import SA, _base, _loop, _lt, boolarr, has_sa, has_sym, sa, s_asarray, wrap
from .sym import SymNum, is_sym, num_op, uf

MODELS_USED = {}


def _used(name):
    MODELS_USED[name] = MODELS_USED.get(name, 0) + 1


def _opaque(name, arrs, x):
    """an uninterpreted scalar function of x, parameterised by all elements of arrs"""
    args = []
    for a in arrs:
        args.extend(_base(a).ravel().tolist())
    args.append(x)
    if not any(is_sym(a) for a in args):
        args = [sym.SymNum(sym.rv(float(a))) if not is_sym(a) else a for a in args]
    return uf(f"{name}_{len(args)}", *args)


class SInterp1d:
    """scipy.interpolate.interp1d: exact for kind='linear' (and 0/1-order), node-exact for the others"""

    _real = scipy.interpolate.interp1d

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.concrete = None
        if not has_sym(x) and not has_sym(y) and not isinstance(fill_value, tuple) and not is_sym(fill_value) and False:
            pass
        _used("interp1d")
        x, y = sa(x).copy(), sa(y).copy()
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        axis = axis % y.ndim
        if x.shape[0] != y.shape[axis]:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        y = np.moveaxis(_base(y), axis, -1)
        self.axis = axis
        xb = _base(x)
        if not assume_sorted:
            order = npshim._argsort1(xb)
            xb = xb[order]
            y = y[..., order]
        self.x, self.y, self.kind = xb, y, kind
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        if isinstance(kind, (int, np.integer)):
            self.kind = {0: "zero", 1: "linear", 2: "quadratic", 3: "cubic"}.get(int(kind), "opaque")
        if self.extrapolate:
            if bounds_error:
                raise ValueError("Cannot extrapolate and raise at the same time.")
            self.bounds_error = False
        else:
            if bounds_error is None:
                fv = fill_value
                bounds_error = not (isinstance(fv, tuple) or has_sa(fv) or np.any(~np.isnan(np.asarray(fv, dtype=float))))
            self.bounds_error = bounds_error
            if isinstance(fill_value, tuple) and len(fill_value) == 2:
                self.lo, self.hi = fill_value
            else:
                self.lo = self.hi = fill_value
        minval = {"linear": 0, "zero": 0, "nearest": 0, "nearest-up": 0, "previous": 0, "next": 0, "slinear": 2, "quadratic": 3, "cubic": 4}.get(kind, 2)
        if len(xb) < minval:
            raise ValueError(f"The number of derivatives at boundaries does not match / need at least {minval} points")
        if kind in ("quadratic", "cubic", "slinear"):
            for i in range(len(xb) - 1):
                if not _lt(xb[i], xb[i + 1]):
                    raise ValueError("Expect x to not have duplicates")

    def _row(self, yr, v):
        x, n = self.x, len(self.x)
        if sym.isbad(v) and math.isnan(v):
            return v
        if not self.extrapolate:
            if _lt(v, x[0]):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return self._fill(self.lo)
            if _lt(x[-1], v):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return self._fill(self.hi)
        if self.kind in ("linear", "slinear"):
            if self.y.ndim == 1 and not self.extrapolate:
                return npshim._base(npshim.s_interp(npshim.sa0(v), x, yr))[()]
            j = int(npshim._searchsorted(x, v, "left"))
            j = builtins.min(builtins.max(j, 1), n - 1)
            sl = num_op("div", num_op("sub", yr[j], yr[j - 1]), num_op("sub", x[j], x[j - 1]))
            return num_op("add", num_op("mul", sl, num_op("sub", v, x[j - 1])), yr[j - 1])
        if self.kind in ("previous", "zero"):
            j = int(npshim._searchsorted(x, v, "right")) - 1
            return yr[builtins.min(builtins.max(j, 0), n - 1)]
        if self.kind == "next":
            return yr[builtins.min(int(npshim._searchsorted(x, v, "left")), n - 1)]
        if self.kind == "quadratic" and n == 3:
            return _lagrange(x, yr, v)
        if self.kind == "cubic" and n == 4:
            return _lagrange(x, yr, v)
        for i in range(n):
            if not _lt(v, x[i]) and not _lt(x[i], v):
                return yr[i]
        return _opaque(f"interp1d_{self.kind}", [x, yr], v)

    @staticmethod
    def _fill(f):
        b = _base(f)
        return b.ravel()[0]

    def __call__(self, xn):
        xn = s_asarray(xn)
        xb = _base(xn)
        rows = self.y.reshape(-1, self.y.shape[-1])
        res = []
        for r in rows:
            res.append(_loop(lambda v: self._row(r, v), xb))
        out = np.empty((len(rows),) + xb.shape, dtype=object)
        for i, r in enumerate(res):
            out[i, ...] = r
        out = out.reshape(self.y.shape[:-1] + xb.shape)
        if self.y.ndim > 1 and self.axis != self.y.ndim - 1:
            k = xb.ndim
            src = list(range(out.ndim - k, out.ndim))
            out = np.moveaxis(out, src, range(self.axis, self.axis + k))
        return out.view(SA)


class SSpline:
    """InterpolatedUnivariateSpline: an uninterpreted function of its nodes; its values at the nodes and outside (ext=1) are exact"""

    _real = scipy.interpolate.InterpolatedUnivariateSpline

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
        _used("InterpolatedUnivariateSpline")
        self.x, self.y = _base(sa(x)).ravel(), _base(sa(y)).ravel()
        if len(self.x) != len(self.y):
            raise ValueError("x, y, and w should have a same length")
        for i in range(len(self.x) - 1):
            if not _lt(self.x[i], self.x[i + 1]):
                raise ValueError("x must be strictly increasing")
        if len(self.x) <= k:
            raise ValueError(f"k={k} needs more than {k} points")
        self.k, self.ext, self.nu = k, {"extrapolate": 0, "zeros": 1, "raise": 2, "const": 3}.get(ext, ext), 0
        if w is not None or tuple(bbox) != (None, None) or self.ext not in (0, 1):
            raise NotImplementedError("spline options")

    def derivative(self, n=1):
        d = object.__new__(SSpline)
        d.__dict__.update(self.__dict__, nu=self.nu + n)
        return d

    def _one(self, v):
        if self.ext == 1 and (_lt(v, self.x[0]) or _lt(self.x[-1], v)):
            return 0.0
        if self.nu == 0:
            for a, b in zip(self.x, self.y):
                if not _lt(v, a) and not _lt(a, v):
                    return b
        return _opaque(f"spline_k{self.k}_d{self.nu}", [self.x, self.y], v)

    def __call__(self, xn, nu=0, ext=None):
        if nu or ext is not None:
            raise NotImplementedError("spline options")
        return wrap(_loop(self._one, _base(s_asarray(xn))))


def _lagrange(x, y, v):
    tot = 0.0
    n = len(x)
    for i in range(n):
        t = y[i]
        for j in range(n):
            if j != i:
                t = num_op("mul", t, num_op("div", num_op("sub", v, x[j]), num_op("sub", x[i], x[j])))
        tot = num_op("add", tot, t)
    return tot


def s_trapezoid(y, x=None, dx=1.0, axis=-1):
    _used("trapezoid")
    y = sa(y)
    if x is None:
        d = dx
        t = np.moveaxis(_base(y), axis, -1).view(SA)
        return ((t[..., 1:] + t[..., :-1]) * 0.5 * d).sum(axis=-1)
    x = sa(x)
    t = np.moveaxis(_base(y), axis, -1).view(SA)
    xx = x if x.ndim == 1 else np.moveaxis(_base(x), axis, -1).view(SA)
    d = xx[..., 1:] - xx[..., :-1]
    return (d * (t[..., 1:] + t[..., :-1]) / 2.0).sum(axis=-1)


def s_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    _used("cumulative_trapezoid")
    y = sa(y)
    t = np.moveaxis(_base(y), axis, -1).view(SA)
    d = dx if x is None else (sa(x)[..., 1:] - sa(x)[..., :-1])
    r = (d * (t[..., 1:] + t[..., :-1]) / 2.0).cumsum(axis=-1)
    if initial is not None:
        z = np.full(t.shape[:-1] + (1,), initial, dtype=object).view(SA)
        r = np.concatenate([z, r], axis=-1)
    return np.moveaxis(_base(r), -1, axis).view(SA)


def s_voigt(x, s, g):
    _used("voigt_profile")
    return wrap(_loop(lambda a, b, c: uf("voigt", a, b, c) if any(map(is_sym, (a, b, c))) else np.float64(
        scipy.special.voigt_profile(float(a), float(b), float(c))), x, s, g))


def s_norm(a, ord=None, axis=None, keepdims=False, **kw):
    a = sa(a)
    if ord not in (None, 2):
        raise NotImplementedError
    return np.sqrt((a * a).sum(axis=axis, keepdims=keepdims))


def s_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    """forward or backward substitution; writes into b when told so, as scipy does for a row of floats"""
    _used("solve_triangular")
    if trans or unit_diagonal:
        raise NotImplementedError
    a, x = sa(a), sa(b).copy()
    n = a.shape[0]
    for i in range(n) if lower else range(n - 1, -1, -1):
        for j in range(i) if lower else range(i + 1, n):
            x[i] = x[i] - a[i, j] * x[j]
        x[i] = x[i] / a[i, i]
    if overwrite_b:
        b[...] = x
    return x


def s_cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    c = sa(c)
    L = c if lower else c.T
    n = L.shape[0]
    L = sa([[L[i, j] if j <= i else 0.0 for j in range(n)] for i in range(n)])
    return s_solve_triangular(L.T, s_solve_triangular(L, b, lower=True), lower=False)


Stat = collections.namedtuple("Stat", "statistic pvalue")


def s_kstest(rvs, cdf, args=(), N=20, alternative="two-sided", **kw):
    """the one-sample statistic; the p-value is not modelled"""
    _used("kstest")
    if not callable(cdf) or alternative != "two-sided":
        raise NotImplementedError("kstest")
    x = np.sort(s_asarray(rvs), axis=-1)
    n = x.shape[-1]
    v = cdf(x, *args)
    return Stat(np.maximum((np.arange(1.0, n + 1) / n - v).max(axis=-1), (v - np.arange(0.0, n) / n).max(axis=-1)), None)


def s_cramervonmises(rvs, cdf, args=(), **kw):
    _used("cramervonmises")
    if not callable(cdf):
        raise NotImplementedError("cramervonmises")
    x = np.sort(s_asarray(rvs), axis=-1)
    n = x.shape[-1]
    if n <= 1:
        raise ValueError("The sample must contain at least two observations.")
    u = (2 * np.arange(1, n + 1) - 1) / (2 * n)
    return Stat(1 / (12 * n) + ((u - cdf(x, *args)) ** 2).sum(axis=-1), None)


def s_anderson_ksamp(samples, *a, **kw):
    """depends on the order and ties of the values only: computed by scipy on their ranks"""
    _used("anderson_ksamp")
    rows = [_base(s_asarray(s)).ravel().tolist() for s in samples]
    flat = [v for r in rows for v in r]
    order = npshim._argsort1(np.array(flat, dtype=object))
    rank, k = [0] * len(flat), 0
    for prev, cur in zip([None] + list(order[:-1]), order):
        if prev is not None and _lt(flat[prev], flat[cur]):
            k += 1
        rank[cur] = k
    it = iter(rank)
    return scipy.stats.anderson_ksamp([np.array([float(next(it)) for _ in r]) for r in rows], *a, **kw)


# ---- B-splines (FITPACK), knots known, coefficients and points possibly symbolic ----
_spline_knots = []  # what quad() learns about the pieces of its integrand


def _knots(t):
    return [float(v) if not is_sym(v) else _known(v) for v in _base(t).ravel().tolist()]


def _known(v):
    """a knot the path condition has fixed"""
    f = sym.CUR.const_value(v.e)
    if f is None:
        raise NotImplementedError("spline with free knots")
    return float(f)


def _deboor(t, c, k, x):
    """the spline at x; beyond the first and last piece those are continued"""
    n = len(t) - k - 1
    l = k
    while l < n - 1 and not _lt(x, t[l + 1]):
        l += 1
    d = [c[j + l - k] for j in range(k + 1)]
    for r in range(1, k + 1):
        for j in range(k, r - 1, -1):
            lo, hi = t[j + l - k], t[j + 1 + l - r]
            if hi == lo:
                continue
            a = num_op("div", num_op("sub", x, lo), hi - lo)
            d[j] = num_op("add", num_op("mul", num_op("sub", 1.0, a), d[j - 1]), num_op("mul", a, d[j]))
    return d[k]


def _tck(tck):
    t, c, k = tck
    k = int(k)
    t = _knots(t)
    return t, _base(c).ravel().tolist()[:len(t) - k - 1], k


def s_splev(x, tck, der=0, ext=0):
    _used("splev")
    if der != 0 or ext not in (0, 1):
        raise NotImplementedError("splev with derivatives or other extrapolation")
    t, c, k = _tck(tck)
    _spline_knots.append((t[k], t[-k - 1], t))

    def one(v):
        if ext == 1 and (_lt(v, t[k]) or _lt(t[-k - 1], v)):
            return 0.0
        return _deboor(t, c, k, v)

    return wrap(_loop(one, _base(s_asarray(x))))


def s_splint(a, b, tck, full_output=0):
    _used("splint")
    t, c, k = _tck(tck)
    acc, cum = 0.0, []
    for i in range(len(c)):
        acc = num_op("add", acc, num_op("mul", c[i], (t[i + k + 1] - t[i]) / (k + 1)))
        cum.append(acc)
    tt = [t[0]] + t + [t[-1]]
    cc = [0.0] + cum

    def upto(v):
        v = _base(s_asarray(v)).ravel()[0]
        if not _lt(t[k], v):
            v = t[k]
        elif not _lt(v, t[-k - 1]):
            v = t[-k - 1]
        return _deboor(tt, cc, k + 1, v)

    return num_op("sub", upto(b), upto(a))


def s_splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    """an interpolating spline is linear in y: computed by scipy for each unit vector"""
    _used("splrep")
    if w is not None or s not in (None, 0, 0.0) or t is not None or per or task:
        raise NotImplementedError("smoothing splines")
    xv = np.array(_knots(x))
    yb = _base(s_asarray(y)).ravel().tolist()
    out, knots = None, None
    for j in range(len(xv)):
        knots, cj, _ = scipy.interpolate.splrep(xv, np.eye(len(xv))[j], k=k, s=0)
        add = [num_op("mul", yb[j], float(v)) if v else 0.0 for v in cj]
        out = add if out is None else [num_op("add", u, v) for u, v in zip(out, add)]
    o = np.empty(len(out), dtype=object)
    o[:] = out
    return knots, wrap(o), k


def s_quad(func, a, b, args=(), **kw):
    """exact for piecewise polynomials (up to degree 9) with known breaks: Gauss's rule on each piece"""
    if sym.CUR is None:
        return scipy.integrate.quad(func, a, b, args=args, **kw)
    one = lambda v: _base(s_asarray(func(v, *args))).ravel()[0]
    del _spline_knots[:]
    y = one(float(_known(a) if is_sym(a) else a))
    if not is_sym(y) and not _spline_knots:
        return scipy.integrate.quad(func, a, b, args=args, **kw)
    _used("quad")
    if not _spline_knots:
        raise NotImplementedError("quad of an unknown function")
    a, b = (_known(v) if is_sym(v) else float(v) for v in (a, b))
    # the end pieces of a spline continue beyond its knots
    brk = sorted({a, b} | {v for lo, hi, t in _spline_knots for v in t if a < v < b})
    gx, gw = np.polynomial.legendre.leggauss(5)
    tot = 0.0
    for u, v in zip(brk, brk[1:]):
        for g, w in zip(gx, gw):
            tot = num_op("add", tot, num_op("mul", one((u + v) / 2 + (v - u) / 2 * float(g)), float(w) * (v - u) / 2))
    return tot, 0.0


MODELS = {
    id(scipy.interpolate.interp1d): SInterp1d,
    id(scipy.interpolate.InterpolatedUnivariateSpline): SSpline,
    id(scipy.integrate.trapezoid): s_trapezoid,
    id(scipy.integrate.cumulative_trapezoid): s_cumtrapz,
    id(scipy.special.voigt_profile): s_voigt,
    id(scipy.linalg.norm): s_norm,
    id(scipy.linalg.solve_triangular): s_solve_triangular,
    id(scipy.linalg.cho_solve): s_cho_solve,
    id(scipy.interpolate.splev): s_splev,
    id(scipy.interpolate.splint): s_splint,
    id(scipy.interpolate.splrep): s_splrep,
    id(scipy.integrate.quad): s_quad,
    id(scipy.stats.kstest): s_kstest,
    id(scipy.stats.cramervonmises): s_cramervonmises,
    id(scipy.stats.anderson_ksamp): s_anderson_ksamp,
}
_dispatch_cache = {}


def dispatching(real, model):
    """use the model only when something symbolic is around"""
    if isinstance(model, type):
        return model

    def f(*a, **k):
        if sym.CUR is not None and (any(has_sa(v) or isinstance(v, tuple) and any(map(has_sa, v)) for v in a) or any(has_sa(v) for v in k.values()) or real is scipy.integrate.quad):
            return model(*a, **k)
        return real(*a, **k)

    return f


def model_for(obj):
    m = MODELS.get(id(obj))
    if m is None:
        return None
    if id(obj) not in _dispatch_cache:
        _dispatch_cache[id(obj)] = dispatching(obj, m)
    return _dispatch_cache[id(obj)]


_old_shim_for = npshim.shim_for


def shim_for(obj):
    m = model_for(obj)
    return m if m is not None else _old_shim_for(obj)


npshim.shim_for = shim_for

# ---------------------------------------------------------------------------
# installation
# ---------------------------------------------------------------------------
EXTRA = [
    "scipy.stats._distn_infrastructure",
    "scipy.stats._continuous_distns",
]


def target_modules():
    for n, m in list(sys.modules.items()):
        if m is None or not isinstance(m, types.ModuleType):
            continue
        if n == "qp" or n.startswith("qp."):
            yield m
        elif n in EXTRA:
            yield m


_saved = []


def install(extra=()):
    if _saved:
        return
    for n in extra:
        importlib.import_module(n)
        if n not in EXTRA:
            EXTRA.append(n)
    for m in target_modules():
        g = m.__dict__
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            r = None
            if isinstance(v, types.ModuleType):
                top = v.__name__.split(".")[0]
                if top in ("numpy", "scipy"):
                    r = npshim.proxy(v)
            else:
                try:
                    r = shim_for(v)
                except Exception:
                    r = None
            if r is not None:
                _saved.append((g, k, v))
                g[k] = r
        _saved.append((g, "float", g.get("float", _saved)))
        g["float"] = npshim.SFloat


def uninstall():
    while _saved:
        g, k, v = _saved.pop()
        if v is _saved:
            g.pop(k, None)
        else:
            g[k] = v
