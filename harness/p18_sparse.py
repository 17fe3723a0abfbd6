"""Sparse representation: indices, dictionary columns and shapes agree, and PDFs are encoded independently."""
import numpy as np
import qp
from qp import sparse_rep

from vlib import npshim
from vlib.runner import task
from . import spec
from .fakes import swapped, symint

BOUNDS = "every 16-bit signed coefficient and 16-bit base; dictionaries of up to 2x2x3 columns on 4 points, fixed shapes; 1-3 PDFs, 1-3 indices each, coefficients symbolic; pursuit of any vector in up to 3 steps"
OUTSIDE = "how well a PDF is approximated; the dictionary's fixed first weight when it is not the largest; linearly dependent dictionaries"
ASSUMPTIONS = "Voigt profile computed by scipy on the fixed grid"
QUICK_S = 90

X = np.array([0.0, 0.4, 1.0, 1.5])
DIMS = {"small": (2, 1, 1), "wide": (2, 2, 1), "full": (2, 2, 3), "deep": (3, 1, 2), "odd": (3, 2, 2)}
MU, SIG = (0.1, 1.2), (0.2, 0.5)


def dictionary(dims):
    """unit-length columns, mean slowest, gamma fastest"""
    cols, shapes = [], []
    from scipy.special import voigt_profile
    for m in np.linspace(*MU, dims[0]):
        for s in np.linspace(*SIG, dims[1]):
            for g in np.linspace(0, 0.5, dims[2]):
                v = voigt_profile(X - m, s, g)
                v = np.where(v >= 1e-5, v, 0.0)
                cols.append(v / np.sqrt((v * v).sum()))
                shapes.append((m, s, g))
    return np.array(cols).T, shapes


def meta(dims, n):
    return dict(xvals=X.copy(), mu=list(MU), sig=list(SIG), dims=list(dims) + [32001, n])


def indices(c, npdf, n, ncol):
    """encoded indices, and what they stand for"""
    co = c.ints("k", (npdf, n), -32000, 32000)
    ba = np.array([[c.choice(f"b{i}{j}", [0, ncol - 1] if npdf > 1 else list(range(ncol))) if (i + j) % 2 == 0 else (3 * i + 2 * j + 1) % ncol for j in range(n)] for i in range(npdf)])
    code = co * 65536 + ba
    w = [[1.0 if j == 0 else co[i, j] / 32000.0 for j in range(n)] for i in range(npdf)]
    return code, w, ba


@task()
def codec(c):
    """coefficient and base are recovered from their combination"""
    k, b = c.ints("k", (), -32768, 32767), c.ints("b", (), 0, 65535)
    k, b = (k, b) if not hasattr(k, "item") else (k.item(), b.item())
    n = sparse_rep.combine_int(k, b)
    c.check(c.land(n >= -2**31, n < 2**31), "fits in 32 bits")
    k2, b2 = sparse_rep.get_N(n)
    c.check(k2 == k, "coefficient")
    c.check(b2 == b, "base")


@task(configs=[dict(npdf=1, n=1), dict(npdf=2, n=2), dict(npdf=3, n=3)])
def decoding(c, npdf, n):
    k = c.ints("k", (npdf, n), -32000, 32000)
    b = c.ints("b", (npdf, n), 0, 65535)
    ind, vals = sparse_rep.decode_sparse_indices(k * 65536 + b)
    c.shaped_close(ind, b, "base")
    c.shaped_close(vals, [[1.0 if j == 0 else k[i, j] / 32000.0 for j in range(n)] for i in range(npdf)], "weight, relative to the first")


@task(configs=[dict(dims=d) for d in DIMS])
def basis(c, dims):
    """each column of the dictionary has the shape its index stands for"""
    A, shapes = dictionary(DIMS[dims])
    got = sparse_rep.create_voigt_basis(X, MU, DIMS[dims][0], SIG, DIMS[dims][1], DIMS[dims][2])
    c.same_shape(got, A.shape, "one column per shape")
    c.shaped_close(got, A, "columns of the dictionary")
    m = meta(DIMS[dims], 2)
    c.shaped_close(sparse_rep.create_basis(m), A, "dictionary of the stored description")
    k = c.ints("k", (2, 2), -32000, 32000)
    b = np.array([[c.choice("b0", list(range(len(shapes)))), 0], [len(shapes) - 1, c.choice("b1", list(range(len(shapes))))]])
    w, mu, si, ga = sparse_rep.indices2shapes(k * 65536 + b, m)
    for i in range(2):
        for j in range(2):
            c.close(w[i, j], 1.0 if j == 0 else k[i, j] / 32000.0, "weight")
            want = shapes[b[i, j]]
            c.close(mu[i, j], want[0], "mean")
            c.close(si[i, j], want[1], "width")
            c.close(ga[i, j], want[2], "damping")


def combined(c, A, w, ba):
    y = [[sum(w[i][j] * A[p, ba[i, j]] for j in range(len(w[i]))) for p in range(len(X))] for i in range(len(w))]
    return y


@task(configs=[dict(dims="small", npdf=1, n=1), dict(dims="wide", npdf=1, n=2), dict(dims="wide", npdf=2, n=2)], thorough=[dict(dims="full", npdf=2, n=2), dict(dims="wide", npdf=3, n=2), dict(dims="wide", npdf=1, n=3)], budget=75)
def ensembles(c, dims, npdf, n):
    """the interpolated, normalised sum of weighted columns"""
    A, _ = dictionary(DIMS[dims])
    code, w, ba = indices(c, npdf, n, A.shape[1])
    y = combined(c, A, w, ba)
    for r in y:
        for v in r:
            c.assume(v >= 0)
        c.assume(spec.trapz(r, X) >= 0.05)
    e = qp.Ensemble(qp.sparse, data=dict(sparse_indices=code, **meta(DIMS[dims], n)))
    c.check(e.npdf == npdf, "number of PDFs")
    p = e.pdf(X)
    for i in range(npdf):
        t = spec.trapz(y[i], X)
        for j in range(len(X)):
            c.close(p[i, j] * t, y[i][j], "density at the grid points")
    x = c.real("x", -0.5, 2)
    p = e.pdf(x)
    for i in range(npdf):
        c.close(p[i, 0] * spec.trapz(y[i], X), spec.lin(c, X, y[i], x, 0.0), "density between the grid points")
    o = e.objdata()
    c.check(set(o) == {"sparse_indices"}, "stored columns")
    c.shaped_close(o["sparse_indices"], code, "stored indices")


@task(configs=[dict(dims="small", npdf=1, n=2), dict(dims="wide", npdf=2, n=2)], thorough=[dict(dims="full", npdf=2, n=2), dict(dims="wide", npdf=2, n=3)])
def evaluation(c, dims, npdf, n):
    A, _ = dictionary(DIMS[dims])
    code, w, ba = indices(c, npdf, n, A.shape[1])
    y = combined(c, A, w, ba)
    for r in y:
        for v in r:
            c.assume(c.lor(v >= 1e-3, v <= 0))
        c.assume(spec.trapz([c.ite(v >= 1e-5, v, 0.0) for v in r], X) >= 0.05)
    got = sparse_rep.pdf_from_sparse(code, c._mk(A.astype(object)), X)
    c.same_shape(got, (len(X), npdf), "one column per PDF")
    for i in range(npdf):
        cut = [c.ite(v >= 1e-5, v, 0.0) for v in y[i]]
        t = spec.trapz(cut, X)
        for j in range(len(X)):
            c.close(got[j, i] * t, cut[j], "density at the grid points")


def pursued(c, A, idx, val, v, label):
    """distinct columns, and the residual is orthogonal to all of them"""
    c.check(len(set(int(i) for i in idx)) == len(idx), label + ": distinct columns")
    c.check(len(val) == len(idx), label + ": one coefficient per column")
    for i in idx:
        got = sum(A[p, int(i)] * (v[p] - sum(A[p, int(k)] * val[j] for j, k in enumerate(idx))) for p in range(len(X)))
        c.close(got, 0.0, label + ": residual orthogonal to the chosen columns", tol=1e-6, scale=1.0)
    best = sum(A[p, int(idx[0])] * v[p] for p in range(len(X)))
    for k in range(A.shape[1]):
        c.le(abs(sum(A[p, k] * v[p] for p in range(len(X)))), abs(best), label + ": first column has the largest overlap")


def vector(c, name, n=len(X)):
    v = c.array(name, n, 0, 3)
    c.assume(v.sum() >= 0.5)
    return v


@task(configs=[dict(dims="small", n=1), dict(dims="small", n=2), dict(dims="wide", n=2)], thorough=[dict(dims="wide", n=3), dict(dims="deep", n=2)], budget=75)
def pursuit(c, dims, n):
    A, _ = dictionary(DIMS[dims])
    v = vector(c, "v")
    idx, val = sparse_rep.sparse_basis(c._mk(A.astype(object)), v, n)
    c.check(1 <= len(idx) <= n, "number of columns")
    pursued(c, A, idx, val, v, "pursuit")


@task(configs=[dict(dims="small", n=1), dict(dims="small", n=2), dict(dims="wide", n=1), dict(dims="small", n=2, npdf=1)], thorough=[dict(dims="wide", n=2), dict(dims="small", n=2, npdf=3), dict(dims="wide", n=2, npdf=1)], budget=75)
def independence(c, dims, n, npdf=2):
    """every PDF is encoded as it would be on its own, with the dictionary its indices will be decoded with"""
    A, _ = dictionary(DIMS[dims])
    d = DIMS[dims]
    # positive mixtures of two columns and an offset: no sign of an overlap is in doubt
    rows = []
    for i in range(npdf):
        w = c.array(f"w{i}", 3, 0.05, 2)
        rows.append([w[0] * A[p, 0] + w[1] * A[p, -1] + w[2] * 0.1 for p in range(len(X))])
    P = c._mk(np.array(rows, dtype=object))
    kw = dict(mu=list(MU), Nmu=d[0], sig=list(SIG), Nsig=d[1], Nv=d[2], Nsparse=n, tol=None, verbose=False)
    encode = lambda rows: sparse_rep.build_sparse_representation(X, rows, **kw)
    with swapped((npshim, "INT_ARRAYS", True), (sparse_rep, "int", symint)):
        codes, m, B = encode(P)
        alone = [encode(P[i:i + 1])[0] for i in range(npdf)]
    c.same_shape(codes, (npdf, n), "one row of indices per PDF")
    c.shaped_close(B, A, "the dictionary")
    c.check(list(m["dims"]) == list(d) + [32001, n] and list(m["mu"]) == list(MU) and list(m["sig"]) == list(SIG), "description of the dictionary")
    for i in range(npdf):
        c.shaped_close(codes[i:i + 1], alone[i], "encoded as on its own")
        if npdf > 1 and n > 1:
            continue
        idx, val = sparse_rep.sparse_basis(c._mk(A.astype(object)), P[i], n)
        big = val[0]
        for v in val:
            big = c.ite(v > big, v, big)
        for j, v in enumerate(val):
            c.check(codes[i, j] % 65536 == int(idx[j]), "index of each chosen column")
            if j:
                c.close((codes[i, j] // 65536) / 32000.0 * big, v, "weight relative to the largest", tol=0.501 / 32000, scale=big)
    for i in range(npdf):
        best = [abs(sum(A[p, k] * P[i, p] for p in range(len(X)))) for k in range(A.shape[1])]
        first = codes[i, 0] % 65536
        for k in range(A.shape[1]):
            c.check(c.lor(first != k, c.land(*[best[k] >= u - 1e-9 for u in best])), "first index is the column of largest overlap")


@task(configs=[dict(npdf=1, n=3, nvals=4), dict(npdf=2, n=3, nvals=5), dict(npdf=2, n=4, nvals=3)])
def from_grid(c, npdf, n, nvals):
    """what is encoded when gridded PDFs are converted: their own values on an even grid over the part in use"""
    x = np.array([-1.0, 0.25, 1.0, 3.0])[:n]
    y = c.array("y", (npdf, n), 0, 5)
    last = c.choice("last", [n - 2, n - 1])
    for k in range(n):
        if k > last:
            y[:, k] = 0.0
    for i in range(npdf):
        c.assume(y[i, 0] >= 0.1)
    top = c.choice("who", list(range(npdf)))
    for i in range(npdf):
        if i != top and last > 0:
            y[i, last] = 0.0
    c.assume(y[top, last] >= 0.1)
    e = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=y))
    v = e.objdata()["yvals"]
    real = sparse_rep.build_sparse_representation
    seen = []

    def build(grid, rows, *a, **kw):
        seen.append((grid, rows, a, kw))
        return real(grid, np.ones((len(rows), len(grid))) + np.arange(len(rows))[:, None], mu=list(MU), Nmu=2, sig=list(SIG), Nsig=1, Nv=1, Nsparse=2, tol=None, verbose=False)

    with swapped((qp.conversion_funcs, "build_sparse_representation", build), (sparse_rep, "build_sparse_representation", build)):
        f = qp.convert(e, "sparse", nvals=nvals) if c.choice("api", [0, 1]) else e.convert_to(qp.sparse_gen, nvals=nvals)
    c.check(len(seen) == 1, "encoded once")
    grid, rows, a, kw = seen[0]
    c.close(grid, np.linspace(x[0], x[last], nvals), "an even grid from the start of the source's to the last point in use")
    c.same_shape(rows, (npdf, nvals), "one row of values for each PDF")
    for i in range(npdf):
        for j in range(nvals):
            t = float(np.linspace(x[0], x[last], nvals)[j])
            k = min(int(np.searchsorted(x, t, side="right")) - 1, n - 2)
            r = (t - x[k]) / (x[k + 1] - x[k])
            c.close(rows[i, j], v[i, k] * (1 - r) + v[i, k + 1] * r, "the source's density at each grid point")
    c.check(f.gen_class is qp.sparse_gen and int(f.npdf) == npdf, "a sparse ensemble with as many PDFs")
    codes = real(np.linspace(x[0], x[last], nvals), np.ones((npdf, nvals)) + np.arange(npdf)[:, None], mu=list(MU), Nmu=2, sig=list(SIG), Nsig=1, Nv=1, Nsparse=2, tol=None, verbose=False)[0]
    c.check(np.array_equal(np.asarray(f.objdata()["sparse_indices"], dtype=float), codes), "the indices of the encoding")
    c.close(np.asarray(f.metadata()["xvals"]).ravel(), np.linspace(x[0], x[last], nvals), "the grid of the encoding")
    c.shaped_close(e.objdata()["yvals"], v, "the source keeps its values")
