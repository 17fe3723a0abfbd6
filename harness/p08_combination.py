import numpy as np
import qp

from vlib.runner import task
from .kinds import LONG, alone, build, ens, eq_data, many, more

BOUNDS = "2-3 ensembles of 1-2 PDFs each, every representation, 1 evaluation point, 1-2 ancillary columns; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "ensembles whose metadata differ by less than numpy's allclose tolerance"
QUICK_S = 100

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "quant", "norm", "packed"]
METHODS = {"hist": ("pdf", "cdf"), "interp": ("pdf", "cdf"), "interp_irregular": ("pdf", "cdf"), "mixmod": ("pdf", "cdf"), "quant": ("pdf", "cdf"), "norm": ("pdf", "cdf"), "packed": ("pdf", ), "quant_spline": ("pdf",), "bspline": ("pdf", "cdf")}


def parts(c, kind, sizes, ancil=True):
    ctor, shared, per = build(c, kind, sizes[0])
    pers = [per] + [more(c, kind, shared, n, f"z{k}") for k, n in enumerate(sizes[1:])]
    ans = [dict(a=c.array(f"a{k}", n), b=c.array(f"b{k}", (n, 2))) if ancil else None for k, n in enumerate(sizes)]
    return ctor, shared, pers, ans, [ens(ctor, shared, p, ancil=a) for p, a in zip(pers, ans)]


def cat(ds):
    return {k: np.concatenate([d[k] for d in ds]) for k in ds[0]}


def check_all(c, got, ctor, shared, pers, ans, es, before, sizes, method, x, what):
    c.check(int(got.npdf) == sum(sizes), f"{what}: number of PDFs")
    eq_data(c, got.objdata(), cat(before), f"{what}: data are stacked in order")
    if ans[0] is None:
        c.check(got.ancil is None, f"{what}: no ancillary data")
    else:
        eq_data(c, got.ancil, cat(ans), f"{what}: ancillary data are stacked in order")
    v = getattr(got, method)(x)
    c.same_shape(v, (sum(sizes), 1), f"{what}: {method} shape")
    k = 0
    for p, n in zip(pers, sizes):
        for i in range(n):
            c.close(v[k, 0], getattr(alone(ctor, shared, p, i), method)(x)[0, 0], f"{what}: each PDF keeps its {method}")
            k += 1


@task(configs=[dict(kind=k, m=m, sizes=(2, 1)) for k in KINDS + ["quant_spline", "bspline"] for m in METHODS[k]] + [dict(kind="hist", m="pdf", sizes=(1, 2, 1)), dict(kind="norm", m="cdf", sizes=(2, 1), ancil=False)],
      thorough=[dict(kind=k, m="cdf", sizes=(1, 2, 2)) for k in KINDS if k != "packed"])
def concatenated(c, kind, m, sizes, ancil=True):
    ctor, shared, pers, ans, es = parts(c, kind, sizes, ancil)
    x = c.real("x", -11, 11)
    before = [e.objdata() for e in es]
    got = qp.concatenate(es)
    check_all(c, got, ctor, shared, pers, ans, es, before, sizes, m, x, "concatenate")
    eq_data(c, got.metadata(), es[0].metadata(), "concatenate: metadata are kept")
    for e, n, b, a in zip(es, sizes, before, ans):
        c.check(int(e.npdf) == n, "concatenate leaves its inputs as they were")
        eq_data(c, e.objdata(), b, "concatenate leaves its inputs as they were")
        if a is not None:
            eq_data(c, e.ancil, a, "concatenate leaves its inputs as they were")


@task(configs=[dict(kind=k, m=m, sizes=(2, 1)) for k in KINDS + ["bspline"] for m in METHODS[k]] + [dict(kind="hist", m="cdf", sizes=(1, 2)), dict(kind="norm", m="pdf", sizes=(2, 1), ancil=False)],
      thorough=[dict(kind=k, m="cdf", sizes=(2, 2)) for k in KINDS if k != "packed"])
def appended(c, kind, m, sizes, ancil=True):
    ctor, shared, pers, ans, es = parts(c, kind, sizes, ancil)
    x = c.real("x", -11, 11)
    before = [e.objdata() for e in es]
    es[0].append(es[1])
    check_all(c, es[0], ctor, shared, pers, ans, es, before, sizes, m, x, "append")
    c.check(int(es[1].npdf) == sizes[1], "append leaves the other ensemble as it was")
    eq_data(c, es[1].objdata(), before[1], "append leaves the other ensemble as it was")


@task(configs=[dict(kind="hist"), dict(kind="interp"), dict(kind="norm")])
def some_ancil(c, kind):
    """without ancillary data on both sides there is none afterwards"""
    ctor, shared, pers, ans, es = parts(c, kind, (1, 1))
    which = c.choice("which", [0, 1])
    es[which] = ens(ctor, shared, pers[which])
    x = c.real("x", -11, 11)
    want = [e.cdf(x)[0, 0] for e in es]
    got = qp.concatenate(es)
    c.check(got.ancil is None, "no ancillary data unless all have them")
    c.shaped_close(got.cdf(x), [[w] for w in want], "PDFs are stacked all the same")


@task(configs=[dict(kind="hist", how="grid"), dict(kind="interp", how="grid"), dict(kind="quant", how="grid"), dict(kind="hist", how="class"), dict(kind="hist", how="length"), dict(kind="interp", how="length"), dict(kind="packed", how="grid")])
def different(c, kind, how):
    """ensembles on different grids, or of different kinds, do not combine, and stay as they were"""
    ctor, shared, per = build(c, kind, 1)
    if how == "class":
        ctor2, shared2, per2 = build(c, "interp", 1, name="o")
    elif how == "length":
        ctor2, shared2, per2 = build(c, kind, 1, n=3 if kind == "hist" else 4, name="o")
    else:
        key = list(shared)[0]
        ctor2, shared2 = ctor, dict(shared)
        g = shared[key]
        d = c.real("d", 0.005, 0.01) if kind == "quant" else c.real("d", 0.01, 5)
        alt = np.array(g, copy=True)
        j = c.choice("j", [1] if kind == "quant" else [len(g) - 1])
        alt[j] = alt[j] + d
        shared2[key] = alt
        per2 = more(c, kind, shared2, 1, "o")
        c.assume(alt[1] <= 0.99 if kind == "quant" else True)
    e, f = ens(ctor, shared, per), ens(ctor2, shared2, per2)
    be, bf = e.objdata(), f.objdata()
    c.raises((KeyError, ValueError), lambda: qp.concatenate([e, f]), "concatenate refuses different metadata")
    c.raises((KeyError, ValueError), lambda: e.append(f), "append refuses different metadata")
    eq_data(c, e.objdata(), be, "a refused append changes nothing")
    eq_data(c, f.objdata(), bf, "a refused append changes nothing")


@task(configs=[dict(sizes=(2, 1)), dict(sizes=(1, 1, 2))])
def made_of_values(c, sizes):
    """spline ensembles which were made from values at points"""
    es = []
    for k, n in enumerate(sizes):
        y = np.array([[((3 * i + 5 * j + j * j + k) % 7 + 1) / 2.0 for j in range(4)] for i in range(n)], dtype=object)
        y[n - 1, 2] = c.real(f"y{k}", 0.5, 5)
        x = np.array([[0.0, 1.0, 2.5, 4.0]]) + (k * 0.5 if k % 2 else -k * 0.5) - 0.25 * np.arange(n)[:, None]
        es.append(qp.Ensemble(qp.spline_from_xy, data=dict(xvals=x, yvals=c._mk(y)), ancil=dict(a=c.array(f"a{k}", n))))
    data, an = cat([e.objdata() for e in es]), cat([e.ancil for e in es])
    pts = np.array([-0.75, 1.5, 3.0])
    want = {m: [getattr(e, m)(pts) for e in es] for m in ("pdf", "cdf")}
    if c.choice("append", [False, True]):
        got = es[0]
        for e in es[1:]:
            got.append(e)
    else:
        got = qp.concatenate(es)
    c.check(int(got.npdf) == sum(sizes), "number of PDFs")
    eq_data(c, got.objdata(), data, "data are stacked in order")
    eq_data(c, got.ancil, an, "ancillary data are stacked in order")
    for m, v in want.items():
        c.shaped_close(getattr(got, m)(pts), np.concatenate(v), f"each PDF keeps its {m}")


@task(configs=[dict(kind=k) for k in LONG])
def long_tables(c, kind):
    """many ensembles, or ensembles of many PDFs"""
    sizes = c.choice("sizes", [(66, 64), (5, 130), (1,) * 11, (2, 30, 1, 40)])
    n = sum(sizes)
    ctor, shared, per = many(c, kind, n)
    an = dict(a=np.arange(n) * 3, b=np.arange(2 * n).reshape(n, 2) / 4.0)
    ends = np.cumsum((0,) + tuple(sizes))
    es = [ens(ctor, shared, per, slice(a, b), ancil={k: v[a:b] for k, v in an.items()}) for a, b in zip(ends[:-1], ends[1:])]
    whole = ens(ctor, shared, per)
    if c.choice("append", [False, True]):
        got = es[0]
        for e in es[1:]:
            got.append(e)
    else:
        got = qp.concatenate(es)
    c.check(int(got.npdf) == n, "number of PDFs")
    eq_data(c, got.objdata(), whole.objdata(), "data are stacked in order")
    eq_data(c, got.ancil, an, "ancillary data are stacked in order")
    m = "pdf" if kind == "packed" else "cdf"
    v = getattr(got, m)(0.5)
    c.same_shape(v, (n, 1), f"{m} shape")
    for i in sorted({0, 1, sizes[0] - 1, sizes[0], n // 2, n - 1}):
        c.close(v[i, 0], getattr(alone(ctor, shared, per, i), m)(0.5)[0, 0], f"each PDF keeps its {m}")


@task(configs=[dict(how=h, first=f) for h in ("concatenate", "append") for f in ("whole", "fraction")])
def number_types(c, how, first):
    """columns of whole numbers and of fractions, names of different lengths: no value is changed"""
    v = c.array("v", 4, 0.1, 5)
    whole = dict(loc=np.array([[1], [2]]), scale=np.array([[3], [1]]))
    part = dict(loc=c._mk(np.array([[v[0]], [v[1]]], dtype=object)), scale=c._mk(np.array([[v[2]], [v[3]]], dtype=object)))
    wa = dict(n=np.array([5, 6]), name=np.array(["a", "b"]), flag=np.array([True, False]), big=np.array([2**53 + 1, 3]))
    pa = dict(n=c._mk(np.array([v[0], v[1]], dtype=object)), name=np.array(["longer", "name"]), flag=np.array([True, True]), big=np.array([4, 2**53 + 3]))
    order = [0, 1] if first == "whole" else [1, 0]
    es = [qp.Ensemble(qp.stats.norm, data=d, ancil=a) for d, a in ((whole, wa), (part, pa))]
    es, ds, ans = [es[i] for i in order], [(whole, part)[i] for i in order], [(wa, pa)[i] for i in order]
    if how == "append":
        es[0].append(es[1])
        got = es[0]
    else:
        got = qp.concatenate(es)
    for k in ("loc", "scale"):
        want = [x for d in ds for x in np.asarray(d[k]).ravel()]
        c.close(c._mk(np.asarray(got.objdata()[k]).ravel()), c._mk(np.array(want, dtype=object)), f"{how}: {k} of every PDF")
    c.close(c._mk(np.asarray(got.ancil["n"])), c._mk(np.array([x for a in ans for x in a["n"]], dtype=object)), f"{how}: numbers of every PDF")
    for k in ("name", "flag", "big"):
        c.check(list(got.ancil[k]) == [x for a in ans for x in a[k]], f"{how}: {k} of every PDF")
    x = c.real("x", -3, 3)
    for i, e in enumerate(ds):
        for j in range(2):
            alone_ = qp.Ensemble(qp.stats.norm, data={k: np.asarray(e[k])[j:j + 1] for k in e})
            c.close(got.cdf(x)[2 * i + j, 0], alone_.cdf(x)[0, 0], f"{how}: each PDF keeps its cdf")
