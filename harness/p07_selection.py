import numpy as np
import qp

from vlib.runner import task
from .kinds import LONG, alone, build, ens, eq_data, many

BOUNDS = "ensembles of 3 PDFs (2 for spline reconstructions), every representation, 1 evaluation point, 2 ancillary columns; selections: every integer, every start:stop:step with steps of 1, 2 and -1, index lists (repeats, any order), every mask, numbers of several types; also long tables (up to 150 PDFs, rows or objects) of which one is free"
OUTSIDE = "ensembles arranged in several dimensions; the ppf of mixtures (its table spans the whole ensemble)"
QUICK_S = 100

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "quant", "norm", "packed"]
METHODS = {"hist": ("pdf", "cdf", "ppf"), "interp": ("pdf", "cdf", "ppf"), "interp_irregular": ("pdf", "cdf", "ppf"), "mixmod": ("pdf", "cdf"), "quant": ("pdf", "cdf", "ppf"),
           "norm": ("pdf", "cdf", "ppf"), "packed": ("pdf", "cdf"), "bspline": ("pdf", "cdf"), "packed_log": ("pdf",), "quant_spline": ("pdf",), "quant_const": ("pdf",)}


def selections(n):
    ints = list(range(-n, n))
    slices = [slice(a, b, s) for s in (None, 2) for a in (None, 1, -1) for b in (None, n - 1)] + [slice(None, None, -1)]
    slices = [s for s in slices if len(range(n)[s]) > 0]
    lists = [np.array([n - 1, 0]), [0, 0, n - 1], np.array([True] + [False] * (n - 2) + [True])]
    return ints + slices + lists


def chosen(sel, n):
    r = np.arange(n)[sel]
    return [int(r)] if np.ndim(r) == 0 else [int(v) for v in r]


def point(c, m):
    return c.real("x", 0.05, 0.95) if m == "ppf" else c.real("x", -11, 11)


@task(configs=[dict(kind=k) for k in KINDS + ["quant_const", "packed_log", "spline", "bspline"]], thorough=[dict(kind=k, npdf=4) for k in KINDS])
def data(c, kind, npdf=3):
    """tables of a selection are the selected rows"""
    ctor, shared, per = build(c, kind, npdf)
    an = dict(a=c.array("a", npdf), b=c.array("b", (npdf, 2)))
    e = ens(ctor, shared, per, ancil=an)
    sel = c.choice("sel", selections(npdf))
    rows = chosen(sel, npdf)
    f = e[sel]
    c.check(int(f.npdf) == len(rows), "number of selected PDFs")
    whole = e.objdata()
    eq_data(c, f.objdata(), {k: v[rows] for k, v in whole.items()}, "data of the selected PDFs")
    eq_data(c, f.metadata(), e.metadata(), "metadata are kept")
    c.check(set(f.ancil) == {"a", "b"}, "ancillary columns are kept")
    c.close(np.reshape(f.ancil["a"], -1), an["a"][rows], "ancillary values of the selected PDFs")
    c.close(np.reshape(f.ancil["b"], (-1, 2)), an["b"][rows], "ancillary rows of the selected PDFs")
    c.check(int(e.npdf) == npdf, "the original keeps its PDFs")
    eq_data(c, e.objdata(), whole, "the original keeps its data")


@task(configs=[dict(kind=k, npdf=n, ancil=a) for k in ("hist", "interp_irregular", "norm", "quant") for n in (1, 2, 3) for a in (True, False)], thorough=[dict(kind=k, npdf=4, ancil=True) for k in KINDS])
def ways(c, kind, npdf, ancil):
    """every mask, as an array or a list, and numbers of every type select the PDFs they name"""
    ctor, shared, per = build(c, kind, npdf, name="s")
    an = dict(a=c.array("a", npdf)) if ancil else None
    e = ens(ctor, shared, per, ancil=an)
    whole = e.objdata()
    masks = [[bool(m >> i & 1) for i in range(npdf)] for m in range(1, 2 ** npdf)]
    how = c.choice("how", ["mask", "list", "number", "numbers", "one"])
    if how in ("mask", "list"):
        m = c.choice("mask", masks)
        sel = np.array(m) if how == "mask" else list(m)
        rows = [i for i in range(npdf) if m[i]]
    elif how == "number":
        i = c.choice("i", list(range(-npdf, npdf)))
        sel, rows = c.choice("type", [np.int64, np.uint8 if i >= 0 else np.int8, np.int32])(i), [i % npdf]
    elif how == "numbers":
        rows = c.choice("rows", [list(range(npdf)), list(range(npdf))[::-1], [0] * npdf, [npdf - 1]])
        sel = c.choice("type", [list, lambda r: np.array(r, dtype=np.int8), lambda r: np.array(r) - npdf, lambda r: np.array(r, dtype=np.uint16)])(rows)
    else:
        i = c.choice("i", list(range(-npdf, npdf)))
        sel, rows = slice(i, i + 1 or None), [i % npdf]
    f = e[sel]
    c.check(int(f.npdf) == len(rows), "number of selected PDFs")
    eq_data(c, f.objdata(), {k: v[rows] for k, v in whole.items()}, "data of the selected PDFs")
    if ancil:
        c.close(np.reshape(f.ancil["a"], -1), an["a"][rows], "ancillary values of the selected PDFs")
    else:
        c.check(f.ancil is None, "no ancillary values")
    c.check(int(e.npdf) == npdf, "the original keeps its PDFs")


@task(configs=[dict(kind=k, m=m) for k in KINDS + ["quant_spline", "quant_const", "packed_log", "bspline"] for m in METHODS[k]])
def behaviour(c, kind, m):
    """the selected PDFs behave as in the full ensemble"""
    npdf = 2 if kind.startswith(("quant_", "packed_")) else 3
    ctor, shared, per = build(c, kind, npdf)
    x = point(c, m)
    e = ens(ctor, shared, per)
    sel = c.choice("sel", [0, -1, slice(1, None), [npdf - 1, 0], slice(None, None, -1)])
    rows = chosen(sel, npdf)
    f = e[sel]
    got = getattr(f, m)(x)
    c.same_shape(got, (len(rows), 1), f"{m} shape")
    for a, r in enumerate(rows):
        c.close(got[a, 0], getattr(alone(ctor, shared, per, r), m)(x)[0, 0], f"{m} of a selected PDF is that of the PDF itself")
    full = getattr(e, m)(x)
    c.close(got, full[rows], f"{m} of the selection is the selection of the {m}")


@task(configs=[dict(kind=k) for k in ("hist", "interp_irregular", "norm", "quant")])
def repeated(c, kind):
    """a selection of a selection"""
    ctor, shared, per = build(c, kind, 3)
    x = point(c, "cdf")
    an = dict(a=c.array("a", 3))
    e = ens(ctor, shared, per, ancil=an)
    first = c.choice("first", [slice(1, None), [2, 0], slice(None, None, -1)])
    r1 = chosen(first, 3)
    second = c.choice("second", [0, -1, [len(r1) - 1, 0]])
    r2 = [r1[i] for i in chosen(second, len(r1))]
    f = e[first][second]
    c.close(f.cdf(x), e.cdf(x)[r2], "a selection of a selection selects from the selected")
    c.close(np.reshape(f.ancil["a"], -1), an["a"][r2], "ancillary values follow")


@task(configs=[dict(kind=k) for k in ("hist", "interp", "norm")])
def beyond(c, kind):
    ctor, shared, per = build(c, kind, 2)
    e = ens(ctor, shared, per)
    i = c.choice("i", [2, 5, -3])
    c.raises(IndexError, lambda: e[i], "there is no PDF beyond the last")


LONG_SEL = [0, -1, 129, slice(3, None, 7), slice(None, None, -1), slice(60, 70), [139, 0, 70, 0, 128], np.arange(140)[::3], np.arange(140) % 5 == 2, np.array([0, 127, 128, 129])]


@task(configs=[dict(kind=k, npdf=140) for k in LONG])
def long_tables(c, kind, npdf):
    """selections of many PDFs"""
    ctor, shared, per = many(c, kind, npdf)
    an = dict(a=np.arange(npdf) * 3, b=np.arange(2 * npdf).reshape(npdf, 2) / 4.0)
    e = ens(ctor, shared, per, ancil=an)
    sel = LONG_SEL[c.choice("sel", range(len(LONG_SEL)))]
    rows = chosen(sel, npdf)
    f = e[sel]
    c.check(int(f.npdf) == len(rows), "number of selected PDFs")
    eq_data(c, f.objdata(), {k: v[rows] for k, v in e.objdata().items()}, "data of the selected PDFs")
    c.close(np.reshape(f.ancil["a"], -1), an["a"][rows], "ancillary values of the selected PDFs")
    c.close(np.reshape(f.ancil["b"], (-1, 2)), an["b"][rows], "ancillary rows of the selected PDFs")
    m = "pdf" if kind == "packed" else "cdf"
    got = getattr(f, m)(0.5)
    c.same_shape(got, (len(rows), 1), f"{m} shape")
    for k in {0, len(rows) // 2, len(rows) - 1}:
        c.close(got[k, 0], getattr(alone(ctor, shared, per, rows[k]), m)(0.5)[0, 0], f"{m} of a selected PDF is that of the PDF itself")
    c.check(int(e.npdf) == npdf, "the original keeps its PDFs")
