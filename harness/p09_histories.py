import numpy as np
import qp

from vlib.runner import task
from vlib.ctx import KF
from .kinds import LONG, alone, build, ens, eq_data, many, more

BOUNDS = "histories of up to 3 (thorough 4) operations in any order on ensembles of 1-2 PDFs, every representation, 1-2 grid points; also long tables of 130 PDFs, of which one is free, through one or two operations, on grids of up to 70 points"
OUTSIDE = "direct assignment to the attributes of the distribution objects; longer histories"
QUICK_S = 120
TASK_S = 50

KINDS = ["hist", "interp", "interp_irregular", "mixmod", "quant", "norm", "packed"]
METH = {"packed": "pdf"}


class Mirror:
    """what the ensemble must contain after each operation"""

    def __init__(self, ctor, shared, per, ancil):
        self.ctor, self.shared, self.per, self.ancil = ctor, shared, per, ancil
        self.npdf = len(next(iter(per.values())))

    def fresh(self):
        return ens(self.ctor, self.shared, self.per, ancil=self.ancil)


def agree(c, e, m, x, grid, label, meth="cdf"):
    f = m.fresh()
    c.check(int(e.npdf) == m.npdf, f"{label}: number of PDFs")
    eq_data(c, e.objdata(), f.objdata(), f"{label}: data")
    eq_data(c, e.metadata(), f.metadata(), f"{label}: metadata")
    c.check((e.ancil is None) == (m.ancil is None), f"{label}: ancillary data or none")
    if m.ancil is not None and e.ancil is not None:
        eq_data(c, e.ancil, m.ancil, f"{label}: ancillary data")
    c.shaped_close(getattr(e, meth)(x), getattr(f, meth)(x), f"{label}: {meth} is that of a new ensemble of the same data")
    if grid is not None:
        g, v = e.gridded(grid)
        c.shaped_close(g, grid, f"{label}: gridded grid")
        c.shaped_close(v, f.pdf(grid), f"{label}: gridded values are the present pdf values")


OPS = ["update", "update_objdata", "append", "set_ancil", "add_to_ancil", "grid_a", "grid_b", "bad_update", "bad_ancil", "select", "set_none"]


def step(c, op, e, m, kind, k, grids):
    """apply one operation to the ensemble and the mirror"""
    name = f"s{k}"
    n = m.npdf
    if op == "update":
        n2 = c.choice(name + "n", [1, 2]) if kind == "norm" else n
        ctor, shared, per = build(c, kind, n2, name=name)
        an = dict(u=c.array(name + "u", n2)) if k % 2 == 0 else None
        e.update(data={**shared, **per}, ancil=an)
        m.shared, m.per, m.ancil, m.npdf = shared, per, an, n2
    elif op == "update_objdata":
        per = more(c, kind, m.shared, n, name)
        an = dict(v=c.array(name + "v", n)) if k % 2 else None
        e.update_objdata(per, ancil=an)
        m.per, m.ancil = per, an
    elif op == "append":
        per = more(c, kind, m.shared, 1, name)
        an = None if m.ancil is None else {q: c.array(name + q, (1,) + np.shape(v)[1:]) for q, v in m.ancil.items()}
        e.append(ens(m.ctor, m.shared, per, ancil=an))
        m.per = {q: np.concatenate([m.per[q], per[q]]) for q in m.per}
        if an is not None:
            m.ancil = {q: np.concatenate([m.ancil[q], an[q]]) for q in an}
        m.npdf += 1
    elif op == "set_ancil":
        m.ancil = dict(a=c.array(name + "a", n), b=c.array(name + "b", (n, 2)))
        e.set_ancil(dict(m.ancil))
    elif op == "set_none":
        e.set_ancil(None)
        m.ancil = None
    elif op == "add_to_ancil":
        new = dict(a=c.array(name + "a", n), d=c.array(name + "d", n))
        e.add_to_ancil(new)
        m.ancil = {**(m.ancil or {}), **new}
    elif op in ("grid_a", "grid_b"):
        e.gridded(grids[op == "grid_b"])
    elif op == "bad_update":
        ctor, shared, per = build(c, kind, n, name=name)
        c.raises((ValueError, IndexError, KeyError), lambda: e.update(data={**shared, **per}, ancil=dict(z=c.array(name + "z", n + 2))), "an update whose ancillary data have another length is refused")
    elif op == "bad_ancil":
        bad = dict(z=c.array(name + "z", n + 2))
        c.raises((ValueError, IndexError), lambda: (e.set_ancil if k % 2 else e.add_to_ancil)(bad), "ancillary data of another length are refused")
    elif op == "select":
        i = n - 1
        f = e[i:]
        m.per = {q: v[i:] for q, v in m.per.items()}
        if m.ancil is not None:
            m.ancil = {q: v[i:] for q, v in m.ancil.items()}
        m.npdf = 1
        return f
    return e


def history(c, kind, depth, npdf, ops, end_grid):
    ctor, shared, per = build(c, kind, npdf)
    ancil = dict(a=c.array("a", npdf)) if c.choice("with_ancil", [True, False]) else None
    m = Mirror(ctor, shared, per, ancil)
    e = m.fresh()
    ga = c.array("ga", 1, -11, 11)
    x = ga[0]
    grids = (ga, ga + 0.5)
    for k in range(depth):
        e = step(c, c.choice(f"op{k}", ops), e, m, kind, k, grids)
    agree(c, e, m, x, grids[end_grid], "after the history", METH.get(kind, "cdf"))


A = ["update", "update_objdata", "append", "grid_a", "bad_update", "select"]
B = ["set_ancil", "add_to_ancil", "bad_ancil", "set_none", "append", "update", "select"]


@task(configs=[dict(kind=k, ops=o, depth=2) for k in ("hist", "norm", "interp") for o in "AB"] + [dict(kind=k, ops="A", depth=1, npdf=2) for k in ("interp_irregular", "mixmod", "quant", "packed", "bspline")]
      + [dict(kind="norm", ops="AB", depth=3)],
      thorough=[dict(kind=k, ops=o, depth=3) for k in ("hist", "interp", "mixmod", "norm") for o in "AB"] + [dict(kind="norm", ops="AB", depth=4), dict(kind="interp_irregular", ops="A", depth=2, npdf=2), dict(kind="quant", ops="A", depth=2)])
def histories(c, kind, ops, depth, npdf=1):
    """after any history the ensemble is what it would be if built afresh"""
    ops = {"A": A, "B": B, "AB": A + ["set_ancil", "add_to_ancil", "bad_ancil"]}[ops]
    history(c, kind, depth, npdf, ops, 0)


@task(configs=[dict(depth=1), dict(depth=2), dict(depth=3)])
def made_of_values(c, depth):
    """spline ensembles made from values at points, changed through their own data and through values"""
    xs = np.array([[0.0, 1.0, 2.5, 4.0]])

    def values(name, n):
        y = np.array([[((3 * i + 5 * j + len(name)) % 7 + 1) / 2.0 for j in range(4)] for i in range(n)], dtype=object)
        y[n - 1, 1] = c.real(name, 0.5, 5)
        x = xs - 0.5 * np.arange(n)[:, None]
        return dict(xvals=x + len(name) % 3, yvals=c._mk(y))

    first = values("y", 2)
    e = qp.Ensemble(qp.spline_from_xy, data=first)
    m = {k: np.array(v) for k, v in e.objdata().items()}
    for k in range(depth):
        op = c.choice(f"op{k}", ["update", "update_objdata", "append", "select"])
        if op == "update" and e.gen_func == qp.spline_from_xy:
            new = values("y" * (k + 2), 2)
            e.update(new)
            m = {q: np.array(v) for q, v in qp.Ensemble(qp.spline_from_xy, data=new).objdata().items()}
        elif op == "update_objdata":
            y = c._mk(np.array([[(i + j) % 4 / 4.0 for j in range(8)] for i in range(len(m["sply"]))], dtype=object))
            y[0, 1] = c.real(f"c{k}", 0, 5)
            e.update_objdata(dict(sply=y))
            m["sply"] = y
        elif op == "append":
            f = qp.Ensemble(qp.spline_from_xy, data=values(f"z{k}", 1))
            m = {q: np.concatenate([m[q], f.objdata()[q]]) for q in m}
            e.append(f)
        elif op == "select":
            e = e[1:] if e.npdf > 1 else e[0]
            m = {q: v[1:] if len(v) > 1 else v for q, v in m.items()}
    f = qp.Ensemble(qp.spline, data=m)
    c.check(int(e.npdf) == len(m["sply"]), "number of PDFs")
    eq_data(c, e.objdata(), m, "data")
    pts = np.array([-0.25, 0.75, 3.0])
    c.shaped_close(e.pdf(pts), f.pdf(pts), "pdf is that of a new ensemble of the same data")
    c.shaped_close(e.cdf(pts), f.cdf(pts), "cdf is that of a new ensemble of the same data")


@task(configs=[dict(kind=k) for k in KINDS + ["bspline"]])
def gridded_cache(c, kind):
    """the values on a grid are the pdf there, whatever was gridded before"""
    npdf, n = (2, 2) if kind in ("interp", "norm", "packed", "bspline") else (1, 2) if kind in ("hist", "interp_irregular", "quant") else (1, 1)
    ctor, shared, per = build(c, kind, npdf)
    e = ens(ctor, shared, per)
    g = c.array("g", n, -11, 11)
    h = c.array("h", n, -11, 11)
    for gr, lab in ((g, "first"), (h, "another grid"), (g, "the first grid again")):
        a, v = e.gridded(gr)
        c.shaped_close(a, gr, f"{lab}: grid")
        c.shaped_close(v, e.pdf(gr), f"{lab}: values")


@task(configs=[dict(kind=k) for k in ("hist", "norm", "interp")])
def grid_reused(c, kind):
    """changing the array of grid points afterwards does not leave stale values behind"""
    ctor, shared, per = build(c, kind, 1)
    e = ens(ctor, shared, per)
    g = c.array("g", 2, -11, 11)
    h = c.array("h", 2, -11, 11) if kind != "hist" else g + c.real("d", -1, 1)
    work = np.array(g, copy=True)
    e.gridded(work)
    for k in range(2):
        work[k] = h[k]
    a, v = e.gridded(work)
    c.shaped_close(v, e.pdf(h), "values after the grid array changed")
    a, v = e.gridded(g)
    c.shaped_close(v, e.pdf(g), "values on the first grid")


@task(configs=[dict(kind=k) for k in KINDS + ["bspline"]])
def other_ensembles(c, kind):
    """operations on one ensemble do not reach another built of the same data"""
    ctor, shared, per = build(c, kind, 2)
    an = dict(a=c.array("a", 2))
    e, f = ens(ctor, shared, per, ancil=an), ens(ctor, shared, per, ancil=an)
    x = c.real("x", -11, 11)
    m = Mirror(ctor, shared, per, dict(an))
    op = c.choice("op", ["update", "update_objdata", "append", "set_ancil", "add_to_ancil"])
    step(c, op, e, Mirror(ctor, shared, per, dict(an)), kind, 0, None)
    agree(c, f, m, x, None, "the other ensemble", METH.get(kind, "cdf"))


@task(configs=[dict(frm=a, to=b) for a in ("piecewise_linear", "piecewise_constant") for b in ("piecewise_linear", "piecewise_constant") if a != b])
def reconstruction_changed(c, frm, to):
    """the reconstruction of quantile PDFs may be changed in place"""
    _, shared, per = build(c, "quant", 1)
    shared = dict(shared, pdf_constructor_name=frm)
    e = qp.Ensemble(qp.quant, data={**shared, **per})
    x = c.real("x", -11, 11)
    g = c.array("g", 1, -11, 11)
    first = c.choice("gridded_before", [True, False])
    old = e.gridded(g)[1] if first else None
    e.dist.pdf_constructor_name = to
    f = qp.Ensemble(qp.quant, data={**dict(shared, pdf_constructor_name=to), **per})
    c.shaped_close(e.pdf(x), f.pdf(x), "pdf follows the chosen reconstruction")
    c.shaped_close(e.gridded(g)[1], f.pdf(g), "gridded values follow the chosen reconstruction",
                   known=KF("stale-grid", when=first, becomes=old) if first else None)


@task(configs=[dict(kind=k) for k in LONG])
def long_tables(c, kind):
    """the same of many PDFs and many grid points"""
    n = 130
    ctor, shared, per = many(c, kind, n)
    an = dict(a=np.arange(n) * 0.5, b=np.arange(2 * n).reshape(n, 2))
    m = Mirror(ctor, shared, per, an)
    e = m.fresh()
    g = np.linspace(-6, 9, 70) if kind in ("hist", "interp", "packed") else np.array([-1.0, 0.25, 2.0])
    x = 0.375
    e.gridded(g)
    for op in c.choice("ops", [["append"], ["select"], ["add"], ["append", "select"], ["select", "append"]]):
        if op == "append":
            extra = {k: v[[3, 70, 0]] for k, v in m.per.items()}
            xa = {k: v[[3, 70, 0]] + 1 for k, v in m.ancil.items()}
            e.append(ens(ctor, shared, extra, ancil=xa))
            m.per = {k: np.concatenate([v, extra[k]]) for k, v in m.per.items()}
            m.ancil = {k: np.concatenate([v, xa[k]]) for k, v in m.ancil.items()}
        elif op == "select":
            rows = np.arange(m.npdf)[::-1][:100]
            e = e[rows]
            m.per = {k: v[rows] for k, v in m.per.items()}
            m.ancil = {k: v[rows] for k, v in m.ancil.items()}
        else:
            new = dict(d=np.arange(n) + 0.25)
            e.add_to_ancil(new)
            m.ancil = {**m.ancil, **new}
        m.npdf = len(next(iter(m.per.values())))
    f = m.fresh()
    c.check(int(e.npdf) == m.npdf, "number of PDFs")
    eq_data(c, e.objdata(), f.objdata(), "data")
    eq_data(c, e.metadata(), f.metadata(), "metadata")
    eq_data(c, e.ancil, f.ancil, "ancillary data")
    meth = METH.get(kind, "cdf")
    rows = [0, 1, 64, 65, m.npdf - 1]
    c.close(getattr(e, meth)(x)[rows], getattr(f, meth)(x)[rows], f"{meth} is that of a new ensemble of the same data")
    v = e.gridded(g)[1]
    c.same_shape(v, (m.npdf, len(g)), "one value for each PDF and grid point")
    c.close(v[rows], f.pdf(g)[rows], "gridded values are the present pdf values")
