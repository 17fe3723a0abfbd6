"""The harness context: one harness function runs in two modes.

  symbolic : inputs are solver variables, checks are solver queries (path condition => assertion)
  concrete : inputs are given numbers, the real unpatched code runs, checks are float comparisons
"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import npshim, sym
from .npshim import SA, _base, sa
from .sym import AssumeFailed, PathAbort, SymBool, SymNum, is_sym, rv, zbool, zreal


class Violation(Exception):
    pass


def _flat(x):
    b = _base(x) if not isinstance(x, np.ndarray) or isinstance(x, SA) else x
    return b, b.ravel().tolist()


class KF:
    """known-finding region: cond (symbolic/concrete truth) under which the check is known to fail,
    optionally with the exact (wrong) value the known defect produces."""

    def __init__(self, kid, when=True, becomes=None):
        self.kid, self.when, self.becomes = kid, when, becomes


class Ctx:
    symbolic = False

    # ---- inputs -------------------------------------------------------
    def _shape(self, shape):
        return (shape,) if isinstance(shape, int) else tuple(shape)

    def array(self, name, shape, lo=-10.0, hi=10.0):
        shape = self._shape(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "_" + "_".join(map(str, ix)), lo, hi)
        return self._mk(out)

    def sorted(self, name, n, lo=-10.0, hi=10.0, gap=0.01, rows=None):
        """strictly increasing rows"""
        if rows is None:
            a = self.array(name, n, lo, hi)
            for i in range(n - 1):
                self.assume(a[i + 1] - a[i] >= gap)
            return a
        a = self.array(name, (rows, n), lo, hi)
        for r in range(rows):
            for i in range(n - 1):
                self.assume(a[r, i + 1] - a[r, i] >= gap)
        return a

    def ints(self, name, shape, lo, hi):
        shape = self._shape(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.int(name + "_" + "_".join(map(str, ix)), lo, hi)
        return self._mk(out, int)

    def apart(self, xs, gap=1e-3):
        """all values differ by at least gap"""
        g = gap if self.symbolic else 0.9 * gap
        for i in range(len(xs)):
            for j in range(i):
                self.assume(abs(xs[i] - xs[j]) >= g)

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    # ---- derived checks -----------------------------------------------
    def true(self, cond, label, known=None):
        self.check(cond, label, known=known)

    def le(self, a, b, label, tol=1e-6, known=None):
        self._rel("le", a, b, label, tol, known)

    def close(self, a, b, label, tol=1e-6, known=None, scale=1.0):
        """|a - b| <= tol*scale elementwise (shapes must broadcast; nan equals nan)"""
        self._rel("close", a, b, label, tol, known, scale)

    def same_shape(self, a, shape, label, known=None):
        got = tuple(np.shape(a))
        self.check(got == tuple(shape), f"{label}: shape {got} expected {tuple(shape)}" if got != tuple(shape) else label, known=known)

    def shaped_close(self, a, b, label, tol=1e-6, known=None, scale=1.0):
        self.same_shape(a, np.shape(b), label + " [shape]", known)
        if tuple(np.shape(a)) == tuple(np.shape(b)):
            self.close(a, b, label, tol, known, scale)

    def sequence(self, xs):
        return xs


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, path, prop=None):
        self.path = path
        self.stats = path.stats
        self.obs = []
        self.found = []
        self.nchecks = 0
        self.reached = False

    def _mk(self, objarr, kind=float):
        return objarr.view(SA)

    def real(self, name, lo=-10.0, hi=10.0):
        e = z3.Real(name)
        s = SymNum(e)
        assert name not in self.path.inputs, name
        self.path.inputs[name] = s
        self.path.add(z3.And(e >= rv(lo), e <= rv(hi)))
        return s

    def int(self, name, lo, hi):
        e = z3.Int(name)
        s = SymNum(e)
        assert name not in self.path.inputs, name
        self.path.inputs[name] = s
        self.path.add(z3.And(e >= int(lo), e <= int(hi)))
        return s

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort("assume")
            return
        if isinstance(cond, np.ndarray):
            for v in cond.ravel().tolist():
                self.assume(v)
            return
        e = z3.simplify(zbool(cond))
        if z3.is_true(e):
            return
        self.path.add(e)
        self.path._model = None if self.path._model is None else self.path._model

    def ite(self, cond, a, b):
        if isinstance(cond, (bool, np.bool_)):
            return a if cond else b
        return SymNum(z3.If(zbool(cond), zreal(a), zreal(b)))

    def land(self, *cs):
        return SymBool(z3.And(*[zbool(c) for c in cs]))

    def lor(self, *cs):
        return SymBool(z3.Or(*[zbool(c) for c in cs]))

    def lnot(self, c):
        return SymBool(z3.Not(zbool(c)))

    def observe(self, label, v):
        b, fl = _flat(v)
        for i, x in enumerate(fl):
            if isinstance(x, (SymNum, SymBool, int, float, np.number, np.bool_)):
                self.obs.append((f"{label}[{i}]", x))

    # -- assertions
    def check(self, cond, label, known=None):
        if isinstance(cond, np.ndarray):
            cond = [zbool(v) for v in cond.ravel().tolist()]
            cond = z3.And(*cond) if cond else z3.BoolVal(True)
        else:
            cond = zbool(cond)
        self._assert([(cond, None)], label, known)

    def _rel(self, kind, a, b, label, tol, known=None, scale=1.0):
        A, B = _base(a), _base(b)
        A, B = np.broadcast_arrays(A.astype(object), B.astype(object))
        al, bl = A.ravel().tolist(), B.ravel().tolist()
        S = np.broadcast_to(_base(scale).astype(object), A.shape).ravel().tolist()
        conds = []
        beco = None
        if known is not None and known.becomes is not None:
            beco = np.broadcast_to(_base(known.becomes).astype(object), A.shape).ravel().tolist()
        kconds = [] if beco is not None else None
        for i, (x, y) in enumerate(zip(al, bl)):
            self.obs.append((f"{label}.a[{i}]", x))
            self.obs.append((f"{label}.b[{i}]", y))
            conds.append((self._cmp1(kind, x, y, tol, S[i]), (x, y)))
            if beco is not None:
                kconds.append(self._cmp1("close", x, beco[i], tol, S[i]))
        self._assert(conds, label, known, kconds, (kind, tol))

    def _cmp1(self, kind, x, y, tol, s):
        xb, yb = not is_sym(x), not is_sym(y)
        if xb and yb or sym.isbad(x) or sym.isbad(y):
            return z3.BoolVal(_conc_rel(kind, x, y, tol, s if not is_sym(s) else 1.0))
        d = zreal(x) - zreal(y)
        t = rv(tol) * zreal(s) if is_sym(s) or float(s) != 1.0 else rv(tol)
        if kind == "le":
            return d <= t
        return z3.And(d <= t, -d <= t)

    def _assert(self, conds, label, known, kconds=None, spec=None):
        self.reached = True
        p = self.path
        st = self.stats
        st.checks += 1
        allc = [z3.simplify(c) for c, _ in conds]
        if all(z3.is_true(c) for c in allc):
            st.discharged += 1
            return
        goal = z3.And(*allc) if len(allc) != 1 else allc[0]
        neg = z3.Not(goal)
        if known is not None:
            w = zbool(known.when) if not z3.is_expr(known.when) else known.when
            outside = z3.And(neg, z3.Not(w))
            inside = z3.And(neg, w)
            if kconds is not None:
                ok_known = z3.And(*[z3.Or(c, k) for c, k in zip(allc, kconds)])
                outside = z3.Or(outside, z3.And(inside, z3.Not(ok_known)))
                inside = z3.And(inside, ok_known)
            st.checks += 1
            self._query(outside, conds, label, None, spec)
            self._query(inside, conds, label, known.kid, spec)
        else:
            self._query(neg, conds, label, None, spec)

    def _query(self, neg, conds, label, kid, spec):
        p, st = self.path, self.stats
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            st.discharged += 1
            return
        # quick look: does the current model already violate?
        r = p._check(neg)
        m = None
        if r == z3.sat:
            m = p.solver.model()
        elif r == z3.unknown:
            try:
                m = p._nlsat(neg)
                if m is None:
                    # split the conjunction
                    m = self._split(conds, neg, kid)
                    if m == "unsat":
                        st.discharged += 1
                        return
            except PathAbort:  # unsat by the second solver
                st.discharged += 1
                return
            if m is None:
                st.unknown += 1
                st.inconclusive.append(label)
                return
        else:
            st.discharged += 1
            return
        models = [m]
        # a clearer violation, if there is one
        if kid is None and spec is not None:
            kind, tol = spec
            for margin in (1.0, 0.1, 1e-2, 1e-3):
                if margin <= tol:
                    break
                big = []
                for _, xy in conds:
                    if xy is None or sym.isbad(xy[0]) or sym.isbad(xy[1]) or not (is_sym(xy[0]) or is_sym(xy[1])):
                        continue
                    d = zreal(xy[0]) - zreal(xy[1])
                    big.append(d > rv(margin) if kind == "le" else z3.Or(d > rv(margin), -d > rv(margin)))
                if not big:
                    break
                if p._check(neg, z3.Or(*big)) == z3.sat:
                    models.insert(0, p.solver.model())
                    break
        # generic position: all inputs different from each other and from 0
        cons = []
        ins = [s.e for s in p.inputs.values() if not s.is_int]
        if kid is None and 1 < len(ins) <= 14:
            for i, a in enumerate(ins):
                for b in ins[:i]:
                    cons.append(z3.Or(a - b > rv(0.03125), b - a > rv(0.03125)))
            if p._check(neg, *cons) == z3.sat:
                models.append(p.solver.model())
        for m in models:
            self.found.append((label, kid, p.input_values(m)))

    def _split(self, conds, neg, kid):
        if len(conds) < 2:
            return None
        for c, _ in conds:
            c = z3.simplify(c)
            if z3.is_true(c):
                continue
            r = self.path._check(z3.Not(c))
            if r == z3.sat:
                return self.path.solver.model() if kid is None else None
            if r == z3.unknown:
                try:
                    m = self.path._nlsat(z3.Not(c))
                except PathAbort:
                    continue
                if m is not None:
                    return m if kid is None else None
                return None
        return "unsat"

    def raises(self, exc, fn, label, known=None):
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        self.check(False, label, known=known)
        return False


def _conc_rel(kind, x, y, tol, scale=1.0):
    x, y = _num(x), _num(y)
    if isinstance(x, complex) or isinstance(y, complex):
        return False
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x <= y if kind == "le" else x == y
    d = x - y
    if kind == "le":
        return d <= tol * scale
    return abs(d) <= tol * scale


def _num(v):
    if isinstance(v, (SymNum, SymBool)):
        raise TypeError("symbolic value in a concrete run")
    if v is None:
        return float("nan")
    return float(v)


class ConcCtx(Ctx):
    """concrete replay on the real code"""

    def __init__(self, values, slack=1e-9, strict=1.0):
        self.values = values
        self.slack = slack
        self.strict = strict
        self.obs = []
        self.failed = []
        self.reached = False

    def _mk(self, objarr, kind=float):
        return objarr.astype(kind)

    def real(self, name, lo=-10.0, hi=10.0):
        v = float(self.values.get(name, Fraction(max(lo, min(hi, 0)))))
        if v < lo - self.slack or v > hi + self.slack:
            raise AssumeFailed(name)
        return np.float64(v)

    def int(self, name, lo, hi):
        v = int(self.values.get(name, max(lo, min(hi, 0))))
        if v < lo or v > hi:
            raise AssumeFailed(name)
        return v

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        if not bool(cond):
            raise AssumeFailed()

    def ite(self, cond, a, b):
        return a if bool(cond) else b

    def land(self, *cs):
        return all(bool(c) for c in cs)

    def lor(self, *cs):
        return any(bool(c) for c in cs)

    def lnot(self, c):
        return not bool(c)

    def observe(self, label, v):
        b = np.asarray(v)
        for i, x in enumerate(b.ravel().tolist()):
            if isinstance(x, (int, float, bool)):
                self.obs.append((f"{label}[{i}]", x))

    def check(self, cond, label, known=None):
        self.reached = True
        ok = bool(np.all(cond))
        if not ok:
            self._fail(label, known, None)

    def _fail(self, label, known, detail, kmatch=True):
        kid = None
        if known is not None and bool(known.when) and kmatch:
            kid = known.kid
        self.failed.append((label, kid, detail))

    def _rel(self, kind, a, b, label, tol, known=None, scale=1.0):
        self.reached = True
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        S = np.broadcast_to(np.asarray(scale, dtype=object), A.shape).ravel().tolist()
        beco = None
        if known is not None and known.becomes is not None:
            beco = np.broadcast_to(np.asarray(known.becomes, dtype=object), A.shape).ravel().tolist()
        bad, kmatch = None, True
        for i, (x, y) in enumerate(zip(A.ravel().tolist(), B.ravel().tolist())):
            self.obs.append((f"{label}.a[{i}]", _num(x)))
            self.obs.append((f"{label}.b[{i}]", _num(y)))
            if not _conc_rel(kind, x, y, tol * self.strict, float(S[i])):
                bad = bad or f"element {i}: got {x!r}, {'must be <=' if kind == 'le' else 'expected'} {y!r}"
                if beco is not None and not _conc_rel("close", x, beco[i], max(tol * 10, 1e-6), float(S[i])):
                    kmatch = False
        if bad:
            self._fail(label, known, bad, kmatch)

    def raises(self, exc, fn, label, known=None):
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        self.check(False, label, known=known)
        return False
