"""Symbolic scalars and the path explorer (replay-based DFS, z3 decides every branch).

The real qp code is *executed*; its floats are exact z3 reals (or path-concrete
floats), every truth value the code asks for is a solver-decided branch.
"""
import math
import operator
import sys
import time
from fractions import Fraction

import numpy as np
import z3

INF = float("inf")
NAN = float("nan")


class PathAbort(BaseException):
    """This path cannot be continued (infeasible / out of budget)."""


class AssumeFailed(BaseException):
    """Concrete replay: the inputs violate an assumption."""


CUR = None  # the active symbolic context (None: no symbolic run is active)


def cur():
    return CUR


_REALCACHE = {}


def rv(v):
    """Exact z3 real for a finite python/numpy number."""
    if isinstance(v, Fraction):
        return z3.RealVal(f"{v.numerator}/{v.denominator}")
    k = float(v) if not isinstance(v, (int, np.integer)) else int(v)
    r = _REALCACHE.get(k)
    if r is None:
        if isinstance(k, int):
            r = z3.RealVal(k)
        else:
            f = Fraction(k)
            r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        if len(_REALCACHE) > 20000:
            _REALCACHE.clear()
        _REALCACHE[k] = r
    return r


def is_sym(v):
    return isinstance(v, (SymNum, SymBool))


def is_conc_num(v):
    return isinstance(v, (int, float, np.number, np.bool_, Fraction))


def z3_to_fraction(val):
    if z3.is_int_value(val):
        return Fraction(val.as_long())
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(f"no numeric value: {val}")


_ND_ATTRS = {
    "astype", "reshape", "ravel", "flatten", "item", "sum", "max", "min", "mean", "std", "var",
    "clip", "copy", "squeeze", "shape", "ndim", "size", "dtype", "T", "tolist", "round", "any",
    "all", "prod", "cumsum", "repeat", "take", "fill", "view", "transpose", "swapaxes", "argmax",
    "argmin", "nonzero", "flat", "dot", "real", "itemsize", "nbytes", "searchsorted",
}


class SymNum:
    """A symbolic number: a z3 term of sort Real or Int."""

    __slots__ = ("e",)
    __hash__ = object.__hash__

    def __init__(self, e):
        self.e = e

    # -- sorts -----------------------------------------------------------
    @property
    def is_int(self):
        return z3.is_int(self.e)

    def real(self):
        return z3.ToReal(self.e) if z3.is_int(self.e) else self.e

    # -- arithmetic ------------------------------------------------------
    def __add__(self, o):
        return num_op("add", self, o)

    def __radd__(self, o):
        return num_op("add", o, self)

    def __sub__(self, o):
        return num_op("sub", self, o)

    def __rsub__(self, o):
        return num_op("sub", o, self)

    def __mul__(self, o):
        return num_op("mul", self, o)

    def __rmul__(self, o):
        return num_op("mul", o, self)

    def __truediv__(self, o):
        return num_op("div", self, o)

    def __rtruediv__(self, o):
        return num_op("div", o, self)

    def __floordiv__(self, o):
        return num_op("fdiv", self, o)

    def __rfloordiv__(self, o):
        return num_op("fdiv", o, self)

    def __mod__(self, o):
        return num_op("mod", self, o)

    def __rmod__(self, o):
        return num_op("mod", o, self)

    def __divmod__(self, o):
        return num_op("fdiv", self, o), num_op("mod", self, o)

    def __pow__(self, o):
        return num_op("pow", self, o)

    def __rpow__(self, o):
        return num_op("pow", o, self)

    def __lshift__(self, o):
        return num_op("shl", self, o)

    def __rlshift__(self, o):
        return num_op("shl", o, self)

    def __rshift__(self, o):
        return num_op("shr", self, o)

    def __rrshift__(self, o):
        return num_op("shr", o, self)

    def __and__(self, o):
        return num_op("band", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return num_op("bor", self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return num_op("bxor", self, o)

    __rxor__ = __xor__

    def __neg__(self):
        return SymNum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison ------------------------------------------------------
    def __lt__(self, o):
        return cmp_op("lt", self, o)

    def __le__(self, o):
        return cmp_op("le", self, o)

    def __gt__(self, o):
        return cmp_op("gt", self, o)

    def __ge__(self, o):
        return cmp_op("ge", self, o)

    def __eq__(self, o):
        return cmp_op("eq", self, o)

    def __ne__(self, o):
        return cmp_op("ne", self, o)

    # -- conversions -----------------------------------------------------
    def __bool__(self):
        return CUR.decide(self.e != 0)

    def __float__(self):
        return CUR.concretize(self)

    def __int__(self):
        e = self.e
        if not z3.is_int(e):
            e = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
        return CUR.enum_int(e)

    def __index__(self):
        if not z3.is_int(self.e):
            raise TypeError("symbolic real used as an index")
        return CUR.enum_int(self.e)

    def __floor__(self):
        return SymNum(z3.ToInt(self.e)) if not self.is_int else self

    def __ceil__(self):
        return SymNum(-z3.ToInt(-self.e)) if not self.is_int else self

    def __trunc__(self):
        if self.is_int:
            return self
        return SymNum(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if nd:
            p = 10**nd
            return (self * p).rint() / p
        return self.rint()

    # -- methods numpy's object loops look for -----------------------------
    def rint(self):
        if self.is_int:
            return self
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return SymNum(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def trunc(self):
        return self.__trunc__()

    def sqrt(self):
        return unary("sqrt", self)

    def exp(self):
        return unary("exp", self)

    def log(self):
        return unary("log", self)

    def log10(self):
        return unary("log10", self)

    def log2(self):
        return unary("log2", self)

    def conjugate(self):
        return self

    def is_integer(self):
        return CUR.decide(z3.IsInt(self.real()))

    def __getattr__(self, name):
        if name in _ND_ATTRS:
            from . import npshim

            return getattr(npshim.sa0(self), name)
        raise AttributeError(name)

    def __repr__(self):
        s = str(self.e)
        return f"<{s if len(s) < 60 else s[:57] + '...'}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise TypeError("symbolic numbers cannot be pickled")


class SymBool:
    __slots__ = ("e",)
    __hash__ = object.__hash__

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, zbool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zbool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return SymBool(self.e == zbool(o))
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return SymBool(self.e != zbool(o))
        return self.num() != o

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return self & o
        return self.num() * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __getattr__(self, name):
        if name in _ND_ATTRS:
            return getattr(np.bool_(bool(self)), name)
        raise AttributeError(name)

    def __repr__(self):
        return f"<bool {str(self.e)[:60]}>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def zbool(v):
    if isinstance(v, SymBool):
        return v.e
    if isinstance(v, SymNum):
        return v.e != 0
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


def zreal(v):
    if isinstance(v, SymNum):
        return v.real()
    if isinstance(v, SymBool):
        return v.num().real()
    return rv(v)


def isbad(v):
    """concrete nan or infinity"""
    return not is_sym(v) and isinstance(v, (float, np.floating)) and not math.isfinite(v)


def _conc(op, a, b):
    """Concrete arithmetic with numpy float64 semantics (python ints stay exact)."""
    if isinstance(a, Fraction):
        a = float(a)
    if isinstance(b, Fraction):
        b = float(b)
    ints = isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer))
    if ints:
        a, b = int(a), int(b)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "fdiv" and b:
            return a // b
        if op == "mod" and b:
            return a % b
        if op == "pow" and b >= 0:
            return a**b
        if op == "shl":
            return a << b
        if op == "shr":
            return a >> b
        if op == "band":
            return a & b
        if op == "bor":
            return a | b
        if op == "bxor":
            return a ^ b
    with np.errstate(all="ignore"):
        a, b = np.float64(a), np.float64(b)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "div":
            return a / b
        if op == "fdiv":
            return a // b
        if op == "mod":
            return a % b
        if op == "pow":
            return a**b
    raise TypeError(f"{op} on {a!r}, {b!r}")


def is_arr(v):
    return isinstance(v, np.ndarray) or isinstance(v, (list, tuple))


def num_op(op, a, b):
    if is_arr(a) or is_arr(b):
        return NotImplemented if not (isinstance(a, np.ndarray) or isinstance(b, np.ndarray)) else _arr_op(op, a, b)
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    if isinstance(a, (bool, np.bool_)):
        a = int(a)
    if isinstance(b, (bool, np.bool_)):
        b = int(b)
    sa, sb = isinstance(a, SymNum), isinstance(b, SymNum)
    if not sa and not is_conc_num(a) or not sb and not is_conc_num(b):
        return NotImplemented
    if not sa and not sb:
        return _conc(op, a, b)
    if isbad(a) or isbad(b):
        return _bad_op(op, a, b)
    if op in ("shl", "shr", "band", "bor", "bxor"):
        return _bit_op(op, a, b)
    both_int = (sa and a.is_int or not sa and isinstance(a, (int, np.integer))) and (
        sb and b.is_int or not sb and isinstance(b, (int, np.integer))
    )
    if both_int and op in ("add", "sub", "mul", "fdiv", "mod"):
        x = a.e if sa else z3.IntVal(int(a))
        y = b.e if sb else z3.IntVal(int(b))
        if op == "add":
            return SymNum(x + y)
        if op == "sub":
            return SymNum(x - y)
        if op == "mul":
            return SymNum(x * y)
        if not sb and int(b) > 0:
            return _split(op, x, int(b))
    if op == "add":
        if not sa and a == 0:
            return b
        if not sb and b == 0:
            return a
        return SymNum(zreal(a) + zreal(b))
    if op == "sub":
        if not sb and b == 0:
            return a
        return SymNum(zreal(a) - zreal(b))
    if op == "mul":
        if not sa and a == 0 or not sb and b == 0:
            return np.float64(0.0)
        if not sa and a == 1:
            return b
        if not sb and b == 1:
            return a
        return SymNum(zreal(a) * zreal(b))
    if op == "div":
        return _div(a, b)
    if op == "fdiv":
        q = _div(a, b)
        return unary("floor", q)
    if op == "mod":
        q = _div(a, b)
        return num_op("sub", a, num_op("mul", unary("floor", q), b))
    if op == "pow":
        return _pow(a, b)
    raise TypeError(op)


def _arr_op(op, a, b):
    uf = {
        "add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.true_divide,
        "fdiv": np.floor_divide, "mod": np.remainder, "pow": np.power, "shl": np.left_shift,
        "shr": np.right_shift, "band": np.bitwise_and, "bor": np.bitwise_or, "bxor": np.bitwise_xor,
    }[op]
    from . import npshim

    return npshim.call_ufunc(uf, a, b)


def _div(a, b):
    """a / b, at least one symbolic, both finite."""
    if not isinstance(b, SymNum):
        if b == 0:
            return _over_zero(a, math.copysign(1.0, b))
        if b == 1:
            return a
        return SymNum(zreal(a) / rv(b))
    be = b.real()
    cval = CUR.const_value(be)
    if cval is not None:
        if cval == 0:
            return _over_zero(a, 1.0)
        if not isinstance(a, SymNum):
            return np.float64(float(Fraction(float(a)) / cval)) if cval != 1 else a
        return SymNum(a.real() / rv(cval)) if cval != 1 else a
    if CUR.decide(be == 0):
        return _over_zero(a, 1.0)
    if not isinstance(a, SymNum) and a == 0:
        return np.float64(0.0)
    return SymNum(zreal(a) / be)


def _over_zero(a, sgn):
    if isinstance(a, SymNum):
        if CUR.decide(a.real() == 0):
            return np.float64(NAN)
        return np.float64(INF * sgn) if CUR.decide(a.real() > 0) else np.float64(-INF * sgn)
    with np.errstate(all="ignore"):
        return np.float64(a) / np.float64(0.0 * sgn)


def _bad_op(op, a, b):
    if any(isbad(v) and math.isnan(v) for v in (a, b)):
        return np.float64(NAN)
    # one is +-inf, the other symbolic
    ainf = isbad(a)
    infv = float(a if ainf else b)
    s = b if ainf else a
    if op == "add":
        return np.float64(infv)
    if op == "sub":
        return np.float64(infv if ainf else -infv)
    if op == "mul":
        if CUR.decide(s.real() == 0):
            return np.float64(NAN)
        return np.float64(infv if CUR.decide(s.real() > 0) else -infv)
    if op == "div":
        if not ainf:
            return np.float64(0.0)
        if CUR.decide(s.real() >= 0):
            return np.float64(infv)
        return np.float64(-infv)
    return np.float64(NAN)


def _pow(a, b):
    if isinstance(b, SymNum):
        if b.is_int:
            b = CUR.enum_int(b.e)
            return num_op("pow", a, b)
        return uf("pow", a, b)
    bf = float(b)
    if bf == int(bf) and abs(bf) <= 12:
        n = int(bf)
        if n == 0:
            return np.float64(1.0)
        r = a
        for _ in range(abs(n) - 1):
            r = num_op("mul", r, a)
        return r if n > 0 else num_op("div", 1.0, r)
    if bf == 0.5:
        return unary("sqrt", a)
    return uf("pow", a, b)


def _split(op, e, m):
    """e // m or e % m of an integer term, leaving out what is a multiple of m"""
    e = z3.simplify(e, som=True)
    terms = list(e.children()) if z3.is_add(e) else [e]
    quo, rest, const = [], [], 0
    for t in terms:
        if z3.is_int_value(t):
            const += t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % m == 0:
            quo.append(z3.Product(z3.IntVal(t.arg(0).as_long() // m), *t.children()[1:]))
        else:
            rest.append(t)
    if not rest:
        q, r = divmod(const, m)
        if op == "mod":
            return r
        return SymNum(z3.simplify(z3.Sum(z3.IntVal(q), *quo))) if quo else q
    if not quo:
        return SymNum(e / m if op == "fdiv" else e % m)
    r = z3.Sum(z3.IntVal(const), *rest)
    return SymNum(z3.simplify(r % m if op == "mod" else z3.Sum(*quo) + r / m))


def _bit_op(op, a, b):
    def z(v):
        return v.e if isinstance(v, SymNum) else z3.IntVal(int(v))

    for v in (a, b):
        if isinstance(v, SymNum) and not v.is_int or not isinstance(v, SymNum) and not isinstance(v, (int, np.integer)):
            raise TypeError(f"bit operation {op} on a non-integer")
    if op == "shl" and not isinstance(b, SymNum):
        return SymNum(z(a) * (1 << int(b)))
    if op == "shr" and not isinstance(b, SymNum):
        return _split("fdiv", z(a), 1 << int(b))  # z3 int division floors for positive divisors
    if op == "band":
        if isinstance(a, SymNum) and isinstance(b, SymNum):
            pass
        else:
            s, k = (a, int(b)) if isinstance(a, SymNum) else (b, int(a))
            if k >= 0 and (k & (k + 1)) == 0:  # low-bit mask: exact for any sign
                return _split("mod", s.e, k + 1)
    w = 66

    def bv(v):
        return z3.Int2BV(z(v), w)

    x, y = bv(a), bv(b)
    if op == "bor" or op == "band" or op == "bxor":
        r = {"bor": x | y, "band": x & y, "bxor": x ^ y}[op]
        # when the operands cannot overlap, or is plus (keeps the query in integer arithmetic)
        if op == "bor":
            for p, q in ((a, b), (b, a)):
                if isinstance(q, SymNum) or not isinstance(q, SymNum):
                    for k in (16, 8, 32):
                        zp, zq = z(p), z(q)
                        if CUR.implied(z3.And(zq >= 0, zq < (1 << k), zp % (1 << k) == 0)):
                            return SymNum(zp + zq)
        return SymNum(z3.BV2Int(r, is_signed=True))
    if op == "shl":
        return SymNum(z3.BV2Int(x << y, is_signed=True))
    return SymNum(z3.BV2Int(x >> y, is_signed=True))


_CMP = {
    "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
    "eq": operator.eq, "ne": operator.ne,
}


def cmp_op(op, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from . import npshim

        uf_ = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal,
               "eq": np.equal, "ne": np.not_equal}[op]
        return npshim.call_ufunc(uf_, a, b)
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    if not (isinstance(a, SymNum) or is_conc_num(a)) or not (isinstance(b, SymNum) or is_conc_num(b)):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if not is_sym(a) and not is_sym(b):
        return bool(_CMP[op](a, b))
    for v, other_first in ((a, False), (b, True)):
        if isbad(v):
            if math.isnan(v):
                return op == "ne"
            # s finite
            fa, fb = (0.0, v) if other_first else (v, 0.0)
            return bool(_CMP[op](fa, fb))
    if (isinstance(a, SymNum) and a.is_int or isinstance(a, (int, np.integer))) and (
        isinstance(b, SymNum) and b.is_int or isinstance(b, (int, np.integer))
    ):
        x = a.e if isinstance(a, SymNum) else z3.IntVal(int(a))
        y = b.e if isinstance(b, SymNum) else z3.IntVal(int(b))
    else:
        x, y = zreal(a), zreal(b)
    return SymBool(_CMP[op](x, y))


# ---------------------------------------------------------------------------
# unary functions; transcendental ones are uninterpreted, with axiom instances
# ---------------------------------------------------------------------------

MONOTONE = {"exp", "log", "log10", "log2", "log1p", "expm1", "ndtr", "ndtri", "cbrt", "arctan", "tanh", "erf", "pow10"}
INVERSES = {"exp": "log", "log": "exp", "ndtr": "ndtri", "ndtri": "ndtr", "log10": "pow10", "pow10": "log10"}


def _np_unary(name, v):
    import scipy.special as sc

    f = getattr(np, name, None)
    if f is None:
        f = getattr(sc, name)
    with np.errstate(all="ignore"):
        return f(np.float64(v))


def unary(name, v):
    if isinstance(v, SymBool):
        v = v.num()
    if not isinstance(v, SymNum):
        if name in ("floor", "ceil", "rint", "trunc") and isinstance(v, (int, np.integer)):
            return v
        return _np_unary(name, v)
    if name == "floor":
        return v.__floor__()
    if name == "ceil":
        return v.__ceil__()
    if name == "trunc" or name == "fix":
        return v.__trunc__()
    if name == "rint":
        return v.rint()
    if name == "negative":
        return -v
    if name in ("absolute", "fabs"):
        return abs(v)
    if name == "square":
        return num_op("mul", v, v)
    if name == "reciprocal":
        return num_op("div", 1.0, v)
    if name == "sign":
        return SymNum(z3.If(v.e > 0, z3.RealVal(1), z3.If(v.e < 0, z3.RealVal(-1), z3.RealVal(0))))
    if name in ("isnan", "isinf"):
        return False
    if name == "isfinite":
        return True
    if name == "sqrt":
        if CUR.decide(v.real() < 0):
            return np.float64(NAN)
        r = CUR.aux("sqrt", v.real())
        if r is None:
            r = CUR.new_aux("sqrt", v.real())
            CUR.axiom(r >= 0)
            CUR.axiom(r * r == v.real())
        return SymNum(r)
    if name in ("log", "log10", "log2"):
        if CUR.decide(v.real() <= 0):
            return np.float64(-INF) if CUR.decide(v.real() == 0) else np.float64(NAN)
        return uf(name, v)
    if name == "log1p":
        return unary("log", 1.0 + v)
    if name == "expm1":
        return unary("exp", v) - 1.0
    if name == "ndtri":
        if CUR.decide(z3.Or(v.real() < 0, v.real() > 1)):
            return np.float64(NAN)
        if CUR.decide(v.real() == 0):
            return np.float64(-INF)
        if CUR.decide(v.real() == 1):
            return np.float64(INF)
        return uf(name, v)
    if name == "log_ndtr":
        return unary("log", uf("ndtr", v))
    return uf(name, v)


def uf(name, *args):
    """An uninterpreted function application (memoised by z3's congruence) + axioms."""
    es = [zreal(a) for a in args]
    if name == "pow" and not isinstance(args[0], SymNum) and float(args[0]) == 10.0:
        name, es = "pow10", es[1:]
    es = [z3.simplify(e) for e in es]
    if all(z3.is_rational_value(e) for e in es) and name not in ("opaque",):
        fl = [float(z3_to_fraction(e)) for e in es]
        try:
            if name == "pow10":
                return np.float64(10.0) ** fl[0]
            if len(fl) == 1:
                return _np_unary(name, fl[0])
        except AttributeError:
            pass
    f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(es) + 1)))
    t = f(*es)
    CUR.uf_seen(name, tuple(es), t)
    return SymNum(t)


def smax(a, b):
    """maximum with numpy nan semantics, merged (no fork)"""
    if isbad(a) or isbad(b):
        for v in (a, b):
            if isbad(v) and math.isnan(v):
                return v
        if isbad(a):
            return a if a > 0 else b
        return b if b > 0 else a
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    if (isinstance(a, SymNum) and a.is_int or isinstance(a, (int, np.integer))) and (
        isinstance(b, SymNum) and b.is_int or isinstance(b, (int, np.integer))):
        x = a.e if isinstance(a, SymNum) else z3.IntVal(int(a))
        y = b.e if isinstance(b, SymNum) else z3.IntVal(int(b))
    else:
        x, y = zreal(a), zreal(b)
    return SymNum(z3.If(x >= y, x, y))


def smin(a, b):
    if isbad(a) or isbad(b):
        for v in (a, b):
            if isbad(v) and math.isnan(v):
                return v
        if isbad(a):
            return a if a < 0 else b
        return b if b < 0 else a
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    if (isinstance(a, SymNum) and a.is_int or isinstance(a, (int, np.integer))) and (
        isinstance(b, SymNum) and b.is_int or isinstance(b, (int, np.integer))):
        x = a.e if isinstance(a, SymNum) else z3.IntVal(int(a))
        y = b.e if isinstance(b, SymNum) else z3.IntVal(int(b))
    else:
        x, y = zreal(a), zreal(b)
    return SymNum(z3.If(x <= y, x, y))


# ---------------------------------------------------------------------------
# one symbolic path
# ---------------------------------------------------------------------------


class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretized = {}
        self.errors = []
        self.aborted = 0
        self.checks = 0
        self.discharged = 0
        self.inconclusive = []
        self.validated = 0
        self.mismatch = []
        self.vacuous = 0
        self.opaque = {}


class Path:
    """Execution of one path: decisions[:] is a prefix to follow, then DFS."""

    def __init__(self, prefix, stats, work, deadline, qtimeout=4000):
        self.prefix, self.vals = prefix[0], list(prefix[1])
        self.nvals0 = len(self.vals)
        self.vi = 0
        self.trace = []
        self.work = work
        self.stats = stats
        self.deadline = deadline
        self.qtimeout = qtimeout
        self.solver = z3.Solver()
        self.solver.set("timeout", qtimeout)
        self.conds = []
        self._model = None
        self.known = {}
        self.keep = []
        self.consts = {}
        self.ufs = {}
        self.auxs = {}
        self.inputs = {}  # name -> SymNum
        self.checks = []
        self.observed = []
        self.nfresh = 0
        self.used_unknown = False
        self.concretized = 0

    # -- solver plumbing ------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def add(self, c):
        self.solver.add(c)
        self.conds.append(c)
        if self._model is not None:
            if not z3.is_true(self._model.eval(c, model_completion=True)):
                self._model = None

    def axiom(self, c):
        self.add(c)

    def model(self):
        if self._model is None:
            r = self._check()
            if r == z3.sat:
                self._model = self.solver.model()
            elif r == z3.unsat:
                raise PathAbort("infeasible")
            else:
                self.stats.unknown += 1
                self.used_unknown = True
                m = self._nlsat()
                if m is None:
                    raise PathAbort("unknown")
                self._model = m
        return self._model

    def _nlsat(self, *extra):
        """Second opinion on the whole conjunction from a fresh solver."""
        for mk in (lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "smt").solver(), lambda: z3.Tactic("qfnra-nlsat").solver()):
            try:
                s = mk()
                s.set("timeout", self.qtimeout * 2)
                s.add(*self.conds)
                s.add(*extra)
                t = time.time()
                r = s.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                if r == z3.sat:
                    return s.model()
                if r == z3.unsat:
                    raise PathAbort("infeasible")
            except z3.Z3Exception:
                continue
        return None

    def decide(self, cond):
        if z3.is_expr(cond):
            cond = z3.simplify(cond)
        else:
            return bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if z3.is_not(cond):
            return not self.decide(cond.arg(0))
        k = cond.get_id()
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        self.stats.branches += 1
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            if time.time() > self.deadline:
                raise PathAbort("deadline")
            m = self.model()
            v = m.eval(cond, model_completion=True)
            if z3.is_true(v):
                val = True
            elif z3.is_false(v):
                val = False
            else:
                val = self._check(cond) != z3.unsat
            other = z3.Not(cond) if val else cond
            r = self._check(other)
            if r != z3.unsat:
                if r == z3.unknown:
                    self.stats.unknown += 1
                self.stats.forks += 1
                self.work.append((self.trace + [not val], list(self.vals)))
        self.trace.append(val)
        self.known[k] = val
        self.keep.append(cond)
        self.add(cond if val else z3.Not(cond))
        return val

    def _memo(self, fn):
        """A solver-derived value, recorded so that replays of the prefix see the same one."""
        i = self.vi
        self.vi += 1
        if i < self.nvals0:
            return self.vals[i]
        if time.time() > self.deadline:
            raise PathAbort("deadline")
        v = fn()
        assert len(self.vals) == i
        self.vals.append(v)
        return v

    def implied(self, cond):
        """Does the path condition imply cond? (no fork)"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._memo(lambda: self._check(z3.Not(cond)) == z3.unsat)

    def const_value(self, e):
        """If the path condition fixes e to one value, that value (Fraction), else None."""
        e = z3.simplify(e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return z3_to_fraction(e)
        k = e.get_id()
        if k in self.consts:
            return self.consts[k][0]
        def f():
            v = self.model().eval(e, model_completion=True)
            if z3.is_rational_value(v) or z3.is_int_value(v):
                self.solver.set("timeout", 1000)
                try:
                    if self._check(e != v) == z3.unsat:
                        return z3_to_fraction(v)
                finally:
                    self.solver.set("timeout", self.qtimeout)
            return None

        res = self._memo(f)
        self.consts[k] = (res, e)
        return res

    def enum_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            v = self._next_value(e)
            if self.decide(e == v):
                return v
            n += 1
            if n > 600:
                raise PathAbort("integer enumeration")

    def _next_value(self, e):
        def f():
            v = self.model().eval(e, model_completion=True)
            if not z3.is_int_value(v):
                raise PathAbort("no integer value")
            return v.as_long()

        return self._memo(f)

    def concretize(self, s):
        e = z3.simplify(s.real())
        if z3.is_rational_value(e):
            return float(z3_to_fraction(e))
        c = self.const_value(e)
        if c is not None:
            return float(c)
        v = self._memo(lambda: z3_to_fraction(self.model().eval(e, model_completion=True)))
        self.add(e == rv(v))
        self.concretized += 1
        f = sys._getframe(2)
        chain = []
        while f is not None and len(chain) < 3:
            fn = f.f_code.co_filename
            if "/vlib/" not in fn:
                chain.append(f"{fn.rsplit('/', 1)[-1]}:{f.f_lineno}")
            f = f.f_back
        key = " < ".join(chain)
        self.stats.concretized[key] = self.stats.concretized.get(key, 0) + 1
        return float(v)

    def input_values(self, m):
        out = {}
        for n, s in self.inputs.items():
            v = m.eval(s.e, model_completion=True)
            try:
                out[n] = z3_to_fraction(v)
            except ValueError:
                out[n] = Fraction(0)
        return out

    # -- auxiliaries ------------------------------------------------------
    def fresh(self, hint, sort="real"):
        self.nfresh += 1
        n = f"{hint}!{self.nfresh}"
        return z3.Real(n) if sort == "real" else z3.Int(n)

    def aux(self, kind, e):
        t = self.auxs.get((kind, z3.simplify(e).get_id()))
        return t[0] if t else None

    def new_aux(self, kind, e):
        es = z3.simplify(e)
        r = self.fresh(kind)
        self.auxs[(kind, es.get_id())] = (r, es)
        return r

    def uf_seen(self, name, es, t):
        lst = self.ufs.setdefault(name, [])
        key = tuple(e.get_id() for e in es)
        for k, _, _ in lst:
            if k == key:
                return
        lst.append((key, es, t))
        self.stats.opaque[name] = self.stats.opaque.get(name, 0) + 1
        if name in ("exp", "pow10"):
            self.axiom(t > 0)
        if name == "ndtr":
            self.axiom(z3.And(t > 0, t < 1))
        if len(es) == 1:
            if name in INVERSES:
                g = INVERSES[name]
                e0 = es[0]
                if z3.is_app(e0) and e0.decl().name() == "uf_" + g:
                    self.axiom(t == e0.arg(0))
            if name in MONOTONE and len(lst) <= 12:
                for _, (o,), ot in lst[:-1]:
                    self.axiom(z3.And((es[0] < o) == (t < ot), (es[0] == o) == (t == ot)))
            if name == "log10":  # es[0] > 0 was decided before: it is ten to the power t
                p = z3.Function("uf_pow10", z3.RealSort(), z3.RealSort())(t)
                self.axiom(p == es[0])
                self.uf_seen("pow10", (t,), p)
                a = es[0]
                self.axiom(z3.And((a > 1) == (t > 0), (a == 1) == (t == 0)))
                self.axiom(t <= (a - 1) * z3.If(a >= 1, z3.Q(4342945, 10**7), z3.Q(4342944, 10**7)))
            if name == "pow10":
                self.axiom(z3.And((es[0] > 0) == (t > 1), (es[0] == 0) == (t == 1)))
            if name == "log":
                self.axiom(z3.And((es[0] > 1) == (t > 0), (es[0] == 1) == (t == 0)))
            if name == "exp":
                self.axiom(z3.And((es[0] > 0) == (t > 1), (es[0] == 0) == (t == 1)))
