"""Symbolic values and the dynamic symbolic execution engine.

Numbers are wrappers around exact rationals (constants) or z3 terms of sort
Real/Int.  They live in ordinary numpy object arrays, so the real numpy slicing,
views, masks and broadcasting run natively on them; a comparison whose truth is
needed by the code under test (``__bool__``) asks the engine, which forks the
execution (decision-prefix re-execution, infeasible sides pruned by z3).
"""
import math
import numbers
import operator
import os
import sys
import threading
import time
from fractions import Fraction

import numpy as np
import z3


class EngineStop(BaseException):
    """Base of the engine's own control flow (never caught by code under test)."""


class Unsupported(EngineStop):
    """The code needs an operation the engine cannot encode."""


class PathEnd(EngineStop):
    """Current path is finished (infeasible assumption)."""


class Budget(EngineStop):
    """Time or path budget exhausted."""


class _Nan:
    def __repr__(self):
        return "NAN"

    def __deepcopy__(self, memo):
        return self


NAN = _Nan()
TRACE = os.environ.get("VF_SLOW")

ENGINE = None  # the active engine (symbolic mode) or None


def set_engine(e):
    global ENGINE
    ENGINE = e
    UNITS.clear()


def _const_term(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return z3.IntVal(c)
    return z3.RealVal(c)  # Fraction


def to_fraction(x):
    return Fraction(x)


def lift(x):
    """Python/numpy number -> payload (int, Fraction, z3 term, NAN or float inf)."""
    if isinstance(x, SNum):
        return x.v
    if isinstance(x, SBool):
        if isinstance(x.b, bool):
            return int(x.b)
        return z3.If(x.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return x
        return Fraction(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def is_inf(v):
    return isinstance(v, float)


def term(v):
    """payload -> z3 term."""
    if isinstance(v, (int, Fraction)):
        return _const_term(v)
    return v


def rterm(v):
    """payload -> z3 Real term."""
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(v)
    if v.sort() == z3.IntSort():
        return z3.ToReal(v)
    return v


def is_z(v):
    return isinstance(v, z3.ExprRef)


def is_int_payload(v):
    return isinstance(v, int) or (is_z(v) and v.sort() == z3.IntSort())


def _arr_other(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


FORKS = {} if os.environ.get("VF_FORKS") else None


HASHED = None


class SNum:
    """Symbolic (or exact constant) number."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    # ---- helpers
    def const(self):
        return not is_z(self.v)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    def __hash__(self):
        if HASHED is not None:
            # one bucket per value: decides which of the numbers hashed so far
            # are equal (only used where every hashed number is symbolic)
            for i, x in enumerate(HASHED):
                if self is x or bool(self == x):
                    return i
            HASHED.append(self)
            return len(HASHED) - 1
        if self.const() and self.v is not NAN:
            return hash(self.v)
        return hash(("SNum", self.v.get_id())) if is_z(self.v) else hash("nan")

    def __repr__(self):
        return f"<{self.v}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # ---- arithmetic
    def _bin(self, o, op):
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag == 0:
                o = o.real
            else:
                return getattr(SComplex(self, SNum(0)), "__%s__" % op)(o)
        b = lift(o)
        if b is None:
            return NotImplemented
        return SNum(arith(op, self.v, b))

    def _rbin(self, o, op):
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            if o.imag == 0:
                o = o.real
            else:
                return getattr(SComplex.of(o), "__%s__" % op)(self)
        b = lift(o)
        if b is None:
            return NotImplemented
        return SNum(arith(op, b, self.v))

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._rbin(o, "add")
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._rbin(o, "sub")
    def __mul__(self, o): return self._bin(o, "mul")
    def __rmul__(self, o): return self._rbin(o, "mul")
    def __truediv__(self, o): return self._bin(o, "truediv")
    def __rtruediv__(self, o): return self._rbin(o, "truediv")
    def __floordiv__(self, o): return self._bin(o, "floordiv")
    def __rfloordiv__(self, o): return self._rbin(o, "floordiv")
    def __mod__(self, o): return self._bin(o, "mod")
    def __rmod__(self, o): return self._rbin(o, "mod")
    def __pow__(self, o): return self._bin(o, "pow")
    def __rpow__(self, o): return self._rbin(o, "pow")

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return SNum(arith("mul", -1, self.v))

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        if v is NAN:
            return self
        if not is_z(v):
            return SNum(abs(v))
        if v.get_id() in UNITS and len(UNITS[v.get_id()][1]) == 1:
            (k, c), = UNITS[v.get_id()][1].items()
            return SNum(_from_powers({k: abs(SNum(c)).v}))
        return SNum(z3.If(v >= 0, v, -v))

    def __float__(self):
        if self.v is NAN:
            return float("nan")
        if self.const():
            return float(self.v)
        raise Unsupported("float() of a symbolic number")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return int(self.trunc())

    def trunc(self):
        if self.const():
            return math.trunc(self.v)
        v = self.v
        if v.sort() == z3.IntSort():
            return ENGINE.concretize(v)
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return ENGINE.concretize(t)

    def __trunc__(self):
        return self.trunc()

    def __index__(self):
        if self.const():
            if isinstance(self.v, int):
                return self.v
            raise TypeError("non-integer index")
        if self.v.sort() == z3.IntSort():
            return ENGINE.concretize(self.v)
        raise TypeError("non-integer index (symbolic real)")

    def __floor__(self):
        if self.const():
            return SNum(math.floor(self.v))
        return SNum(z3.ToInt(self.v) if self.v.sort() == z3.RealSort()
                    else self.v)

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, n=None):
        if n is None or n == 0:
            if self.const():
                return SNum(round(self.v))
            return (self + Fraction(1, 2)).__floor__()
        return ((self * 10**n + Fraction(1, 2)).__floor__()) / 10**n

    # numpy's object-dtype ufuncs call these methods
    def floor(self): return self.__floor__()
    def ceil(self): return self.__ceil__()
    def rint(self): return self.__round__()
    def conjugate(self): return self
    def conj(self): return self

    def sqrt(self):
        return sym_sqrt(self)

    def cos(self): return ENGINE.trig(self, "cos")
    def sin(self): return ENGINE.trig(self, "sin")

    def tan(self):
        return self.sin() / self.cos()

    def exp(self): return ENGINE.uf("exp", self)
    def log(self): return ENGINE.uf("log", self)
    def log10(self): return ENGINE.uf("log10", self)
    def tanh(self): return ENGINE.uf("tanh", self)
    def sinh(self): return ENGINE.uf("sinh", self)
    def cosh(self): return ENGINE.uf("cosh", self)
    def arctan(self): return ENGINE.uf("arctan", self)
    def arccos(self): return ENGINE.uf("arccos", self)
    def arcsin(self): return ENGINE.uf("arcsin", self)
    def arctan2(self, o): return ENGINE.arctan2(self, o)
    def square(self): return self * self
    def isnan(self): return self.v is NAN
    def isfinite(self): return not (self.v is NAN or is_inf(self.v))
    def isinf(self): return is_inf(self.v)
    def copy(self): return self
    def item(self): return self
    def is_integer(self): return self == self.__floor__()

    def astype(self, *_a, **_k):
        return self

    @property
    def real(self): return self

    @property
    def imag(self): return SNum(0)

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def size(self): return 1

    # ---- comparisons
    def _cmp(self, o, op):
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, SComplex):
            return NotImplemented
        b = lift(o)
        if b is None:
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        return compare(op, self.v, b)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __bool__(self):
        return bool(self != 0)


numbers.Number.register(SNum)
numbers.Real.register(SNum)


# -- a positive unit of measurement -------------------------------------------
# Numbers built from one positive symbolic unit r are kept as sum c_k r^k with
# coefficients c_k free of r.  Sums, products and quotients by a single power
# are exact, so that quantities of one dimension compare like their
# coefficients; a mixture of dimensions is an ordinary polynomial term in r and
# 1/r for the solver.
UNITS = {}      # id of z3 term -> (term, {power: coefficient})
_UNIT = [None, None]


def unit_var(r):
    """Declare the z3 constant r > 0 to be the unit; returns (1/r, relation)."""
    u = z3.Real(str(r) + "^-1")
    UNITS.clear()
    _UNIT[:] = [r, u]
    UNITS[r.get_id()] = (r, {1: 1})
    UNITS[u.get_id()] = (u, {-1: 1})
    return u, r * u == 1


def _powers(v):
    if is_z(v):
        e = UNITS.get(v.get_id())
        if e is not None:
            return e[1]
    return {0: v}


def _from_powers(d):
    d = {k: c for k, c in d.items() if is_z(c) or c != 0}
    if not d:
        return 0
    if set(d) == {0}:
        return d[0]
    t = None
    for k in sorted(d):
        m = rterm(d[k])
        for _ in range(abs(k)):
            m = m * _UNIT[0 if k > 0 else 1]
        t = m if t is None else t + m
    UNITS[t.get_id()] = (t, d)
    return t


def _unit_arith(op, a, b):
    """Result payload, or None where the decomposition does not help."""
    da, db = _powers(a), _powers(b)
    if op in ("add", "sub"):
        out = dict(da)
        for k, c in db.items():
            out[k] = arith(op, out.get(k, 0), c)
        return _from_powers(out)
    if op == "mul":
        out = {}
        for k, c in da.items():
            for l, d in db.items():
                out[k + l] = arith("add", out.get(k + l, 0),
                                   arith("mul", c, d))
        return _from_powers(out)
    if op == "truediv" and len(db) == 1:
        (l, d), = db.items()
        out = {k - l: arith("truediv", c, d) for k, c in da.items()}
        if any(c is NAN for c in out.values()):
            return NAN
        return _from_powers(out)
    if op == "mod" and len(da) == len(db) == 1 and set(da) == set(db):
        (k, c), = da.items()
        r = arith("mod", c, db[k])
        return NAN if r is NAN else _from_powers({k: r})
    return None


def _unit_compare(op, a, b):
    d = _unit_arith("sub", a, b)
    if not is_z(d):
        return compare(op, d, 0)
    p = _powers(d)
    if len(p) == 1:
        return compare(op, list(p.values())[0], 0)
    return None


def arith(op, a, b):
    """payload x payload -> payload."""
    if a is NAN or b is NAN:
        return NAN
    if is_inf(a) or is_inf(b):
        return _inf_arith(op, a, b)
    za, zb = is_z(a), is_z(b)
    if not za and not zb:
        return _const_arith(op, a, b)
    if UNITS and op in ("add", "sub", "mul", "truediv", "mod") and (
            (za and a.get_id() in UNITS) or (zb and b.get_id() in UNITS)):
        r = _unit_arith(op, a, b)
        if r is not None:
            return r
    if op == "add":
        if not za and a == 0:
            return b if zb else b
        if not zb and b == 0:
            return a
        return _mix(a, b, operator.add)
    if op == "sub":
        if not zb and b == 0:
            return a
        if za and zb and a.eq(b):
            return 0
        return _mix(a, b, operator.sub)
    if op == "mul":
        if not za:
            if a == 0:
                return 0
            if a == 1:
                return b
        if not zb:
            if b == 0:
                return 0
            if b == 1:
                return a
        return _mix(a, b, operator.mul)
    if op == "truediv":
        if not zb:
            if b == 0:
                return NAN
            return rterm(a) * z3.RealVal(Fraction(1) / Fraction(b))
        rb = rterm(b)
        if ENGINE.decide(rb == 0):
            ENGINE.note_divzero()
            return NAN
        if not za and a == 0:
            return 0
        if za and a.eq(b):
            return 1
        return ENGINE.divide(rterm(a), rb)
    if op == "pow":
        if not zb:
            if isinstance(b, Fraction) and b.denominator == 1:
                b = int(b)
            if isinstance(b, int):
                if b == 0:
                    return 1
                n = abs(b)
                r = a
                for _ in range(n - 1):
                    r = arith("mul", r, a)
                return r if b > 0 else arith("truediv", 1, r)
            if b == Fraction(1, 2):
                return sym_sqrt(SNum(a)).v
            if b == Fraction(3, 2):
                return arith("mul", a, sym_sqrt(SNum(a)).v)
            if b == Fraction(-1, 2):
                return arith("truediv", 1, sym_sqrt(SNum(a)).v)
        return ENGINE.uf2("pow", a, b)
    if op == "floordiv":
        if is_int_payload(a) and is_int_payload(b):
            if zb:
                if ENGINE.decide(term(b) == 0):
                    raise ZeroDivisionError("symbolic floordiv")
                neg = ENGINE.decide(term(b) < 0)
                ta, tb = term(a), term(b)
                return (-ta) / (-tb) if neg else ta / tb
            if b < 0:
                return (-term(a)) / z3.IntVal(-b)
            return term(a) / term(b)
        q = arith("truediv", a, b)
        if q is NAN or not is_z(q):
            return q if q is NAN else math.floor(q)
        return z3.ToInt(q)
    if op == "mod":
        if is_int_payload(a) and not zb and isinstance(b, int) and b > 0:
            return term(a) % b
        # x mod m with a fresh integer quotient keeps the problem linear when
        # m is a constant
        return ENGINE.fmod(a, b)
    raise Unsupported("arith " + op)


def _mix(a, b, f):
    if is_int_payload(a) and is_int_payload(b):
        return f(term(a), term(b))
    return f(rterm(a), rterm(b))


def _const_arith(op, a, b):
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    if op == "truediv":
        if b == 0:
            return NAN
        return Fraction(a) / Fraction(b)
    if op == "floordiv":
        if b == 0:
            raise ZeroDivisionError
        return math.floor(Fraction(a) / Fraction(b))
    if op == "mod":
        if b == 0:
            return NAN
        return a % b
    if op == "pow":
        if isinstance(b, Fraction) and b.denominator == 1:
            b = int(b)
        if isinstance(b, int):
            if b < 0 and a == 0:
                return NAN
            return Fraction(a) ** b if b < 0 else a ** b
        if b == Fraction(1, 2) and a >= 0:
            n, d = Fraction(a).numerator, Fraction(a).denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return Fraction(rn, rd)
            if ENGINE is not None:
                return sym_sqrt(SNum(a)).v
        if a < 0:
            return NAN
        return Fraction(float(a) ** float(b))
    raise Unsupported(op)


def _inf_arith(op, a, b):
    def sgn(v):
        if is_z(v):
            if ENGINE.decide(rterm(v) > 0):
                return 1.0
            return -1.0 if ENGINE.decide(rterm(v) < 0) else 0.0
        return float(v) if is_inf(v) else (v > 0) - (v < 0)
    if op == "add":
        r = (a if is_inf(a) else 0.0) + (b if is_inf(b) else 0.0)
    elif op == "sub":
        r = (a if is_inf(a) else 0.0) - (b if is_inf(b) else 0.0)
    elif op == "mul":
        r = sgn(a) * sgn(b)
    elif op == "truediv":
        if is_inf(b):
            r = float("nan") if is_inf(a) else 0.0
        else:
            s = sgn(b)
            r = float("nan") if s == 0 else a * s
    else:
        return NAN
    if math.isnan(r):
        return NAN
    return 0 if r == 0 else r


_CMP = {"lt": operator.lt, "le": operator.le, "gt": operator.gt,
        "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}


def compare(op, a, b):
    if a is NAN or b is NAN:
        return op == "ne"
    if is_inf(a) or is_inf(b):
        fa = a if is_inf(a) else 0.0
        fb = b if is_inf(b) else 0.0
        return bool(_CMP[op](fa, fb))
    if not is_z(a) and not is_z(b):
        return bool(_CMP[op](a, b))
    if UNITS and ((is_z(a) and a.get_id() in UNITS)
                  or (is_z(b) and b.get_id() in UNITS)):
        r = _unit_compare(op, a, b)
        if r is not None:
            return r
    if is_int_payload(a) and is_int_payload(b):
        t = _CMP[op](term(a), term(b))
    else:
        t = _CMP[op](rterm(a), rterm(b))
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def sym_sqrt(x):
    v = x.v
    if v is NAN or is_inf(v):
        return x if v is NAN or v > 0 else SNum(NAN)
    if not is_z(v):
        if v < 0:
            return SNum(NAN)
        n, d = Fraction(v).numerator, Fraction(v).denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return SNum(Fraction(rn, rd))
        if 1e-290 < v < 1e290:
            # both operands concrete: the double the code would compute
            return SNum(Fraction(math.sqrt(v)))
        v = z3.RealVal(v)
    if v.get_id() in UNITS:
        p = UNITS[v.get_id()][1]
        if len(p) == 1 and list(p)[0] % 2 == 0:
            (k, c), = p.items()
            return SNum(_from_powers({k // 2: sym_sqrt(SNum(c)).v}))
    return SNum(ENGINE.sqrt(rterm(v)))


class SBool:
    """Symbolic boolean; ``strong`` is a robust form of the negation."""
    __slots__ = ("b", "strong")

    def __init__(self, b, strong=None):
        self.b = b
        self.strong = strong

    def __bool__(self):
        if isinstance(self.b, bool):
            return self.b
        if ENGINE is None:
            raise RuntimeError("symbolic bool outside an engine")
        return ENGINE.decide(self.b)

    def __deepcopy__(self, memo):
        return self

    def __hash__(self):
        return hash(("SBool", self.b if isinstance(self.b, bool)
                     else self.b.get_id()))

    def __repr__(self):
        return f"<{self.b}>"

    def __and__(self, o): return SBool(z3.And(bterm(self), bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(bterm(self), bterm(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(bterm(self), bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(bterm(self)))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(z3.simplify(bterm(self) == bterm(o)))
        b = lift(o)
        if b is None:
            return False
        return compare("eq", lift(self), b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def _n(self): return SNum(lift(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._n() < o
    def __gt__(self, o): return self._n() > o
    def __le__(self, o): return self._n() <= o
    def __ge__(self, o): return self._n() >= o
    def logical_not(self): return ~self
    def logical_and(self, o): return self & o
    def logical_or(self, o): return self | o


def bterm(x):
    if isinstance(x, SBool):
        return z3.BoolVal(x.b) if isinstance(x.b, bool) else x.b
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


class SComplex:
    """Complex number with symbolic parts, in Cartesian and/or polar form.

    The polar form (amp >= 0 is the caller's obligation) makes abs/angle exact
    without transcendental reasoning.
    """
    __slots__ = ("_re", "_im", "amp", "ph")

    def __init__(self, re=None, im=None, amp=None, ph=None):
        self._re, self._im, self.amp, self.ph = re, im, amp, ph

    @staticmethod
    def of(z):
        if isinstance(z, SComplex):
            return z
        if isinstance(z, SNum):
            return SComplex(z, SNum(0))
        z = complex(z)
        return SComplex(SNum(lift(z.real)), SNum(lift(z.imag)))

    @staticmethod
    def polar(amp, ph):
        return SComplex(amp=amp, ph=ph)

    def _cart(self):
        if self._re is None:
            self._re = self.amp * self.ph.cos()
            self._im = self.amp * self.ph.sin()

    @property
    def real(self):
        self._cart()
        return self._re

    @property
    def imag(self):
        self._cart()
        return self._im

    def __deepcopy__(self, memo):
        return self

    def copy(self): return self

    def conjugate(self):
        if self.amp is not None:
            return SComplex.polar(self.amp, -self.ph)
        return SComplex(self._re, -self._im)
    conj = conjugate

    def __abs__(self):
        if self.amp is not None:
            return self.amp
        return sym_sqrt(self.real * self.real + self.imag * self.imag)

    def angle(self):
        if self.ph is not None:
            return ENGINE.wrap_angle(self.ph)
        return ENGINE.arctan2(self.imag, self.real)

    def _co(self, o):
        if _arr_other(o):
            return NotImplemented
        if isinstance(o, (SComplex, complex, np.complexfloating)):
            return SComplex.of(o)
        b = lift(o)
        if b is None:
            return NotImplemented
        return SNum(b)

    def __add__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return SComplex(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __neg__(self):
        if self._re is None:
            self._cart()
        return SComplex(-self._re, -self._im)

    def __pos__(self): return self

    def __sub__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        return SComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, SNum):
            if self.amp is not None:
                if o.const() and o.v is not NAN and o.v >= 0 or (
                        not o.const() and bool(o >= 0)):
                    return SComplex.polar(self.amp * o, self.ph)
            return SComplex(self.real * o, self.imag * o)
        if self.amp is not None and o.amp is not None:
            return SComplex.polar(self.amp * o.amp, self.ph + o.ph)
        return SComplex(self.real * o.real - self.imag * o.imag,
                        self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return o
        if isinstance(o, SNum):
            return self * (SNum(1) / o)
        if o.const_real():
            return self / o.real
        d = o.real * o.real + o.imag * o.imag
        return SComplex((self.real * o.real + self.imag * o.imag) / d,
                        (self.imag * o.real - self.real * o.imag) / d)

    def const_real(self):
        return (self._im is not None and self._im.const()
                and self._im.v == 0)

    def __rtruediv__(self, o):
        return SComplex.of(o) / self

    def __eq__(self, o):
        o = self._co(o)
        if o is NotImplemented:
            return False
        if self.amp is not None and isinstance(o, SComplex) and \
                o.amp is not None:
            return sym_and(self.amp == o.amp, self.ph == o.ph)
        return sym_and(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return bool(self != 0)

    def exp(self):
        # exp(a+ib)
        r = self.real
        amp = SNum(1) if (r.const() and r.v == 0) else r.exp()
        return SComplex.polar(amp, self.imag)

    def __repr__(self):
        return f"<{self._re},{self._im}|{self.amp},{self.ph}>"


def sym_and(*xs):
    ts = [bterm(x) for x in xs]
    t = z3.simplify(z3.And(*ts))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def sym_or(*xs):
    t = z3.simplify(z3.Or(*[bterm(x) for x in xs]))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def is_sym(x):
    return isinstance(x, (SNum, SBool, SComplex))


class Poly:
    """Rational-function normalisation of z3 terms through sympy's rings."""
    LIMIT = 600

    def __init__(self):
        self.atoms = {}      # z3 id -> sympy symbol
        self.back = {}       # symbol -> z3 term
        self.cache = {}

    def _sym(self, t):
        import sympy
        k = t.get_id()
        if k not in self.atoms:
            x = sympy.Symbol("x%d" % len(self.atoms))
            self.atoms[k] = x
            self.back[x] = t
        return self.atoms[k]

    def to_sympy(self, t, budget):
        import sympy
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        if z3.is_rational_value(t):
            return sympy.Rational(t.numerator_as_long(),
                                  t.denominator_as_long())
        if z3.is_int_value(t):
            return sympy.Integer(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[self.to_sympy(c, budget)
                               for c in t.children()])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[self.to_sympy(c, budget)
                               for c in t.children()])
        if k == z3.Z3_OP_SUB:
            ch = [self.to_sympy(c, budget) for c in t.children()]
            return sympy.Add(ch[0], *[-c for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -self.to_sympy(t.arg(0), budget)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            e = t.arg(1)
            if e.denominator_as_long() == 1 and e.numerator_as_long() >= 0:
                return self.to_sympy(t.arg(0), budget) ** \
                    e.numerator_as_long()
        if k == z3.Z3_OP_TO_REAL or True:
            return self._sym(t)

    def to_z3(self, e):
        import sympy
        p = sympy.Poly(e, *sorted(e.free_symbols, key=str)) \
            if e.free_symbols else None
        if p is None:
            return z3.RealVal(Fraction(int(e.p), int(e.q)))
        out = None
        for mono, c in p.terms():
            t = z3.RealVal(Fraction(int(c.p), int(c.q)))
            for g, n in zip(p.gens, mono):
                for _ in range(n):
                    t = t * self.back[g]
            out = t if out is None else out + t
        return z3.simplify(out)

    def cancel(self, a, b):
        """(n, d) with a/b == n/d in lowest terms, or None."""
        import sympy
        try:
            A, B = (self.to_sympy(x, [self.LIMIT]) for x in (a, b))
        except OverflowError:
            return None
        key = ("c", A, B)
        if key not in self.cache:
            try:
                if len(A.free_symbols | B.free_symbols) > 14:
                    r = None
                else:
                    n, d = sympy.fraction(sympy.cancel(A / B))
                    n, d = sympy.expand(n), sympy.expand(d)
                    if d.free_symbols:
                        lc = sympy.Poly(d, *sorted(d.free_symbols,
                                                   key=str)).LC()
                        n, d = sympy.expand(n / lc), sympy.expand(d / lc)
                    r = (self.to_z3(n), self.to_z3(d))
            except (sympy.PolynomialError, sympy.CoercionFailed):
                r = None
            self.cache[key] = r
        return self.cache[key]

    def square_root(self, t):
        """(constant, factors) with t == (constant*prod(factors))^2."""
        import sympy
        try:
            T = self.to_sympy(t, [self.LIMIT])
        except OverflowError:
            return None
        if not T.free_symbols or len(T.free_symbols) > 6:
            return None
        T = sympy.expand(T)
        try:
            c, fs = sympy.factor_list(T)
        except sympy.PolynomialError:
            return None
        if any(m % 2 for _, m in fs) or not c.is_Rational or c < 0:
            return None
        rn, rd = math.isqrt(int(c.p)), math.isqrt(int(c.q))
        if rn * rn != c.p or rd * rd != c.q:
            return None
        out = []
        for f, m in fs:
            out += [self.to_z3(sympy.expand(f))] * (m // 2)
        return z3.RealVal(Fraction(rn, rd)), out


class Engine:
    """Explores every feasible path of one scenario."""

    def __init__(self, query_ms=20000, budget_s=600, max_paths=100000,
                 nonlinear=False):
        self.query_ms = query_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.nonlinear = nonlinear
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.divzero = 0
        self.unknown_feas = 0
        self.div_cache = {}
        self.poly = Poly()

    # ---- per path
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_ms)
        self.known = {}
        self.keep = []
        self.sqrt_cache = {}
        self.uf_cache = {}
        self.poly = Poly()
        self.angles = {}
        self.wrap_cache = {}
        self.div_cache = {}
        self.vars = {}
        self.fresh_n = 0
        self.model = None
        self.asserted = []

    def add(self, t):
        self.solver.add(t)
        self.asserted.append(t)
        self.keep.append(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _timed(self, solver, extra, ms):
        """check() with a watchdog: some tactics ignore their timeout."""
        solver.set("timeout", ms)
        w = threading.Timer(ms / 1000 * 1.2 + 1, z3.main_ctx().interrupt)
        w.daemon = True
        w.start()
        try:
            r = solver.check(*extra)
            return r, (solver.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None
        finally:
            w.cancel()

    def check_sat(self, *extra, timeout=None):
        left = self.deadline - time.time()
        if left < 0:
            raise Budget("time budget")
        self.queries += 1
        t0 = time.time()
        full = int(min(timeout or self.query_ms, max(left, 5) * 1000))
        r, model = self._timed(self.solver, extra, min(full, 2000))
        if r == z3.unknown:
            r, model = self.fallback(extra, full)
        if r == z3.unknown and full > 2000:
            r, model = self._timed(self.solver, extra, full)
        dt = time.time() - t0
        self.solver_s += dt
        if TRACE and dt > 1:
            print("SLOW", round(dt, 1), r, [str(e)[:200] for e in extra],
                  file=sys.stderr)
        return r, model

    def fallback(self, extra, ms):
        for mk in (lambda: z3.Then("simplify", "propagate-values",
                                   "solve-eqs", "purify-arith",
                                   "qfnra-nlsat").solver(),
                   lambda: z3.SolverFor("QF_NRA")):
            try:
                s = mk()
                s.add(*self.asserted)
                s.add(*extra)
                r, m = self._timed(s, (), ms)
                if r != z3.unknown:
                    return r, m
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def fresh(self, name, sort="real"):
        self.fresh_n += 1
        nm = f"{name}!{self.fresh_n}"
        return z3.Real(nm) if sort == "real" else z3.Int(nm)

    def decide(self, b):
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        neg = False
        if z3.is_not(b):
            b = b.arg(0)
            neg = True
        k = b.get_id()
        if k in self.known:
            return self.known[k] != neg
        self.decisions += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if not isinstance(d, bool):
                raise RuntimeError("non-deterministic scenario (prefix)")
            self.pos += 1
        else:
            d = self._new_decision(b)
        self.trace.append(d)
        self.keep.append(b)
        self.known[k] = d
        self.add(b if d else z3.Not(b))
        return d != neg

    def _new_decision(self, b):
        can_t = can_f = None
        if self.model is not None:
            ev = self.model.eval(b, model_completion=True)
            if z3.is_true(ev):
                can_t = True
            elif z3.is_false(ev):
                can_f = True
        mt = mf = None
        if can_t is None:
            r, mt = self.check_sat(b)
            can_t = r != z3.unsat
            if r == z3.unknown:
                self.unknown_feas += 1
        if can_f is None:
            r, mf = self.check_sat(z3.Not(b))
            can_f = r != z3.unsat
            if r == z3.unknown:
                self.unknown_feas += 1
        if not can_t and not can_f:
            raise PathEnd("infeasible path condition")
        if can_t and can_f:
            self.work.append(self.trace + [False])
            d = True
            if FORKS is not None:
                import traceback
                key = " < ".join(
                    f"{os.path.basename(f.filename)}:{f.lineno}"
                    for f in reversed(traceback.extract_stack()[:-2])
                    if "/vf/sym" not in f.filename
                    and "runner" not in f.filename and "run.py"
                    not in f.filename)[:110]
                FORKS[key] = FORKS.get(key, 0) + 1
        else:
            d = bool(can_t)
        m = mt if d else mf
        if m is not None:
            self.model = m
        self.pos += 1
        self.prefix = self.prefix + [d]
        return d

    def concretize(self, t):
        """Fork over every feasible integer value of ``t``."""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                if not isinstance(v, tuple):
                    raise RuntimeError("non-deterministic scenario (value)")
                self.pos += 1
                self.trace.append(v)
            else:
                r, m = self.check_sat()
                if r == z3.unsat:
                    raise PathEnd("infeasible")
                if r == z3.unknown:
                    raise Unsupported("cannot concretize")
                self.model = m
                v = ("v", m.eval(t, model_completion=True).as_long())
                self.trace.append(v)
                self.prefix = self.prefix + [v]
                self.pos += 1
            if self.decide(t == v[1]):
                return v[1]

    def assume(self, cond):
        t = z3.simplify(bterm(cond))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd("assumption false")
        self.add(t)

    def ensure_feasible(self):
        if self.model is not None:
            return
        r, m = self.check_sat()
        if r == z3.unsat:
            raise PathEnd("infeasible assumptions")
        self.model = m

    # ---- special functions
    def divide(self, a, b):
        """a/b as a fresh q with q*b == a (b != 0 already decided)."""
        a, b = z3.simplify(a), z3.simplify(b)
        k = (a.get_id(), b.get_id())
        if k in self.div_cache:
            return self.div_cache[k]
        self.keep += [a, b]
        red = self.poly.cancel(a, b)
        if red is not None:
            n, d = red
            if z3.is_rational_value(d):
                q = z3.simplify(n / d)
                self.div_cache[k] = q
                self.keep.append(q)
                return q
            k2 = ("red", n.get_id(), d.get_id())
            self.keep += [n, d]
            if k2 not in self.div_cache:
                q = self.fresh("div")
                self.keep.append(q)
                self.add(q * d == n)
                self.div_cache[k2] = q
            self.div_cache[k] = self.div_cache[k2]
            return self.div_cache[k]
        q = self.fresh("div")
        self.keep.append(q)
        self.add(q * b == a)
        self.div_cache[k] = q
        return q

    def sqrt(self, t):
        t = z3.simplify(t)
        k = t.get_id()
        if k in self.sqrt_cache:
            return self.sqrt_cache[k]
        self.keep.append(t)
        root = self.poly.square_root(t)
        if root is not None:
            c, fs = root
            r = c
            for f in fs:
                if not self.decide(f >= 0):
                    f = -f
                r = r * f
            r = z3.simplify(r)
            self.keep.append(r)
            self.sqrt_cache[k] = r
            return r
        if self.decide(t < 0):
            self.sqrt_cache[k] = NAN
            return NAN
        s = self.fresh("sqrt")
        self.add(z3.And(s >= 0, s * s == t))
        self.sqrt_cache[k] = s
        return s

    def trig(self, x, which):
        v = x.v
        if v is NAN:
            return SNum(NAN)
        if not is_z(v):
            if v == 0:
                return SNum(1 if which == "cos" else 0)
            return SNum(Fraction(getattr(math, which)(float(v))))
        t = z3.simplify(rterm(v))
        self.keep.append(t)
        k = ("cs", t.get_id())
        if k not in self.uf_cache:
            self.uf_cache[k] = self._cossin(t)
        c, s = self.uf_cache[k]
        return SNum(c) if which == "cos" else SNum(s)

    def _cossin(self, t):
        """(cos t, sin t) by linear decomposition and angle addition."""
        atoms, const = {}, [Fraction(0)]
        linear_parts(t, Fraction(1), atoms, const)
        C, S = 1, 0
        if const[0] != 0:
            C = Fraction(math.cos(float(const[0])))
            S = Fraction(math.sin(float(const[0])))
        for aid in sorted(atoms, key=lambda i: str(atoms[i][0])):
            a, coef = atoms[aid]
            if coef == 0:
                continue
            m, n = small_ratio(coef)
            if n is None:
                c1, s1 = self._unit(coef * z3.RealVal(1) * a, None, None)
                m = 1
            else:
                c1, s1 = self._unit(a, aid, n)
            c, s = 1, 0
            for _ in range(abs(m)):
                c, s = (arith("sub", arith("mul", c, c1), arith("mul", s, s1)),
                        arith("add", arith("mul", s, c1), arith("mul", c, s1)))
            if m < 0:
                s = arith("mul", -1, s)
            C, S = (arith("sub", arith("mul", C, c), arith("mul", S, s)),
                    arith("add", arith("mul", S, c), arith("mul", C, s)))
        return C, S

    def _unit(self, a, aid, n):
        """cos/sin of a/n as fresh constrained variables."""
        k = ("unit", aid, n) if aid is not None else \
            ("unit", z3.simplify(a).get_id(), None)
        if k in self.uf_cache:
            return self.uf_cache[k]
        self.keep += [a, z3.simplify(a)]
        tracked = self.angles.get(aid) if aid is not None else None
        if tracked is not None and n == 1:
            self.uf_cache[k] = tracked
            return tracked
        c, s = self.fresh("cos"), self.fresh("sin")
        self.add(c * c + s * s == 1)
        self.add(z3.And(c >= -1, c <= 1, s >= -1, s <= 1))
        if tracked is not None:
            C, S = tracked
            cc, ss = 1, 0
            for _ in range(n):
                cc, ss = (arith("sub", arith("mul", cc, c),
                                arith("mul", ss, s)),
                          arith("add", arith("mul", ss, c),
                                arith("mul", cc, s)))
            if n == 3:
                cc, ss = 4 * c * c * c - 3 * c, 3 * s - 4 * s * s * s
            self.add(cc == C)
            self.add(ss == S)
            lo = Fraction(math.floor(math.cos(math.pi / n) * 10**9), 10**9)
            self.add(c >= z3.RealVal(lo))
            self.add(z3.Implies(a >= 0, s >= 0))
            self.add(z3.Implies(a <= 0, s <= 0))
        self.uf_cache[k] = (c, s)
        return c, s

    def uf(self, name, x):
        v = x.v
        if v is NAN:
            return x
        if not is_z(v):
            f = {"exp": math.exp, "log": math.log, "log10": math.log10,
                 "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
                 "arctan": math.atan, "arccos": math.acos,
                 "arcsin": math.asin}[name]
            try:
                return SNum(Fraction(f(float(v))))
            except ValueError:
                return SNum(NAN)
        f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
        return SNum(f(rterm(v)))

    def uf2(self, name, a, b):
        f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort(),
                        z3.RealSort())
        return f(rterm(a), rterm(b))

    def arctan2(self, y, x):
        y, x = lift(y), lift(x)
        if y is NAN or x is NAN:
            return SNum(NAN)
        if not is_z(y) and not is_z(x):
            return SNum(Fraction(math.atan2(float(y), float(x))))
        y, x = z3.simplify(rterm(y)), z3.simplify(rterm(x))
        k = ("atan2", y.get_id(), x.get_id())
        if k in self.uf_cache:
            return SNum(self.uf_cache[k])
        self.keep += [y, x]
        if self.decide(z3.And(y == 0, x == 0)):
            self.uf_cache[k] = z3.RealVal(0)
            return SNum(0)
        psi = self.fresh("atan2")
        r = self.sqrt(x * x + y * y)
        c, s = self.divide(x, r), self.divide(y, r)
        pi = z3.RealVal(self.PI)
        self.add(z3.And(r > 0, c * c + s * s == 1, c <= 1, c >= -1, s <= 1,
                        s >= -1))
        self.add(z3.And(psi > -pi, psi <= pi,
                        z3.Implies(y > 0, z3.And(psi > 0, psi < pi)),
                        z3.Implies(y < 0, psi < 0),
                        z3.Implies(z3.And(y == 0, x > 0), psi == 0),
                        z3.Implies(z3.And(y == 0, x < 0), psi == pi),
                        z3.Implies(x > 0, z3.And(psi < pi / 2,
                                                 psi > -pi / 2)),
                        z3.Implies(z3.And(x == 0, y > 0), psi == pi / 2),
                        z3.Implies(z3.And(x == 0, y < 0), psi == -pi / 2)))
        self.angles[psi.get_id()] = (c, s)
        self.keep.append(psi)
        self.uf_cache[k] = psi
        return SNum(psi)

    def fmod(self, a, b):
        """Python/numpy floored modulo with a fresh integer quotient."""
        if not is_z(b) and b == 0:
            return NAN
        ta, tb = rterm(a), rterm(b)
        k = ("mod", z3.simplify(ta).get_id(), z3.simplify(tb).get_id())
        if k in self.uf_cache:
            return self.uf_cache[k]
        self.keep += [ta, tb, z3.simplify(ta), z3.simplify(tb)]
        q = self.fresh("q", "int")
        r = self.fresh("mod")
        if is_z(b):
            pos = self.decide(tb > 0)
            self.assume(tb != 0)
        else:
            pos = b > 0
        self.add(ta == z3.ToReal(q) * tb + r)
        self.add(z3.And(r >= 0, r < tb) if pos else z3.And(r <= 0, r > tb))
        self.uf_cache[k] = r
        return r

    PI = Fraction(math.pi)

    def wrap_angle(self, ph):
        """np.angle of a polar number: ph wrapped into (-pi, pi]."""
        v = ph.v
        if not is_z(v):
            x = v
            while x > self.PI:
                x -= 2 * self.PI
            while x <= -self.PI:
                x += 2 * self.PI
            return SNum(x)
        k = z3.simplify(v).get_id()
        if k in self.wrap_cache:
            return self.wrap_cache[k]
        self.keep.append(z3.simplify(v))
        q = self.fresh("wrap", "int")
        r = rterm(v) - 2 * z3.RealVal(self.PI) * z3.ToReal(q)
        self.add(z3.And(r > -z3.RealVal(self.PI), r <= z3.RealVal(self.PI)))
        # one path per number of turns keeps everything else linear
        r = rterm(v) - z3.RealVal(2 * self.PI * self.concretize(q))
        self.wrap_cache[k] = SNum(r)
        return self.wrap_cache[k]

    def note_divzero(self):
        self.divzero += 1


def linear_parts(t, f, atoms, const):
    """Decompose a z3 real term into sum(coef*atom)+const."""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        const[0] += f * Fraction(t.numerator_as_long(),
                                 t.denominator_as_long()) \
            if z3.is_rational_value(t) else f * t.as_long()
        return
    if z3.is_add(t):
        for ch in t.children():
            linear_parts(ch, f, atoms, const)
        return
    if z3.is_sub(t):
        ch = t.children()
        linear_parts(ch[0], f, atoms, const)
        for c in ch[1:]:
            linear_parts(c, -f, atoms, const)
        return
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        linear_parts(t.arg(0), -f, atoms, const)
        return
    if z3.is_mul(t):
        num, rest = Fraction(1), []
        for ch in t.children():
            if z3.is_rational_value(ch):
                num *= Fraction(ch.numerator_as_long(),
                                ch.denominator_as_long())
            else:
                rest.append(ch)
        if len(rest) == 1:
            linear_parts(rest[0], f * num, atoms, const)
            return
        if rest and num != 1:
            t2 = rest[0]
            for r in rest[1:]:
                t2 = t2 * r
            t2 = z3.simplify(t2)
            linear_parts(t2, f * num, atoms, const)
            return
    k = t.get_id()
    a, c = atoms.get(k, (t, Fraction(0)))
    atoms[k] = (t, c + f)


def small_ratio(q):
    """Nearest small rational m/n (n <= 12), tolerant of float rounding."""
    r = Fraction(q).limit_denominator(12)
    if abs(r - q) <= Fraction(1, 10**14) and abs(r.numerator) <= 12:
        return r.numerator, r.denominator
    return None, None
