"""Symbolic-aware stand-in for the ``numpy`` module seen by the code under test.

Every attribute resolves to real numpy; functions that cannot run on object
arrays get an exact elementwise/forking implementation that is used only when
an argument contains a symbolic value.
"""
import math
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import SNum, SBool, SComplex, NAN, Unsupported, is_sym


def has_sym(x, depth=0):
    if is_sym(x) or isinstance(x, Fraction):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(is_sym(e) or isinstance(e, Fraction) for e in x.flat)
    if depth < 3:
        if isinstance(x, (list, tuple)):
            return any(has_sym(e, depth + 1) for e in x)
        if isinstance(x, dict):
            return any(has_sym(e, depth + 1) for e in x.values())
    return False


def conc(x):
    """Object arrays that hold only concrete numbers -> float arrays."""
    if isinstance(x, np.ndarray) and x.dtype == object and not has_sym(x):
        try:
            if all(isinstance(e, (int, np.integer)) and
                   not isinstance(e, bool) for e in x.flat) and x.size:
                return x.astype(int)
            if any(isinstance(e, complex) for e in x.flat):
                return x.astype(complex)
            return x.astype(float)
        except (TypeError, ValueError):
            return x
    return x


def snum(x):
    if is_sym(x):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return SComplex.of(x)
    v = sym.lift(x)
    if v is None:
        raise Unsupported(f"cannot lift {type(x)}")
    return SNum(v)


def objarr(x):
    a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
    return a


def ew(f, x):
    """Elementwise map keeping scalars scalar."""
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        a = np.asarray(x, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(snum(a[i]))
        return out[()] if a.shape == () else out
    return f(snum(x))


def ew2(f, x, y):
    a, b = np.broadcast_arrays(np.asarray(x, dtype=object),
                               np.asarray(y, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(snum(a[i]), snum(b[i]))
    return out[()] if a.shape == () else out


def boolify(a):
    if isinstance(a, np.ndarray):
        return np.array([bool(e) for e in a.flat], dtype=bool).reshape(a.shape)
    return bool(a)


def s_max(a, b):
    if isinstance(a, SNum) and a.v is NAN:
        return a
    if isinstance(b, SNum) and b.v is NAN:
        return b
    c = a >= b
    return ite(c, a, b)


def s_min(a, b):
    if isinstance(a, SNum) and a.v is NAN:
        return a
    if isinstance(b, SNum) and b.v is NAN:
        return b
    c = a <= b
    return ite(c, a, b)


def ite(c, a, b):
    import z3
    if isinstance(c, bool):
        return a if c else b
    if isinstance(c, SBool) and isinstance(c.b, bool):
        return a if c.b else b
    av, bv = snum(a).v, snum(b).v
    if av is NAN or bv is NAN or sym.is_inf(av) or sym.is_inf(bv):
        return a if bool(c) else b
    if sym.is_int_payload(av) and sym.is_int_payload(bv):
        return SNum(z3.If(c.b, sym.term(av), sym.term(bv)))
    return SNum(z3.If(c.b, sym.rterm(av), sym.rterm(bv)))


def _reduce(f, a, axis=None):
    a = np.asarray(a, dtype=object)
    if a.size == 0:
        raise ValueError("zero-size array to reduction operation")
    if axis is None:
        it = [snum(e) for e in a.flat]
        r = it[0]
        for e in it[1:]:
            r = f(r, e)
        return r
    a = np.moveaxis(a, axis, 0)
    out = np.empty(a.shape[1:], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = _reduce(f, a[(slice(None),) + i])
    return out


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp period")
    xp = [snum(e) for e in np.asarray(xp, dtype=object).ravel()]
    fp = [snum(e) for e in np.asarray(fp, dtype=object).ravel()]

    def one(q):
        if bool(q < xp[0]):
            return fp[0] if left is None else snum(left)
        if bool(q > xp[-1]):
            return fp[-1] if right is None else snum(right)
        for i in range(len(xp) - 1):
            if bool(q < xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * (
                    (q - xp[i]) / (xp[i + 1] - xp[i]))
        return fp[-1]
    return ew(one, x)


def _unwrap(p, discont=None, axis=-1, *, period=2 * np.pi):
    if discont is not None:
        raise Unsupported("np.unwrap discont")
    a = np.asarray(p, dtype=object)
    if a.ndim != 1:
        raise Unsupported("np.unwrap ndim")
    eng = sym.ENGINE
    out = a.copy()
    corr = SNum(0)
    P = Fraction(period)
    for i in range(1, len(a)):
        dd = snum(a[i]) - snum(a[i - 1])
        if sym.is_z(dd.v):
            q = eng.fresh("turns", "int")
            dm = dd + P / 2
            eng.add(sym.z3.And(sym.rterm(dm.v) >= P * sym.z3.ToReal(q),
                               sym.rterm(dm.v) < P * (sym.z3.ToReal(q) + 1)))
            ddmod = dd - P * eng.concretize(q)
        else:
            ddmod = (dd + P / 2) % SNum(P) - P / 2
        # numpy: ddmod == -period/2 and dd > 0 -> +period/2 ; |dd|<period/2 -> 0
        corr = corr + (ddmod - dd)
        out[i] = snum(a[i]) + corr
    return out


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        return bool(abs(x - y) <= Fraction(atol) + Fraction(rtol) * abs(y))
    r = ew2(f, a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    conds = []

    def f(x, y):
        conds.append(abs(x - y) <= Fraction(atol) + Fraction(rtol) * abs(y))
        return 0
    ew2(f, a, b)
    return bool(sym.sym_and(*conds)) if conds else True


def _angle(z, deg=False):
    def f(x):
        if isinstance(x, SNum):
            return SNum(0) if bool(x >= 0) else SNum(Fraction(math.pi))
        r = x.angle()
        return r * Fraction(180 / math.pi) if deg else r
    return ew(f, z)


def _median(a, axis=None, **k):
    if axis is not None and np.asarray(a, dtype=object).ndim > 1:
        raise Unsupported("median axis")
    xs = sorted([snum(e) for e in np.asarray(a, dtype=object).flat])
    n = len(xs)
    if n == 0:
        return SNum(NAN)
    return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2


def _mean(a, axis=None, **k):
    a = np.asarray(a, dtype=object)
    if axis is None:
        if a.size == 0:
            return SNum(NAN)
        return _reduce(lambda x, y: x + y, a) / a.size
    return np.sum(a, axis=axis) / a.shape[axis]


def _var(a, axis=None, ddof=0, **k):
    if axis is not None:
        raise Unsupported("var axis")
    a = np.asarray(a, dtype=object)
    m = _mean(a)
    return _reduce(lambda x, y: x + y,
                   ew(lambda x: (x - m) * (x - m), a)) / (a.size - ddof)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
              axis=0):
    num = int(num)
    start, stop = snum(start), snum(stop)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else SNum(NAN)
    for i in range(num):
        out[i] = start + (stop - start) * Fraction(i, div) if div > 0 else start
    if endpoint and num > 1:
        out[-1] = stop
    return (out, step) if retstep else out


def _arange(*args, dtype=None, **k):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args[:3]
    start, stop, step = snum(start), snum(stop), snum(step)
    n = int(((stop - start) / step).__ceil__())
    out = np.empty(max(n, 0), dtype=object)
    for i in range(max(n, 0)):
        out[i] = start + step * i
    return out


def _sorted(a, axis=-1, **k):
    a = np.asarray(a, dtype=object)
    if a.ndim != 1:
        raise Unsupported("sort ndim")
    return np.array(sorted(a.tolist(), key=_Key), dtype=object)


class _Key:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return bool(self.x < o.x)


def _argsort(a, axis=-1, **k):
    a = np.asarray(a, dtype=object)
    return np.array(sorted(range(len(a)), key=lambda i: _Key(a[i])), dtype=int)


def _array(x, dtype=None, copy=True, **k):
    if dtype in (int, np.int64, "int") and has_sym(x):
        return ew(lambda e: SNum(int(e)), x)
    if dtype in (bool,):
        return boolify(np.asarray(x, dtype=object))
    a = np.array(x, dtype=object, copy=copy, **k)
    return a


def _asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray):
        return x
    return _array(x, dtype)


def _solve_lin(A, y):
    """Exact solve; A concrete Fractions, y payload SNum list."""
    n = len(A)
    A = [list(map(Fraction, r)) for r in A]
    y = list(y)
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        y[c], y[p] = y[p], y[c]
        d = A[c][c]
        A[c] = [v / d for v in A[c]]
        y[c] = y[c] / SNum(d)
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [a - f * b for a, b in zip(A[r], A[c])]
                y[r] = y[r] - y[c] * SNum(f)
    return y


def _mat(a):
    a = np.asarray(a, dtype=object)
    return [[snum(v) for v in r] for r in a]


def _det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    s = SNum(0)
    for j in range(n):
        if isinstance(A[0][j].v, Fraction) and A[0][j].v == 0:
            continue
        m = [r[:j] + r[j + 1:] for r in A[1:]]
        t = A[0][j] * _det(m)
        s = s + t if j % 2 == 0 else s - t
    return s


def _inv(a):
    """Exact inverse through the adjugate (small matrices)."""
    A = _mat(a)
    n = len(A)
    if n > 4:
        raise Unsupported("inv of a large symbolic matrix")
    d = _det(A)
    if not bool(d != 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = [r[:i] + r[i + 1:] for k, r in enumerate(A) if k != j]
            c = _det(m) if n > 1 else SNum(1)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def _linsolve(a, b):
    return _inv(a).dot(np.asarray(b, dtype=object))


def _lstsq(a, b, *_a, **_k):
    a = np.asarray(a, dtype=object)
    x = _linsolve(a.T.dot(a), a.T.dot(np.asarray(b, dtype=object)))
    return x, np.array([]), a.shape[1], None


def _norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    return _reduce(lambda u, v: u + v,
                   ew(lambda e: e * e, np.asarray(x, dtype=object))).sqrt()


class LinalgX(types.ModuleType):
    OV = {"inv": _inv, "solve": _linsolve, "lstsq": _lstsq, "norm": _norm,
          "det": lambda a: _det(_mat(a))}

    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, name):
        v = getattr(np.linalg, name)
        if isinstance(v, type) or not callable(v):
            return v
        ov = self.OV.get(name)

        def f(*a, **k):
            if has_sym(list(a)) or has_sym(k):
                if ov is None:
                    raise Unsupported(f"linalg.{name}")
                return ov(*a, **k)
            return v(*[conc(x) for x in a], **k)
        return f


linalgx = LinalgX()


def _polyfit(x, y, deg, **k):
    if has_sym(x):
        xs = np.asarray(x, dtype=object)
        V = np.empty((len(xs), deg + 1), dtype=object)
        for i, e in enumerate(xs):
            p = SNum(1)
            for j in range(deg, -1, -1):
                V[i, j] = p
                p = p * snum(e)
        return _lstsq(V, y)[0]
    X = [Fraction(float(v)) for v in np.asarray(x).ravel()]
    Y = [snum(v) for v in np.asarray(y, dtype=object).ravel()]
    n = deg + 1
    A = [[sum(xx ** (i + j) for xx in X) for j in range(n)] for i in range(n)]
    b = []
    for i in range(n):
        s = SNum(0)
        for xx, yy in zip(X, Y):
            s = s + yy * SNum(xx ** i)
        b.append(s)
    c = _solve_lin(A, b)
    return np.array(c[::-1], dtype=object)


def _polyval(p, x):
    r = SNum(0)
    for c in np.asarray(p, dtype=object):
        r = x * r + snum(c) if not isinstance(x, np.ndarray) else r * x + c
    return r


def _clip(a, lo, hi, **k):
    def f(x):
        if lo is not None:
            x = s_max(x, snum(lo))
        if hi is not None:
            x = s_min(x, snum(hi))
        return x
    return ew(f, a)


def _isnan(x):
    r = ew(lambda e: (e.v is NAN) if isinstance(e, SNum) else False, x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def _isfinite(x):
    r = ew(lambda e: e.isfinite() if isinstance(e, SNum) else True, x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def _isinf(x):
    r = ew(lambda e: sym.is_inf(e.v) if isinstance(e, SNum) else False, x)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def _array_equal(a, b, **k):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return bool(sym.sym_and(*[x == y for x, y in zip(a.flat, b.flat)])) \
        if a.size else True


def _searchsorted(a, v, side="left", sorter=None):
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    a = list(np.asarray(a, dtype=object))

    def one(q):
        for i, e in enumerate(a):
            if bool(e >= q) if side == "left" else bool(e > q):
                return i
        return len(a)
    r = ew(one, v)
    return r.astype(int) if isinstance(r, np.ndarray) else r


def _sign(x):
    return ew(lambda e: ite(e > 0, SNum(1), ite(e < 0, SNum(-1), SNum(0))), x)


def _gradient(f, *varargs, axis=None, edge_order=1):
    f = np.asarray(f, dtype=object)
    n = len(f)
    out = np.empty(n, dtype=object)
    if len(varargs) == 0:
        h = SNum(1)
    else:
        h = varargs[0]
    if isinstance(h, np.ndarray) and h.ndim:
        x = h
        out[0] = (f[1] - f[0]) / (x[1] - x[0])
        out[-1] = (f[-1] - f[-2]) / (x[-1] - x[-2])
        for i in range(1, n - 1):
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out[i] = (hs * hs * f[i + 1] + (hd * hd - hs * hs) * f[i]
                      - hd * hd * f[i - 1]) / (hs * hd * (hd + hs))
        return out
    if edge_order != 1:
        raise Unsupported("gradient edge_order")
    out[0] = (f[1] - f[0]) / h
    out[-1] = (f[-1] - f[-2]) / h
    for i in range(1, n - 1):
        out[i] = (f[i + 1] - f[i - 1]) / (h * 2)
    return out


def _unique(a, return_index=False, return_inverse=False, return_counts=False,
            **k):
    if return_inverse or return_counts:
        raise Unsupported("unique extras")
    a = np.asarray(a, dtype=object).ravel()
    order = sorted(range(len(a)), key=lambda i: _Key(a[i]))
    out, idx = [], []
    for i in order:
        if not out or bool(a[i] != out[-1]):
            out.append(a[i])
            idx.append(i)
    out = np.array(out, dtype=object)
    return (out, np.array(idx, dtype=int)) if return_index else out


def _round(a, decimals=0, out=None):
    return ew(lambda e: e.__round__(decimals), a)


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = np.asarray(y, dtype=object)
    s = SNum(0)
    for i in range(len(y) - 1):
        h = (x[i + 1] - x[i]) if x is not None else dx
        s = s + (y[i] + y[i + 1]) * h / 2
    return s


def _lt(op):
    import operator
    f = getattr(operator, op)

    def g(a, b, *r, **k):
        res = ew2(lambda x, y: bool(f(x, y)), a, b)
        return res.astype(bool) if isinstance(res, np.ndarray) else bool(res)
    return g


def _power(a, b):
    return ew2(lambda x, y: x ** y, a, b)


def _nanwrap(f):
    def g(a, axis=None, **k):
        a = np.asarray(a, dtype=object).ravel()
        return f(np.array([e for e in a if not _isnan(e)], dtype=object))
    return g


def _angle_pi(*_a, **_k):
    raise Unsupported("angle")


def _minmax(f):
    def g(a, axis=None, out=None, **k):
        return _reduce(f, a, axis)
    return g


def _abs(x, *a, **k):
    return ew(abs, x)


OVERRIDES = {
    "abs": _abs, "absolute": _abs, "fabs": _abs,
    "sqrt": lambda x, *a, **k: ew(lambda e: e.sqrt(), x),
    "cos": lambda x: ew(lambda e: e.cos(), x),
    "sin": lambda x: ew(lambda e: e.sin(), x),
    "tan": lambda x: ew(lambda e: e.tan(), x),
    "exp": lambda x: ew(lambda e: e.exp(), x),
    "log": lambda x: ew(lambda e: e.log(), x),
    "log10": lambda x: ew(lambda e: e.log10(), x),
    "tanh": lambda x: ew(lambda e: e.tanh(), x),
    "arctan": lambda x: ew(lambda e: e.arctan(), x),
    "arccos": lambda x: ew(lambda e: e.arccos(), x),
    "arcsin": lambda x: ew(lambda e: e.arcsin(), x),
    "arctan2": lambda y, x: ew2(lambda a, b: sym.ENGINE.arctan2(a, b), y, x),
    "hypot": lambda x, y: ew2(lambda a, b: (a * a + b * b).sqrt(), x, y),
    "square": lambda x: ew(lambda e: e * e, x),
    "power": _power, "float_power": _power,
    "angle": _angle, "unwrap": _unwrap,
    "real": lambda x: ew(lambda e: e.real, x),
    "imag": lambda x: ew(lambda e: e.imag, x),
    "conj": lambda x: ew(lambda e: e.conjugate(), x),
    "conjugate": lambda x: ew(lambda e: e.conjugate(), x),
    "interp": _interp, "isclose": _isclose, "allclose": _allclose,
    "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
    "median": _median, "mean": _mean, "average": None,
    "var": _var, "std": lambda a, **k: _var(a, **k).sqrt(),
    "min": _minmax(s_min), "amin": _minmax(s_min),
    "max": _minmax(s_max), "amax": _minmax(s_max),
    "nanmin": _nanwrap(_minmax(s_min)), "nanmax": _nanwrap(_minmax(s_max)),
    "nanmean": _nanwrap(_mean), "nanmedian": _nanwrap(_median),
    "maximum": lambda a, b: ew2(s_max, a, b),
    "minimum": lambda a, b: ew2(s_min, a, b),
    "fmax": lambda a, b: ew2(s_max, a, b),
    "fmin": lambda a, b: ew2(s_min, a, b),
    "ptp": lambda a, axis=None: _reduce(s_max, a) - _reduce(s_min, a),
    "linspace": _linspace, "arange": _arange, "sort": _sorted,
    "argsort": _argsort, "array": _array, "asarray": _asarray,
    "asanyarray": _asarray, "ascontiguousarray": _asarray,
    "polyfit": _polyfit, "polyval": _polyval, "clip": _clip,
    "array_equal": _array_equal, "searchsorted": _searchsorted,
    "sign": _sign, "gradient": _gradient, "unique": _unique,
    "round": _round, "around": _round, "rint": lambda x: _round(x),
    "floor": lambda x: ew(lambda e: e.__floor__(), x),
    "ceil": lambda x: ew(lambda e: e.__ceil__(), x),
    "mod": lambda a, b: ew2(lambda x, y: x % y, a, b),
    "remainder": lambda a, b: ew2(lambda x, y: x % y, a, b),
    "floor_divide": lambda a, b: ew2(lambda x, y: x // y, a, b),
    "divide": lambda a, b: ew2(lambda x, y: x / y, a, b),
    "true_divide": lambda a, b: ew2(lambda x, y: x / y, a, b),
    "trapezoid": _trapz, "trapz": _trapz,
    "less": _lt("lt"), "less_equal": _lt("le"), "greater": _lt("gt"),
    "greater_equal": _lt("ge"), "equal": _lt("eq"), "not_equal": _lt("ne"),
    "deg2rad": lambda x: ew(lambda e: e * Fraction(math.pi / 180), x),
    "isreal": lambda x: ew(lambda e: isinstance(e, SNum), x),
    "iscomplexobj": lambda x: any(isinstance(e, SComplex) for e in
                                  np.asarray(x, dtype=object).flat),
    "logical_and": lambda a, b: ew2(lambda x, y: bool(x) and bool(y), a,
                                    b).astype(bool),
    "logical_or": lambda a, b: ew2(lambda x, y: bool(x) or bool(y), a,
                                   b).astype(bool),
}
OVERRIDES = {k: v for k, v in OVERRIDES.items() if v is not None}


def _is_floatish(dtype):
    return dtype is None or dtype in (float, np.float64, complex,
                                      np.complex128, "float", "float64",
                                      object) or \
        getattr(dtype, "kind", "") in "fcO" and not isinstance(dtype, type)


def _filled(shape, val):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = val
    return a


def _zeros(shape, dtype=None, *a, **k):
    if _is_floatish(dtype):
        return _filled(shape, SNum(0))
    return np.zeros(shape, dtype, *a, **k)


def _ones(shape, dtype=None, *a, **k):
    if _is_floatish(dtype):
        return _filled(shape, SNum(1))
    return np.ones(shape, dtype, *a, **k)


def _empty(shape, dtype=None, *a, **k):
    if _is_floatish(dtype):
        return _filled(shape, SNum(NAN))
    return np.empty(shape, dtype, *a, **k)


def _full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None and isinstance(fill_value, (float, SNum, SComplex,
                                                 Fraction)) or \
            dtype is not None and _is_floatish(dtype):
        return _filled(shape, snum(fill_value))
    return np.full(shape, fill_value, dtype, *a, **k)


def _like(f, val):
    def g(a, *args, dtype=None, **k):
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        if dtype is None and a.dtype.kind in "fcO" or \
                dtype is not None and _is_floatish(dtype):
            return _filled(a.shape, SNum(val) if val is not None
                           else SNum(NAN))
        return f(a, *args, dtype=dtype, **k)
    return g


def _full_like(a, fill_value, dtype=None, **k):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    return _full(a.shape, fill_value, dtype) if dtype or \
        a.dtype.kind in "fcO" else np.full_like(a, fill_value)


CREATORS = {"zeros": _zeros, "ones": _ones, "empty": _empty, "full": _full,
            "zeros_like": _like(np.zeros_like, 0),
            "ones_like": _like(np.ones_like, 1),
            "empty_like": _like(np.empty_like, None),
            "full_like": _full_like}


class FFTX(types.ModuleType):
    """numpy.fft; real transforms of symbolic data as (exact) sums."""

    def __init__(self):
        super().__init__("numpy.fft")

    def __getattr__(self, name):
        v = getattr(np.fft, name)
        if not callable(v):
            return v

        def f(*a, **k):
            if has_sym(list(a)) or has_sym(k):
                g = {"rfft": _rfft, "irfft": _irfft,
                     "rfftfreq": _rfftfreq}.get(name)
                if g is None:
                    raise Unsupported(f"np.fft.{name} on symbolic data")
                return g(*a, **k)
            a = [conc(x) for x in a]
            return v(*a, **{q: conc(x) for q, x in k.items()})
        return f


def _dot(c, x):
    out = SNum(0)
    for u, v in zip(c, x):
        if u != 0:
            out = out + v * float(u)
    return out


def _rfft(a, n=None, axis=-1, norm=None):
    a = np.asarray(a, dtype=object)
    if a.ndim != 1 or n is not None or norm is not None:
        raise Unsupported("np.fft.rfft arguments")
    n = len(a)
    a = [snum(v) for v in a]
    out = np.empty(n // 2 + 1, dtype=object)
    for k in range(n // 2 + 1):
        ang = -2 * np.pi * ((np.arange(n) * k) % n) / n
        out[k] = sym.SComplex(_dot(np.cos(ang), a), _dot(np.sin(ang), a))
    return out


def _irfft(a, n=None, axis=-1, norm=None):
    a = np.asarray(a, dtype=object)
    if a.ndim != 1 or norm is not None:
        raise Unsupported("np.fft.irfft arguments")
    n = 2 * (len(a) - 1) if n is None else n
    z = [sym.SComplex.of(v) for v in a[:n // 2 + 1]]
    w = [1 if k == 0 or 2 * k == n else 2 for k in range(len(z))]
    re, im = [v.real for v in z], [v.imag for v in z]
    out = np.empty(n, dtype=object)
    for j in range(n):
        ang = 2 * np.pi * ((np.arange(len(z)) * j) % n) / n
        out[j] = (_dot(w * np.cos(ang), re) - _dot(w * np.sin(ang), im)) / n
    return out


def _rfftfreq(n, d=1.0, device=None):
    return np.array([snum(k) / (d * n) for k in range(n // 2 + 1)],
                    dtype=object)


def _assert_allclose(actual, desired, rtol=1e-07, atol=0, equal_nan=True,
                     err_msg="", verbose=True, **k):
    a, d = np.asarray(actual), np.asarray(desired)
    if not (has_sym(a) or has_sym(d)):
        return np.testing.assert_allclose(
            conc(actual), conc(desired), rtol=rtol, atol=atol,
            equal_nan=equal_nan, err_msg=err_msg, **k)
    if a.shape != d.shape and a.ndim and d.ndim:
        raise AssertionError(f"shapes {a.shape} and {d.shape} mismatch")
    if not _allclose(actual, desired, rtol, atol):
        raise AssertionError("Not equal to tolerance " + err_msg)


class _Testing(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.testing, name)


testingx = _Testing("numpy.testing")
testingx.assert_allclose = _assert_allclose


class NPX(types.ModuleType):
    """Proxy module."""

    def __init__(self, real=np):
        super().__init__("numpy")
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name == "linalg":
            return linalgx
        if name == "fft":
            return fftx
        if name == "testing":
            return testingx
        v = getattr(self._real, name)
        v = wrap(name, v)
        c[name] = v
        return v


def wrap(name, v):
    if name in CREATORS:
        return CREATORS[name]
    if isinstance(v, type) or isinstance(v, types.ModuleType) or \
            not callable(v):
        return v
    ov = OVERRIDES.get(name)

    def f(*args, **kw):
        if has_sym(list(args)) or has_sym(kw):
            if ov is not None:
                kw.pop("dtype", None) if name not in ("array", "asarray") \
                    else None
                return ov(*args, **kw)
            try:
                return v(*args, **kw)
            except TypeError as e:
                raise Unsupported(f"np.{name} on symbolic data: {e}")
        if name == "sqrt" and len(args) == 1 and isinstance(args[0], int) \
                and sym.ENGINE is not None and args[0] in (2, 3, 5):
            return SNum(sym.ENGINE.sqrt(sym.rterm(args[0])))
        args = [conc(a) for a in args]
        return v(*args, **kw)
    f.__name__ = name
    f.__wrapped__ = v
    if isinstance(v, np.ufunc):
        return UFuncProxy(f, v)
    return f


class UFuncProxy:
    """Callable ufunc stand-in that keeps .reduce/.accumulate/.at ..."""

    def __init__(self, f, real):
        self._f, self._real = f, real

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, name):
        return getattr(self._real, name)


class MathX(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        v = getattr(math, name)
        if not callable(v):
            return v
        m = {"sqrt": lambda e: e.sqrt(), "cos": lambda e: e.cos(),
             "sin": lambda e: e.sin(), "exp": lambda e: e.exp(),
             "log": lambda e: e.log(), "fabs": abs,
             "floor": lambda e: int(e.__floor__()),
             "ceil": lambda e: int(e.__ceil__()),
             "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf,
             "atan2": lambda a, b: sym.ENGINE.arctan2(a, b),
             "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
                 abs(a - b) <= s_max(Fraction(rel_tol) * s_max(abs(a), abs(b)),
                                     SNum(Fraction(abs_tol)))),
             }.get(name)

        def f(*a, **k):
            if has_sym(list(a)):
                if m is None:
                    raise Unsupported(f"math.{name}")
                return m(*[snum(x) for x in a], **k)
            return v(*a, **k)
        return f


fftx = FFTX()
npx = NPX()
mathx = MathX()
_WRAPPED = {}


def wrapped_function(v):
    """Wrapper for a numpy function imported by name."""
    n = getattr(v, "__name__", None)
    if n and getattr(np, n, None) is v:
        return getattr(npx, n)
    return None
