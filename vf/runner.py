"""Scenario registry, exploration, replay on the unpatched code, evidence."""
import contextlib
import importlib
import io
import json
import math
import os
import sys
import time
import traceback
import types
import warnings
from fractions import Fraction

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "gw_eccentricity"


def _z3():
    import z3
    return z3


# --------------------------------------------------------------------------
# scenario registry
class Scenario:
    def __init__(self, fn, name, reach, quick, thorough, stubs, sym_stubs,
                 budget, query_ms, assumptions, tol, validate):
        self.fn, self.name, self.reach = fn, name, reach
        self.cases = {"quick": quick, "thorough": thorough or quick}
        self.stubs, self.sym_stubs = stubs, sym_stubs
        self.budget, self.query_ms = budget, query_ms
        self.assumptions = assumptions
        self.tol = tol
        self.validate = validate


REGISTRY = []
OWNER = None      # module whose scenarios are run


def scenario(name=None, reach=(), quick=({},), thorough=None, stubs=None,
             sym_stubs=None, budget=(240, 3000), query_ms=(20000, 120000),
             assumptions=(), tol=1e-7, validate=12):
    """Register a scenario.  ``stubs``: callable returning {original: stand-in}
    installed in both modes; ``sym_stubs``: only in symbolic mode."""
    def deco(fn):
        if OWNER not in (None, fn.__module__):
            return fn       # imported from another check for its helpers
        REGISTRY.append(Scenario(fn, name or fn.__name__, tuple(reach),
                                 list(quick), list(thorough) if thorough
                                 else None, stubs, sym_stubs, budget,
                                 query_ms, list(assumptions), tol, validate))
        return fn
    return deco


# --------------------------------------------------------------------------
# patching
def repo_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == PKG or n.startswith(PKG + "."))]


@contextlib.contextmanager
def patched(stubs, symbolic):
    from . import npx
    saved = []
    ids = {}
    for orig, rep in (stubs or {}).items():
        ids[id(orig)] = rep
    try:
        for m in repo_modules():
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                rep = None
                try:
                    if id(v) in ids:
                        rep = ids[id(v)]
                    elif symbolic:
                        if v is np:
                            rep = npx.npx
                        elif v is math:
                            rep = npx.mathx
                        elif isinstance(v, (types.BuiltinFunctionType,
                                            types.FunctionType, np.ufunc)) \
                                or type(v).__name__ == \
                                "_ArrayFunctionDispatcher":
                            rep = npx.wrapped_function(v)
                except TypeError:
                    rep = None
                if rep is not None:
                    saved.append((m, k, v))
                    setattr(m, k, rep)
        yield
    finally:
        for m, k, v in reversed(saved):
            setattr(m, k, v)


# --------------------------------------------------------------------------
# contexts
class CheckFailed(Exception):
    pass


class BaseCtx:
    symbolic = False

    def __init__(self, scen):
        self.scen = scen
        self.reached = set()
        self.outs = {}

    # -- composed inputs
    def reals(self, name, n, lo=None, hi=None):
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = self.real(f"{name}[{i}]", lo, hi)
        return self._arr(out)

    def increasing(self, name, n, lo=None, hi=None):
        out = self.reals(name, n, lo, hi)
        for i in range(n - 1):
            self.assume(out[i] < out[i + 1])
        return out

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def flag(self, name):
        return bool(int(self.int(name, 0, 1)))

    def reach(self, label):
        self.reached.add(label)

    # -- conditions
    def all(self, conds):
        return self._and(list(conds))

    def any(self, conds):
        return self._or(list(conds))

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def eq_arr(self, a, b):
        a, b = np.atleast_1d(np.asarray(a, dtype=object)), \
            np.atleast_1d(np.asarray(b, dtype=object))
        if a.shape != b.shape:
            return False
        return self.all([self.eq(x, y) for x, y in zip(a.flat, b.flat)])

    def implies(self, a, b):
        return self.any([self.not_(a), b])

    @contextlib.contextmanager
    def quiet(self):
        with warnings.catch_warnings(record=True) as w, \
                contextlib.redirect_stdout(io.StringIO()) as out:
            warnings.simplefilter("always")
            yield types.SimpleNamespace(warnings=w, out=out)

    def raises(self, f, *exc):
        """Run f(); return the exception it raised (or None) ."""
        exc = exc or (Exception,)
        try:
            with self.quiet():
                self.last = f()
        except exc as e:
            return e
        return None


def _pybool(x):
    from .sym import SBool
    if isinstance(x, SBool):
        return x
    return bool(x)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, scen, eng):
        super().__init__(scen)
        self.eng = eng
        self.vars = {}
        self.candidates = []
        self.proved = 0
        self.unknown = []

    def _arr(self, a):
        if isinstance(a, list):
            out = np.empty(len(a), dtype=object)
            out[:] = a
            return out
        return a

    def const(self, x):
        from .sym import SNum, lift
        return SNum(lift(x))

    def real(self, name, lo=None, hi=None):
        from .sym import SNum
        z3 = _z3()
        if name in self.vars:
            return SNum(self.vars[name][0])
        t = z3.Real(name)
        self.vars[name] = (t, "real")
        if lo is not None:
            self.eng.assume(SNum(t) >= lo)
        if hi is not None:
            self.eng.assume(SNum(t) <= hi)
        return SNum(t)

    def unit(self, name, lo, hi):
        """A positive unit of measurement, lo <= unit <= hi (see sym.py)."""
        from . import sym
        if sym.UNITS:
            raise sym.Unsupported("a second unit")
        r = self.real(name, lo, hi)
        u, rel = sym.unit_var(r.v)
        for c in (rel, u * hi >= 1, u * lo <= 1, u > 0):
            self.eng.assume(sym.SBool(c))
        return r

    def int(self, name, lo=None, hi=None):
        from .sym import SNum
        z3 = _z3()
        if name in self.vars:
            return SNum(self.vars[name][0])
        t = z3.Int(name)
        self.vars[name] = (t, "int")
        if lo is not None:
            self.eng.assume(SNum(t) >= lo)
        if hi is not None:
            self.eng.assume(SNum(t) <= hi)
        return SNum(t)

    def assume(self, c):
        self.eng.assume(c)

    def cplx(self, amp, ph):
        from .sym import SComplex, SNum
        return SComplex.polar(amp if isinstance(amp, SNum) else
                              self.const(amp),
                              ph if isinstance(ph, SNum) else self.const(ph))

    def _sb(self, t, strong):
        from .sym import SBool
        z3 = _z3()
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t, strong)

    def _strong(self, c):
        from .sym import SBool, bterm
        z3 = _z3()
        if isinstance(c, SBool) and c.strong is not None:
            return c.strong
        return z3.Not(bterm(c))

    def _lift2(self, a, b):
        from .sym import lift, NAN, is_inf
        return lift(a), lift(b)

    def eq(self, a, b):
        from .sym import SComplex, SBool, rterm, NAN, is_inf, is_z
        z3 = _z3()
        if isinstance(a, SComplex) or isinstance(b, SComplex) or \
                isinstance(a, complex) or isinstance(b, complex):
            return SComplex.of(a) == SComplex.of(b)
        if isinstance(a, SBool) or isinstance(b, SBool):
            return SBool.__eq__(a if isinstance(a, SBool) else b,
                                b if isinstance(a, SBool) else a)
        x, y = self._lift2(a, b)
        if x is None or y is None:
            return a is b or bool(a == b)
        if x is NAN or y is NAN:
            return False
        if is_inf(x) or is_inf(y):
            return is_inf(x) and is_inf(y) and x == y
        if not is_z(x) and not is_z(y):
            # both exact constants: same tolerance as the concrete mode, since
            # float literals of the code are only approximations
            return abs(x - y) <= Fraction(self.scen.tol) * max(
                1, abs(x), abs(y))
        x, y = rterm(x), rterm(y)
        m = z3.RealVal("0.001")
        return self._sb(x == y, z3.Or(x - y >= m, y - x >= m))

    def le(self, a, b):
        from .sym import rterm, NAN, is_inf, is_z
        z3 = _z3()
        x, y = self._lift2(a, b)
        if x is NAN or y is NAN:
            return False
        if is_inf(x) or is_inf(y) or (not is_z(x) and not is_z(y)):
            return bool(a <= b)
        x, y = rterm(x), rterm(y)
        return self._sb(x <= y, x - y >= z3.RealVal("0.001"))

    def lt(self, a, b):
        from .sym import rterm, NAN, is_inf, is_z
        z3 = _z3()
        x, y = self._lift2(a, b)
        if x is NAN or y is NAN:
            return False
        if is_inf(x) or is_inf(y) or (not is_z(x) and not is_z(y)):
            return bool(a < b)
        x, y = rterm(x), rterm(y)
        return self._sb(x < y, x - y >= z3.RealVal("0.001"))

    def close(self, a, b, tol):
        """|a-b| <= tol (exact real statement)."""
        from .sym import rterm, NAN, is_inf
        z3 = _z3()
        x, y = self._lift2(a, b)
        if x is NAN or y is NAN or is_inf(x) or is_inf(y):
            return False
        x, y = rterm(x), rterm(y)
        t = z3.RealVal(Fraction(tol))
        return self._sb(z3.And(x - y <= t, y - x <= t),
                        z3.Or(x - y >= 2 * t, y - x >= 2 * t))

    def not_(self, c):
        from .sym import bterm
        z3 = _z3()
        return self._sb(z3.Not(bterm(c)), bterm(c))

    def _and(self, cs):
        from .sym import bterm
        z3 = _z3()
        return self._sb(z3.And(*[bterm(c) for c in cs]) if cs else
                        z3.BoolVal(True),
                        z3.Or(*[self._strong(c) for c in cs]) if cs else None)

    def _or(self, cs):
        from .sym import bterm
        z3 = _z3()
        return self._sb(z3.Or(*[bterm(c) for c in cs]) if cs else
                        z3.BoolVal(False),
                        z3.And(*[self._strong(c) for c in cs]) if cs else None)

    def out(self, name, value):
        self.outs[name] = value

    def check(self, cond, label):
        from .sym import bterm, PathEnd
        z3 = _z3()
        c = z3.simplify(bterm(cond))
        if z3.is_true(c):
            self.proved += 1
            self.eng.ensure_feasible()
            return
        neg = z3.simplify(z3.Not(c))
        r, m = self.eng.check_sat(neg)
        if r == z3.unsat:
            self.proved += 1
            self.eng.add(c)
            return
        if r == z3.unknown:
            self.unknown.append(label)
            self.eng.assume(cond)
            return
        models = []
        strong = self._strong(cond)
        try:
            r2, m2 = self.eng.check_sat(strong, timeout=5000)
        except z3.Z3Exception:
            r2, m2 = z3.unknown, None
        if r2 == z3.sat:
            models.append(self.values(m2))
        models.append(self.values(m))
        for base in list(models):
            rd = self.rounded(base, neg)
            if rd is not None:
                models.insert(0, rd)
        self.candidates.append((label, models))
        self.eng.assume(cond)
        r, m = self.eng.check_sat()
        if r == z3.unsat:
            raise PathEnd("after violation")

    def values(self, model):
        z3 = _z3()
        out = {}
        for n, (t, kind) in self.vars.items():
            v = model.eval(t, model_completion=True)
            if kind == "int":
                out[n] = v.as_long()
            elif kind == "bool":
                out[n] = z3.is_true(v)
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                out[n] = Fraction(v.numerator_as_long(),
                                  v.denominator_as_long())
        return out

    def rounded(self, vals, neg):
        z3 = _z3()
        for den in (16, 4096):
            nv, eqs = {}, []
            for n, (t, kind) in self.vars.items():
                if kind == "real":
                    nv[n] = Fraction(round(vals[n] * den), den)
                    eqs.append(t == z3.RealVal(nv[n]))
                else:
                    nv[n] = vals[n]
                    eqs.append(t == nv[n])
            try:
                r, _ = self.eng.check_sat(neg, *eqs, timeout=2000)
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return nv
        return None


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, scen, values):
        super().__init__(scen)
        self.values_ = values
        self.failed = []
        self.missing = []
        self.assume_failed = False

    def _arr(self, a):
        if all(isinstance(x, float) for x in a):
            return np.asarray(a, dtype=float)
        return a

    def const(self, x):
        return float(x)

    def _get(self, name):
        if name not in self.values_:
            self.missing.append(name)
            return 0
        return self.values_[name]

    def real(self, name, lo=None, hi=None):
        return float(self._get(name))

    def unit(self, name, lo, hi):
        return self.real(name, lo, hi)

    def int(self, name, lo=None, hi=None):
        v = self._get(name)
        if name in self.missing and lo is not None:
            v = lo
        return int(v)

    def assume(self, c):
        if not bool(c):
            self.assume_failed = True

    def cplx(self, amp, ph):
        return amp * np.exp(1j * ph)

    def eq(self, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str,
                                                              type(None))):
            return a == b
        if isinstance(a, (complex, np.complexfloating)) or \
                isinstance(b, (complex, np.complexfloating)):
            return abs(a - b) <= self.scen.tol * max(1, abs(a), abs(b))
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return bool(a == b)
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.scen.tol * max(1.0, abs(a), abs(b))

    def le(self, a, b):
        return bool(a <= b + self.scen.tol * 1e-3 * max(1.0, abs(a), abs(b)))

    def lt(self, a, b):
        return bool(a < b)

    def close(self, a, b, tol):
        return bool(abs(a - b) <= tol * (1 + 1e-6))

    def not_(self, c):
        return not bool(c)

    def _and(self, cs):
        return all(bool(c) for c in cs)

    def _or(self, cs):
        return any(bool(c) for c in cs)

    def out(self, name, value):
        self.outs[name] = value

    def check(self, cond, label):
        if not bool(cond):
            self.failed.append(label)


# --------------------------------------------------------------------------
@contextlib.contextmanager
def installed(scen, symbolic):
    d = {}
    if scen.stubs:
        for o, r in scen.stubs():
            d[id(o)] = (o, r)
    if symbolic and scen.sym_stubs:
        for o, r in scen.sym_stubs():
            d[id(o)] = (o, r)

    class D(dict):
        pass
    stubs = _IdDict(list(d.values()))
    with patched(stubs, symbolic):
        yield


class _IdDict:
    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs

    def __bool__(self):
        return True


def replay(scen, params, values):
    """Run the scenario on the real code with ordinary floats."""
    from . import sym
    sym.set_engine(None)
    ctx = ConcCtx(scen, values)
    exc = None
    with installed(scen, False):
        try:
            with np.errstate(all="ignore"):
                scen.fn(ctx, **params)
        except Exception as e:
            exc = e
            ctx.tb = traceback.format_exc()
    return ctx, exc


def run_case(scen, params, tier, stop_on_violation=True, known=()):
    from . import sym
    z3 = _z3()
    ti = 0 if tier == "quick" else 1
    eng = sym.Engine(query_ms=scen.query_ms[ti], budget_s=scen.budget[ti])
    t0 = time.time()
    res = dict(scenario=scen.name, params=_js(params), paths=0, ended=0,
               proved=0, validated=0, diverged=0, reached=[], violations=[],
               known=[], inconclusive=[], samples=[], functions=[])
    funcs = set()
    mon = _Monitor(funcs)
    reached = set()
    eng.work = [[]]
    npaths = 0
    stop = False
    while eng.work and not stop:
        if time.time() > eng.deadline:
            res["inconclusive"].append(
                f"time budget {scen.budget[ti]}s exhausted with "
                f"{len(eng.work)} open branches")
            break
        prefix = eng.work.pop()
        eng.begin(prefix)
        ctx = SymCtx(scen, eng)
        sym.set_engine(eng)
        exc = None
        completed = stuck = False
        try:
            with installed(scen, True), mon:
                scen.fn(ctx, **params)
            completed = True
        except sym.PathEnd:
            res["ended"] += 1
        except sym.Unsupported as e:
            res["inconclusive"].append(f"unsupported: {e} @ "
                                       + _where(e))
            stuck = True
        except sym.Budget as e:
            res["inconclusive"].append(f"budget: {e}")
            eng.work = []
        except RecursionError as e:
            res["inconclusive"].append(f"recursion: {e}")
        except Exception as e:
            exc = e
        npaths += 1
        cands = list(ctx.candidates)
        if exc is not None and mismatch(exc):
            res["inconclusive"].append(f"harness does not fit: {exc!r}")
            exc = None
            cands = []
        if exc is not None:
            try:
                r, m = eng.check_sat()
            except sym.Budget:
                r, m = z3.unknown, None
            if r == z3.sat:
                v = ctx.values(m)
                ms = [v]
                rd = ctx.rounded(v, z3.BoolVal(True))
                if rd:
                    ms.insert(0, rd)
                cands.append((f"exception:{type(exc).__name__}", ms))
                tbs = "".join(traceback.format_exception(exc))
            elif r == z3.unknown:
                res["inconclusive"].append(
                    f"exception {type(exc).__name__} on a path of unknown "
                    f"feasibility")
        if (stuck or ctx.unknown) and res.setdefault("fallback", 0) < 40:
            # the solver cannot finish this path: try its inputs for real
            try:
                r, m = eng.check_sat()
                if r == z3.sat:
                    v = ctx.values(m)
                    rd = ctx.rounded(v, z3.BoolVal(True))
                    res["fallback"] += 1
                    cands.append((None, [x for x in (rd, v) if x]))
            except sym.Budget:
                pass
        final_model = None
        if completed:
            try:
                r, m = eng.check_sat()
                if r == z3.sat:
                    final_model = m
                    reached |= ctx.reached
                elif r == z3.unsat:
                    completed = False
                    res["ended"] += 1
            except sym.Budget:
                res["inconclusive"].append("budget at path end")
        if completed:
            res["paths"] += 1
        res["proved"] += ctx.proved
        for lab in ctx.unknown:
            res["inconclusive"].append(f"solver unknown on {lab}")
        vals = None
        outs = {}
        if completed and final_model is not None and \
                res["validated"] + res["diverged"] < scen.validate:
            vals = ctx.values(final_model)
            rd = ctx.rounded(vals, z3.BoolVal(True))
            ev_model = final_model
            if rd is not None:
                eqs = [t == (z3.RealVal(rd[n]) if k == "real" else rd[n])
                       for n, (t, k) in ctx.vars.items()]
                r, m3 = eng.check_sat(*eqs)
                if r == z3.sat:
                    vals, ev_model = rd, m3
            outs = {k: _eval_out(v, ev_model) for k, v in ctx.outs.items()}
        sym.set_engine(None)
        # replay candidates on the unpatched code
        for label, models in cands:
            ok = False
            last = ""
            for v in models:
                cctx, cexc = replay(scen, params, v)
                if cexc is not None and mismatch(cexc):
                    last = f"harness does not fit: {cexc!r}"
                    continue
                if label is None:
                    ok = bool(cctx.failed or cexc) and not cctx.assume_failed
                    last = f"failed={cctx.failed} exc={cexc!r}"
                    if ok:
                        label = cctx.failed[0] if cctx.failed else \
                            f"exception:{type(cexc).__name__}"
                else:
                    ok = cexc is not None or (
                        bool(cctx.failed) and not cctx.assume_failed)
                    last = f"failed={cctx.failed} exc={cexc!r} " \
                           f"assume_failed={cctx.assume_failed}"
                    if ok and cctx.failed and label not in cctx.failed:
                        label = cctx.failed[0]
                if ok:
                    entry = dict(scenario=scen.name, params=_js(params),
                                 label=label, values=_js(v), detail=last)
                    if exc is not None:
                        entry["traceback"] = tbs[-1500:]
                    kn = match_known(known, scen.name, label, params)
                    if kn:
                        res["known"].append((kn, entry))
                    else:
                        res["violations"].append(entry)
                        if stop_on_violation:
                            stop = True
                    break
            if not ok and label is not None:
                res["inconclusive"].append(
                    f"counterexample for '{label}' did not reproduce: {last} "
                    f"values={str(_js(models[-1]))[:600]}"
                    + (f" tb={tbs[-900:]}" if exc is not None else ""))
        if vals is not None:
            cctx, cexc = replay(scen, params, vals)
            agree = cexc is None and not cctx.failed and \
                _same_outs(outs, cctx.outs)
            if agree:
                res["validated"] += 1
            else:
                if rd is not None and not cctx.assume_failed and \
                        (cctx.failed or cexc is not None):
                    lab = cctx.failed[0] if cctx.failed else \
                        f"exception:{type(cexc).__name__}"
                    entry = dict(scenario=scen.name, params=_js(params),
                                 label=lab, values=_js(vals),
                                 detail=f"validation replay: failed="
                                 f"{cctx.failed} exc={cexc!r}")
                    kn = match_known(known, scen.name, lab, params)
                    if kn:
                        res["known"].append((kn, entry))
                    else:
                        res["violations"].append(entry)
                        stop = stop or stop_on_violation
                res["diverged"] += 1
                res.setdefault("divergence", []).append(
                    f"exc={cexc!r} failed={cctx.failed} "
                    f"outs={_diff_outs(outs, cctx.outs)}"[:500])
            if len(res["samples"]) < 2:
                res["samples"].append(dict(scenario=scen.name,
                                           params=_js(params),
                                           path=npaths, inputs=_js(vals)))
        if len(res["inconclusive"]) > 40:
            stop = True
        if npaths > eng.max_paths:
            res["inconclusive"].append("path budget")
            break
    res["reached"] = sorted(reached)
    res["queries"] = eng.queries
    res["solver_s"] = round(eng.solver_s, 3)
    res["decisions"] = eng.decisions
    res["unknown_feas"] = eng.unknown_feas
    res["functions"] = sorted(funcs)
    if sym.FORKS:
        for k, n in sorted(sym.FORKS.items(), key=lambda x: -x[1])[:25]:
            print("FORK", n, k, file=sys.stderr)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def mismatch(e):
    """The check asked for something the code does not have (a renamed
    helper, another signature): nothing is decided, which is not a
    violation."""
    if not isinstance(e, (AttributeError, ImportError, TypeError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(VERIF):
        return False
    s = str(e)
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        return "has no attribute" in s and (
            s.startswith("module ") or s.startswith("type object ")
            or s.startswith("'eccDefinition")
            or s.startswith("'Qusicircular"))
    return "argument" in s and ("()" in s)


def _where(e):
    tb = e.__traceback__
    best = ""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/repo/" in fn or "gw_ecc" in fn or "checks" in fn:
            best = f"{os.path.basename(fn)}:{tb.tb_lineno}"
        tb = tb.tb_next
    return best


def _eval_out(v, model):
    from .sym import SNum, SBool, NAN, is_z
    z3 = _z3()
    if isinstance(v, SNum):
        if v.v is NAN:
            return float("nan")
        if not is_z(v.v):
            return float(v.v)
        x = model.eval(v.v, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(30)
        if z3.is_int_value(x):
            return float(x.as_long())
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(),
                                  x.denominator_as_long()))
        return None
    if isinstance(v, SBool):
        return None
    if isinstance(v, np.ndarray):
        return [_eval_out(e, model) for e in v.flat]
    if isinstance(v, (list, tuple)):
        return [_eval_out(e, model) for e in v]
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return None


def _flat(v):
    if isinstance(v, np.ndarray):
        return [_flat(e) for e in v.flat]
    if isinstance(v, (list, tuple)):
        return [_flat(e) for e in v]
    try:
        return float(v)
    except (TypeError, ValueError):
        return None


def _close(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or \
                len(a) != len(b):
            return False
        return all(_close(x, y) for x, y in zip(a, b))
    if math.isnan(a):
        return not math.isfinite(b)
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def _same_outs(sy, co):
    for k, v in sy.items():
        if k not in co or not _close(v, _flat(co[k])):
            return False
    return True


def _diff_outs(sy, co):
    return {k: (v, _flat(co.get(k))) for k, v in sy.items()
            if k not in co or not _close(v, _flat(co[k]))}


class _Monitor:
    """Record the repository functions that ran symbolically."""
    TOOL = 3

    def __init__(self, funcs):
        self.funcs = funcs

    def __enter__(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, "vf")
        except ValueError:
            pass

        def start(code, off):
            fn = code.co_filename
            if "/gw_eccentricity/" in fn and "site-packages" not in fn:
                self.funcs.add(os.path.basename(fn) + ":" + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.restart_events()
        m.set_events(self.TOOL, m.events.PY_START)

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        return False


def _js(x):
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, Fraction):
        return f"{x.numerator}/{x.denominator}" if x.denominator != 1 \
            else x.numerator
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def unjs(values):
    return {k: Fraction(v) if isinstance(v, str) else v
            for k, v in values.items()}


# --------------------------------------------------------------------------
# known findings
def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, what = line[len("known:"):].partition("::")
            d = dict(p.split("=", 1) for p in head.split())
            d["what"] = what.strip()
            if d.get("property") == prop:
                out.append(d)
    return out


def match_known(known, scen, label, params):
    for k in known:
        if k["scenario"] == scen and k["label"] == label:
            if all(str(params.get(p[2:])) == v for p, v in k.items()
                   if p.startswith("p.")):
                return k
    return None


# --------------------------------------------------------------------------
def _worker(job):
    prop, idx, params, tier = job
    sc = REGISTRY[idx]
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, "w")
    try:
        with contextlib.redirect_stdout(devnull), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return run_case(sc, params, tier, known=load_known(prop))
    except BaseException as e:  # engine error
        return dict(scenario=sc.name, params=_js(params), error=repr(e),
                    tb=traceback.format_exc())


def main(prop, tier, seed, only=None, jobs=None, strict=False):
    t0 = time.time()
    global OWNER
    REGISTRY.clear()
    OWNER = f"checks.{prop.lower()}"
    mod = importlib.import_module(f"checks.{prop.lower()}")
    title = getattr(mod, "TITLE", prop)
    import sympy  # noqa: F401  (imported once, before forking)
    import z3  # noqa: F401
    work = []
    for i, sc in enumerate(REGISTRY):
        if only and only not in sc.name:
            continue
        for params in sc.cases[tier]:
            work.append((prop, i, params, tier))
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(work)))
    results = []
    if jobs == 1 or len(work) == 1:
        results = [_worker(w) for w in work]
    else:
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs, maxtasksperchild=1) as pool:
            results = list(pool.imap(_worker, work, chunksize=1))
    errors = [r for r in results if "error" in r]
    ok = [r for r in results if "error" not in r]
    violations = [v for r in ok for v in r["violations"]]
    inconcl = [f"{r['scenario']}{r['params']}: {m}" for r in ok
               for m in r["inconclusive"]]
    known = {}
    for r in ok:
        for k, e in r["known"]:
            known[k["what"]] = e
    # reachability witnesses (vacuity guard), per scenario
    missing = []
    for sc in REGISTRY:
        if only and only not in sc.name:
            continue
        rs = [r for r in ok if r["scenario"] == sc.name]
        got = set().union(*[set(r["reached"]) for r in rs]) if rs else set()
        miss = [x for x in sc.reach if x not in got]
        paths = sum(r["paths"] for r in rs)
        if (miss or paths == 0) and not any(r["violations"] for r in rs):
            missing.append(f"{sc.name}: {miss or 'no completed path'}")
    assumptions = sorted({a for sc in REGISTRY for a in sc.assumptions}
                         | set(getattr(mod, "ASSUMPTIONS", [])))
    os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
    lines = []
    for n, v in enumerate(violations):
        p = os.path.join("evidence", "replays", f"{prop}-{n}.json")
        with open(os.path.join(VERIF, p), "w") as f:
            json.dump(dict(property=prop, **v), f, indent=1)
        if n < 5:
            lines.append(f"VIOLATION property={prop} replay={p}")
    funcs = sorted({f for r in ok for f in r["functions"]})
    cov = dict(
        states=sum(r["paths"] for r in ok),
        transitions=sum(r["decisions"] for r in ok),
        traces_validated_against_impl=sum(r["validated"] for r in ok),
        samples=[s for r in ok for s in r["samples"]][:12],
        explanation="bounded symbolic execution of the repository's own "
        "functions: states = feasible symbolic paths completed, transitions "
        "= branch decisions taken, each property instance decided by z3 for "
        "every value on the path; validated traces = solver models of "
        "explored paths re-run on the unpatched code with matching outputs",
        assertions_proved=sum(r["proved"] for r in ok),
        infeasible_paths_pruned=sum(r["ended"] for r in ok),
        queries=sum(r["queries"] for r in ok),
        solver_s=round(sum(r["solver_s"] for r in ok), 2),
        float_divergent_traces=sum(r["diverged"] for r in ok),
        unknown_feasibility=sum(r["unknown_feas"] for r in ok),
        functions_encoded=funcs,
        scenarios=[dict(scenario=r["scenario"], bounds=r["params"],
                        paths=r["paths"], proved=r["proved"],
                        queries=r["queries"], solver_s=r["solver_s"],
                        reached=r["reached"], wall_s=r["wall_s"])
                   for r in ok],
        not_decided=(inconcl + [f"vacuous: {m}" for m in missing])[:20])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r in ok:
        print(f"[{prop}] {r['scenario']} {r['params']} paths={r['paths']} "
              f"proved={r['proved']} queries={r['queries']} "
              f"solver={r['solver_s']}s wall={r['wall_s']}s "
              f"valid={r['validated']}/{r['validated'] + r['diverged']} "
              f"reached={r['reached']}")
        for d in r.get("divergence", [])[:2]:
            print("   divergence:", d)
    for k, e in known.items():
        print(f"KNOWN-FINDING: property={prop} {k}")
    for v in violations[:10]:
        print("violation:", json.dumps(v)[:2500])
    for e in errors:
        print("ENGINE ERROR", e["scenario"], e["error"], e["tb"])
    for m in inconcl[:20]:
        print("INCONCLUSIVE", m[:1800])
    for m in missing:
        print("VACUOUS", m)
    for ln in lines:
        print(ln)
    if violations:
        return 1
    if strict and (errors or inconcl or missing):
        return 3
    if errors or len(missing) == sum(
            1 for sc in REGISTRY if not only or only in sc.name):
        return 3        # nothing at all was decided
    if inconcl or missing:
        print(f"[{prop}] some scenarios were not decided (listed above and "
              f"in the evidence); nothing explored violates the property")
    print(f"[{prop}] held on everything explored: {cov['states']} paths, "
          f"{cov['assertions_proved']} assertions, {cov['queries']} queries, "
          f"{ev['wall_s']}s")
    return 0
