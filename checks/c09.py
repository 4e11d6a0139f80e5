"""C09: the caller's data and options are never modified; repeatability."""
import copy
import types

import numpy as np
import scipy
import scipy.optimize

from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "no modification of the caller's inputs"
ASSUMPTIONS = [
    "scipy's spline, scri's frame rotation, the spin filter's verdict and (for "
    "the Fits methods) scipy.optimize.curve_fit and the local extremum search "
    "are replaced by stand-ins that return arbitrary allowed values; none of "
    "them receives the caller's own containers to write to",
]
H.base_object()


def snap(x):
    """A deep structural copy: containers by shape, numbers by value."""
    if isinstance(x, dict):
        return ("dict", {k: snap(v) for k, v in x.items()})
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype, list(x.ravel()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    return ("value", x)


def same(ctx, a, b, path, label):
    if a[0] != b[0]:
        ctx.check(False, f"{label} unchanged")
        return
    if a[0] == "dict":
        ctx.check(list(a[1]) == list(b[1]), f"{label} keys unchanged")
        for k in a[1]:
            if k in b[1]:
                same(ctx, a[1][k], b[1][k], path + (k,), label)
    elif a[0] == "array":
        ctx.check(a[1] == b[1] and a[2] == b[2], f"{label} arrays unchanged")
        if len(a[3]) == len(b[3]):
            diff = [(x, y) for x, y in zip(a[3], b[3]) if x is not y
                    and not (isinstance(x, (float, complex))
                             and isinstance(y, (float, complex)) and x == y)]
            ctx.check(ctx.all([x == y for x, y in diff]) if diff else True,
                      f"{label} arrays unchanged")
    elif a[0] in ("list", "tuple"):
        ctx.check(len(a[1]) == len(b[1]), f"{label} lists unchanged")
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            same(ctx, x, y, path + (i,), label)
    elif a[1] is not b[1]:
        ctx.check(a[1] == b[1], f"{label} values unchanged")


# -- stand-ins ---------------------------------------------------------------
_FIT = {"fail": False}


def fake_curve_fit(f, x, y, p0=None, bounds=None, **k):
    if _FIT["fail"]:
        raise RuntimeError("Optimal parameters not found")
    return np.array(list(p0), dtype=object), None


class _Opt(types.SimpleNamespace):
    def __getattr__(self, k):
        return getattr(scipy.optimize, k)


class _Sci(types.SimpleNamespace):
    def __getattr__(self, k):
        return getattr(scipy, k)


FAKE_SCIPY = _Sci(optimize=_Opt(curve_fit=fake_curve_fit))
_FILTER = {"on": False}


def fake_rotation(data_dict, ell_min=2, ell_max=2, tag=""):
    """The documented contract: a new dictionary in which the modes with this
    tag are replaced (here by a fixed recombination)."""
    out = copy.deepcopy(data_dict)
    h = out["hlm" + tag]
    out["hlm" + tag] = {k: v * 1.0 for k, v in h.items()}
    return out


def fake_filter(data_dict, data_tag, t_merger, filter_kwargs):
    f = 0.5
    out = {}
    for k in ("amp", "omega", "phase"):
        s = 1 if k == "amp" else -1
        v = f * (data_dict[f"{k}lm{data_tag}"][(2, 2)]
                 + s * data_dict[f"{k}lm{data_tag}"][(2, -2)])
        out[f"{k}_gw{data_tag}"] = v
        out[f"{k}_gw{data_tag}_original"] = v.copy()
        out[f"{k}_gw{data_tag}_filtered"] = v.copy() if _FILTER["on"] else None
        out[f"{k}_gw{data_tag}_filter_segment_results"] = None
    return out


def stubs():
    from gw_eccentricity import load_data, spin_filter
    return M.spline_stubs() + M.rational_stubs() + [
        (scipy, FAKE_SCIPY), (scipy.optimize.curve_fit, fake_curve_fit),
        (load_data.get_coprecessing_data_dict, fake_rotation),
        (spin_filter.check_and_filter_spin_induced_oscillations, fake_filter)]


def build(ctx, form, zero, prec, t0, sym_w):
    """(dataDict, t, amp, peri, apo) in the requested form."""
    amp, ph, om = M.wave(n_orb=6, spu=8 if form == "hlm" or prec else 4)
    n = len(amp)
    _, peri, apo = M.expected(amp, ph, 2)
    t = t0 + 0.5 * np.arange(n)
    w = om.copy()
    w[peri], w[apo] = 4.0, 1.0
    if sym_w:
        p = ctx.real("P", 3, 5)
        w = w.astype(object)
        w[peri[1]] = p
        w = ctx._arr(w)
    modes = {(2, 2): 1.0, (3, 3): 0.125}
    if prec:
        modes = {(2, 2): 1.0, (2, 1): 0.0625, (2, 0): 0.0625,
                 (2, -1): 0.0625, (2, -2): 1.0}
    data = {"t": t}

    def put(suffix, a, p, f):
        A, P, W = {}, {}, {}
        for (l, m), s in modes.items():
            A[(l, m)], P[(l, m)], W[(l, m)] = a * s, p * (m / 2), f * (m / 2)
        if form == "hlm":
            data["hlm" + suffix] = {k: A[k] * np.exp(-1j * P[k]) for k in A}
            return
        data["amplm" + suffix], data["phaselm" + suffix] = A, P
        if form == "omega":
            data["omegalm" + suffix] = W
    put("", amp, ph - 40.25, w)
    if zero:
        k = n + 6
        tz = t0 - 1.0 + 0.5 * np.arange(k)
        x = np.arange(k)
        put("_zeroecc", 1 + 0.01 * x - 0.2 * np.abs(x - (n - 2)) + 8,
            1.0 * x + 17.5, 1 + 0.05 * x)
        data["t_zeroecc"] = tz
    return data, t, amp, peri, apo


def options(ctx, method, user):
    if not user:
        return None
    kw = {"omega_gw_extrema_interpolation_method": "spline",
          "special_interp_kwargs_for_omega_gw_extrema": {"k": 3},
          "general_interp_kwargs": {"bbox": [None, None]},
          "extrema_finding_kwargs": {"height": None},
          "filter_kwargs": {"do_not_filter": True},
          "refine_extrema": False}
    if "Fits" in method:
        kw["kwargs_for_fits_methods"] = {"num_orbits": 2}
    return kw


METHODS = ["Amplitude", "Frequency", "ResidualAmplitude",
           "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]


def run(ctx, method, form, zero, prec, frame, exclude, user, fref=False,
        sym_w=False, sym_t=False, orbits=None, fail=False, twice=True,
        zero_request=False, debug_level=0):
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    t0 = ctx.real("t0", -60, 60) if sym_t else -3.0
    data, t, amp, peri, apo = build(ctx, form, zero, prec, t0, sym_w)
    kw = options(ctx, method, user)
    if orbits is not None:
        kw = kw or {}
        kw["use_only_these_many_orbits"] = orbits
    if zero_request:
        kw = kw or {}
        kw["return_zero_if_small_ecc_failure"] = True
    if fref:
        ref = np.array([1.06, 1.1])
        args = {"fref_in": ref}
    else:
        lo, hi = t[0], t[-1]
        if sym_w:
            x = ctx.real("x", -2, 40)
            ref = np.array([t[peri[2]] + 0 * x, t[0] + x], dtype=object)
            if not ctx.symbolic:
                ref = ref.astype(float)
        else:
            ref = np.array([t[peri[2]], t[0] + ctx.choice("xc", (6.5, -1.))])
        args = {"tref_in": ref}
    before = {k: snap(v) for k, v in
              (("dataDict", data), ("extra_kwargs", kw), ("ref", ref))}
    # the local search of the Fits methods: arbitrary verdicts
    cls = M.classes()[method]
    patched = {}

    def local_search(self, idx_ref, sign, nb, na, K, *a, **k):
        if fail:
            raise Exception("search failed")
        # fewer than 2 N + 1 extrema means the data end here
        loc = (peri if sign > 0 else apo)[:2 * self.num_orbits]
        return (np.array(loc), a[1], K, loc[2] - 1,
                [[0.0] * len(loc)] * 3)
    import gw_eccentricity.eccDefinitionUsingFrequencyFits as FF
    base = FF.eccDefinitionUsingFrequencyFits
    if "Fits" in method:
        patched[(base, "FindExtremaNearIdxRef")] = local_search
    elif fail:
        def no_extrema(self, extrema_type="pericenters"):
            return np.array([3])
        patched[(cls, "find_extrema")] = no_extrema

    def quiet_check(self):
        return None
    from gw_eccentricity.eccDefinition import eccDefinition
    patched[(eccDefinition, "check_monotonicity_and_convexity")] = quiet_check
    patched[(eccDefinition, "compute_eccentricity")] = \
        lambda self, tt: self.omega_gw_pericenters_interp(tt)
    saved = {k: k[0].__dict__.get(k[1]) for k in patched}
    outs = []
    try:
        for (c, nm), f in patched.items():
            setattr(c, nm, f)
        for _ in range(2 if twice else 1):
            exc = ctx.raises(lambda: measure_eccentricity(
                dataDict=data, method=method, extra_kwargs=kw,
                num_orbits_to_exclude_before_merger=exclude,
                precessing=prec, frame=frame, debug_level=debug_level, **args))
            for k, v in (("dataDict", data), ("extra_kwargs", kw),
                         ("ref", ref)):
                same(ctx, before[k], snap(v), (), k)
            outs.append((exc, None if exc else ctx.last))
    finally:
        for (c, nm), f in saved.items():
            if f is None:
                delattr(c, nm)
            else:
                setattr(c, nm, f)
    if len(outs) == 2:
        (e1, o1), (e2, o2) = outs
        ctx.check((e1 is None) == (e2 is None), "same outcome again")
        if e1 is None and e2 is None:
            for k in ("eccentricity", "mean_anomaly", "tref_out", "fref_out"):
                ctx.check((k in o1) == (k in o2), "same keys again")
                if k in o1 and k in o2:
                    ctx.check(np.shape(o1[k]) == np.shape(o2[k]),
                              "same length again")
                    for a, b in zip(np.ravel(o1[k]), np.ravel(o2[k])):
                        ctx.check(a is b or a == b, "same result again")
    ctx.reach("error" if outs[0][0] is not None else "measured")
    return outs


@scenario(reach=["measured", "error"], stubs=stubs, sym_stubs=M.peak_stubs, budget=(300, 3000),
          quick=[{"method": m} for m in METHODS])
def plain(ctx, method):
    """Every method, every data form, with and without options, any requested
    time (inside or outside), any truncation, any time origin."""
    zero = "Residual" in method or ctx.flag("zero")
    form = ctx.choice("form", ("amp", "omega", "hlm"))
    exclude = ctx.choice("exclude", (2, None, 0, 100))
    fail = ctx.flag("fail")
    user = ctx.flag("user")
    sym_w = form == "omega" and not fail and exclude == 2 and user
    run(ctx, method, form, zero, False, "inertial", exclude, user, fail=fail,
        sym_t=sym_w and "Frequency" not in method, sym_w=sym_w)


@scenario(reach=["measured", "error"], stubs=stubs, sym_stubs=M.peak_stubs, budget=(300, 3000),
          quick=[{"method": "Amplitude"}, {"method": "FrequencyFits"},
                 {"method": "ResidualAmplitude"}],
          thorough=[{"method": m} for m in METHODS])
def precessing(ctx, method):
    zero = "Residual" in method or ctx.flag("zero")
    form = ctx.choice("form", ("amp", "omega", "hlm"))
    exclude = ctx.choice("exclude", (2, None))
    frame = ctx.choice("frame", ("inertial", "coprecessing", "other"))
    _FILTER["on"] = ctx.flag("filtered")
    try:
        run(ctx, method, form, zero, True, frame, exclude, ctx.flag("user"))
    finally:
        _FILTER["on"] = False


@scenario(reach=["measured", "error"], stubs=stubs, sym_stubs=M.peak_stubs, budget=(300, 3000),
          quick=[{"method": "Amplitude"}, {"method": "AmplitudeFits"}],
          thorough=[{"method": m} for m in METHODS])
def special(ctx, method):
    """Short segments, requests by frequency, the zero fallback, a failing
    fit, a raising debug level, contradictory data."""
    zero = "Residual" in method
    kind = ctx.choice("kind", ("segment", "fref", "zero", "level",
                               "contradict"))
    exclude = ctx.choice("exclude", (2, None))
    form = ctx.choice("form", ("amp", "omega"))
    user = ctx.flag("user")
    fail = ctx.flag("fail")
    _FIT["fail"] = fail
    try:
        if kind == "segment":
            run(ctx, method, form, zero, False, "inertial", exclude, user,
                orbits=2)
        elif kind == "fref":
            run(ctx, method, form, zero, False, "inertial", exclude, user,
                fref=True, sym_w=form == "omega" and not fail and user)
        elif kind == "zero":
            run(ctx, method, form, zero, False, "inertial", exclude, user,
                zero_request=True, fail=True)
        elif kind == "level":
            run(ctx, method, form, zero, False, "inertial", exclude, user,
                debug_level=ctx.choice("level", (-1, 1, 2)))
        else:
            from gw_eccentricity.gw_eccentricity import measure_eccentricity
            data = build(ctx, form, zero, False, 0.0, False)[0]
            bad = ctx.choice("bad", ("both", "missing", "key", "noref"))
            kw = options(ctx, method, user)
            args = {"tref_in": 5.0}
            if bad == "both":
                data["hlm"] = {(2, 2): np.ones(len(data["t"])) * 1j}
            elif bad == "missing":
                del data["phaselm"]
            elif bad == "key":
                kw = dict(kw or {}, nonsense=1)
            else:
                args = {"tref_in": 5.0, "fref_in": 0.1}
            b1, b2 = snap(data), snap(kw)
            exc = ctx.raises(lambda: measure_eccentricity(
                dataDict=data, method=method, extra_kwargs=kw,
                num_orbits_to_exclude_before_merger=exclude, **args))
            ctx.check(exc is not None, "rejected")
            same(ctx, b1, snap(data), (), "dataDict")
            same(ctx, b2, snap(kw), (), "extra_kwargs")
            ctx.reach("error")
    finally:
        _FIT["fail"] = False


@scenario(reach=["same"], stubs=stubs, sym_stubs=M.peak_stubs, quick=[{}])
def other_calls(ctx):
    """A measurement leaves no trace for later ones of another kind."""
    from gw_eccentricity import utils
    before = {f: snap(getattr(utils, f)()) for f in
              ("get_default_spline_kwargs", "get_default_rational_fit_kwargs")}
    kind = ctx.choice("between", METHODS)
    a = run(ctx, "Amplitude", "omega", False, False, "inertial", 2, False,
            sym_w=True, twice=False)[0]
    ctx_sub(ctx, kind)
    c = _again(ctx)
    ctx.check((a[0] is None) == (c[0] is None), "same outcome")
    if a[0] is None and c[0] is None:
        for k in ("eccentricity", "mean_anomaly", "tref_out"):
            for x, y in zip(np.ravel(a[1][k]), np.ravel(c[1][k])):
                ctx.check(x is y or x == y, "same result after another call")
    for f, v in before.items():
        same(ctx, v, snap(getattr(utils, f)()), (), "defaults")
    ctx.reach("same")


def ctx_sub(ctx, method):
    sub = _Fixed(ctx, {"x": 6.5, "P": 4.25, "t0": -3.0})
    return run(sub, method, "omega", True, False, "inertial", None, True,
               twice=False)[0]


def _again(ctx):
    # inputs are looked up by name: these are the same ones as the first time
    return run(ctx, "Amplitude", "omega", False, False, "inertial",
               2, False, sym_w=True, twice=False)[0]


class _Fixed:
    """Same context with concrete values for some inputs."""

    def __init__(self, ctx, vals):
        self._c, self._v = ctx, vals

    def real(self, name, *a):
        return self._v[name]

    def __getattr__(self, k):
        return getattr(self._c, k)
