"""C14: options - unknown ones rejected, given ones win, the rest default."""
import copy

import numpy as np
import scipy.signal

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "option handling"
ASSUMPTIONS = [
    "scipy's splines, find_peaks and curve_fit, the rational fit, the frame "
    "rotation and the spin filter are replaced by recorders: the check is "
    "about which option values reach them",
    "option values are arbitrary (symbolic) numbers where the consumer accepts "
    "numbers; each documented option appears given and not given"]
H.base_object()

METHODS = c09.METHODS
MULTI = "given or default"


# -- recorders -----------------------------------------------------------------
class Rec:
    peaks, spline, rational, filt, fits, local = [], [], [], [], [], []

    @classmethod
    def clear(cls):
        for k in ("peaks", "spline", "rational", "filt", "fits", "local"):
            setattr(cls, k, [])


_LOC = {}


def rec_peaks(x, height="?", threshold="?", distance="?", prominence="?",
              width="?", wlen="?", rel_height="?", plateau_size="?"):
    Rec.peaks.append(dict(height=height, threshold=threshold,
                          distance=distance, prominence=prominence,
                          width=width, wlen=wlen, rel_height=rel_height,
                          plateau_size=plateau_size))
    loc = _LOC["peri"] if len(Rec.peaks) % 2 else _LOC["apo"]
    return np.array(loc), {}


class RecSpline(M.PLSpline):
    def __init__(self, x, y, w="?", bbox="?", k="?", ext="?",
                 check_finite="?"):
        Rec.spline.append(dict(w=w, bbox=bbox, k=k, ext=ext,
                               check_finite=check_finite, n=len(x)))
        super().__init__(x, y, k=1, ext=ext)


class RecRational:
    def __init__(self, x, y, degrees="?", verbose="?", **kw):
        self.rec = dict(degrees=degrees, n=len(x), verbose=verbose)
        self.f = M.PLRat(x, y)
        Rec.rational.append(self.rec)

    def fit(self, max_iterations="?", tol="?"):
        self.rec.update(max_iterations=max_iterations, tol=tol)

    def __call__(self, q):
        return self.f(q)


def rec_fit(f, x, y, p0=None, bounds=None, **k):
    Rec.fits.append(dict(n=len(x), p0=list(p0), bounds=bounds, y=list(y)))
    return np.array(list(p0), dtype=object), None


_SCIPY = c09._Sci(optimize=c09._Opt(curve_fit=rec_fit))


def rec_filter(data_dict, data_tag, t_merger, filter_kwargs):
    Rec.filt.append(dict(filter_kwargs))
    return c09.fake_filter(data_dict, data_tag, t_merger, filter_kwargs)


def stubs():
    import scipy
    from gw_eccentricity import utils, load_data, spin_filter
    return [(scipy.signal.find_peaks, rec_peaks),
            (utils.InterpolatedUnivariateSpline, RecSpline),
            (utils.RationalFit, RecRational),
            (scipy, _SCIPY), (scipy.optimize.curve_fit, rec_fit),
            (load_data.get_coprecessing_data_dict, c09.fake_rotation),
            (spin_filter.check_and_filter_spin_induced_oscillations,
             rec_filter)]


def data_for(ctx, method, prec=False):
    amp, ph, om = M.wave(n_orb=7, spu=8 if prec else 4)
    _, peri, apo = M.expected(amp, ph, 2)
    _LOC.update(peri=peri, apo=apo)
    w = 4.0 + om / 128
    w[peri] = 6.0 + 0.5 * np.arange(len(peri))
    w[apo] = 2.0 + 0.125 * np.arange(len(apo))
    t = -3.0 + 0.5 * np.arange(len(amp))
    d = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
         "omegalm": {(2, 2): w}}
    if prec:
        for k, s in (("amplm", 1), ("phaselm", -1), ("omegalm", -1)):
            d[k][(2, -2)] = s * d[k][(2, 2)]
            for m in (-1, 0, 1):
                d[k][(2, m)] = d[k][(2, 2)] * (m / 64)
    if "Residual" in method:
        n = len(amp)
        x = np.arange(n + 6)
        d["t_zeroecc"] = -4.0 + 0.5 * x
        d["amplm_zeroecc"] = {(2, 2): 9 + 0.01 * x - 0.2 * abs(x - (n - 2))}
        d["phaselm_zeroecc"] = {(2, 2): 1.0 * x}
        d["omegalm_zeroecc"] = {(2, 2): 1 + 0.05 * x}
    return d, t, peri, apo


def width_of(d):
    """Documented default: a quarter of the samples between one and two
    orbits before the merger."""
    amp, ph = d["amplm"][(2, 2)], d["phaselm"][(2, 2)]
    pm = ph[int(np.argmax(amp))]
    at = [int(np.argmin(abs(ph - (pm - 4 * np.pi * k)))) for k in (2, 1)]
    return (at[1] - at[0]) // 4


def same(ctx, got, want, label):
    if got is want:
        return
    if isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want),
                  label)
        for a, b in zip(got, want):
            same(ctx, a, b, label)
    elif want is None or isinstance(want, (str, bool, dict)):
        ctx.check(type(got) is type(want) and got == want, label)
    else:
        ctx.check(not isinstance(got, (str, type(None))) and ctx.eq(got, want),
                  label)


def snapshot_ok(ctx, before, after):
    c09.same(ctx, before, c09.snap(after), (), "options")


def build(ctx, method, data, kw=None, **more):
    from gw_eccentricity.gw_eccentricity import get_available_methods
    more.setdefault("tref_in", np.array([data["t"][12]]))
    cls = get_available_methods(return_dict=True)[method]
    return cls(data, extra_kwargs=kw, **more)


# -- the merging helper ----------------------------------------------------------
@scenario(reach=["merged", "rejected"], quick=[{}])
def merge(ctx):
    from gw_eccentricity.utils import check_kwargs_and_set_defaults
    names = ["alpha", "beta", "gamma"]
    default = {k: ctx.real("default " + k, -9, 9) for k in names}
    d0 = dict(default)
    user = {}
    for k in names:
        if ctx.flag("give " + k):
            v = ctx.choice("kind " + k, ("number", "none", "false"))
            user[k] = ctx.real("value " + k, -9, 9) if v == "number" else \
                {"none": None, "false": False}[v]
    given = dict(user)
    form = ctx.choice("form", ("dict", "unknown", "unknown falsy", "none"))
    if form == "none":
        ctx.assume(not user)
    elif form != "dict":
        user[ctx.choice("name", ("delta", "Alpha", "alpha "))] = \
            1 if form == "unknown" else None
    exc = ctx.raises(lambda: check_kwargs_and_set_defaults(
        None if form == "none" else user, default, "some options", "here"))
    if form.startswith("unknown"):
        ctx.check(isinstance(exc, ValueError), "unknown option rejected")
        ctx.reach("rejected")
        return
    ctx.check(exc is None, "valid options accepted")
    out = ctx.last
    ctx.check(set(out) == set(names), "exactly the documented options")
    for k in names:
        same(ctx, out[k], given[k] if k in given else d0[k], MULTI)
    ctx.check(default.keys() == d0.keys()
              and all(default[k] is d0[k] for k in names),
              "defaults untouched")
    ctx.reach("merged")


# -- top level ---------------------------------------------------------------------
TOP = {
    "general_interp_kwargs": ({}, {"k": 2}),
    "special_interp_kwargs_for_omega_gw_extrema": ({}, {}),
    "extrema_finding_kwargs": ({}, {"height": 0.25}),
    "debug_plots": (False, True),
    "omega_gw_averaging_method": ("orbit_averaged_omega_gw",
                                  "mean_of_extrema_interpolants"),
    "treat_mid_points_between_pericenters_as_apocenters": (False, True),
    "refine_extrema": (False, True),
    "kwargs_for_fits_methods": ({}, {"num_orbits": 2}),
    "return_zero_if_small_ecc_failure": (False, True),
    "omega_gw_extrema_interpolation_method": ("rational_fit", "spline"),
    "use_only_these_many_orbits": (None, 50),
    "filter_kwargs": ({}, {"alpha": 3}),
}
NAMES = list(TOP)


def covers(ctx, got, want, label):
    """Nested groups hold at least what was given."""
    if isinstance(want, dict):
        ctx.check(isinstance(got, dict), label)
        for k in want:
            ctx.check(k in got, label)
            same(ctx, got.get(k), want[k], label)
    else:
        same(ctx, got, want, label)


@scenario(reach=["built"], stubs=stubs,
          quick=[{"method": m, "third": i} for m in ("Amplitude",
                                                     "FrequencyFits")
                 for i in range(3)]
          + [{"method": m, "third": 3} for m in METHODS],
          thorough=[{"method": m, "third": i} for m in METHODS
                    for i in range(4)])
def top_level(ctx, method, third):
    """Every subset of four options, through the constructor; then once more
    without options."""
    d, t, peri, apo = data_for(ctx, method)
    names = NAMES[4 * third:4 * third + 4] if third < 3 else NAMES
    form = ctx.choice("form", ("some", "none", "empty", "all"))
    kw = None if form == "none" else {}
    one = ctx.choice("one", tuple(NAMES)) if third == 3 else None
    if form in ("some", "all"):
        for k in names:
            if form == "all" or (k == one if third == 3
                                 else ctx.flag("give " + k)):
                kw[k] = copy.deepcopy(TOP[k][1])
    given = dict(kw or {})
    before = c09.snap(kw)
    obj = build(ctx, method, d, kw)
    snapshot_ok(ctx, before, kw)
    for k in NAMES:
        ctx.check(k in obj.extra_kwargs, "all options known to the object")
        covers(ctx, obj.extra_kwargs[k], given.get(k, TOP[k][0]), MULTI)
    ctx.check(set(obj.extra_kwargs) == set(NAMES), "no other options")
    again = build(ctx, method, d, None)
    for k in NAMES:
        covers(ctx, again.extra_kwargs[k], TOP[k][0], "defaults next time")
        if k not in ("kwargs_for_fits_methods", "filter_kwargs",
                     "extrema_finding_kwargs", "general_interp_kwargs",
                     "special_interp_kwargs_for_omega_gw_extrema"):
            continue
        for n in TOP[k][1]:
            # an option given to the first call is not there in the second
            v = again.extra_kwargs[k].get(n)
            ctx.check(v is None or v != TOP[k][1][n], "defaults next time")
    ctx.reach("built")


@scenario(reach=["rejected"], stubs=stubs,
          quick=[{"method": m} for m in METHODS])
def unknown(ctx, method):
    """Unknown names are rejected at every level before anything is
    measured; unknown choices too."""
    prec = ctx.flag("precessing")
    d, t, peri, apo = data_for(ctx, method, prec and "Residual" not in method)
    prec = prec and "Residual" not in method
    name = ctx.choice("name", ("nonsense", "K", "Width"))
    value = ctx.choice("value", (None, 0, 1.5, "x"))
    where = ctx.choice("where", ("top", "general_interp_kwargs",
                                 "special spline", "special rational",
                                 "extrema_finding_kwargs",
                                 "kwargs_for_fits_methods", "filter_kwargs",
                                 "interpolation method", "frame", "method",
                                 "both refs", "no ref"))
    kw, more, err = {}, {}, Exception
    if where == "top":
        kw, err = {name: value}, ValueError
    elif where == "interpolation method":
        kw = {"omega_gw_extrema_interpolation_method": name}
    elif where == "frame":
        more, err = {"frame": name}, ValueError
    elif where == "both refs":
        more, err = {"fref_in": np.array([1.0])}, KeyError
    elif where == "no ref":
        more, err = {"tref_in": None}, KeyError
    elif where == "method":
        from gw_eccentricity.gw_eccentricity import measure_eccentricity
        exc = ctx.raises(lambda: measure_eccentricity(
            tref_in=np.array([t[12]]), method=name, dataDict=d))
        ctx.check(exc is not None, "unknown method rejected")
        ctx.reach("rejected")
        return
    elif where.startswith("special"):
        kw = {"omega_gw_extrema_interpolation_method":
              "spline" if where.endswith("spline") else "rational_fit",
              "special_interp_kwargs_for_omega_gw_extrema": {name: value}}
        err = ValueError
    else:
        if where == "kwargs_for_fits_methods":
            ctx.assume("Fits" in method)
        if where == "filter_kwargs":
            ctx.assume(prec)
        kw, err = {where: {name: value}}, ValueError
    before = c09.snap(kw)
    exc = ctx.raises(lambda: build(ctx, method, d, kw, precessing=prec,
                                   **more))
    ctx.check(isinstance(exc, err), "unknown name or value rejected")
    snapshot_ok(ctx, before, kw)
    ctx.reach("rejected")


# -- nested groups, at the place where the values are used -----------------------
PEAK = ["height", "threshold", "distance", "prominence", "width", "wlen",
        "rel_height", "plateau_size"]
SPLINE = {"w": None, "bbox": [None, None], "k": 3, "check_finite": False}


def subset(ctx, names, value):
    which = ctx.choice("which", ("none", "all") + tuple(names))
    if which == "none":
        return {}
    return {k: value(k) for k in names if which in ("all", k)}


@scenario(reach=["used"], stubs=stubs,
          quick=[{"method": m} for m in METHODS[:4]])
def peak_options(ctx, method):
    d, t, peri, apo = data_for(ctx, method)
    default = {"height": None, "threshold": None, "distance": None,
               "prominence": None, "width": width_of(d), "wlen": None,
               "rel_height": 0.5, "plateau_size": None}
    kw = {k: ctx.real(k, 0, 9) for k in PEAK if ctx.flag("give " + k)}
    Rec.clear()
    with ctx.quiet():
        obj = build(ctx, method, d, {"extrema_finding_kwargs": dict(kw)})
        for kind in ("pericenters", "apocenters"):
            obj.find_extrema(kind)
    ctx.check(len(Rec.peaks) == 2, "one search per kind")
    for call in Rec.peaks:
        for k in PEAK:
            same(ctx, call[k], kw[k] if k in kw else default[k], MULTI)
    ctx.reach("used")


def spline_values(ctx, k):
    return {"w": ("weights",), "bbox": (ctx.real("lo", -99, -50),
                                        ctx.real("hi", 50, 99)),
            "k": ctx.choice("k", (1, 2)), "check_finite": True}[k]


@scenario(reach=["used"], stubs=stubs, quick=[{"group": "general"},
                                              {"group": "special"}])
def spline_options(ctx, group):
    """Values for the spline through the extrema and for the other splines
    reach exactly those splines."""
    d, t, peri, apo = data_for(ctx, "Amplitude")
    kw = subset(ctx, list(SPLINE), lambda k: spline_values(ctx, k))
    name = ("general_interp_kwargs" if group == "general" else
            "special_interp_kwargs_for_omega_gw_extrema")
    Rec.clear()
    with ctx.quiet():
        obj = build(ctx, "Amplitude", d, {
            "omega_gw_extrema_interpolation_method": "spline",
            name: dict(kw)}, tref_in=None, fref_in=np.array([1.06, 1.08]))
        obj.check_monotonicity_and_convexity = lambda *a, **k: None
        obj.measure_ecc()
    ext = [c for c in Rec.spline if c["n"] in (len(peri), len(apo))
           and c["n"] < 9]
    rest = [c for c in Rec.spline if c not in ext]
    ctx.check(len(ext) >= 2 and len(rest) >= 1, "both kinds of splines built")
    for calls, mine in ((ext, group == "special"), (rest, group == "general")):
        for c in calls:
            for k in SPLINE:
                want = kw[k] if mine and k in kw else SPLINE[k]
                same(ctx, list(c[k]) if isinstance(c[k], (list, tuple))
                     and k == "bbox" else c[k],
                     list(want) if k == "bbox" else want, MULTI)
            ctx.check(c["ext"] == 2, "no extrapolation")
    ctx.reach("used")


@scenario(reach=["used"], stubs=stubs, quick=[{}])
def rational_options(ctx):
    d, t, peri, apo = data_for(ctx, "Amplitude")
    kw = subset(ctx, ("degrees", "max_iterations", "tol", "verbose"),
                lambda k: {
        "degrees": ctx.choice("deg", ((1, 1), (2, 1), (1, 2))),
        "max_iterations": ctx.int("iterations", 1, 50),
        "tol": ctx.real("tol", 0, 1),
        "verbose": ctx.flag("verbose")}[k])
    level = ctx.choice("level", (-1, 0, 1))
    Rec.clear()
    with ctx.quiet():
        obj = build(ctx, "Amplitude", d, {
            "special_interp_kwargs_for_omega_gw_extrema": dict(kw)},
            debug_level=level)
        obj.check_monotonicity_and_convexity = lambda *a, **k: None
        # whether a fit is acceptable is not the subject here
        obj.check_if_first_derivative_is_not_strictly_monotonic = \
            lambda *a, **k: False
        obj.measure_ecc()
    ctx.check(len(Rec.rational) >= 2, "fits made")
    # the first pericenter fit starts from the requested degrees, or from
    # the largest determined ones below (3, 3)
    n = len(peri)
    if "degrees" in kw:
        ctx.check(tuple(Rec.rational[0]["degrees"]) == kw["degrees"],
                  "degrees given")
    for c in Rec.rational:
        same(ctx, c["max_iterations"], kw.get("max_iterations", 20), MULTI)
        same(ctx, c["tol"], kw.get("tol", 1e-7), MULTI)
        ctx.check(bool(c["verbose"]) == kw.get("verbose", level > 0),
                  "progress shown as requested, by default from level 1 on")
        ctx.check(sum(c["degrees"]) + 1 < max(c["n"], 2),
                  "determined fits only")
    ctx.check(n > 3, "enough extrema")
    ctx.reach("used")


FILTER = {"filter_threshold": 0.2, "alpha": 2, "segment_size": 15,
          "data_type_for_filter_requirement_check": None,
          "data_type_for_fspin_estimate": None, "debug_level": 0,
          "debug_plots": False, "do_not_filter": False,
          "padding_length": 20000, "taper_width": 0.2,
          "f_spin_lo_frac": 0.75, "f_spin_hi_frac": 1.25,
          "fecc_lo_frac": 0.25, "fecc_hi_frac": 0.5}


@scenario(reach=["used", "not used"], stubs=stubs, quick=[{}])
def filter_options(ctx):
    prec = ctx.flag("precessing")
    d, t, peri, apo = data_for(ctx, "Amplitude", prec)
    kw = subset(ctx, tuple(FILTER), lambda k: ctx.real(k, 0, 99))
    form = ctx.choice("form", ("given", "no group", "none"))
    if form != "given":
        ctx.assume(not kw)
    ex = {"given": {"filter_kwargs": dict(kw)}, "no group": {},
          "none": None}[form]
    Rec.clear()
    with ctx.quiet():
        obj = build(ctx, "Amplitude", d, ex, precessing=prec,
                    frame=ctx.choice("frame", ("inertial", "coprecessing")))
    if not prec:
        ctx.check(not Rec.filt, "no filter for non-precessing data")
        ctx.reach("not used")
        return
    ctx.check(len(Rec.filt) == 1, "one filter call")
    ctx.check(set(Rec.filt[0]) == set(FILTER), "the documented options")
    for k in FILTER:
        same(ctx, Rec.filt[0].get(k), kw[k] if k in kw else FILTER[k], MULTI)
        same(ctx, obj.extra_kwargs["filter_kwargs"].get(k),
             kw[k] if k in kw else FILTER[k], MULTI)
    ctx.reach("used")


FITS = {"nPN": -0.375, "fit_bounds_max_amp_factor": 10,
        "fit_bounds_max_nPN_factor": 10, "prominence_factor": 0.03,
        "distance_factor": 0.75, "num_orbits": 3,
        "num_orbits_for_global_fit": 10, "return_diagnostic_data": False}
AMP_FITS = {"nPN": -0.25, "prominence_factor": 0.025, "distance_factor": 0.5}


@scenario(reach=["used"], stubs=stubs, quick=[{"method": "AmplitudeFits"},
                                              {"method": "FrequencyFits"}])
def fits_options(ctx, method):
    d, t, peri, apo = data_for(ctx, method)
    FITS = dict(globals()["FITS"], **(AMP_FITS if method == "AmplitudeFits"
                                      else {}))
    kw = subset(ctx, tuple(FITS), lambda k: {
        "nPN": lambda: ctx.real("nPN", -3, -0.125),
        "fit_bounds_max_amp_factor": lambda: ctx.real("fa", 1, 40),
        "fit_bounds_max_nPN_factor": lambda: ctx.real("fn", 1, 40),
        "prominence_factor": lambda: ctx.real("pf", 0.01, 0.5),
        "distance_factor": lambda: ctx.real("df", 0.25, 2),
        "num_orbits": lambda: ctx.choice("no", (2, 4)),
        "num_orbits_for_global_fit": lambda: ctx.choice("ng", (2, 3, 5)),
        "return_diagnostic_data": lambda: True}[k]())
    refine = ctx.flag("refine")
    ex = {"kwargs_for_fits_methods": dict(kw)}
    if refine:
        ex["refine_extrema"] = True
    Rec.clear()
    with ctx.quiet():
        obj = build(ctx, method, d, ex)
        for k in FITS:
            same(ctx, obj.kwargs_for_fits_methods[k],
                 kw[k] if k in kw else FITS[k], MULTI)

        def search(idx_ref, sign, nb, na, K, f, p, b, TOL,
                   increase_idx_ref_if_needed=True, refine_extrema=False,
                   **k):
            Rec.local.append((nb, na, refine_extrema, idx_ref))
            loc = (peri if sign > 0 else apo)[:2 * nb]
            return (np.array(loc), p, K, loc[2] - 1, [[0.0] * len(loc)] * 3)
        obj.FindExtremaNearIdxRef = search
        obj.find_extrema("pericenters")
    v = {k: kw.get(k, FITS[k]) for k in FITS}
    ctx.check(all(a == v["num_orbits"] and b == a + 1 and c is refine
                  for a, b, c, _ in Rec.local) and Rec.local != [],
              "number of extrema around the reference")
    f = Rec.fits[0]
    p0, (lo, up) = f["p0"], f["bounds"]
    same(ctx, up[0], v["fit_bounds_max_amp_factor"] * p0[0], "amplitude bound")
    ctx.check(ctx.close(p0[1] * v["fit_bounds_max_nPN_factor"],
                        -v["nPN"] * up[1], 1e-6), "exponent bound and guess")
    ph = obj.phase_gw
    more = [i for i in range(len(ph)) if ph[i] > ph[0] + 4 * np.pi
            * v["num_orbits_for_global_fit"]]
    # (everything but the last sample if the data are shorter)
    ctx.check(f["n"] == (more[0] if more else len(ph) - 1),
              "orbits of the global fit")
    # spacing and prominence handed to the peak finder
    lo_i, hi_i = 2, len(ph) - 3
    zero = lambda tt, *p: 0 * tt        # noqa: E731
    dist, prom = obj.compute_distance_and_prominence(lo_i, hi_i, zero, [])
    y = [float(q) for q in obj.data_for_finding_extrema[lo_i:hi_i]]
    dphi = (ph[hi_i - 1] - ph[lo_i]) / (4 * np.pi)
    x = v["distance_factor"] * (hi_i - 1 - lo_i) / dphi
    ctx.check(ctx.all([ctx.le(dist, x + 1e-6), ctx.ge(dist, x - 1 - 1e-6)]),
              "peak distance")
    ctx.check(ctx.close(prom, (max(y) - min(y)) * v["prominence_factor"],
                        1e-6), "peak prominence")
    ctx.reach("used")


# -- dispatch ----------------------------------------------------------------------
@scenario(reach=["measured"], stubs=c09.stubs, sym_stubs=M.peak_stubs,
          quick=[{"method": m} for m in METHODS])
def dispatch(ctx, method):
    """Each method name selects its own data; each argument is handed on."""
    from gw_eccentricity.gw_eccentricity import (measure_eccentricity,
                                                 get_available_methods)
    from gw_eccentricity.eccDefinition import eccDefinition
    from gw_eccentricity.eccDefinitionUsingFrequencyFits import \
        eccDefinitionUsingFrequencyFits as FF
    prec = "Residual" not in method and ctx.flag("precessing")
    d, t, peri, apo = data_for(ctx, method, prec)
    ctx.check(sorted(get_available_methods()) == sorted(METHODS)
              and set(get_available_methods(return_dict=True)) == set(METHODS),
              "available methods")
    args = {"method": method, "dataDict": d}
    want = {"debug_level": 0, "precessing": False}
    exclude, copr = 2, None
    if ctx.flag("exclude given"):
        exclude = args["num_orbits_to_exclude_before_merger"] = \
            ctx.choice("exclude", (1, 2.5, 3))
    if ctx.flag("level given"):
        want["debug_level"] = args["debug_level"] = -1
    if prec:
        want["precessing"] = args["precessing"] = True
        if ctx.flag("frame given"):
            copr = args["frame"] = "coprecessing"
        # the rotated frequency is derived from the (smooth) phase
        ctx.assume(copr or method != "Frequency")
    x = ctx.real("x", 0, 2)
    args["tref_in"] = ctx._arr([t[peri[1]] + x, t[apo[2]] + 0 * x])
    args["extra_kwargs"] = {"omega_gw_extrema_interpolation_method": "spline"}

    def search(self, idx_ref, sign, nb, na, K, *a, **k):
        loc = (peri if sign > 0 else apo)[:2 * self.num_orbits]
        return (np.array(loc), a[1], K, loc[2] - 1, [[0.0] * len(loc)] * 3)
    patched = {(FF, "FindExtremaNearIdxRef"): search,
               (eccDefinition, "check_monotonicity_and_convexity"):
               lambda self: None,
               (eccDefinition, "compute_eccentricity"):
               lambda self, q: self.omega_gw_pericenters_interp(q)}
    saved = {k: k[0].__dict__[k[1]] for k in patched}
    try:
        for (c, nm), f in patched.items():
            setattr(c, nm, f)
        with ctx.quiet():
            exc = ctx.raises(lambda: measure_eccentricity(**args))
            out = getattr(ctx, "last", None)
    finally:
        for (c, nm), f in saved.items():
            setattr(c, nm, f)
    ctx.check(exc is None, "measured")
    obj = out["gwecc_object"]
    for k, v in want.items():
        ctx.check(getattr(obj, k) == v, "argument handed on")
    ctx.check(obj.extra_kwargs["omega_gw_extrema_interpolation_method"]
              == "spline", "options handed on")
    same(ctx, list(out["tref_out"]), list(args["tref_in"]), "times handed on")
    amp, ph = d["amplm"][(2, 2)], d["phaselm"][(2, 2)]
    cut = M.expected(amp, ph, exclude)[0]
    ctx.check(len(obj.t) == cut, "truncation handed on")
    y = obj.data_for_finding_extrema
    ctx.check(len(y) == cut, "data for the search")
    w = d["omegalm"][(2, 2)]
    if prec and not copr:
        ctx.reach("measured")       # the frame change is C10's subject
        return
    if "Frequency" in method:
        base = w[:cut]
        if "Residual" in method:
            base = base - obj.omega_gw_zeroecc_interp[:cut]
    else:
        base = amp[:cut]
        if "Residual" in method:
            base = base - obj.amp_gw_zeroecc_interp[:cut]
        if "Fits" in method:
            base = base / obj.amp_gw_merger
    ctx.check(ctx.all([ctx.close(a, b, 1e-6) for a, b in zip(y, base)]),
              "data of the chosen method")
    ctx.reach("measured")
