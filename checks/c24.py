"""C24: units, time origin and overall scale do not matter."""
import types

import numpy as np
import scipy
import scipy.signal

from vf import sym
from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "independence of units, time origin and scale"
ASSUMPTIONS = [
    "scipy's spline and rational fit are replaced by piecewise-linear "
    "interpolants with the same interface",
    "scipy's least-squares optimiser is idealised: it returns its starting "
    "point, which is covariant (the optimiser's own absolute tolerances are "
    "not modelled), and the envelope it fits is a straight line",
    "scales between 1/1024 and 1024, offsets up to 1e5"]
H.base_object()
for _m in ("AmplitudeFits", "FrequencyFits"):
    H.base_object(_m, False)
METHODS = c09.METHODS


class Line:
    """Envelope stand-in: the line of the given value and slope at t0."""

    def __init__(self, t0, verbose=False):
        self.t0 = t0
        self.format = "{:.5g}, {:.5g}, {:.5g}"

    def __call__(self, t, f0, f1, T):
        return f0 + f1 * (t - self.t0) / 16


def fit_line(f, x, y, p0=None, bounds=None, **k):
    """Least squares idealised: the line through the first and last point."""
    slope = (y[-1] - y[0]) / (x[-1] - x[0])
    return [y[0] + slope * (f.t0 - x[0]), 16 * slope, p0[2]], None


def start_point(fun, x0, bounds=None, **k):
    return types.SimpleNamespace(x=np.array(list(x0), dtype=object))


def stubs():
    from gw_eccentricity import utils
    from gw_eccentricity import eccDefinitionUsingFrequencyFits as ff
    out = []
    for old, new in c09.stubs():
        if old is scipy:
            new = c09._Sci(optimize=c09._Opt(curve_fit=fit_line),
                           signal=_Sig())
        if old is scipy.optimize.curve_fit:
            new = fit_line
        out.append((old, new))
    return out + [(ff.envelope_fitting_function, Line),
                  (utils.least_squares, start_point)]


class _Sig:
    """scipy.signal with the peak finder that also takes symbolic samples."""
    find_peaks = staticmethod(M.find_peaks)

    def __getattr__(self, k):
        return getattr(scipy.signal, k)


def base(method, prec, at_extrema=None, flat=False):
    """Concrete data; the extrema of the frequency grow with time."""
    amp, ph, om = M.wave(n_orb=6, spu=4)
    n = len(amp)
    cut, peri, apo = M.expected(amp, ph, 2)
    t = 0.5 * np.arange(n)
    w = om.copy()
    w[:cut] = 2.25 + np.arange(cut) / 64
    for j, i in enumerate(peri):
        w[i] = 4 + j / 16
    for j, i in enumerate(apo):
        w[i] = 1 + j / 32
    if flat:
        # two almost equal samples at each maximum and minimum: which one is
        # the extremum depends on the trend that is subtracted
        for i in peri[1:]:
            w[i + 1], amp[i + 1] = w[i] - 3 / 256, amp[i] - 3 / 256
        for i in apo[1:]:
            w[i + 1], amp[i + 1] = w[i] + 3 / 256, amp[i] + 3 / 256
    if at_extrema is not None:
        w = w.astype(object)
        w[peri[2]], w[apo[2]] = at_extrema
    zero = None
    if "Residual" in method:
        x = np.arange(n + 6)
        zero = (1 + 0.01 * x - 0.2 * np.abs(x - (n - 2)) + 8, 1.0 * x,
                1 + x / 64, 0.5 * x - 2)
    return amp, ph, w, t, zero, cut, peri, apo


def supply(b, prec, T, A, P, W, Tz=None):
    """dataDict with every quantity passed through the transformations."""
    amp, ph, w, t, zero = b[:5]
    data = {"t": T(t)}

    def put(tag, a, p, f):
        pair = {(2, 2): 1}
        if prec:
            pair[(2, -2)] = -1
        data["amplm" + tag] = {k: A(a) for k in pair}
        data["phaselm" + tag] = {k: s * P(p) for k, s in pair.items()}
        data["omegalm" + tag] = {k: s * W(f) for k, s in pair.items()}
    put("", amp, ph, w)
    if zero is not None:
        put("_zeroecc", zero[0], zero[1], zero[2])
        data["t_zeroecc"] = (Tz or T)(zero[3])
    return data


def arr(ctx, x):
    return ctx._arr(list(x))


def anomaly_free(self, t):
    """Rational stand-in for the trigonometric formula (checked in `value`):
    a function of the ratio of the two frequencies alone."""
    p, a = self.omega_gw_pericenters_interp(t), \
        self.omega_gw_apocenters_interp(t)
    return (p - a) / (p + a)


def run(ctx, data, method, prec, req, orbits=None, refine=False,
        average=None, interp="spline"):
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    from gw_eccentricity.eccDefinition import eccDefinition
    from gw_eccentricity.utils import QusicircularFitForMappingFrequencyToTime \
        as Trend
    saved = {k: eccDefinition.__dict__[k] for k in
             ("check_monotonicity_and_convexity", "compute_eccentricity")}
    model = Trend.model
    # (the frequency between extrema follows from the phase, here 5/2 of f0)
    Trend.model = lambda self, t, f0, f1, T: \
        5 * f0 / 2 + f1 * (t - self.t0)
    eccDefinition.check_monotonicity_and_convexity = lambda self: None
    eccDefinition.compute_eccentricity = anomaly_free
    kw = {"omega_gw_extrema_interpolation_method": interp,
          "refine_extrema": refine,
          "filter_kwargs": {"do_not_filter": True}}
    if "Fits" in method:
        kw["kwargs_for_fits_methods"] = {"num_orbits": 2}
    if average:
        kw["omega_gw_averaging_method"] = average
    if orbits:
        kw["use_only_these_many_orbits"] = orbits
    try:
        with ctx.quiet():
            exc = ctx.raises(lambda: measure_eccentricity(
                dataDict=data, method=method, precessing=prec,
                frame="coprecessing", extra_kwargs=kw, **req))
    finally:
        for k, f in saved.items():
            setattr(eccDefinition, k, f)
        Trend.model = model
    return exc, None if exc is not None else ctx.last


KINDS = ("origin", "time unit", "amplitude", "phase")


def change(ctx, kind, hi=32):
    """(time, circular time, amplitude, phase, frequency) transformations."""
    ident = lambda x: x
    T = A = P = W = ident
    Tz = None
    if kind in ("origin", "everything"):
        c = ctx.real("origin", -100000, 100000)
        z = ctx.real("circular origin", -100000, 100000)
        T = lambda x: arr(ctx, x + c)
        Tz = lambda x: arr(ctx, x + z)
    if kind in ("time unit", "everything"):
        # the square keeps roots of frequencies powers of the unit
        r = ctx.unit("root of unit", 0.03125, hi) ** 2
        if kind == "everything":
            T = lambda x: arr(ctx, (x + c) * r)
            Tz = lambda x: arr(ctx, (x + z) * r)
        else:
            T = lambda x: arr(ctx, x * r)
        W = lambda x: arr(ctx, x / r)
    if kind == "amplitude":
        s = ctx.unit("scale", 0.0009765625, 1024)
        A = lambda x: arr(ctx, x * s)
    if kind in ("phase", "everything"):
        q = ctx.real("phase", -1000, 1000)
        P = lambda x: arr(ctx, x + q)
    return T, Tz or T, A, P, W


QUICK = [{"method": m, "kind": k, "domain": d} for m in METHODS
         for k in KINDS for d in ("time", "frequency")]
for _m in METHODS:
    QUICK += [{"method": _m, "kind": k, "domain": "frequency",
               "average": "orbit_averaged_omega_gw"}
              for k in ("origin", "time unit")]
    QUICK += [{"method": _m, "kind": k, "domain": "time", "interp": "rational_fit"}
              for k in ("origin", "time unit")]
    QUICK += [{"method": _m, "kind": "everything", "domain": d}
              for d in ("time", "frequency")]
    QUICK += [{"method": _m, "kind": k, "domain": d,
               "orbits": 5 if "Fits" in _m else 4}
              for k in ("origin", "time unit", "phase")
              for d in ("time", "frequency")]
    if "Residual" in _m:
        QUICK += [{"method": _m, "kind": k, "domain": "frequency",
                   "average": "omega_gw_zeroecc"}
                  for k in ("origin", "time unit")]
    if "Fits" in _m:
        QUICK += [{"method": _m, "kind": k, "domain": "time", "refine": True}
                  for k in KINDS]
        QUICK += [{"method": _m, "kind": k, "domain": "time", "flat": True}
                  for k in KINDS]


@scenario(reach=["compared"], stubs=stubs, sym_stubs=M.peak_stubs,
          budget=(400, 3000), query_ms=(20000, 60000),
          quick=QUICK,
          thorough=QUICK + [{"method": m, "kind": k, "domain": d, "rich": True}
                            for m in METHODS for d in ("time", "frequency")
                            for k in ("time unit", "phase")])
def same_result(ctx, method, kind, domain, average=None, interp="spline",
                refine=False, rich=False, orbits=None, flat=False):
    """Every change of unit, origin or scale leaves the result as it was."""
    prec = "Residual" not in method and kind in ("amplitude", "phase")
    at = (ctx.real("pericenter", 3.75, 4.5), ctx.real("apocenter", 0.75, 1.5)
          ) if rich else None
    b = base(method, prec, at, flat)
    t, peri = b[3], b[6]
    ident = lambda x: x
    T, Tz, A, P, W = change(ctx, kind, 8192 if flat else 32)
    if domain == "time":
        x = np.array([t[peri[1]] + 1.125, t[peri[2]], t[peri[3]] - 0.375])
        r1, r2 = {"tref_in": x}, {"tref_in": T(x)}
    else:
        x = np.array([0.1875, 0.21875] if average == "omega_gw_zeroecc"
                     else [1.105, 1.115] if orbits else [1.06, 1.1])
        r1, r2 = {"fref_in": x}, {"fref_in": W(x)}
    e1, o1 = run(ctx, supply(b, prec, ident, ident, ident, ident),
                 method, prec, r1, orbits, refine, average, interp)
    e2, o2 = run(ctx, supply(b, prec, T, A, P, W, Tz), method, prec, r2,
                 orbits, refine, average, interp)
    ctx.check(e1 is None, "measured")
    ctx.check(e2 is None, "measured in the other units")
    if e1 is not None or e2 is not None:
        return
    for k in ("eccentricity", "mean_anomaly"):
        ctx.check(len(o1[k]) == len(o2[k]) > 0, "same number of results")
        ctx.check(ctx.all([ctx.close(p, q, 1e-7)
                           for p, q in zip(o1[k], o2[k])]), "same " + k)
    g1, g2 = o1["gwecc_object"], o2["gwecc_object"]
    ctx.check(list(g1.pericenters_location) == list(g2.pericenters_location)
              and list(g1.apocenters_location) == list(g2.apocenters_location),
              "same extrema")
    k = "tref_out" if domain == "time" else "fref_out"
    want = (T if domain == "time" else W)(np.array(o1[k]))
    ctx.check(ctx.all([ctx.close(p, q, 1e-5) for p, q in zip(o2[k], want)]),
              "reference points in the new units")
    ctx.reach("compared")


class Parabola:
    """Stand-in for a least-squares polynomial: through the first, middle and
    last point (the fit itself is covariant, whatever it is)."""

    def __init__(self, x, y, a=None):
        i, j, k = 0, len(x) // 2, len(x) - 1
        self.p = [(x[n], y[n]) for n in (i, j, k)]

    @classmethod
    def fit(cls, x, y, deg):
        return cls(list(x), list(y))

    def __call__(self, q):
        (a, u), (b, v), (c, w) = self.p
        d, e = (v - u) / (b - a), (w - v) / (c - b)
        return u + d * (q - a) + (e - d) / (c - a) * (q - a) * (q - b)

    def deriv(self):
        return self

    def roots(self):
        (a, u), (b, v), (c, w) = self.p
        d, e = (v - u) / (b - a), (w - v) / (c - b)
        return [(a + b - d * (c - a) / (e - d)) / 2]


class _Fit:
    """np with the polynomial fit replaced."""

    class polynomial:
        class polynomial:
            Polynomial = Parabola


def np_stub(np_):
    class N:
        polynomial = _Fit.polynomial

        def __getattr__(self, k):
            return getattr(np_, k)
    return N()


@scenario(reach=["refined"], budget=(60, 600),
          quick=[{"method": m, "kind": k} for m in
                 ("AmplitudeFits", "FrequencyFits") for k in KINDS])
def refinement(ctx, method, kind):
    """Sub-sample refinement of an extremum takes the same samples, and finds
    the same one, in any units."""
    from gw_eccentricity import eccDefinitionUsingFrequencyFits as ff
    n = 41
    T, Tz, A, P, W = change(ctx, kind)
    x = (np.arange(n) - 20) / 64
    t = 1.0 * x
    w = 3.0 - 8 * x * x + x / 8
    a = 2.0 - 4 * x * x + x / 16
    phi = 3 * x
    res = []
    for tr in (False, True):
        g = H.fresh(method, False)
        f = (lambda v: v) if not tr else None
        g.t = (T if tr else f or T)(t)
        g.omega_gw = (W if tr else f)(w)
        g.amp_gw = (A if tr else f)(a)
        g.phase_gw = (P if tr else f)(phi)
        data = g.omega_gw if method == "FrequencyFits" else g.amp_gw
        g.data_for_finding_extrema = data
        h = (lambda q, *p: p[0] + 0 * q)
        unit = (W if method == "FrequencyFits" else A) if tr else f
        p = (unit(np.array([1.0]))[0],)
        at = [20]
        saved = ff.np
        ff.np = np_stub(saved)
        try:
            res.append((g.get_refined_extrema(
                ctx._arr([g.t[i] for i in at]),
                ctx._arr([data[i] for i in at]),
                ctx._arr([g.phase_gw[i] for i in at]), False, h, p), unit))
        finally:
            ff.np = saved
    ((t1, d1, p1), _), ((t2, d2, p2), unit) = res
    for label, one, two, f in (("times", t1, t2, T), ("data", d1, d2, unit),
                               ("phases", p1, p2, P)):
        want = f(np.array(list(one)))
        ctx.check(ctx.all([ctx.close(u, v, 1e-7) for u, v in
                           zip(two, want)]), "same refined " + label)
    ctx.reach("refined")


@scenario(reach=["converged"], sym_stubs=M.peak_stubs, budget=(60, 600),
          quick=[{"method": m, "kind": k} for m in
                 ("AmplitudeFits", "FrequencyFits")
                 for k in ("time unit", "amplitude")])
def convergence(ctx, method, kind):
    """The envelope iteration stops at the same iterate in any units: each
    fit moves every maximum to its other, almost equal sample until the trend
    settles."""
    from gw_eccentricity import eccDefinitionUsingFrequencyFits as ff
    T, Tz, A, P, W = change(ctx, kind, 65536)
    freq = method == "FrequencyFits"
    t = 0.5 * np.arange(24)
    y = np.array([4.0 if i % 4 == 0 else 4.0 - 2.0 ** -10 if i % 4 == 1 else
                  1.0 for i in range(24)])
    phi = np.pi * 1.0 * np.arange(24)
    slopes = [0.0, -1 / 64, 0.0, -1 / 64, 0.0, 0.0, 0.0, 0.0, 0.0]
    res = []
    for tr in (False, True):
        ident = lambda v: v
        g = H.fresh(method, False)
        g.t = (T if tr else ident)(t)
        g.phase_gw = (P if tr else ident)(phi)
        unit = (W if freq else A) if tr else ident
        g.data_for_finding_extrema = unit(y)
        g.omega_gw = (W if tr else ident)(y)
        g.amp_gw = (A if tr else ident)(y)
        g.return_diagnostic_data = False
        todo = [unit(np.array([s]))[0] for s in slopes]
        seen = []

        def fit(f, x, v, p0=None, **k):
            seen.append(p0[0])
            return [todo[len(seen)]], None

        class F:
            def __call__(self, q, s):
                # a trend that grows by s per sample
                return s * np.arange(len(q)) if not np.isscalar(q) else s

            def format(self, s):
                return ""
        saved = ff.scipy
        ff.scipy = types.SimpleNamespace(
            optimize=types.SimpleNamespace(curve_fit=fit),
            signal=types.SimpleNamespace(find_peaks=(
                M.find_peaks if ctx.symbolic else saved.signal.find_peaks)))
        try:
            out = g.FindExtremaNearIdxRef(
                10, 1, 2, 3, 1.0, F(), [todo[0]], None, 1e-8)
        finally:
            ff.scipy = saved
        res.append((list(out[0]), len(seen), out[1][0], unit))
    a, b = res
    ctx.check(a[0] == b[0] and len(a[0]) == 5, "same extrema")
    ctx.check(a[1] == b[1] > 2, "same number of fits")
    ctx.check(ctx.close(b[2], b[3](np.array([a[2]]))[0], 1e-9), "same trend")
    ctx.reach("converged")


class Shape:
    """Fit stand-in: for each degree its own curve through the end points,
    as a function of the fraction of the span alone."""
    bent = {3: 0, 4: 1, 5: -8, 2: 1, 1: 0, 6: 2, 7: 1}

    def __init__(self, x, y, kwargs):
        self.x, self.y, self.degrees = x, y, tuple(kwargs["degrees"])

    def __call__(self, q):
        u = (q - self.x[0]) / (self.x[-1] - self.x[0])
        b = self.bent[self.degrees[0]]
        return self.y[0] + (self.y[-1] - self.y[0]) * (
            u + u * u / 4 + b * u * (1 - u) * (u - 0.5 if b < 0 else -1 / 8))


def shape_stubs():
    from gw_eccentricity import utils
    return [(utils.get_rational_fit,
             lambda x, y, rational_fit_kwargs=None, check_kwargs=True:
             Shape(x, y, rational_fit_kwargs)),
            (utils.get_interpolant, lambda x, y, *a, **k: "spline")]


@scenario(reach=["kept", "lowered"], stubs=shape_stubs, budget=(60, 600),
          quick=[{"kind": k} for k in KINDS if k != "amplitude"])
def degrees(ctx, kind):
    """The degrees of the rational fit are found alike in any units."""
    T, Tz, A, P, W = change(ctx, kind)
    start = ctx.choice("start", ((3, 3), (5, 5)))
    ident = lambda v: v
    res = []
    for tr in (False, True):
        g = H.fresh()
        g.pericenters_location = g.apocenters_location = np.arange(5)
        g.special_interp_kwargs_for_omega_gw_extrema = {
            "degrees": start, "max_iterations": 20, "verbose": False,
            "tol": 1e-7}
        g.rational_fit_nonmonotonicity_history = {"pericenters": {},
                                                  "apocenters": {}}
        g.rational_fit_degrees = {"pericenters": None, "apocenters": None}
        g.debug_level = -1
        f, w = (T, W) if tr else (ident, ident)
        g.t = f(0.5 * np.arange(40))
        g.get_rational_fit_for_extrema(
            f(1.5 + 1.25 * np.arange(14)), w(2 + np.arange(14) / 8),
            "pericenters")
        res.append((g.rational_fit_degrees["pericenters"],
                    g.rational_fit_nonmonotonicity_history["pericenters"]))
    ctx.check(res[0] == res[1], "same degrees, same curves accepted")
    ctx.check(res[0][0] == (4, 4), "the curve that turns back is not used")
    ctx.reach("kept" if start == (3, 3) else "lowered")


@scenario(reach=["monotone", "nonmonotone"], budget=(60, 600),
          quick=[{"unit": u} for u in (0.0009765625, 1024.0)],
          thorough=[{"unit": u} for u in (1e-6, 0.0009765625, 1024.0, 1e6)])
def slopes(ctx, unit):
    """Whether a rate of change counts as monotone, in any unit."""
    y = ctx.reals("y", 4, -50, 50)
    x = 3.0 + 0.5 * np.arange(4)
    tol = ctx.choice("tol", (1.0, None))
    for p, q in ((0, 1), (0, 2), (1, 3)):
        # (a rate of zero has no ratio to the next one)
        ctx.assume(ctx.any([ctx.ge(y[q] - y[p], 0.01),
                            ctx.le(y[q] - y[p], -0.01)]))
    args = (tol,) if tol else ()
    # away from the edge of the tolerance, where rounding decides
    d = [2 * (y[1] - y[0]), y[2] - y[0], y[3] - y[1], 2 * (y[3] - y[2])]
    for a, b in zip(d, d[1:]):
        for e in {tol or 1e-5, 0.0}:
            ctx.assume(ctx.not_(ctx.close(b, (1 - e) * a, 1e-6)))
            ctx.assume(ctx.not_(ctx.close(b, (1 + e) * a, 1e-6)))
    test = H.fresh().check_if_first_derivative_is_not_strictly_monotonic
    one = bool(test(x, ctx._arr(list(y)), *args))
    two = bool(test(x * unit, ctx._arr([v / unit for v in y]), *args))
    ctx.check(one == two, "same verdict")
    ctx.reach("nonmonotone" if one else "monotone")
