"""C04: reference frequencies."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from vf import sym
from gw_eccentricity import measure_eccentricity

TITLE = "reference frequency selection"
H.base_object()
TWO_PI = 2 * np.pi
ASSUMPTIONS = ["scipy's spline is replaced by a piecewise-linear interpolant "
               "through the same points, in the proof and in the replay"]


def select(ctx, req, fmin, fmax):
    """(certain, ambiguous): requests surely kept; those equal to fmax, where
    the documentation is not unanimous, are not judged."""
    keep = []
    for f in req:
        if bool(f >= fmin) and bool(f < fmax):
            keep.append(f)
    return keep


def setup(ctx, n, tmin=None, tmax=None):
    """Object whose average frequency over its time grid is symbolic."""
    obj = H.fresh()
    obj.t = np.arange(n, dtype=float) * 2 - 3
    obj.domain, obj.setting_ecc_to_zero = "frequency", False
    obj.tmin = obj.t[0] if tmin is None else tmin
    obj.tmax = obj.t[-1] if tmax is None else tmax
    avg = ctx.reals("avg", n, -8, 8)
    obj.omega_gw_average = None
    obj.t_for_omega_gw_average = None

    def f(t):
        i0 = int(np.argmin(np.abs(obj.t - np.asarray(t, dtype=float)[0])))
        return avg[i0:i0 + len(t)]
    obj.available_averaging_methods = {"mean_of_extrema_interpolants": f}
    obj.extra_kwargs = dict(
        obj.extra_kwargs,
        omega_gw_averaging_method="mean_of_extrema_interpolants")
    return obj, avg


@scenario(reach=["kept1", "kept2", "none", "nonmono", "last"],
          stubs=M.spline_stubs,
          quick=[{"n": 3, "q": 1}, {"n": 3, "q": 2}, {"n": 5, "q": 1}],
          thorough=[{"n": 4, "q": 2}, {"n": 6, "q": 1}, {"n": 3, "q": 3}])
def fref_mapping(ctx, n, q):
    obj, avg = setup(ctx, n)
    # room for the rounding of 2 pi in the replay
    for i in range(n - 1):
        d = avg[i + 1] - avg[i]
        ctx.assume(ctx.any([d >= 1 / 16, d <= 0]))
    fref = ctx.reals("f", q, -3, 3)
    req = [x for x in fref]
    inc = ctx.all([avg[i] < avg[i + 1] for i in range(n - 1)])
    exc = ctx.raises(
        lambda: obj.compute_tref_in_and_fref_out_from_fref_in(fref))
    if not bool(inc):
        # maximum and minimum are then anywhere: never a number
        ctx.check(exc is not None, "non-increasing average raises")
        ctx.reach("nonmono")
        return
    w = [x * TWO_PI for x in req]
    for x in w:
        ctx.assume(ctx.ne(x, avg[n - 1]))
    keep = select(ctx, w, avg[0], avg[n - 1])
    if exc is not None:
        ctx.check(len(keep) == 0, "no error when something is measurable")
        if bool(ctx.all([x > avg[n - 1] for x in w])):
            ctx.check("later" in str(exc) or "maximum" in str(exc),
                      "side named")
        if bool(ctx.all([x < avg[0] for x in w])):
            ctx.check("earlier" in str(exc) or "minimum" in str(exc),
                      "side named")
        ctx.reach("none")
        return
    tref, fout = ctx.last
    ctx.check(len(keep) > 0, "empty intersection raises")
    ctx.check(np.shape(tref) == np.shape(fout) == (len(keep),), "lengths")
    ctx.check(ctx.eq_arr([f * TWO_PI for f in fout], keep),
              "exactly the requested in range, in order")
    for x, tt in zip(keep, tref):
        ctx.check(ctx.eq(M.pl(obj.t, avg, tt), x),
                  "average frequency at the mapped time")
        ctx.check(ctx.all([ctx.le(obj.t[0], tt), ctx.le(tt, obj.t[-1])]),
                  "mapped time in range")
    ctx.reach("kept%d" % len(keep))
    ctx.reach("last")
    if q == 1:
        ctx.reach("kept2")


@scenario(reach=["bounds"], quick=[{"n": 4}], stubs=M.spline_stubs)
def fref_bounds(ctx, n):
    """The bounds are the extremes of the average over the measurable span."""
    obj, avg = setup(ctx, n, tmin=-1.5, tmax=2.0)
    exc = ctx.raises(lambda: obj.get_fref_bounds())
    ctx.check(exc is None, "no error")
    lo, hi = ctx.last
    inside = [avg[i] for i in range(n) if -1.5 <= obj.t[i] <= 2.0]
    ctx.check(ctx.all([ctx.le(lo * TWO_PI, x) for x in inside]), "min")
    ctx.check(ctx.any([ctx.eq(lo * TWO_PI, x) for x in inside]), "min is")
    ctx.check(ctx.all([ctx.le(x, hi * TWO_PI) for x in inside]), "max")
    ctx.check(ctx.any([ctx.eq(hi * TWO_PI, x) for x in inside]), "max is")
    ctx.reach("bounds")


@scenario(reach=["bad", "good"], quick=[{}], stubs=M.spline_stubs)
def unknown_average(ctx):
    obj, avg = setup(ctx, 3)
    obj.available_averaging_methods = \
        obj.get_available_omega_gw_averaging_methods()
    name = ctx.choice("name", ("mean_of_extrema_interpolants", "mean",
                               "orbit_averaged", "", "omega22_zeroecc"))
    obj.omega_gw_pericenters_interp = lambda t: np.asarray(t) * 0.5 + 10
    obj.omega_gw_apocenters_interp = lambda t: np.asarray(t) * 0.5 + 5
    obj.extra_kwargs = dict(obj.extra_kwargs, omega_gw_averaging_method=name)
    f = ctx.real("f")
    ctx.assume(f * TWO_PI > 7)
    ctx.assume(f * TWO_PI < 7.75)
    exc = ctx.raises(lambda: obj.compute_tref_in_and_fref_out_from_fref_in(
        np.array([f])))
    ok = name == "mean_of_extrema_interpolants"
    ctx.check((exc is None) == ok, "only known averages")
    ctx.reach("good" if ok else "bad")


def averages(kind, obj, data, t, cut, peri, apo):
    """(grid, average) from the definitions."""
    ph = np.asarray(data["phaselm"][(2, 2)], dtype=float)
    om = np.asarray(data["omegalm"][(2, 2)], dtype=float)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    if kind == "orbit_averaged_omega_gw":
        pts = []
        for loc in (peri, apo):
            for a, b in zip(loc[:-1], loc[1:]):
                pts.append(((t[a] + t[b]) / 2,
                            (ph[b] - ph[a]) / (t[b] - t[a])))
        pts.sort()
        tt, ww = zip(*pts)
        t0, t1 = max(t0, tt[0]), min(t1, tt[-1])
        g = [x for x in t[:cut] if t0 <= x <= t1]
        return g, [M.pl(tt, ww, x) for x in g]
    g = [x for x in t[:cut] if t0 <= x <= t1]
    return g, [0.5 * (M.pl(t[peri], om[peri], x) + M.pl(t[apo], om[apo], x))
               for x in g]


@scenario(reach=["kept1", "none", "scalar"], stubs=M.spline_stubs, tol=1e-6,
          quick=[{"kind": k, "first": f, "q": q} for k, f, q in
                 (("orbit_averaged_omega_gw", "apo", 1),
                  ("mean_of_extrema_interpolants", "peri", 1),
                  ("orbit_averaged_omega_gw", "peri", 0))],
          thorough=[{"kind": k, "first": f, "q": q} for q in (0, 1, 2)
                    for k in ("orbit_averaged_omega_gw",
                              "mean_of_extrema_interpolants")
                    for f in ("apo", "peri")])
def fref_api(ctx, kind, first, q):
    """Through measure_eccentricity, q = 0 meaning a scalar request."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4, wsym=False)
    g, a = averages(kind, None, data, t, cut, peri, apo)
    f = ctx.reals("f", max(q, 1), a[0] / TWO_PI - 0.1, a[-1] / TWO_PI + 0.1)
    for x in f:
        # exact ends are decided at function level (rounding of 2 pi)
        ctx.assume(ctx.any([x * TWO_PI <= a[-1] - 1e-6,
                            x * TWO_PI >= a[-1] + 1e-6]))
        ctx.assume(ctx.any([x * TWO_PI <= a[0] - 1e-6,
                            x * TWO_PI >= a[0] + 1e-6]))
    req = [x for x in f]

    def go():
        obj = M.classes()["Amplitude"](
            data, fref_in=f[0] if q == 0 else f, extra_kwargs={
                "omega_gw_extrema_interpolation_method": "spline",
                "omega_gw_averaging_method": kind})
        obj.check_monotonicity_and_convexity = lambda *a, **k: None
        real = obj.compute_eccentricity
        seen = []

        def ecc(tt):
            seen.append(tt)
            return np.zeros(len(tt))
        obj.compute_eccentricity = ecc
        out = obj.measure_ecc()
        return obj, out, seen[0]
    exc = ctx.raises(go)
    keep = select(ctx, [x * TWO_PI for x in req], a[0], a[-1])
    if exc is not None:
        ctx.check(len(keep) == 0, "no error when something is measurable")
        ctx.reach("none")
        return
    obj, out, seen = ctx.last
    ctx.check(len(keep) > 0, "empty intersection raises")
    ctx.check("fref_out" in out and "tref_out" not in out,
              "keyed by frequency")
    if q == 0:
        for k in ("fref_out", "eccentricity", "mean_anomaly"):
            ctx.check(np.ndim(out[k]) == 0, k + " scalar")
        ctx.reach("scalar")
    fo = np.atleast_1d(out["fref_out"])
    ctx.check(ctx.eq_arr([x * TWO_PI for x in fo], keep), "fref_out")
    for k in ("eccentricity", "mean_anomaly"):
        ctx.check(len(np.atleast_1d(out[k])) == len(keep), k + " length")
    for x, tt, m in zip(keep, seen, np.atleast_1d(out["mean_anomaly"])):
        ctx.check(ctx.close(M.pl(g, a, tt), x, 1e-6), "measured where the "
                  "average equals the request")
        k = 0
        tp = t[peri]
        while k < len(tp) - 2 and bool(tt >= tp[k + 1]):
            k += 1
        d = m / TWO_PI - (tt - tp[k]) / (tp[k + 1] - tp[k])
        ctx.check(ctx.any([ctx.close(d, 0, 1e-6), ctx.close(d, -1, 1e-6)]),
                  "anomaly at the same time")
    ctx.reach("kept1")
