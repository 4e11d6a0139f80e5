"""C28: what the returned object answers later."""
import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "later queries of the returned object"
ASSUMPTIONS = [
    "scipy's spline is replaced by a piecewise-linear interpolant with the "
    "same interface; the conversion from frequencies to eccentricity is C01"]
H.base_object()
SPL = {"omega_gw_extrema_interpolation_method": "spline"}


def no_trig(obj):
    obj.et_from_ew22_0pn = lambda w: w


def span(t, peri, apo):
    return max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])


def elements(ctx, a, b, what):
    a, b = np.ravel(a), np.ravel(b)
    ctx.check(len(a) == len(b), what + ": how many")
    for x, y in zip(a, b):
        ctx.check(ctx.eq(x, y), what)


def both_stubs():
    return M.spline_stubs() + M.rational_stubs()


@scenario(reach=["asked", "derivative first"], stubs=both_stubs,
          quick=[{"first": "apo", "interp": "spline"},
                 {"first": "peri", "interp": "rational_fit"}],
          thorough=[{"first": f, "interp": i} for f in ("apo", "peri")
                    for i in ("spline", "rational_fit")],
          budget=(120, 700))
def ask_again(ctx, first, interp):
    """The values at the output times, asked again in any selection, order
    and number of times, with other questions in between."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4)
    t0, t1 = span(t, peri, apo)
    at = ctx.choice("at", ((1, 5, 9), (7, 7, 2), (0, 16, 4)))
    tref = np.array([t0 + (t1 - t0) * k / 16 for k in at])
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=tref, prep=no_trig, extra_kwargs={
            "omega_gw_extrema_interpolation_method": interp})
        e = [x for x in np.ravel(out["eccentricity"])]
        m = [x for x in np.ravel(out["mean_anomaly"])]
        g = out["gwecc_object"] if "gwecc_object" in out else obj
        if ctx.flag("derivative"):
            g.derivative_of_eccentricity(tref, n=1)
            ctx.reach("derivative first")
        for order in ([0, 1, 2], [2, 0, 1], [1], [0, 0, 2, 1, 2]):
            q = tref[order]
            elements(ctx, g.compute_eccentricity(q), [e[i] for i in order],
                     "eccentricity asked again")
            elements(ctx, g.compute_mean_anomaly(q), [m[i] for i in order],
                     "mean anomaly asked again")
        x = g.compute_eccentricity(tref[1])
        ctx.check(np.ndim(x) == 0 or np.shape(x) == (1,), "a single time")
        elements(ctx, x, e[1:2], "a single time")
        elements(ctx, g.compute_mean_anomaly(tref[2]), m[2:3],
                 "a single time")
        mid = np.array([(t0 + t1) / 2])
        g.compute_eccentricity(mid)
        elements(ctx, out["eccentricity"], e, "result left alone")
        elements(ctx, out["mean_anomaly"], m, "result left alone")
        elements(ctx, g.eccentricity, e, "object's own values")
        elements(ctx, g.mean_anomaly, m, "object's own values")
        elements(ctx, g.tref_out, tref, "object's own times")
    ctx.reach("asked")


@scenario(reach=["derivative", "refused"], stubs=M.spline_stubs,
          quick=[{"first": "apo"}, {"first": "peri"}],
          budget=(120, 700))
def derivative(ctx, first):
    """The derivative is that of the interpolant through the eccentricity at
    all the data's times in the measurable span; outside it raises."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4, flat=True)
    w = np.array([x for x in w], dtype=object)
    P, A = ctx.real("P", 4, 9), ctx.real("A", 1, 3)
    w[peri[1]] = P
    w[apo[2]] = A
    data["omegalm"] = {(2, 2): ctx._arr(w)}
    t0, t1 = span(t, peri, apo)
    log = M.PLSpline.log
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=np.array([t0, t1]), prep=no_trig,
                             extra_kwargs=dict(SPL))
    q = ctx.real("q", t0 - 2, t1 + 2)
    n = ctx.choice("n", (1, 2))
    exc = ctx.raises(lambda: obj.derivative_of_eccentricity(
        np.array([q], dtype=object) if ctx.symbolic else np.array([q]), n=n))
    outside = bool(q < t0) or bool(q > t1)
    ctx.check((exc is not None) == outside, "refused exactly outside")
    if outside:
        ctx.reach("refused")
        return
    d = ctx.last
    ts = [x for x in t if t0 <= x <= t1]
    i = 0
    while i < len(ts) - 2 and bool(q >= ts[i + 1]):
        i += 1
    ctx.check(np.shape(d) == (1,), "one value per time")
    if n == 2:
        ctx.check(ctx.eq(d[0], 0), "second derivative of the interpolant")
        return
    with ctx.quiet():
        es = obj.compute_eccentricity(np.array([ts[i], ts[i + 1]]))
    ctx.check(ctx.eq(d[0] * (ts[i + 1] - ts[i]), es[1] - es[0]),
              "slope of the interpolated eccentricity")
    ctx.reach("derivative")


@scenario(reach=["orbit", "mean", "zeroecc", "default"],
          stubs=M.spline_stubs,
          quick=[{"method": m, "default": d} for m, d in (
              ("orbit_averaged_omega_gw", "mean_of_extrema_interpolants"),
              ("mean_of_extrema_interpolants", "orbit_averaged_omega_gw"),
              ("omega_gw_zeroecc", "orbit_averaged_omega_gw"),
              (None, "mean_of_extrema_interpolants"))],
          budget=(120, 700))
def bounds(ctx, method, default):
    """The range of frequencies which can be asked for, from an object on
    which a time was measured: smallest and largest value of the average that
    was named (else of the one chosen at the start)."""
    data, t, w, cut, peri, apo = M.api_data(ctx, "apo", n_orb=4, flat=True)
    w = np.array([x for x in w], dtype=object)
    for k, i in enumerate(peri[:2]):
        w[i] = ctx.real(f"P{k}", 4, 9)
    w[apo[-1]] = ctx.real("A", 1, 3)
    data["omegalm"] = {(2, 2): ctx._arr(w)}
    if method == "omega_gw_zeroecc":
        data["t_zeroecc"] = np.append(t[0] - 0.5, t)
        data["amplm_zeroecc"] = {(2, 2): np.append(
            0.5, data["amplm"][(2, 2)])}
        data["phaselm_zeroecc"] = {(2, 2): np.append(
            -1.0, data["phaselm"][(2, 2)])}
        z = np.array([1 + 0.01 * k for k in range(len(t) + 1)], dtype=object)
        mid = (peri[1] + apo[1]) // 2 + 1
        Z = ctx.real("Z", 1, 2)
        z[mid] = Z
        data["omegalm_zeroecc"] = {(2, 2): ctx._arr(z)}
    t0, t1 = span(t, peri, apo)
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=np.array([t0, t1]), prep=no_trig,
                             extra_kwargs=dict(
                                 SPL, omega_gw_averaging_method=default))
        lo, hi = obj.get_fref_bounds(method) if method is not None else \
            obj.get_fref_bounds()
    use = method or default
    ts = [x for x in t if t0 <= x <= t1]
    if use == "mean_of_extrema_interpolants":
        vals = [(M.pl(t[peri], w[peri], x) + M.pl(t[apo], w[apo], x)) / 2
                for x in ts]
        ctx.reach("mean" if method else "default")
    elif use == "omega_gw_zeroecc":
        vals = [z[list(t).index(x) + 1] for x in ts]
        ctx.reach("zeroecc")
    else:
        ph = data["phaselm"][(2, 2)]
        pts = sorted((float(t[a] + t[b]) / 2, (ph[b] - ph[a]) / (t[b] - t[a]))
                     for loc in (peri, apo) for a, b in zip(loc, loc[1:]))
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        vals = [M.pl(xs, ys, x) for x in ts if xs[0] <= x <= xs[-1]]
        ctx.reach("orbit")
    for name, v, better in (("smallest", lo, lambda a, b: a <= b),
                            ("largest", hi, lambda a, b: a >= b)):
        v = v * 2 * np.pi
        ctx.check(ctx.all([better(v - 1e-9, x) if name == "smallest" else
                           better(v + 1e-9, x) for x in vals]),
                  name + " bounds all")
        ctx.check(ctx.any([ctx.close(v, x, 1e-9) for x in vals]),
                  name + " is attained")
