"""C01: eccentricity law."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "eccentricity law"
H.base_object()
ASSUMPTIONS = ["trigonometric functions are exact (angle addition and "
               "multiple-angle identities over the reals)"]


def setup(ctx, wps, was, t=None):
    """Object whose extremum frequencies at the requested times are given."""
    obj = H.fresh()
    n = len(wps)
    t = np.array([float(i) for i in range(n)]) if t is None else t
    obj.domain = "time"
    obj.tmin, obj.tmax = float(t[0]) - 0.5, float(t[-1]) + 0.5
    obj.setting_ecc_to_zero = False
    table = {float(x): i for i, x in enumerate(t)}

    def look(vals):
        def f(tt, *a, **k):
            tt = np.asarray(tt)
            if tt.ndim == 0:
                return vals[table[float(tt)]]
            out = np.empty(len(tt), dtype=object)
            for j, x in enumerate(tt):
                out[j] = vals[table[float(x)]]
            return ctx._arr(out)
        return f
    obj.omega_gw_pericenters_interp = look(wps)
    obj.omega_gw_apocenters_interp = look(was)
    return obj, t


def pairs(ctx, n, tag=""):
    wp = ctx.reals("wp" + tag, n)
    wa = ctx.reals("wa" + tag, n)
    for i in range(n):
        ctx.assume(wa[i] > 0)
        ctx.assume(wp[i] >= wa[i])
    return wp, wa


@scenario(reach=["done"], quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}])
def ecc_range(ctx, n):
    wp, wa = pairs(ctx, n)
    obj, t = setup(ctx, wp, wa)
    e = obj.compute_eccentricity(t)
    ctx.check(np.shape(e) == (n,), "shape")
    for i in range(n):
        ctx.check(ctx.le(-1e-12, e[i]), "nonneg")
        ctx.check(ctx.lt(e[i], 1), "lt1")
    ctx.reach("done")


def param_pairs(ctx, n):
    """Every pair wp >= wa > 0 as wp = s^2 (1+w)^2, wa = s^2 (1-w)^2."""
    w = ctx.reals("w", n, 0, None)
    s = ctx.reals("s", n)
    wp, wa = [], []
    for i in range(n):
        ctx.assume(w[i] < 1)
        ctx.assume(s[i] > 0)
        wp.append(s[i] * s[i] * (1 + w[i]) * (1 + w[i]))
        wa.append(s[i] * s[i] * (1 - w[i]) * (1 - w[i]))
    return w, wp, wa


@scenario(reach=["done"], quick=[{"n": 1}, {"n": 2}], thorough=[{"n": 3}])
def ecc_law(ctx, n):
    """e(3-e^2)/2 = (wp-wa)/(wp+wa) = 2w/(1+w^2), element by element, in
    request order; in particular independent of the overall scale s."""
    w, wp, wa = param_pairs(ctx, n)
    obj, t = setup(ctx, wp, wa)
    e = obj.compute_eccentricity(t[::-1].copy() if n > 1 else t)[::-1]
    for i in range(n):
        lhs = e[i] * (3 - e[i] * e[i]) * (1 + w[i] * w[i])
        # float constants in the code (sqrt(3)) leave a ~1e-16 residue
        ctx.check(ctx.close(lhs, 4 * w[i], 1e-9), "law")
    ctx.reach("done")


@scenario(reach=["zero", "pos"], quick=[{}])
def ecc_zero_iff_equal(ctx):
    wp, wa = pairs(ctx, 1)
    obj, t = setup(ctx, wp, wa)
    e = obj.compute_eccentricity(t)[0]
    if ctx.flag("equal"):
        ctx.assume(ctx.eq(wp[0], wa[0]) if ctx.symbolic else True)
        if not ctx.symbolic:
            ctx.assume(abs(wp[0] - wa[0]) < 1e-12)
        ctx.check(ctx.close(e, 0, 1e-7), "zero when equal")
        ctx.reach("zero")
    else:
        ctx.assume(wp[0] >= wa[0] * 1.01)
        ctx.check(ctx.lt(1e-4, e), "positive when different")
        ctx.reach("pos")


@scenario(reach=["inside", "early", "late"], quick=[{"n": 1}, {"n": 3}])
def ecc_range_guard(ctx, n):
    """Any requested time outside [tmin, tmax] raises."""
    obj = H.fresh()
    obj.domain, obj.setting_ecc_to_zero = "time", False
    obj.tmin, obj.tmax = ctx.real("tmin"), ctx.real("tmax")
    ctx.assume(obj.tmin <= obj.tmax)
    t = ctx.reals("t", n)
    obj.omega_gw_pericenters_interp = lambda tt, **k: np.full(n, 4.0)
    obj.omega_gw_apocenters_interp = lambda tt, **k: np.full(n, 1.0)
    exc = ctx.raises(lambda: obj.compute_eccentricity(t))
    inside = ctx.all([ctx.all([obj.tmin <= x, x <= obj.tmax]) for x in t])
    if exc is None:
        ctx.check(inside, "no value outside the range")
        ctx.reach("inside")
    else:
        ctx.check(ctx.not_(inside), "no error inside the range")
        late = ctx.any([x > obj.tmax for x in t])
        early = ctx.any([x < obj.tmin for x in t])
        msg = str(exc)
        ctx.check(ctx.implies("later" in msg, late), "message side")
        ctx.check(ctx.implies("earlier" in msg, early), "message side")
        ctx.reach("late" if "later" in msg else "early")


def _no_trig(obj):
    """The conversion e_omega -> e is decided by ecc_law; here only which
    numbers reach it matters."""
    obj.et_from_ew22_0pn = lambda w: w


@scenario(reach=["ok", "order"], stubs=M.spline_stubs,
          quick=[{"first": "apo", "n": 1}, {"first": "peri", "n": 2}],
          thorough=[{"first": f, "n": n} for f in ("apo", "peri")
                    for n in (1, 2, 3)], tol=1e-6)
def ecc_api(ctx, first, n):
    """Through measure_eccentricity: at every requested time the eccentricity
    uses the two frequency curves at that very time."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    tref = np.array([t0 + (t1 - t0) * ctx.choice(f"at{i}", (1, 3, 8)) / 8
                     for i in range(n)])
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=tref, prep=_no_trig, extra_kwargs={
            "omega_gw_extrema_interpolation_method": "spline"})
    e = out["eccentricity"]
    ctx.check(np.shape(e) == (n,), "shape")
    for i in range(n):
        wp = M.pl(t[peri], w[peri], tref[i])
        wa = M.pl(t[apo], w[apo], tref[i])
        lhs = e[i]
        # ((1+x)/(1-x))^2 = wp/wa, without square roots
        ctx.check(ctx.eq(wp * (1 - lhs) * (1 - lhs),
                         wa * (1 + lhs) * (1 + lhs)), "e at its own time")
        ctx.check(ctx.all([ctx.le(0, lhs), ctx.lt(lhs, 1)]), "branch")
    if n > 1 and tref[1] < tref[0]:
        ctx.reach("order")
    ctx.reach("ok")
    if n == 1:
        ctx.reach("order")
