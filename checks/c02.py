"""C02: mean anomaly."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "mean anomaly"
H.base_object()
TWO_PI = 2 * np.pi


def clock(ctx, tp, t, m, label):
    """m is the linear clock for time t given the pericenter times tp."""
    k = 0
    while k < len(tp) - 1 and bool(t >= tp[k + 1]):
        k += 1
    ctx.check(ctx.all([ctx.le(0, m), ctx.lt(m, TWO_PI)]), label + " range")
    if k == len(tp) - 1:
        ctx.check(ctx.eq(m, 0), label + " last pericenter")
        ctx.reach("last")
    else:
        ctx.check(ctx.eq(m * (tp[k + 1] - tp[k]), TWO_PI * (t - tp[k])),
                  label + " linear")
        ctx.reach("seg%d" % k)


@scenario(reach=["seg0", "seg1", "last"],
          quick=[{"n": 2, "q": 1}, {"n": 4, "q": 1}, {"n": 3, "q": 2}],
          thorough=[{"n": 6, "q": 1}, {"n": 4, "q": 3}])
def mean_anomaly_clock(ctx, n, q):
    obj = H.fresh()
    obj.domain, obj.setting_ecc_to_zero = "time", False
    tp = ctx.increasing("tp", n)
    for i in range(n - 1):
        ctx.assume(tp[i + 1] - tp[i] >= 1 / 64)
    obj.t_pericenters = tp
    obj.tmin, obj.tmax = tp[0], tp[-1]
    t = ctx.reals("t", q)
    for x in t:
        ctx.assume(x >= tp[0])
        ctx.assume(x <= tp[-1])
    keep = [x for x in t]
    m = obj.compute_mean_anomaly(t)
    ctx.check(np.shape(m) == (q,), "shape")
    for i in range(q):
        clock(ctx, tp, keep[i], m[i], f"elem{i}")
    ctx.check(ctx.eq_arr(obj.t_pericenters, tp), "pericenters untouched")


@scenario(reach=["inside", "outside"], quick=[{"q": 1}, {"q": 2}])
def mean_anomaly_guard(ctx, q):
    obj = H.fresh()
    obj.domain, obj.setting_ecc_to_zero = "time", False
    obj.tmin, obj.tmax = ctx.real("tmin"), ctx.real("tmax")
    ctx.assume(obj.tmin <= obj.tmax)
    obj.t_pericenters = np.array([-100.0, -40.0, 100.0])
    ctx.assume(obj.tmin >= -100)
    ctx.assume(obj.tmax <= 100)
    t = ctx.reals("t", q)
    exc = ctx.raises(lambda: obj.compute_mean_anomaly(t))
    inside = ctx.all([ctx.all([obj.tmin <= x, x <= obj.tmax]) for x in t])
    if exc is None:
        ctx.check(inside, "no value outside the range")
        ctx.reach("inside")
    else:
        ctx.check(ctx.not_(inside), "no error inside the range")
        ctx.reach("outside")


def _cheap(obj):
    """Eccentricity values are decided by C01."""
    obj.compute_eccentricity = lambda t: np.zeros(len(np.atleast_1d(t)))


@scenario(reach=["seg0", "seg1"], stubs=M.spline_stubs, tol=1e-6,
          quick=[{"first": "apo", "n": 1}, {"first": "peri", "n": 2}],
          thorough=[{"first": f, "n": n} for f in ("apo", "peri")
                    for n in (1, 2)])
def mean_anomaly_api(ctx, first, n):
    """Through measure_eccentricity, with the pericenters found in the data,
    for every request inside the measurable span."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4, wsym=False,
                                            exclude=5 if n == 2 else 2)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    tref = ctx.reals("tref", n, t0, t1)
    req = [x for x in tref]
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=tref, prep=_cheap, extra_kwargs={
            "omega_gw_extrema_interpolation_method": "spline"},
            num_orbits_to_exclude_before_merger=5 if n == 2 else 2)
    m = out["mean_anomaly"]
    ctx.check(np.shape(m) == (n,), "shape")
    for i in range(n):
        clock(ctx, t[peri], req[i], m[i], f"elem{i}")
