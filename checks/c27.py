"""C27: comparing two measurements."""
import types

import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from gw_eccentricity import measure_eccentricity
from gw_eccentricity.compare_methods import compute_errors_between_methods

TITLE = "errors between two measurements"
ASSUMPTIONS = ["mean anomalies compared over the reals (exact 2 pi wrap)"]
H.base_object()
SPL = {"omega_gw_extrema_interpolation_method": "spline"}
TWO_PI = 2 * np.pi


def spec(ctx, one, two, tmin, tmax):
    """Positions in each object's arrays which must be compared."""
    lo = [one.tmin, two.tmin] + ([] if tmin is None else [tmin])
    hi = [one.tmax, two.tmax] + ([] if tmax is None else [tmax])
    out = []
    for o in (one, two):
        out.append([i for i, x in enumerate(o.tref_out)
                    if all(bool(x >= v) for v in lo)
                    and all(bool(x < v) for v in hi)])
    return out


def judge(ctx, got, one, two, tmin, tmax):
    keep1, keep2 = spec(ctx, one, two, tmin, tmax)
    t, de, dm, e1, e2, m1, m2 = got
    for name, v in zip("t de dm e1 e2 m1 m2".split(), got):
        ctx.check(len(v) == len(keep1), "number of " + name)
    for k, (i, j) in enumerate(zip(keep1, keep2)):
        ctx.check(t[k] == one.tref_out[i], "common time")
        ctx.check(ctx.eq(e1[k], one.eccentricity[i]), "first eccentricity")
        ctx.check(ctx.eq(e2[k], two.eccentricity[j]), "second eccentricity")
        ctx.check(ctx.eq(m1[k], one.mean_anomaly[i]), "first mean anomaly")
        ctx.check(ctx.eq(m2[k], two.mean_anomaly[j]), "second mean anomaly")
        d = one.eccentricity[i] - two.eccentricity[j]
        ctx.check(ctx.close(de[k], d if bool(d >= 0) else -d, 1e-9),
                  "absolute eccentricity error")
        d = one.mean_anomaly[i] - two.mean_anomaly[j]
        d = d if bool(d >= 0) else -d
        d = d if bool(d <= np.pi) else TWO_PI - d
        ctx.check(ctx.close(dm[k], d, 1e-9),
                  "shortest way round between the mean anomalies")
    ctx.reach("common%d" % len(keep1))


def arr(values):
    """What the code itself would hold: an array of numbers."""
    real = all(isinstance(v, (float, int, np.floating)) for v in values)
    return np.array(values, dtype=float if real else object)


def fake(ctx, tag, t, n):
    """A measurement: some span and values at the requested times inside."""
    lo = ctx.real("lo" + tag, -10, 10)
    hi = ctx.real("hi" + tag, -10, 10)
    ctx.assume(lo < hi)
    keep = [i for i in range(n) if bool(t[i] >= lo) and bool(t[i] <= hi)]
    e = ctx.reals("e" + tag, n, 0, 0.99)
    m = ctx.reals("m" + tag, n, 0, 6.2831)
    return types.SimpleNamespace(
        tref_in=t, tmin=lo, tmax=hi,
        tref_out=arr([t[i] for i in keep]),
        eccentricity=arr([e[i] for i in keep]),
        mean_anomaly=arr([m[i] for i in keep]))


@scenario(reach=["common0", "common1", "common2"],
          quick=[{"n": 2, "order": o, "limits": x} for o, x in (
              (0, "min"), (0, "max"), (1, "none"))],
          thorough=[{"n": 3, "order": o, "limits": x} for o in (0, 1)
                    for x in ("none", "min", "max", "both")],
          budget=(120, 700))
def errors(ctx, n, order, limits):
    """Any spans, values, limits; times in any order."""
    t = ctx.reals("t", n, -9, 9)
    for i in range(n - 1):
        ctx.assume(t[i] < t[i + 1])
    if order:
        t = arr([t[n - 1 - i] for i in range(n)])
    one, two = fake(ctx, "1", t, n), fake(ctx, "2", t, n)
    tmin = ctx.real("tmin", -9, 9) if limits in ("min", "both") else None
    tmax = ctx.real("tmax", -9, 9) if limits in ("max", "both") else None
    exc = ctx.raises(lambda: compute_errors_between_methods(
        one, two, tmin=tmin, tmax=tmax))
    if exc is not None:
        lo = one.tmin if bool(one.tmin > two.tmin) else two.tmin
        hi = one.tmax if bool(one.tmax < two.tmax) else two.tmax
        bad = []
        if tmin is not None:
            bad.append(tmin > hi)
            lo = tmin if bool(tmin > lo) else lo
        if tmax is not None:
            bad.append(tmax < lo)
        ctx.check(any(bool(b) for b in bad),
                  "error only when the limits leave nothing")
        ctx.check(isinstance(exc, Exception) and "common" in str(exc).lower(),
                  "the error says so")
        return
    judge(ctx, ctx.last, one, two, tmin, tmax)


@scenario(reach=["wrapped", "raised"], quick=[{"n": 2}],
          thorough=[{"n": 3}, {"n": 4}])
def anomalies(ctx, n):
    """Long runs of mean anomalies, also ones with jumps: every error is
    that of its own two values. Requests which differ are refused."""
    t = np.arange(n) * 1.0
    one = types.SimpleNamespace(
        tref_in=t, tmin=-1, tmax=n + 1, tref_out=t,
        eccentricity=ctx.reals("e1", n, 0, 0.99),
        mean_anomaly=ctx.reals("m1", n, 0, 6.2831))
    two = types.SimpleNamespace(
        tref_in=t, tmin=-1, tmax=n + 1, tref_out=t,
        eccentricity=ctx.reals("e2", n, 0, 0.99),
        mean_anomaly=ctx.reals("m2", n, 0, 6.2831))
    judge(ctx, compute_errors_between_methods(one, two), one, two, None, None)
    if bool(one.mean_anomaly[0] < 0.1) and bool(two.mean_anomaly[0] > 6):
        ctx.reach("wrapped")
    two.tref_in = t + 1.0
    ctx.check(ctx.raises(lambda: compute_errors_between_methods(one, two))
              is not None, "different requests refused")
    ctx.reach("raised")


@scenario(reach=["compared", "common1", "common2"], stubs=M.spline_stubs,
          quick=[{"first": "apo"}, {"first": "peri"}])
def measured(ctx, first):
    """Two real measurements of different methods on the same data."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=4, flat=True)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    tref = ctx.reals("tref", 2, t0, t1)
    ctx.assume(tref[0] < tref[1])
    obj = []
    for m in ("Amplitude", "Frequency"):
        obj.append(measure_eccentricity(
            tref_in=tref, method=m, dataDict=data,
            extra_kwargs=dict(SPL))["gwecc_object"])
    got = compute_errors_between_methods(*obj)
    judge(ctx, got, obj[0], obj[1], None, None)
    ctx.reach("compared")
