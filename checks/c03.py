"""C03: requested reference times."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from gw_eccentricity import measure_eccentricity

TITLE = "reference time selection"
H.base_object()
SPL = {"omega_gw_extrema_interpolation_method": "spline"}


def judge(ctx, out, exc, req, t0, t1):
    """out/exc of a measurement for the requested times against the span."""
    keep = [x for x in req if bool(x >= t0) and bool(x <= t1)]
    if exc is not None:
        ctx.check(len(keep) == 0, "no error when something is measurable")
        late = ctx.all([x > t1 for x in req])
        early = ctx.all([x < t0 for x in req])
        msg = str(exc).lower()
        if bool(late):
            ctx.check("later" in msg or "maximum" in msg, "late side named")
            ctx.reach("late")
        if bool(early):
            ctx.check("earlier" in msg or "minimum" in msg,
                      "early side named")
            ctx.reach("early")
        return None
    ctx.check(len(keep) > 0, "empty intersection raises")
    ctx.check("tref_out" in out and "fref_out" not in out, "keyed by time")
    got = np.atleast_1d(out["tref_out"])
    ctx.check(len(got) == len(keep), "number of output times")
    ctx.check(ctx.eq_arr(got, np.array(keep, dtype=object)),
              "exactly the requested times inside, in order")
    for k in ("eccentricity", "mean_anomaly"):
        ctx.check(np.shape(out[k]) == np.shape(out["tref_out"]),
                  k + " matches tref_out")
    ctx.reach("kept%d" % len(keep))
    return keep


@scenario(reach=["kept1", "kept2", "late", "early"], stubs=M.spline_stubs,
          quick=[{"first": f, "n": n, "exclude": x, "cls": c}
                 for f, n, x, c in (("apo", 1, 2, "Amplitude"),
                                    ("peri", 1, 5, "Frequency"),
                                    ("apo", 2, 5, "Amplitude"),
                                    ("peri", 2, 2, "Frequency"))],
          thorough=[{"first": f, "n": n, "exclude": x, "cls": c}
                    for f in ("apo", "peri") for n in (1, 2, 3)
                    for x in (2, 5) for c in ("Amplitude", "Frequency")])
def time_selection(ctx, first, n, exclude, cls):
    """All requests (inside, at the ends, outside), in any order."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=5, flat=True,
                                            exclude=exclude)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    tref = ctx.reals("tref", n, t[0] - 5, t[-1] + 5)
    req = [x for x in tref]

    def go():
        # values at a time are C01/C02; here the span and the shapes
        obj = M.classes()[cls](
            data, tref_in=tref, num_orbits_to_exclude_before_merger=exclude,
            extra_kwargs=dict(SPL))
        return obj.measure_ecc()
    exc = ctx.raises(go)
    judge(ctx, getattr(ctx, "last", None), exc, req, t0, t1)
    ctx.check(ctx.eq_arr(tref, np.array(req, dtype=object)),
              "request left alone")


@scenario(reach=["scalar", "late", "early"], stubs=M.spline_stubs,
          quick=[{"form": "scalar"}, {"form": "list"}, {"form": "one"}])
def public_function(ctx, form):
    """measure_eccentricity itself; scalars in, scalars out."""
    data, t, w, cut, peri, apo = M.api_data(ctx, "apo", n_orb=4, flat=True)
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    x = ctx.real("tref", t[0] - 5, t[-1] + 5)
    req = {"scalar": x, "list": [x, t1], "one": np.array([x])}[form]
    exc = ctx.raises(lambda: measure_eccentricity(
        tref_in=req, method="Amplitude", dataDict=data,
        extra_kwargs=dict(SPL)))
    out = getattr(ctx, "last", None)
    judge(ctx, out, exc, [x, t1] if form == "list" else [x], t0, t1)
    if exc is None and form == "scalar":
        for k in ("tref_out", "eccentricity", "mean_anomaly"):
            ctx.check(np.ndim(out[k]) == 0, k + " scalar")
        ctx.reach("scalar")
    elif exc is None:
        for k in ("tref_out", "eccentricity", "mean_anomaly"):
            ctx.check(np.ndim(out[k]) == 1, k + " array")
        ctx.check("gwecc_object" in out, "object returned")


@scenario(reach=["none", "both"], quick=[{}])
def exactly_one_reference(ctx):
    """Neither or both kinds of reference raise, whatever the values."""
    data, t, w, cut, peri, apo = M.api_data(ctx, "apo", n_orb=4, flat=True)
    kw = {}
    if ctx.flag("both"):
        kw = dict(tref_in=ctx.real("t"), fref_in=ctx.real("f"))
        ctx.reach("both")
    else:
        ctx.reach("none")
    exc = ctx.raises(lambda: measure_eccentricity(
        method="Amplitude", dataDict=data, **kw))
    ctx.check(exc is not None, "raises")


@scenario(reach=["ok", "bad"], quick=[{"dom": "time"}, {"dom": "frequency"}])
def packing(ctx, dom):
    """Result packing: domain key, scalar conversion, and the refusal to hand
    out a scalar when several values were measured."""
    obj = H.fresh()
    n = int(ctx.int("n", 1, 2))
    nd = int(ctx.int("ndim", 0, 1))
    e, m, r = ctx.reals("e", n), ctx.reals("m", n), ctx.reals("r", n)
    obj.domain, obj.ref_ndim = dom, nd
    obj.eccentricity, obj.mean_anomaly = e, m
    other = ctx.reals("o", n)
    obj.tref_out, obj.fref_out = (r, other) if dom == "time" else (other, r)
    exc = ctx.raises(
        lambda: obj.make_return_dict_for_eccentricity_and_mean_anomaly())
    if exc is not None:
        ctx.check(nd == 0 and n != 1, "raises only for several scalars")
        ctx.reach("bad")
        return
    out = ctx.last
    key = "tref_out" if dom == "time" else "fref_out"
    ctx.check(set(out) == {"eccentricity", "mean_anomaly", key}, "keys")
    for k, v in (("eccentricity", e), ("mean_anomaly", m), (key, r)):
        ctx.check(np.ndim(out[k]) == nd, k + " ndim")
        ctx.check(ctx.eq_arr(out[k], v), k + " value")
    ctx.reach("ok")
