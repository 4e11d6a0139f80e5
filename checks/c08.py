"""C08: truncation before the merger."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "truncation before merger"
ASSUMPTIONS = ["one amplitude peak well inside the data; the phase grows "
               "between 0 and 2.5 pi per sample (process)"]
H.base_object()
FOUR_PI = 4 * np.pi


def nearest(ctx, dist, i, label):
    """sample i is one of those with the smallest distance"""
    for j in range(len(dist)):
        if j != i:
            ctx.check(ctx.le(dist[i], dist[j]), label)


def absd(ctx, x):
    return abs(x)


AMPS = {
    # amplitude of the (2,2) mode, of a second mode, merger sample
    "late": ([1, 2, 1, 2, 3, 4, 7, 4, 2], [1, 1, 1, 1, 1, 1, 1, 1, 1], 6),
    "second": ([1, 2, 1, 2, 9, 4, 1, 1, 1], [1, 1, 1, 1, 1, 9, 18, 10, 2], 6),
}


@scenario(reach=["cut", "long", "negative"], budget=(300, 3000),
          quick=[{"amps": "late", "prec": False, "orbits": (0, 1, 2)},
                 {"amps": "second", "prec": False, "orbits": (1, 3, -1)},
                 {"amps": "late", "prec": True, "orbits": (1, 1.5)}],
          thorough=[{"amps": a, "prec": p, "orbits": o}
                    for a in AMPS for p in (False, True)
                    for o in ((0, 0.5), (1, 1.5), (2, 2.5), (3, -1), (-2,))])
def process(ctx, amps, prec, orbits):
    """Every phase history: the cut is at the sample nearest in phase."""
    a22, a33, m = AMPS[amps]
    n = len(a22)
    obj = H.fresh()
    obj.precessing, obj.frame = prec, "coprecessing"
    t = np.arange(n) * 0.5 - 1.0
    ph0 = ctx.real("ph0", -5, 5)
    d = ctx.reals("dph", n - 1, 0, 2.5 * np.pi)
    ph = np.empty(n, dtype=object)
    ph[0] = ph0
    for i in range(n - 1):
        ctx.assume(d[i] > 0)
        # one or two increments stay free before the merger
        if i not in (1, 3, 4):
            ctx.assume(ctx.eq(d[i], 2 * np.pi) if ctx.symbolic
                       else abs(d[i] - 2 * np.pi) < 1e-9)
        ph[i + 1] = ph[i] + d[i]
    ph = ctx._arr(ph)
    k = ctx.choice("orbits", orbits)
    data = {"t": t, "amplm": {(2, 2): np.array(a22, float),
                              (3, 3): np.array(a33, float)},
            "phaselm": {(2, 2): ph, (3, 3): ph * 1.5},
            "omegalm": {(2, 2): ph + 10, (3, 3): ph + 20},
            "t_zeroecc": t - 3.0, "amplm_zeroecc": {(2, 2): t * 3 + 40},
            "phaselm_zeroecc": {(2, 2): t * 4},
            "omegalm_zeroecc": {(2, 2): t * 0 + 4}}
    for j, mode in enumerate(((2, 1), (2, 0), (4, 4), (3, -2), (2, -1))):
        data["amplm"][mode] = np.arange(n) * 0.001
        data["phaselm"][mode] = np.arange(n) * (1.0 + j)
        data["omegalm"][mode] = np.arange(n) * 0.5 + j
    gw = ph
    if prec:
        data["amplm"][(2, -2)] = np.array(a22, float)
        data["phaselm"][(2, -2)] = -0.5 * ph
        data["omegalm"][(2, -2)] = -0.5 * ph + 3
        gw = 0.75 * ph
    orig = {s: dict(v) if isinstance(v, dict) else v for s, v in data.items()}
    exc = ctx.raises(lambda: obj.process_data_dict(data, k, None))
    target = gw[m] - FOUR_PI * k
    # the peak-width estimate needs two orbits of data before the merger
    short = ctx.any([target < gw[0], gw[m] - FOUR_PI * 2 < gw[0]])
    if exc is not None:
        if k < 0:
            ctx.reach("negative")
            return
        ctx.check(short, "no error when the data are long enough")
        ctx.reach("long")
        return
    ctx.check(k >= 0, "negative number of orbits raises")
    ctx.check(ctx.not_(short), "exclusion longer than the data raises")
    new = ctx.last[0]
    i = len(new["t"])
    ctx.check(0 <= i < n, "length")
    dist = [abs(x - target) for x in gw]
    nearest(ctx, dist, i, "cut at the nearest phase")
    ctx.check(ctx.eq_arr(new["t"], t[:i]) if i else True, "time")
    for key in ("amplm", "phaselm", "omegalm"):
        ctx.check(set(new[key]) == set(orig[key]), "modes")
        for mode in orig[key]:
            ctx.check(len(new[key][mode]) == i, f"{key} length")
            if len(new[key][mode]) == i and i:
                ctx.check(ctx.eq_arr(new[key][mode], orig[key][mode][:i]),
                          f"{key} leading part")
        z = key + "_zeroecc"
        for mode in orig[z]:
            ctx.check(ctx.eq_arr(new[z][mode], orig[z][mode]),
                      "circular data uncut")
    ctx.check(ctx.eq_arr(new["t_zeroecc"], orig["t_zeroecc"]),
              "circular times uncut")
    ctx.reach("cut")


METHODS = ["Amplitude", "Frequency", "ResidualAmplitude",
           "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]


@scenario(reach=["cut", "long", "negative", "none"],
          quick=[{"method": m} for m in METHODS])
def constructor(ctx, method):
    """Every (real) number of orbits through the constructor of a method."""
    amp, ph, om = M.wave(n_orb=3)
    n = len(amp)
    t = 7.0 + 0.25 * np.arange(n)
    amp33 = 0.3 + 0.01 * np.arange(n)
    mode = ctx.choice("mode", ("default", "none", "any"))
    k = None
    if mode == "any":
        k = ctx.real("orbits", -1, 8)
    elif mode == "default":
        k = 2
    data = {"t": t, "amplm": {(2, 2): amp, (3, 3): amp33},
            "phaselm": {(2, 2): ph, (3, 3): 1.5 * ph},
            "omegalm": {(2, 2): om, (3, 3): 1.5 * om}}
    # circular data of another length; never cut
    tz = t[0] - 2.0 + 0.25 * np.arange(n + 12)
    zq = 0.1 * (tz - tz[0])
    zamp = 200 + zq - 3 * np.abs(tz - tz[n + 4])
    data.update({"t_zeroecc": tz, "amplm_zeroecc": {(2, 2): zamp},
                 "phaselm_zeroecc": {(2, 2): zq},
                 "omegalm_zeroecc": {(2, 2): 1 + zq}})
    kw = {} if mode == "default" else \
        {"num_orbits_to_exclude_before_merger": k}
    want_t = t.copy()
    full = {x: {md: v.copy() for md, v in data[x].items()}
            for x in data if "lm" in x}
    # when the request covers the data the class needs some reference point
    exc = ctx.raises(lambda: M.classes()[method](
        data, tref_in=np.array([t[6]]), **kw))
    m = int(np.argmax(np.sqrt(amp ** 2 + amp33 ** 2)))
    if k is not None:
        target = ph[m] - FOUR_PI * k
        neg = ctx.lt(k, 0) if ctx.symbolic else bool(k < 0)
        short = target < ph[0]
    if exc is not None:
        ctx.check(k is not None, "no exclusion never fails")
        if k is None:
            return
        # an empty or one-sample remainder cannot be used either
        tiny = target < ph[2]
        ctx.check(ctx.any([neg, short, tiny]), "valid exclusion is accepted")
        ctx.reach("negative" if bool(neg) else "long")
        return
    obj = ctx.last
    if k is None:
        i = n
        ctx.reach("none")
    else:
        ctx.check(ctx.not_(ctx.any([neg, short])), "invalid exclusion raises")
        i = len(obj.t)
        if i < n:
            nearest(ctx, [abs(x - target) for x in ph], i, "nearest phase")
        ctx.check(i < n, "something is cut")
        ctx.reach("cut")
    for what, got, want in (("t", obj.t, want_t), ("amp", obj.amp_gw, amp),
                            ("phase", obj.phase_gw, ph),
                            ("omega", obj.omega_gw, om)):
        ctx.check(len(got) == i and list(got) == list(want[:i]),
                  what + " of the object")
    ctx.check(list(obj.dataDict["t"]) == list(want_t[:i]), "dataDict t")
    for x in full:
        for md in full[x]:
            want = full[x][md] if "zeroecc" in x else full[x][md][:i]
            ctx.check(list(obj.dataDict[x][md]) == list(want),
                      "dataDict " + x)
    ctx.check(list(obj.dataDict["t_zeroecc"]) == list(tz), "t_zeroecc uncut")


@scenario(reach=["ok"], stubs=M.spline_stubs)
def top_level(ctx):
    """The number of orbits given to measure_eccentricity is the one used."""
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    amp, ph, om = M.wave(n_orb=7)
    t = 7.0 + 0.25 * np.arange(len(amp))
    given = ctx.flag("given")
    k = ctx.real("orbits", 0, 4.5) if given else 2
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): om}}
    kw = {"num_orbits_to_exclude_before_merger": k} if given else {}
    with ctx.quiet():
        out = measure_eccentricity(
            dataDict=data, tref_in=np.array([t[9]]), extra_kwargs={
                "omega_gw_extrema_interpolation_method": "spline",
                "treat_mid_points_between_pericenters_as_apocenters": False},
            **kw)
    i = len(out["gwecc_object"].t)
    m = int(np.argmax(amp))
    nearest(ctx, [abs(x - (ph[m] - FOUR_PI * k)) for x in ph], i, "nearest")
    ctx.check(i < len(t), "cut")
    ctx.check(out["gwecc_object"].pericenters_location[-1] < i
              and out["gwecc_object"].apocenters_location[-1] < i,
              "extrema inside")
    ctx.reach("ok")
