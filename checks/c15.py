"""C15: the debug level only decides between silence, warning and error."""
import warnings

import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "debug level"
ASSUMPTIONS = [
    "measurement: the eccentricity law is replaced by the difference of the "
    "two extremum frequencies (C01 checks the law), scipy's splines by "
    "piecewise-linear ones"]
H.base_object()


def stubs():
    return c09.stubs()


@scenario(reach=["silent", "warned", "raised", "refused"])
def message(ctx):
    """debug_message at every level."""
    from gw_eccentricity.utils import debug_message
    level = ctx.int("level", -4, 6)
    form = ctx.choice("form", ("int", "symbolic"))
    lv = int(level) if form == "int" else level
    kw = {}
    imp = ctx.choice("important", (None, True, False))
    if imp is not None:
        kw["important"] = imp
    point = ctx.choice("point", (None, True, False))
    if point is not None:
        kw["point_to_verbose_output"] = point
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        exc = None
        try:
            debug_message("some text", lv, **kw)
        except Exception as e:      # noqa: BLE001
            exc = e
    v = int(level)
    important = imp in (None, True)
    if v not in (-1, 0, 1, 2):
        ctx.check(isinstance(exc, ValueError), "unknown level refused")
        ctx.check(not log, "no message")
        ctx.reach("refused")
        return
    if v == 2:
        ctx.check(exc is not None, "error at level 2")
        ctx.check("some text" in str(exc), "text of the error")
        ctx.check(not log, "no warning besides the error")
        ctx.reach("raised")
        return
    ctx.check(exc is None, "no error below level 2")
    want = v == 1 or (v == 0 and important)
    ctx.check(len(log) == int(want), "warned exactly when documented")
    if log:
        ctx.check("some text" in str(log[0].message), "text of the warning")
        hint = "debug_level=1" in str(log[0].message)
        ctx.check(hint == (v == 0 and point is True), "hint at more output")
    ctx.reach("warned" if want else "silent")


def wave(ctx, kind):
    amp, ph, om = M.wave(n_orb=7, spu=8 if kind == "precessing" else 4)
    n = len(amp)
    t = -3.0 + 0.5 * np.arange(n)
    if kind == "jump":
        # a missing stretch of phase: the extrema after it are dropped
        k = ctx.choice("jump after", (16, 19, 22))
        ph = ph + 40.0 * (np.arange(n) >= k)
    cut, peri, apo = M.expected(amp, ph, 2)
    w = om.copy()
    for j, i in enumerate(peri):
        w[i] = 6.0 + 0.5 * j
    for j, i in enumerate(apo):
        w[i] = 2.0 + 0.5 * j
    w = w.astype(object)
    if kind in ("plain", "negative"):
        lo = 0.5 if kind == "negative" else 3.5
        w[peri[1]] = ctx.real("p1", lo, 12)
        w[peri[2]] = ctx.real("p2", lo, 12)
    w = ctx._arr(w)
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): w}}
    if kind == "key":
        data["something"] = 1
    if kind == "precessing":
        for k in ("amplm", "phaselm"):
            s = -1 if k == "phaselm" else 1
            data[k][(2, -2)] = data[k][(2, 2)] * s
            for m in (-1, 0, 1):
                data[k][(2, m)] = data[k][(2, 2)] * (m / 2 * 0.01)
        del data["omegalm"]
    return data, t, peri, apo


# texts the documentation says are shown from level 0 on / from level 1 on
FROM0 = ["is not a recognized key word", "orbits for eccentricity measurement",
         "will be set to zero", "Nonmonotonic time derivative",
         "negative eccentricity", "is nonmonotonic"]
FROM1 = ["was dropped", "are too far", "are too close", "appear alternately",
         "not monotonically increasing", "Transforming the modes",
         "Phase shift closer to pi"]


@scenario(reach=["measured", "warned"], stubs=stubs, sym_stubs=M.peak_stubs,
          quick=[{"kind": k} for k in ("plain", "negative", "key", "jump",
                                       "precessing", "segment", "zero",
                                       "frequency", "outside")],
          thorough=[{"kind": k, "method": m} for k in
                    ("plain", "negative", "key", "jump", "precessing",
                     "segment", "zero", "frequency", "outside")
                    for m in ("Amplitude", "Frequency", "AmplitudeFits",
                              "FrequencyFits")])
def same_numbers(ctx, kind, method="Amplitude"):
    """One input at every level: same numbers at -1, 0 and 1, more messages
    with a higher level, an error at 2 exactly if level 1 has something to
    say."""
    data, t, peri, apo = wave(ctx, kind)
    kw = {"omega_gw_extrema_interpolation_method": "spline"}
    if kind == "segment":
        kw["use_only_these_many_orbits"] = ctx.choice("orbits", (2, 3, 50))
    if kind == "zero":
        kw["return_zero_if_small_ecc_failure"] = True
    if kind == "frequency":
        ref = {"fref_in": np.array([ctx.choice("f", (1.06, 1.1)), 1.08])}
    elif kind == "outside":
        x = ctx.real("x", -2, 20)
        ref = {"tref_in": ctx._arr([t[0] + x, t[peri[2]] + 0 * x])}
    else:
        x = 0.25 if kind in ("plain", "negative") else ctx.real("x", 0, 2)
        ref = {"tref_in": ctx._arr([t[peri[1]] + x, t[peri[2]] + 0 * x])}

    def search(self, idx_ref, sign, nb, na, K, *a, **k):
        loc = (peri if sign > 0 else apo)[:2 * self.num_orbits]
        return (np.array(loc), a[1], K, loc[2] - 1, [[0.0] * len(loc)] * 3)

    def prep(obj):
        obj.compute_eccentricity = lambda q: \
            obj.omega_gw_pericenters_interp(q) \
            - obj.omega_gw_apocenters_interp(q)
        if "Fits" in method:
            obj.FindExtremaNearIdxRef = \
                lambda *a, **k: search(obj, *a, **k)
        if kind == "zero":
            obj.find_extrema = lambda *a, **k: np.array([5])

    outs, logs = {}, {}
    for level in (-1, 0, 1, 2):
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                o = M.measure(dict(data), method, quiet_checks=False,
                              prep=prep, extra_kwargs=dict(kw),
                              precessing=kind == "precessing",
                              debug_level=level, **ref)[1]
                outs[level] = o
            except Exception as e:      # noqa: BLE001
                outs[level] = e
        logs[level] = [str(x.message) for x in log
                       if "order k =" not in str(x.message)]
    ctx.check(not logs[-1], "silence at level -1")
    for m in logs[0]:
        base = m.split("\nFor more verbose output")[0]
        ctx.check(any(x.startswith(base[:40]) for x in logs[1]),
                  "level 1 says at least as much as level 0")
        ctx.check(not any(s in m for s in FROM1), "unimportant at level 0")
    for m in logs[1]:
        if any(s in m for s in FROM0):
            ctx.check(any(x.startswith(m[:40]) for x in logs[0]),
                      "important message at level 0")
    bad = isinstance(outs[1], Exception)
    ctx.check(isinstance(outs[2], Exception) == (bad or bool(logs[1])),
              "level 2 raises exactly if there is something to say")
    for a in (-1, 0):
        ctx.check(isinstance(outs[a], Exception) == bad, "same outcome")
        if bad or isinstance(outs[a], Exception):
            continue
        ctx.check(set(outs[a]) == set(outs[1]), "same keys")
        for k in outs[1]:
            p, q = np.ravel(outs[a][k]), np.ravel(outs[1][k])
            ctx.check(len(p) == len(q), "same length")
            for x, y in zip(p, q):
                ctx.check(x is y or ctx.eq(x, y), "same numbers")
    if not isinstance(outs[2], Exception) and not bad:
        for k in outs[1]:
            for x, y in zip(np.ravel(outs[2][k]), np.ravel(outs[1][k])):
                ctx.check(x is y or ctx.eq(x, y), "same numbers at level 2")
    if logs[1]:
        ctx.reach("warned")
    if not bad:
        ctx.reach("measured")


@scenario(reach=["refused"], stubs=stubs)
def unknown_level(ctx):
    """A level outside the documented ones never yields warnings-only or
    silent results once a message is due."""
    data, t, peri, apo = wave(ctx, "key")
    lv = ctx.choice("level", (-2, 3, 0.5, "1", None))
    with ctx.quiet():
        exc = ctx.raises(lambda: M.measure(
            data, "Amplitude", tref_in=np.array([t[peri[1]]]),
            extra_kwargs={"omega_gw_extrema_interpolation_method": "spline"},
            debug_level=lv))
    ctx.check(exc is not None, "unknown level refused")
    ctx.reach("refused")


class Progress:
    """Stand-in for the iterative fit that notes whether it may print."""
    seen = []

    def __init__(self, x, y, degrees=None, verbose=None):
        Progress.seen.append(verbose)
        self.f = M.PLRat(x, y)

    def fit(self, max_iterations=None, tol=None):
        pass

    def __call__(self, q):
        return self.f(q)


def progress_stubs():
    from gw_eccentricity import utils
    return [s for s in c09.stubs() if s[0] is not utils.get_rational_fit] \
        + [(utils.RationalFit, Progress)]


@scenario(reach=["done"], stubs=progress_stubs, sym_stubs=M.peak_stubs)
def progress(ctx):
    """The iterations of the rational fits are printed from level 1 on."""
    from gw_eccentricity.eccDefinition import eccDefinition
    level = ctx.choice("level", (-1, 0, 1))
    amp, ph, om = M.wave(n_orb=7, spu=4)
    w = 4.0 + om / 128
    del Progress.seen[:]
    saved = eccDefinition.check_if_first_derivative_is_not_strictly_monotonic
    try:
        eccDefinition.check_if_first_derivative_is_not_strictly_monotonic = \
            lambda *a, **k: False
        obj = M.classes()["Amplitude"](
            {"t": 0.5 * np.arange(len(amp)),
             "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
             "omegalm": {(2, 2): w}},
            tref_in=ctx.real("t", 5, 6), debug_level=level)
        obj.compute_eccentricity = lambda q: 0.0 * q
        obj.check_monotonicity_and_convexity = lambda: None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exc = ctx.raises(lambda: obj.measure_ecc())
    finally:
        eccDefinition.check_if_first_derivative_is_not_strictly_monotonic = \
            saved
    ctx.check(exc is None and len(Progress.seen) >= 2, "measured")
    ctx.check(all(bool(v) == (level > 0) for v in Progress.seen),
              "fit progress printed from level 1 on")
    ctx.reach("done")
