"""C13: the short segment holds the requested orbits around the references."""
import warnings

import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "short segment"
ASSUMPTIONS = [
    "phase profiles: increasing, with a symbolic rate in each half "
    "(thorough: third) of the data, at least 10.5 samples per orbit (one orbit = 4 pi of phase)",
    "the reference is identified with the sample nearest to it",
    "references by frequency: the secular-trend fit (scipy least_squares) is "
    "replaced by one of three increasing straight lines"]
H.base_object()
STEP = 1.2
ORBIT = 4 * np.pi
ATTRS = ("t", "amp_gw", "phase_gw", "omega_gw")


def profile(ctx, n, rates=2, lo=0.5, hi=STEP):
    r = ctx.reals("rate", rates, lo, hi)
    p = [ctx.real("phase0", -50, 50)]
    for i in range(1, n):
        p.append(p[-1] + r[min(rates - 1, rates * i // n)])
    return ctx._arr(p)


def make(ctx, t, phase, N, **kw):
    obj = H.fresh()
    n = len(t)
    obj.t, obj.phase_gw = t, phase
    obj.amp_gw = 100.0 + np.arange(n)
    obj.omega_gw = 1000.0 + np.arange(n)
    obj.extra_kwargs = dict(obj.extra_kwargs, use_only_these_many_orbits=N)
    for k, v in kw.items():
        setattr(obj, k, v)
    return obj


def cut_of(ctx, obj, full):
    """(start, end) of the cut, after checking that it is one and the same
    contiguous cut of all arrays."""
    got = [getattr(obj, a) for a in ATTRS]
    m = len(got[0])
    ctx.check(m > 0, "segment is not empty")
    if not m:
        return None
    ctx.check(all(len(g) == m for g in got), "same length")
    s = int(got[1][0] - 100)
    e = s + m
    ctx.check(all(len(f) >= e for f in full), "inside the data")
    for g, f in zip(got, full):
        if g is f and m == len(f):
            continue
        ctx.check(ctx.all([x is y or ctx.eq(x, y)
                           for x, y in zip(g, f[s:e])]),
                  "time, amplitude, phase and frequency cut identically")
    return s, e


def judge(ctx, s, e, phase, jl, jr, N):
    """The cut phase[s:e] around the samples jl..jr."""
    n = len(phase)
    first, last = phase[s], phase[e - 1]
    ctx.check(s <= jl and jr <= e - 1, "references inside")
    half = N / 2 * ORBIT
    if s > 0:
        ctx.check(ctx.ge(phase[jl] - first, half), "half before")
    if e < n:
        ctx.check(ctx.ge(last - phase[jr], half), "half after")
    # what one end lacks is taken from the other
    need = N * ORBIT - STEP
    ctx.check(ctx.any([ctx.ge(last - first, need),
                       ctx.ge(need, phase[n - 1] - phase[0])]),
              "N orbits in total where the data have them")
    # it is a short segment: not more than about the requested orbits
    wide = (np.ceil(N / 2) * 1.25 + 0.1) * ORBIT
    extra = (N / 2) * 1.25 * ORBIT
    ctx.check(ctx.le(phase[jl] - first, wide + (extra if e == n else 0)),
              "not much more before")
    ctx.check(ctx.le(last - phase[jr],
                     wide + (extra if s <= 1 else 0)),
              "not much more after")
    ctx.reach("left" if s == 0 and e < n else "right" if e == n and s > 0
              else "all" if s == 0 else "inside")


PARTS = {"left": (0, 11), "mid": (12, 23), "right": (24, 35),
         "out": (-9, -1), "over": (36, 40)}


@scenario(reach=["inside", "left", "right", "all"],
          quick=[{"N": N, "at": p, "every": e} for N, e in ((1, 3), (2, 2))
                 for p in ("left", "mid", "right")]
          + [{"N": 1.5, "at": "out", "every": 3},
             {"N": 1.5, "at": "over", "every": 2}],
          thorough=[{"N": N, "at": p, "n": n, "rates": 3} for N, n in
                    ((1, 36), (2, 36), (2.5, 72), (3, 72), (4, 72),
                     (1.5, 36)) for p in PARTS], budget=(300, 3000))
def single(ctx, N, at, n=36, rates=2, every=1):
    """One reference time anywhere in the data."""
    t0 = -0.5
    t = t0 + 1.0 * np.arange(n)
    k = n // 36
    a, b = (x * k for x in PARTS[at])
    pos = b - every * int(ctx.int("sample", 0, (b - a) // every))
    tref = t0 + pos + ctx.real("offset", -0.499, 0.499)
    phase = profile(ctx, n, rates)
    ctx.assume(ctx.ge(phase[n - 1] - phase[0], N * ORBIT))
    obj = make(ctx, t, phase, N, domain="time", tref_in=ctx._arr([tref]))
    full = [getattr(obj, x) for x in ATTRS]
    exc = ctx.raises(lambda: obj.get_amp_phase_omega_gw_segments())
    ctx.check(exc is None, "the ends of the data are no reason to fail")
    if exc is not None:
        return
    cut = cut_of(ctx, obj, full)
    if cut is None:
        return
    j = max(0, min(n - 1, pos))
    judge(ctx, *cut, phase, j, j, N)


@scenario(reach=["inside", "all"],
          quick=[{"N": 1, "order": o} for o in ("up", "down", "three")],
          thorough=[{"N": N, "order": o, "rates": r} for N in (1, 2)
                    for o in ("up", "down", "three") for r in (2, 3)],
          budget=(300, 3000))
def several(ctx, N, order, n=36, rates=1):
    """Several reference times, given in any order."""
    t0 = 7.25
    t = t0 + 1.0 * np.arange(n)
    j1 = int(ctx.choice("first", (0, 4, 14, 20)))
    j2 = j1 + int(ctx.choice("apart", (0, 1, 6, 13)))
    a = t0 + j1 + ctx.real("offset1", -0.499, 0.499)
    b = t0 + j2 + ctx.real("offset2", -0.499, 0.499)
    ctx.assume(ctx.le(a, b))
    refs = {"up": [a, b], "down": [b, a],
            "three": [a + (b - a) * 0.5, b, a]}[order]
    phase = profile(ctx, n, rates)
    ctx.assume(ctx.ge(phase[n - 1] - phase[0], N * ORBIT))
    obj = make(ctx, t, phase, N, domain="time", tref_in=ctx._arr(refs))
    full = [getattr(obj, x) for x in ATTRS]
    exc = ctx.raises(lambda: obj.get_amp_phase_omega_gw_segments())
    ctx.check(exc is None, "the ends of the data are no reason to fail")
    if exc is None:
        cut = cut_of(ctx, obj, full)
        if cut is not None:
            judge(ctx, *cut, phase, j1, j2, N)


class Line:
    """An increasing straight line instead of the fitted trend."""
    ctx = None
    calls = []
    trends = ()

    def __init__(self, times, frequencies):
        Line.calls.append((times, frequencies))

    def least_square_fit(self):
        class R:
            x = Line.ctx.choice("trend", Line.trends)
        return R()

    def model(self, t, a, b):
        return a + b * t


def line_stub():
    from gw_eccentricity import utils
    return [(utils.QusicircularFitForMappingFrequencyToTime, Line)]


@scenario(reach=["inside", "left", "right"], stubs=line_stub,
          quick=[{"k": 1, "order": "up"}, {"k": 2, "order": "up"},
                 {"k": 2, "order": "down"}],
          thorough=[{"k": 2, "order": o, "deep": True}
                    for o in ("up", "down")],
          budget=(300, 3000))
def frequency(ctx, k, order, deep=False):
    """References by frequency: the samples where the trend is nearest to
    them are kept with N/2 orbits to each side, wherever they are."""
    n, N = (40 if k == 1 or deep else 30), 1
    t0 = 100.0
    t = t0 + 1.0 * np.arange(n)
    phase = 0.5 + (1.0 if n == 40 else 1.2) * np.arange(n)
    # frequency rises with an orbital modulation
    omega = 1.0 + 0.05 * np.arange(n) + 0.4 * np.array(
        [[0, 1, 0, -1][i % 4] for i in range(n)])
    Line.ctx, Line.calls = ctx, []
    Line.trends = ((3.75, 0.05), (2.75, 0.05), (3.75, 0.0625))[
        :3 if k == 1 or deep else 1]
    f = [ctx.real("f1", 0.1, 0.8)]
    if k == 2:
        f.append(f[0] + ctx.choice("apart", (0.05,) if not deep else (0.0, 0.03, 0.05, 0.1)))
        if order == "down":
            f.reverse()
    obj = make(ctx, t, phase, N, domain="frequency", fref_in=ctx._arr(f))
    obj.omega_gw = omega
    obj.t_merger = t0 + 55.0
    full = [getattr(obj, x) for x in ATTRS]
    exc = ctx.raises(lambda: obj.get_amp_phase_omega_gw_segments())
    ctx.check(exc is None, "the ends of the data are no reason to fail")
    if exc is not None:
        return
    cut = cut_of(ctx, obj, full)
    if cut is None:
        return
    res = Line(None, None).least_square_fit().x
    pos = []
    for tt, w in Line.calls[:-1]:
        # what the trend is fitted to is part of the data, counted from the
        # merger
        i = int(round(float(tt[0]) + 55.0))
        ctx.check(len(tt) == len(w) and 0 <= i
                  and i + len(tt) <= n
                  and np.allclose(np.array(tt, float),
                                  t[i:i + len(tt)] - obj.t_merger)
                  and np.allclose(np.array(w, float),
                                  omega[i:i + len(tt)]),
                  "fitted to matching times and frequencies")
    for x in f:
        x = 2 * np.pi * x
        # the trend line crosses x at this time
        pos.append((x - res[0]) / res[1])
    ctx.check(len(Line.calls) - 1 == k, "one fit per end")
    s, e = cut
    for x, (tt, w) in zip(sorted_by(f, order), Line.calls):
        y = (2 * np.pi * x - res[0]) / res[1]
        lo, hi = tt[0], tt[-1]
        # crossing clipped to the fitted stretch lies in the segment
        first, last = t[s] - obj.t_merger, t[e - 1] - obj.t_merger
        ctx.check(ctx.any([ctx.ge(y, first - 0.6), ctx.le(y, lo)]),
                  "reference not before the segment")
        ctx.check(ctx.any([ctx.le(y, last + 0.5), ctx.ge(y, hi)]),
                  "reference not after the segment")
        if s > 0:
            ctx.check(ctx.any([ctx.ge(y - first, N / 2 * ORBIT - 0.6),
                               ctx.le(y, lo + 0.5)]), "half before")
        if e < n:
            ctx.check(ctx.any([ctx.ge(last - y, N / 2 * ORBIT - 0.6),
                               ctx.ge(y, hi - 0.6)]), "half after")
    ctx.reach("left" if s == 0 and e < n else "right" if e == n and s > 0
              else "inside")


def sorted_by(f, order):
    return list(reversed(f)) if order == "down" else list(f)


@scenario(reach=["short", "whole", "too short"], stubs=c09.stubs,
          sym_stubs=M.peak_stubs,
          quick=[{"method": m} for m in ("Amplitude", "Frequency",
                                         "AmplitudeFits", "FrequencyFits")])
def measured(ctx, method):
    """Through the public function: the segment is used exactly when
    requested and long enough; otherwise the whole data, with a message."""
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    from gw_eccentricity.eccDefinition import eccDefinition
    from gw_eccentricity.eccDefinitionUsingFrequencyFits import \
        eccDefinitionUsingFrequencyFits as FF
    amp, ph, om = M.wave(n_orb=14, spu=4)
    n = len(amp)
    t = 4.0 + 0.5 * np.arange(n)
    # (2, 2) phase advances by pi per sample of the mini wave
    per_orbit = 4
    ph = ORBIT / per_orbit * np.arange(n)
    w = 1 + om
    N = ctx.choice("N", (None, 2, 3.5, 4, 30))
    cut, peri, apo = M.expected(amp, ph, 2)
    j = ctx.choice("reference", (3, 18, 26, 33, cut - 2))
    d = ctx.real("offset", -0.2, 0.2)
    seen = {}

    def note(self, *a, **k):
        seen.update((a, getattr(self, a)) for a in ATTRS)
        raise KeyError("stop here")
    saved = eccDefinition.measure_ecc
    try:
        eccDefinition.measure_ecc = note
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                measure_eccentricity(
                    tref_in=t[j] + d, method=method,
                    dataDict={"t": t, "amplm": {(2, 2): amp},
                              "phaselm": {(2, 2): ph},
                              "omegalm": {(2, 2): w}},
                    extra_kwargs={"use_only_these_many_orbits": N})
            except KeyError:
                pass
    finally:
        eccDefinition.measure_ecc = saved
    ctx.check(len(seen) == 4, "set up")
    if len(seen) < 4:
        return
    full = [t[:cut], amp[:cut], ph[:cut], w[:cut]]
    m = len(seen["t"])
    s = int(round((float(seen["t"][0]) - 4.0) / 0.5))
    ctx.check(all(len(seen[a]) == m and np.allclose(
        np.array(seen[a], float), f[s:s + m])
        for a, f in zip(ATTRS, full)), "cut identically")
    short = N is not None and N * per_orbit <= cut - 1
    told = [x for x in log if "which is less than the requested"
            in str(x.message)]
    ctx.check(bool(told) == (N == 30), "told when the data are too short")
    if not short:
        ctx.check(s == 0 and m == cut, "the whole data")
        ctx.reach("whole" if N is None else "too short")
        return
    judge_plain(ctx, s, s + m, full[2], j, N)
    ctx.reach("short")


def judge_plain(ctx, s, e, phase, j, N):
    n = len(phase)
    half = N / 2 * ORBIT
    ctx.check(s <= j < e, "reference inside")
    # the samples are coarse here: up to one sample less
    ctx.check(s == 0 or phase[j] - phase[s - 1] >= half, "half before")
    ctx.check(e == n or phase[e] - phase[j] >= half, "half after")
    ctx.check(phase[min(e, n - 1)] - phase[max(s - 1, 0)]
              >= min(N * ORBIT, phase[-1] - phase[0]), "N in total")
    ctx.check(phase[e - 1] - phase[s] <= (N + 1) * 1.25 * ORBIT
              + 2 * ORBIT / 4, "not much more")
