"""C07: the extrema found are those of the method's own data."""
import types

import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "extrema of the method's data"
ASSUMPTIONS = [
    "scipy.signal.find_peaks is represented by its documented algorithm in "
    "the symbolic runs (the replays run scipy's)",
    "circular data are interpolated piecewise linearly",
    "Fits methods: the envelope fit is a constant"]
for _m in ("Amplitude", "Frequency"):
    H.base_object(_m)
for _m in ("AmplitudeFits", "FrequencyFits"):
    H.base_object(_m, False)
PEAKS = ("Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency")
SPL = {"omega_gw_extrema_interpolation_method": "spline"}


def prominence(x, p):
    """Least descent needed, on both sides, to reach anything higher (or the
    end of the data)."""
    low = []
    for way in (-1, 1):
        j, m = p, x[p]
        while 0 <= j + way < len(x) and bool(x[j + way] <= x[p]):
            j += way
            m = x[j] if bool(x[j] < m) else m
        low.append(m)
    return x[p] - (low[0] if bool(low[0] >= low[1]) else low[1])


def maxima(x):
    return [i for i in range(1, len(x) - 1)
            if bool(x[i] > x[i - 1]) and bool(x[i] > x[i + 1])]


def build(ctx, method, where, spu=4, n_orb=3):
    """Data whose quantity relevant for the method is symbolic at the given
    samples, and the (pre-merger) values the method must look at."""
    amp, ph, om = M.wave(n_orb=n_orb, spu=spu)
    n = len(amp)
    t = 0.5 * np.arange(n) - 3
    cut = M.expected(amp, ph, 2)[0]
    resid = "Residual" in method
    x = np.empty(n, dtype=object)
    src = amp if "Amplitude" in method else om
    x[:] = [float(v) for v in src]
    for k, i in enumerate(where):
        x[i] = ctx.real(f"x{k}", 0.125, 1.5 if src is amp else 2.5)
    x = ctx._arr(x)
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): om}}
    data["amplm" if "Amplitude" in method else "omegalm"] = {(2, 2): x}
    look = [x[i] for i in range(cut)]
    if resid:
        tz = np.append(t[0] - 0.5, t)
        z = np.append(0.3, 0.3 + 0.02 * np.arange(n))
        az = np.append(0.3, np.where(amp > 2, amp, 0.3 + 0.02 * np.arange(n)))
        data["t_zeroecc"] = tz
        data["amplm_zeroecc"] = {(2, 2): az}
        data["phaselm_zeroecc"] = {(2, 2): np.append(ph[0] - 1, ph)}
        data["omegalm_zeroecc"] = {(2, 2): z}
        c = az if "Amplitude" in method else z
        look = [look[i] - c[i + 1] for i in range(cut)]
    return data, look, cut


WHERE = [4, 5, 6, 7, 8, 9]


@scenario(reach=["several", "none"], stubs=M.spline_stubs,
          sym_stubs=M.peak_stubs, budget=(150, 800),
          quick=[{"method": m, "option": "none"} for m in PEAKS] +
          [{"method": m, "option": o, "n": k} for m, o, k in (
              ("Amplitude", "prominence", 3), ("ResidualAmplitude", "height",
                                               5),
              ("Frequency", "threshold", 4),
              ("ResidualFrequency", "distance", 4))],
          thorough=[{"method": m, "option": o, "n": 7} for m in PEAKS
                    for o in ("none", "prominence", "height", "threshold",
                              "distance")])
def found(ctx, method, option, n=5):
    """Whatever the samples: find_extrema of a fully constructed object."""
    data, x, cut = build(ctx, method, [4 + i for i in range(n)])
    value = {"none": None, "prominence": 0.25, "height": 0.5,
             "threshold": 0.125, "distance": 3}[option]
    opts = {"width": None}
    if option != "none":
        opts[option] = value
    with ctx.quiet():
        obj = M.classes()[method](
            data, tref_in=1.0, num_orbits_to_exclude_before_merger=2,
            extra_kwargs=dict(SPL, extrema_finding_kwargs=opts))
        for i in range(3, 4 + n):
            ctx.assume(x[i] != x[i + 1])
        if option == "distance":
            for i in range(4, 4 + n):
                for j in range(4, i):
                    ctx.assume(x[i] != x[j])
        for kind, sign in (("pericenters", 1), ("apocenters", -1)):
            y = [sign * v for v in x]
            got = [int(i) for i in obj.find_extrema(kind)]
            want = maxima(y)
            if option == "prominence":
                want = [i for i in want if bool(prominence(y, i) >= value)]
            if option == "height":
                want = [i for i in want if bool(y[i] >= value)]
            if option == "threshold":
                want = [i for i in want if bool(y[i] - y[i - 1] >= value)
                        and bool(y[i] - y[i + 1] >= value)]
            if option == "distance":
                # of any two closer ones only the higher; none needlessly
                everything, want = want, got
                ctx.check(set(got) <= set(everything), "are extrema")
                ctx.check(all(b - a >= value for a, b in zip(got, got[1:])),
                          "apart")
                for i in everything:
                    ctx.check(i in got or any(
                        abs(i - j) < value and bool(y[j] >= y[i])
                        for j in got), "dropped only for a higher one")
            ctx.check(got == want, kind + " are the extrema of the data")
    inner = [i for i in got if 3 < i < 4 + n]
    if len(inner) > 1:
        ctx.reach("several")
    if not inner:
        ctx.reach("none")


@scenario(reach=["main", "spike"], stubs=M.spline_stubs,
          sym_stubs=M.peak_stubs, budget=(100, 500),
          quick=[{"method": m} for m in PEAKS])
def default_width(ctx, method):
    """By default a spike one sample wide is not an extremum while the
    oscillation itself is; with the user's own width 0 both are."""
    spu, n_orb = 8, 3
    amp, ph, om = M.wave(n_orb=n_orb, spu=spu)
    cut, peri, apo = M.expected(amp, ph, 2)
    at = peri[1] + spu // 4          # on the way down
    user = ctx.flag("own width")
    data, x, _ = build(ctx, method, [at], spu=spu, n_orb=n_orb)
    # a spike above both neighbours, below the neighbouring maximum
    ctx.assume(x[at] > x[at - 1] + 0.0625)
    ctx.assume(x[at] < x[at - 1] + 0.25)
    ctx.assume(x[at] < x[peri[1]] - 0.0625)
    opts = {"width": 0} if user else {}
    with ctx.quiet():
        obj = M.classes()[method](
            data, tref_in=1.0, num_orbits_to_exclude_before_merger=2,
            extra_kwargs=dict(SPL, extrema_finding_kwargs=opts))
        got = [int(i) for i in obj.find_extrema("pericenters")]
    ctx.check(got == [i for i in maxima(x) if user or i != at],
              "the oscillation's maxima" + (" and the spike" if user else ""))
    ctx.reach("spike" if user else "main")


@scenario(reach=["mid"], quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}],
          budget=(60, 300))
def midpoints(ctx, n):
    """One apocenter strictly between any two consecutive pericenters, at
    their middle (to the sample)."""
    obj = H.fresh()
    p, last = [], 0
    for i in range(n):
        last = last + int(ctx.int(f"gap{i}", 2, 9))
        p.append(last)
    apo = obj.get_apocenters_from_pericenters(np.array(p))
    ctx.check(len(apo) == n - 1, "one each")
    for a, q, b in zip(p, apo, p[1:]):
        ctx.check(a < int(q) < b, "strictly between")
        ctx.check(abs(2 * int(q) - a - b) <= 1, "in the middle")
        ctx.check(isinstance(q, (int, np.integer)), "a position")
    ctx.reach("mid")


# ------------------------------------------------------------------ Fits
class Flat:
    """Envelope stand-in: a constant."""

    def __init__(self, t0=0, verbose=False):
        self.t0 = t0

    def format(self, *p):
        return ""

    def __call__(self, t, *p):
        return p[0] * np.ones(np.shape(t))


def phases(X, n):
    """Phase advancing by 4 pi from one extremum to the next."""
    x = [X[0] - 6] + list(X) + [X[-1] + 6]
    return np.interp(np.arange(n), x, 4 * np.pi * np.arange(len(x))) \
        + 1e-3 * np.arange(n)


def walker(ctx, method, N, X, n, finder, refine=False):
    from gw_eccentricity import eccDefinitionUsingFrequencyFits as ff
    g = H.fresh(method, False)
    g.t = 0.5 * np.arange(n) - n
    g.t_merger = 0.0
    g.phase_gw = phases(X, n)
    g.data_for_finding_extrema = np.ones(n)
    g.num_orbits = N
    g.extra_kwargs["refine_extrema"] = refine
    g.debug_plots = False
    g.verbose = False
    saved = ff.scipy, ff.envelope_fitting_function
    base = ff.eccDefinitionUsingFrequencyFits
    near = base.FindExtremaNearIdxRef
    try:
        ff.scipy = types.SimpleNamespace(optimize=types.SimpleNamespace(
            curve_fit=lambda f, x, y, p0=None, **k: (list(p0), None)))
        ff.envelope_fitting_function = Flat
        base.FindExtremaNearIdxRef = finder
        with ctx.quiet():
            return g, ctx.raises(lambda: g.find_extrema(
                ctx.choice("kind", ("pericenters", "apocenters"))))
    finally:
        ff.scipy, ff.envelope_fitting_function = saved
        base.FindExtremaNearIdxRef = near


@scenario(reach=["all", "lost"], budget=(100, 700),
          quick=[{"method": m, "N": N, "more": k} for m, N, k in (
              ("AmplitudeFits", 2, 0), ("FrequencyFits", 2, 2),
              ("AmplitudeFits", 3, 2), ("FrequencyFits", 3, 3))],
          thorough=[{"method": "FrequencyFits", "N": N, "more": k}
                    for N in (2, 3, 4) for k in (0, 1, 2, 3, 4)])
def chained(ctx, method, N, more):
    """The windows of N extrema before and N + 1 after a moving reference
    are chained: nothing skipped or repeated, until the windows run short;
    times, values and phases belong to the extremum."""
    gaps = [3 + (int(ctx.int(f"gap{i}", 0, 2)) if i in (1, N, 2 * N)
                 else i % 3) for i in range(2 * N + more)]
    X = list(np.cumsum([2] + gaps))
    n = X[-1] + 3
    bad = int(ctx.int("unreliable from", N, len(X)))
    lose = int(ctx.int("lost", 0, N + 1))
    calls = []

    def finder(self, idx_ref, sign, nb, na, K, f_fit, p, bounds, tol, **k):
        # the documented contract; near the merger the trend is bad and
        # extrema are lost
        left = [x for x in X if x < idx_ref]
        while len(left) < nb and len(left) + 1 < len(X):
            idx_ref = int((X[len(left)] + X[len(left) + 1]) / 2)
            left = [x for x in X if x < idx_ref]
        right = [x for x in X if x >= idx_ref][:na]
        out = left[-nb:] + right
        if len(left) >= bad and calls:
            out = out[:len(out) - lose]
        calls.append(idx_ref)
        i = np.array(out)
        return i, p, 1.0, idx_ref, [i + 0.25, i * 2.0, i * 3.0]

    g, exc = walker(ctx, method, N, X, n, finder)
    # (an extremum exactly at the first reference has no side)
    if calls and calls[0] in X:
        return
    if exc is not None:
        ctx.check("too short" in str(exc), "no failure")
        return
    got = [int(v) for v in ctx.last]
    k = len(got)
    if not got:
        ctx.check(len(X) < 2 * N - 1, "nothing found")
        return
    i0 = X.index(got[0])
    ctx.check(got == X[i0:i0 + k], "a gapless run of extrema")
    ctx.check(i0 == 0, "from the first one")
    if lose == 0 or bad == len(X):
        ctx.check(k == len(X), "to the last one")
        ctx.reach("all")
    else:
        ctx.check(k >= min(bad + 1, len(X) - lose), "at least the good ones")
        ctx.reach("lost")
    info = g.periastron_info if hasattr(g, "periastron_info") and \
        g.periastron_info is not None else g.apastron_info
    ctx.check([float(v) for v in info[0]] == [x + 0.25 for x in got],
              "their times")
    ctx.check([float(v) for v in info[1]] == [x * 2.0 for x in got],
              "their values")
    ctx.check([float(v) for v in info[2]] == [x * 3.0 for x in got],
              "their phases")


@scenario(reach=["full", "end", "moved"], budget=(120, 700),
          quick=[{"method": m, "N": N, "sign": s, "K": K} for m, N, s in (
              ("FrequencyFits", 2, 1), ("AmplitudeFits", 2, -1),
              ("FrequencyFits", 3, 1)) for K in (0.7, 1.1, 1.5)],
          thorough=[{"method": m, "N": N, "sign": s, "K": K} for m in
                    ("AmplitudeFits", "FrequencyFits") for N in (2, 3, 4)
                    for s in (1, -1) for K in (0.7, 0.9, 1.1, 1.3, 1.5)])
def window(ctx, method, N, sign, K):
    """The local search: N extrema before the reference, N + 1 after it, all
    neighbours, wherever the reference is and whatever the first guess of
    the periastron advance."""
    from gw_eccentricity import eccDefinitionUsingFrequencyFits as ff
    m = 2 * N + 4
    gaps = [5 + (i * 5) % 3 for i in range(m)]
    X = list(int(v) for v in np.cumsum([4] + gaps))
    n = X[-1] + 4
    ref = int(ctx.int("reference", 1, n - 2))
    if ref in X:
        return
    h = ctx.real("h", 1, 2)
    y = np.empty(n, dtype=object)
    y[:] = [0.0] * n
    for k, i in enumerate(X):
        y[i] = 1.0 + (k % 2) * 0.25
    y[X[N]] = h
    if not ctx.symbolic:
        y = y.astype(float)
    g = H.fresh(method, False)
    g.t = 0.5 * np.arange(n)
    g.phase_gw = phases(X, n)
    g.data_for_finding_extrema = sign * y
    g.return_diagnostic_data = False
    saved = ff.scipy

    def fit(f, x, v, p0=None, **k):
        return [c / 2 for c in p0], None
    ff.scipy = types.SimpleNamespace(
        optimize=types.SimpleNamespace(curve_fit=fit),
        signal=types.SimpleNamespace(find_peaks=(
            M.find_peaks if ctx.symbolic else saved.signal.find_peaks)))
    try:
        with ctx.quiet():
            exc = ctx.raises(lambda: g.FindExtremaNearIdxRef(
                ref, sign, N, N + 1, K, Flat(), [0.125], None, 1e-8))
    finally:
        ff.scipy = saved
    ctx.check(exc is None, "no failure")
    if exc is not None:
        return
    idx, p, K1, ref1, info = ctx.last
    idx = [int(i) for i in idx]
    ctx.check(ref1 >= ref, "the reference never moves back")
    if ref1 > ref:
        ctx.reach("moved")
    left = [x for x in X if x < ref1]
    right = [x for x in X if x >= ref1]
    if not idx:
        ctx.check(len(right) <= 1 or len(left) < N, "none at all")
        return
    i0 = X.index(idx[0]) if idx[0] in X else -9
    ctx.check(idx == X[i0:i0 + len(idx)], "neighbouring extrema")
    if len(left) >= N and len(right) >= N + 1:
        ctx.check(idx == left[-N:] + right[:N + 1], "N before, N + 1 after")
        ctx.reach("full")
    elif len(left) >= N:
        ctx.check(len(idx) < 2 * N + 1, "fewer at the end of the data")
        ctx.check(idx[-1] == X[-1], "up to the last one")
        ctx.reach("end")
    for k, i in enumerate(idx):
        ctx.check(info[0][k] == g.t[i], "time")
        ctx.check(ctx.eq(info[1][k], sign * y[i]), "value")
        ctx.check(info[2][k] == g.phase_gw[i], "phase")
