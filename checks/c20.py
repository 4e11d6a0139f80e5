"""C20: the filter of spin-induced oscillations."""
import types

import numpy as np
import scipy

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "filter of spin-induced oscillations"
ASSUMPTIONS = [
    "scipy's least-squares fit of the secular trend returns its starting "
    "point, scipy's interpolant of the crossing intervals is a constant; the "
    "Fourier transforms are the exact sums (or, in `band`, deliver arbitrary "
    "spectra)",
    "up to 14 samples (24 in `measured`), segments within them, padding up to "
    "3 samples"]
H.base_object()


def start_point(fun, x0, *a, **k):
    return types.SimpleNamespace(x=list(x0))


class Interval:
    """Crossing interval: a constant."""
    value = None

    def __init__(self, x, y, **k):
        pass

    def __call__(self, t):
        return Interval.value


def stubs():
    from gw_eccentricity import spin_filter as sf
    return [(sf.least_squares, start_point), (sf.interp1d, Interval)]


N_REQ = {"calls": [], "verdict": None}


def verdict(*a, **k):
    N_REQ["calls"].append(k)
    return N_REQ["verdict"](k["data_type"])


def req_stubs():
    from gw_eccentricity import spin_filter as sf
    return stubs() + [(sf.check_filter_requirement, verdict)]


DEFAULTS = dict(filter_threshold=0.2, alpha=2, segment_size=15,
                data_type_for_filter_requirement_check=None,
                data_type_for_fspin_estimate=None, debug_level=-1,
                debug_plots=False, do_not_filter=False, padding_length=2,
                taper_width=0.2, f_spin_lo_frac=0.75, f_spin_hi_frac=1.25,
                fecc_lo_frac=0.25, fecc_hi_frac=0.5)


def modes(ctx, n, which=("amp", "omega", "phase"), name=""):
    """Arbitrary (2, 2) and (2, -2) modes whose halves cross often."""
    d = {}
    for w in which:
        s = 1 if w == "amp" else -1
        lo, hi = (0.5, 2) if w != "phase" else (-40, 40)
        a = ctx.reals(f"{w}22{name}", n, lo, hi)
        if w == "phase":
            b = ctx.reals(f"{w}2-2{name}", n, lo, hi)
        else:
            # crossings at fixed places: alternate sign of the difference
            sep = ctx.real(f"{w} asymmetry{name}", 0.0625, 0.25)
            b = ctx._arr([s * (x + (sep if (i // 2) % 2 else -sep))
                          for i, x in enumerate(a)])
        d[w + "lm"] = {(2, 2): a, (2, -2): b}
    return d


def run(ctx, data, tag="", t_merger=None, **kw):
    from gw_eccentricity import spin_filter as sf
    tag_data = {"t": data["t"]}
    for k, v in data.items():
        if k != "t":
            tag_data[k + tag] = v
    with ctx.quiet():
        exc = ctx.raises(
            lambda: sf.check_and_filter_spin_induced_oscillations(
                tag_data, tag, t_merger if t_merger is not None
                else data["t"][-1] + 4, dict(DEFAULTS, **kw)))
    return exc, None if exc is not None else ctx.last


def half(data, w, i):
    s = 1 if w == "amp" else -1
    m = data[w + "lm"]
    return (m[(2, 2)][i] + s * m[(2, -2)][i]) / 2


@scenario(reach=["filtered", "kept"], stubs=req_stubs, budget=(120, 900),
          quick=[{"tag": t, "n": 8} for t in ("", "_zeroecc")],
          thorough=[{"tag": t, "n": 14} for t in ("", "_zeroecc")])
def flow(ctx, tag, n):
    """What is returned, for every verdict and option; a filter that lets
    everything pass changes nothing but the two ends."""
    t = -3.0 + 0.5 * np.arange(n)
    data = dict(modes(ctx, n), t=t)
    before = c09.snap(data)
    needed = {w: ctx.flag(w + " needs filtering") for w in ("amp", "omega")}
    off = ctx.flag("do_not_filter")
    which = ctx.choice("check data", (None, "amp", "omega"))
    N_REQ["calls"], N_REQ["verdict"] = [], lambda w: needed[w]
    # intervals below the Nyquist period: the cutoff is above all frequencies
    Interval.value = 0.125
    from gw_eccentricity import spin_filter as sf
    pad = ctx.choice("padding", (0, 1, 3))
    saved = sf.np
    sf.np = Flat(saved)
    try:
        exc, out = run(ctx, data, tag, do_not_filter=off, segment_size=48,
                       padding_length=pad,
                       data_type_for_filter_requirement_check=which,
                       filter_threshold=0.375, alpha=8)
    finally:
        sf.np = saved
    ctx.check(exc is None, "filter runs")
    c09.same(ctx, before, c09.snap(data), (), "data")
    if exc is not None:
        return
    asked = [which or w for w in ("amp", "omega")]
    ctx.check([c["data_type"] for c in N_REQ["calls"]] == asked,
              "requirement judged on the chosen data")
    for c in N_REQ["calls"]:
        m = data[c["data_type"] + "lm"]
        ctx.check(c["threshold"] == 0.375
                  and ctx.eq_arr(c["data_copr_22"], m[(2, 2)])
                  and ctx.eq_arr(c["data_copr_2m2"], m[(2, -2)]),
                  "requirement judged on both modes and the threshold")
    for w in ("amp", "omega", "phase"):
        k = f"{w}_gw{tag}"
        orig = [half(data, w, i) for i in range(n)]
        ctx.check(ctx.eq_arr(out[k + "_original"], orig),
                  "original kept " + w)
        on = not off and needed[which or (w if w != "phase" else "omega")]
        f = out[k + "_filtered"]
        ctx.check((f is not None) == on, "filtered exactly when required")
        if not on or f is None:
            ctx.check(ctx.eq_arr(out[k], orig), "unfiltered is original")
            ctx.reach("kept")
            continue
        ctx.check(len(out[k]) == len(f) == n, "aligned with the times")
        ctx.check(ctx.eq_arr(out[k], f), "filtered data are used")
        if w == "phase":
            om = out[f"omega_gw{tag}"]
            ctx.check(ctx.all([ctx.close(f[i] - f[i - 1],
                                         0.5 * om[i], 1e-9)
                               for i in range(1, n)]),
                      "phase integrates the filtered frequency")
            continue
        ctx.check(ctx.all([ctx.close(f[i], orig[i], 1e-9)
                           for i in range(1, n - 1)]),
                  "nothing removed below the cutoff")
        near = ctx.all([ctx.close(f[0], orig[1], 1e-9),
                        ctx.any([ctx.close(f[n - 1], orig[n - 1], 1e-9),
                                 ctx.close(f[n - 1], orig[n - 2], 1e-9)])])
        ctx.check(near, "ends continue the nearest filtered values")
        ctx.reach("filtered")


class Flat:
    """np with a spectrum that is zero everywhere (the bands hold no bin, so
    that the spectrum does not matter)."""

    def __init__(self, np_):
        self._np = np_

    def abs(self, x):
        return np.zeros(len(x))

    def __getattr__(self, k):
        return getattr(self._np, k)


class Spectra:
    """np with real transforms that deliver an arbitrary spectrum."""

    def __init__(self, np_, values):
        self._np, self._values = np_, values
        self.fft = self

    def rfft(self, x):
        return self._values(len(x) // 2 + 1) * float(len(x))

    def irfft(self, x, n):
        return np.zeros(n)

    def rfftfreq(self, n, d):
        return self._np.arange(n // 2 + 1) / (n * d)

    def __getattr__(self, k):
        return getattr(self._np, k)


@scenario(reach=["spin bin", "no spin bin", "ecc bin", "no ecc bin"],
          stubs=req_stubs, budget=(200, 2000),
          quick=[{"n": 8}], thorough=[{"n": 10}, {"n": 14}])
def band(ctx, n):
    """The cutoff lies between the frequencies taken for the eccentricity and
    the spin oscillations, each the highest peak within its band."""
    from gw_eccentricity import spin_filter as sf
    dt = 0.5
    t = 10.0 + dt * np.arange(n)
    x = 1 + np.arange(n) / 16
    s = np.array([0.125 if (i // 2) % 2 else -0.125 for i in range(n)])
    data = {"t": t, "amplm": {(2, 2): x, (2, -2): x + s},
            "omegalm": {(2, 2): x, (2, -2): -(x + s)},
            "phaselm": {(2, 2): x, (2, -2): -x}}
    spec = ctx.reals("spectrum", n // 2 + 1, 0, 10)
    for a in range(len(spec)):
        for b in range(a):
            # no ties
            ctx.assume(ctx.any([ctx.ge(spec[a], spec[b] + 1e-3),
                                ctx.ge(spec[b], spec[a] + 1e-3)]))
    guess = ctx.real("spin frequency", 0.1, 1.5)
    Interval.value = 1 / guess
    lo = ctx.choice("spin low", (0.75, 0.96875))
    hi = 2 - lo
    elo, ehi = ctx.choice("ecc", ((0.25, 0.5), (0.25, 1.0), (0.46875, 0.5)))
    N_REQ["verdict"] = lambda w: w == "omega"
    saved = sf.np
    sf.np = Spectra(saved, lambda m: spec[:m])
    try:
        with ctx.quiet():
            f = sf.FilterSpinInducedOscillations(
                data, data_type="omega", segment_size=1000,
                filter_threshold=0.2, data_type_for_fspin_estimate=None,
                data_type_for_filter_requirement_check=None,
                debug_plots=False, debug_level=-1, t_merger=t[-1] + 4)
            exc = ctx.raises(lambda: f.apply_filter(
                padding_length=0, taper_width=0.2, alpha=1000,
                f_spin_lo_frac=lo, f_spin_hi_frac=hi, fecc_lo_frac=elo,
                fecc_hi_frac=ehi))
    finally:
        sf.np = saved
    ctx.check(exc is None, "filter runs")
    if exc is not None:
        return
    ctx.check(len(f.filter_segment_results) == 1, "one segment")
    r = f.filter_segment_results[0]
    freq = [k / (n * dt) for k in range(n // 2 + 1)]
    e = 1e-7
    ctx.check(ctx.close(r.f_spin_guess, guess, e), "spin frequency guess")
    ctx.check(ctx.all([ctx.le(r.f_ecc, r.f_cutoff),
                       ctx.le(r.f_cutoff, r.f_spin)]),
              "cutoff between eccentricity and spin frequency")

    def peak(got, a, b, other, label):
        """got is the highest bin in [a, b], or `other` without one."""
        inside = [ctx.all([ctx.lt(a + e, v), ctx.lt(v, b - e)]) for v in freq]
        maybe = [ctx.all([ctx.le(a - e, v), ctx.le(v, b + e)]) for v in freq]
        is_bin = [ctx.all([m, ctx.close(got, v, e)] + [
            ctx.implies(i, ctx.le(u, w)) for i, u in zip(inside, spec)])
            for m, v, w in zip(maybe, freq, spec)]
        empty = ctx.all([ctx.not_(i) for i in inside] + [
            ctx.close(got, other, e)] if other is not None else
            [ctx.not_(i) for i in inside])
        ctx.check(ctx.any(is_bin + [empty]), label)
        return inside
    a = peak(r.f_spin, lo * guess, hi * guess, guess,
             "spin frequency is the peak of its band")
    b = peak(r.f_ecc, elo * r.f_spin, ehi * r.f_spin, None,
             "eccentricity frequency is the peak of its band")
    ctx.reach("spin bin" if bool(ctx.any(a)) else "no spin bin")
    ctx.reach("ecc bin" if bool(ctx.any(b)) else "no ecc bin")
    # the lowest bin between the two
    is_bin = [ctx.all([ctx.close(r.f_cutoff, v, e)] + [
        ctx.any([ctx.lt(u, r.f_ecc - e), ctx.lt(r.f_spin + e, u),
                 ctx.close(u, r.f_ecc, e), ctx.close(u, r.f_spin, e),
                 ctx.le(w, z)]) for u, z in zip(freq, spec)])
        for v, w in zip(freq, spec)]
    none = ctx.all([ctx.any([ctx.lt(u, r.f_ecc + e), ctx.lt(r.f_spin - e, u)])
                    for u in freq])
    ctx.check(ctx.any(is_bin + [none]), "cutoff is the trough between them")


def build(ctx, sf, data, t, size, alpha, pad, width):
    with ctx.quiet():
        f = sf.FilterSpinInducedOscillations(
            data, data_type="omega", segment_size=size,
            filter_threshold=0.2, data_type_for_fspin_estimate=None,
            data_type_for_filter_requirement_check=None,
            debug_plots=False, debug_level=-1, t_merger=t[-1] + 4)
        # bands without a bin: the cutoff does not depend on the spectrum
        exc = ctx.raises(lambda: f.apply_filter(
            padding_length=pad, taper_width=width, alpha=alpha,
            f_spin_lo_frac=1.0, f_spin_hi_frac=0.5, fecc_lo_frac=0.9999,
            fecc_hi_frac=0.99995))
    return f, exc


@scenario(reach=["done"], stubs=req_stubs, budget=(200, 2000),
          quick=[{"n": 8, "pad": 0}, {"n": 8, "pad": 3}, {"n": 9, "pad": 2}],
          thorough=[{"n": 14, "pad": 3}])
def lowpass(ctx, n, pad):
    """Each segment is its trend plus the residual without what lies above
    the cutoff; where segments overlap the result lies between them."""
    from gw_eccentricity import spin_filter as sf
    dt = 0.5
    t = -3.0 + dt * np.arange(n)
    data = dict(modes(ctx, n, ("omega",)), t=t)
    d = data["omegalm"]
    data["amplm"] = {k: v * 0 + 1.0 for k, v in d.items()}
    width = ctx.choice("taper", (0, 0.125))
    guess = ctx.choice("spin frequency", (0.37, 0.53, 0.71))
    Interval.value = 1 / guess
    N_REQ["verdict"] = lambda w: True
    saved = sf.np
    sf.np = Flat(saved)
    size = ctx.choice("segment size", (2 * guess * dt * (n - 0.5),
                                       guess * dt * n))
    try:
        f, exc = build(ctx, sf, data, t, size, guess * dt * n * 0.45,
                       pad, width)
    finally:
        sf.np = saved
    ctx.check(exc is None, "filter runs")
    if exc is not None:
        return
    out = ctx.last
    ctx.check(len(out) == n, "aligned with the times")
    cover = [[] for _ in range(n)]
    for r in f.filter_segment_results:
        m = len(r.t)
        i0 = int(round((float(r.t[0]) - t[0]) / dt))
        ctx.check(len(r.data) == len(r.filtered_data) == m
                  and i0 + m <= n, "segment aligned")
        ctx.check(ctx.eq_arr(r.t, t[i0:i0 + m]), "segment times")
        raw = [half(data, "omega", i) for i in range(i0, i0 + m)]
        ctx.check(ctx.eq_arr(r.data, raw), "segment data")
        L = m + 2 * pad
        fr = np.arange(L // 2 + 1) / (L * dt)
        fc = float(r.f_cutoff)
        mask = np.where(fr < fc * (1 - width), 1.0,
                        np.where(fr > fc * (1 + width), 0.0, np.nan))
        mask[np.abs(fr - fc) < 1e-9] = 1.0 if width == 0 else 0.5
        if not np.isfinite(mask).all():
            continue
        # the linear map of a perfect low pass
        K = np.fft.irfft(np.fft.rfft(np.eye(L), axis=0) * mask[:, None],
                         n=L, axis=0)[pad:pad + m, pad:pad + m]
        res = [r.data[i] - r.secular[i] for i in range(m)]
        for i in range(m):
            want = r.secular[i]
            for j in range(m):
                want = want + float(K[i, j]) * res[j]
            ctx.check(ctx.close(r.filtered_data[i], want, 1e-7),
                      "low pass of the residual")
            if 0 < i < m - 1:
                cover[i0 + i].append(r.filtered_data[i])
    for i in range(n):
        c = cover[i]
        if c:
            ctx.check(ctx.all([
                ctx.any([ctx.le(out[i], v + 1e-9) for v in c]),
                ctx.any([ctx.le(v - 1e-9, out[i]) for v in c])]),
                "between the overlapping segments")
    ctx.reach("done")


def fit_trend(fun, x0, *a, **k):
    """A fixed trend: value 2 at all times."""
    return types.SimpleNamespace(x=[x0[0], 2.0, 0])


def peaks_of(x, distance=None, **k):
    return M.find_peaks(x, distance=distance)


def requirement_stubs():
    from gw_eccentricity import spin_filter as sf
    return [(sf.least_squares, fit_trend), (sf.interp1d, Interval)]


@scenario(reach=["required", "not required"], stubs=requirement_stubs,
          sym_stubs=M.peak_stubs, budget=(120, 900),
          quick=[{"kind": k} for k in ("amp", "omega")])
def requirement(ctx, kind):
    """Filtering is required exactly when the mean peak of the asymmetry
    exceeds the threshold fraction of the mean peak of the residual."""
    from gw_eccentricity import spin_filter as sf
    n = 22      # ends within the last oscillation
    s = 1 if kind == "amp" else -1
    t = 0.5 * np.arange(n)
    R = ctx.reals("residual peak", 3, 0.25, 1)
    A = ctx.reals("asymmetry peak", 3, 0.03125, 1)
    thr = ctx.real("threshold", 0.05, 0.9)
    res, asy = [], []
    for i in range(n):
        j = min(i // 8, 2)
        res.append(R[j] if i in (4, 12, 20) else
                   (-0.2 if i % 8 == 0 else -0.15) if i % 8 in (0, 7, 1) else 0.0625
                   + 0.01 * (4 - abs(i % 8 - 4)))
        # crosses zero twice in each period
        asy.append(A[j] if i in (4, 12, 20) else
                   -0.03125 if i % 8 in (0, 1, 7) else 0.015625)
    x22 = ctx._arr([2 + r for r in res])
    x2m2 = ctx._arr([s * (2 + r - 2 * a) for r, a in zip(res, asy)])
    with ctx.quiet():
        exc = ctx.raises(lambda: sf.check_filter_requirement(
            t=t, data_copr_22=x22, data_copr_2m2=x2m2, t_merger=t[-1] + 1,
            data_type=kind, threshold=thr))
    ctx.check(exc is None, "decided")
    if exc is not None:
        return
    got = bool(ctx.last)
    a, r = A[0] + A[1] + A[2], R[0] + R[1] + R[2]
    if got:
        ctx.check(ctx.le(thr * r, a + 1e-9), "required above the threshold")
    else:
        ctx.check(ctx.le(a, thr * r + 1e-9), "not required below")
    ctx.reach("required" if got else "not required")


def no_filter_stubs():
    # the trend fit is scipy's own: nothing here depends on it
    out = [(o, n) for o, n in c09.stubs()]
    from gw_eccentricity import spin_filter as sf
    return [(o, n) for o, n in out if o is not
            sf.check_and_filter_spin_induced_oscillations]


def api(ctx, w, amp, ph, t, prec, **kw):
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): w}}
    if prec:
        data["amplm"][(2, -2)] = amp.copy()
        data["phaselm"][(2, -2)] = -ph
        data["omegalm"][(2, -2)] = -w
    with ctx.quiet():
        exc = ctx.raises(lambda: M.measure(
            data, "Amplitude", precessing=prec, frame="coprecessing",
            prep=lambda o: setattr(o, "compute_eccentricity", lambda q: 0 * q
                                   + o.omega_gw_pericenters_interp(q)
                                   - o.omega_gw_apocenters_interp(q)), **kw))
    return exc, None if exc is not None else ctx.last


def small(ctx):
    amp, ph, om = M.wave(n_orb=5, spu=4)
    _, peri, apo = M.expected(amp, ph, 2)
    w = om.astype(object)
    P, A = ctx.real("P", 4, 9), ctx.real("A", 1, 3)
    for j, i in enumerate(peri):
        w[i] = P * (64 + j * j) / 64
    for j, i in enumerate(apo):
        w[i] = A * (32 + j * j) / 32
    return amp, ph, ctx._arr(w), 0.5 * np.arange(len(amp)), peri, apo


@scenario(reach=["same"], stubs=no_filter_stubs, sym_stubs=M.peak_stubs,
          budget=(120, 900), quick=[{"off": False}, {"off": True}])
def mirrored(ctx, off):
    """Mirror-symmetric modes: the precessing measurement is the
    non-precessing one (there is nothing to filter)."""
    amp, ph, w, t, peri, apo = small(ctx)
    x = np.array([t[peri[1]] + 0.25, t[peri[2]] + 0.125])
    ek = {"omega_gw_extrema_interpolation_method": "spline"}
    e1, o1 = api(ctx, w, amp, ph, t, False, tref_in=x, extra_kwargs=dict(ek))
    if off:
        ek["filter_kwargs"] = {"do_not_filter": True}
    e2, o2 = api(ctx, w, amp, ph, t, True, tref_in=x, extra_kwargs=ek)
    ctx.check(e1 is None and e2 is None, "measured")
    if e1 is not None or e2 is not None:
        return
    g1, g2 = o1[0], o2[0]
    ctx.check(list(g1.pericenters_location) == list(g2.pericenters_location)
              and list(g1.apocenters_location) == list(g2.apocenters_location),
              "same extrema")
    for k in ("eccentricity", "mean_anomaly", "tref_out"):
        ctx.check(len(o1[1][k]) == len(o2[1][k]) == 2, "same number")
        ctx.check(ctx.all([ctx.close(a, b, 1e-9) for a, b in
                           zip(o1[1][k], o2[1][k])]), "same " + k)
    ctx.check(g2.omega_gw_filtered is None, "nothing filtered")
    ctx.reach("same")


class Scaled:
    """Filter stand-in: scales the data by fixed factors."""
    on = (True, True)
    factor = {"amp": 0.5, "omega": 1.0}

    @staticmethod
    def filt(data_dict, data_tag, t_merger, filter_kwargs):
        out = {}
        for k, on in zip(("amp", "omega"), Scaled.on):
            s = 1 if k == "amp" else -1
            v = 0.5 * (data_dict[k + "lm"][(2, 2)]
                       + s * data_dict[k + "lm"][(2, -2)])
            f = v * Scaled.factor[k] if on else None
            out[k + "_gw"] = v if f is None else f
            out[k + "_gw_original"], out[k + "_gw_filtered"] = v, f
            out[k + "_gw_filter_segment_results"] = None
        p = 0.5 * (data_dict["phaselm"][(2, 2)]
                   - data_dict["phaselm"][(2, -2)])
        f = p + 3.0 if Scaled.on[1] else None
        out["phase_gw_original"], out["phase_gw_filtered"] = p, f
        out["phase_gw"] = p if f is None else f
        return out


def scaled_stubs():
    from gw_eccentricity import spin_filter as sf
    return no_filter_stubs() + [
        (sf.check_and_filter_spin_induced_oscillations, Scaled.filt)]


@scenario(reach=["filtered", "not filtered"], stubs=scaled_stubs,
          sym_stubs=M.peak_stubs, budget=(120, 900))
def measured(ctx):
    """The measurement uses what the filter returned; after filtering the
    frequency the first pericenter and apocenter are left out."""
    amp, ph, w, t, peri, apo = small(ctx)
    n = len(w)
    q = ctx.real("factor", 0.5, 2)
    Scaled.on = (ctx.flag("amplitude"), ctx.flag("frequency"))
    Scaled.factor = {"amp": 0.5, "omega": q}
    x = np.array([t[peri[2]] + 0.25, t[peri[3]] + 0.125])
    ek = {"omega_gw_extrema_interpolation_method": "spline"}
    e1, o1 = api(ctx, w, amp, ph, t, True, tref_in=x, extra_kwargs=ek)
    ctx.check(e1 is None, "measured")
    if e1 is not None:
        return
    g, r = o1
    m = len(g.t)
    a, f = Scaled.on
    ctx.check(len(g.amp_gw) == len(g.omega_gw) == len(g.phase_gw) == m,
              "aligned with the times")
    ctx.check(ctx.all([ctx.close(u, v * (0.5 if a else 1), 1e-9)
                       for u, v in zip(g.amp_gw, amp)]), "amplitude used")
    ctx.check(ctx.all([ctx.close(u, v * (q if f else 1), 1e-9)
                       for u, v in zip(g.omega_gw, w)]), "frequency used")
    ctx.check(ctx.all([ctx.close(u - g.phase_gw[0], v - ph[0], 1e-9)
                       for u, v in zip(g.phase_gw, ph)]), "phase used")
    c = [i for i in peri if i < m], [i for i in apo if i < m]
    k = 1 if f else 0
    ctx.check([int(i) for i in g.pericenters_location] == c[0][k:]
              and [int(i) for i in g.apocenters_location] == c[1][k:],
              "first extrema left out after filtering only")
    scale = q if f else 1
    for j, s in enumerate(x):
        want = scale * (M.pl([t[i] for i in c[0][k:]], [w[i] for i in c[0][k:]], s)
                        - M.pl([t[i] for i in c[1][k:]], [w[i] for i in c[1][k:]], s))
        ctx.check(ctx.close(r["eccentricity"][j], want, 1e-7),
                  "frequencies at the extrema are the filtered ones")
    ctx.reach("filtered" if f else "not filtered")
