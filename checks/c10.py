"""C10: all accepted data forms describe the same waveform."""
import copy

import numpy as np

from vf import sym
from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "data forms"
ASSUMPTIONS = [
    "phase advances by less than pi between samples (otherwise complex data do "
    "not determine the phase)",
    "the rotation into the coprecessing frame (scri) is replaced by a fixed "
    "amplitude and phase change of every mode",
    "identity A exp(-i phi) has modulus A and argument -phi + 2 pi k"]
H.base_object()
FORMS = ("hlm", "amp", "omega")


def turn(z, fac, dph):
    """z with its modulus scaled and h's phase phi increased by dph."""
    if isinstance(z, sym.SComplex):
        if z.amp is None:
            raise sym.Unsupported("rotation of a cartesian number")
        return sym.SComplex.polar(z.amp * fac, z.ph - dph)
    return z * fac * np.exp(-1j * dph)


_CALLS = []


def rotation(data_dict, ell_min=2, ell_max=2, tag=""):
    _CALLS.append((tag, set(data_dict["hlm" + tag]), ell_min, ell_max))
    out = copy.deepcopy(data_dict)
    fac = 2.0 if tag == "" else 3.0
    h = out["hlm" + tag]
    new = {}
    for (l, m), v in h.items():
        vals = [turn(z, fac, 0.015 * m * i) for i, z in enumerate(v)]
        if any(isinstance(q, sym.SComplex) for q in vals):
            new[(l, m)] = np.empty(len(vals), dtype=object)
            new[(l, m)][:] = vals
        else:
            new[(l, m)] = np.array(vals)
    out["hlm" + tag] = new
    return out


def stubs():
    from gw_eccentricity import load_data
    return [s for s in c09.stubs()
            if s[0] is not load_data.get_coprecessing_data_dict] + [
        (load_data.get_coprecessing_data_dict, rotation)]


N = 14
BASE = [1, 1.5, 2, 1.5, 1, 1.5, 2, 1.5, 2, 3, 4, 6, 4, 3]
MERGER = 11


def modes_for(ctx, prec, sym_at, tag=""):
    """({mode: amplitude}, {mode: phase}) with symbolic entries."""
    amp = [float(b) for b in BASE]
    off = 2 if tag else 0
    if sym_at == "amp":
        amp[2] = ctx.real("amp" + tag, 0.25, 3)
    p0 = ctx.real("phase0" + tag, -1, 1) if sym_at == "phase" else 0.5
    step = [2.9 - 0.02 * i for i in range(N - 1)]
    if sym_at == "step":
        step[4] = ctx.real("step" + tag, 1.5, 3)
    ph = [p0]
    for s in step:
        ph.append(ph[-1] + s)
    A = {(2, 2): arr(ctx, [a * (1 + off) for a in amp])}
    P = {(2, 2): arr(ctx, ph)}
    extra = [(2, 1)] if not prec else [(2, 1), (2, 0), (2, -1), (2, -2)]
    for i, (l, m) in enumerate(extra):
        q = 0.5 * m
        if m == -2:
            A[(l, m)] = arr(ctx, [a * (0.5 + off) for a in amp])
            P[(l, m)] = np.array([-(0.3 + 2.7 * k) for k in range(N)])
        else:
            A[(l, m)] = np.array([0.125 + 0.001 * k for k in range(N)])
            P[(l, m)] = np.array([0.2 + q * 2.8 * k for k in range(N)])
    return A, P


def arr(ctx, x):
    if any(isinstance(v, sym.SNum) and sym.is_z(v.v) for v in x):
        return ctx._arr(x)
    return np.array([float(v) for v in x])


def cplx_array(ctx, a, p):
    """A exp(-i phi); plain complex where nothing is symbolic."""
    if not any(isinstance(v, sym.SNum) and sym.is_z(v.v)
               for x in (a, p) for v in x):
        return np.array([float(v) for v in a]) * \
            np.exp(-1j * np.array([float(v) for v in p]))
    arr = np.empty(len(a), dtype=object)
    arr[:] = [ctx.cplx(x, -y) for x, y in zip(a, p)]
    return arr


def supply(ctx, data, form, A, P, tag, dt):
    """Put the modes into data in the given form; returns the frequency
    dictionary that has to be analysed, if it is one of our choosing."""
    if form == "hlm":
        data["hlm" + tag] = {}
        for k in A:
            data["hlm" + tag][k] = cplx_array(ctx, A[k], P[k])
        return None
    data["amplm" + tag], data["phaselm" + tag] = dict(A), dict(P)
    if form == "omega":
        W = {k: np.array([(k[1] or 1) * (1.25 + 0.01 * i) for i in range(N)])
             for k in A}
        data["omegalm" + tag] = dict(W)
        return W
    return None


def same_phase(ctx, got, want, label):
    """equal up to one constant for the whole array"""
    ctx.check(len(got) == len(want), label)
    c = got[0] - want[0]
    ctx.check(ctx.all([ctx.close(g - w, c, 1e-9)
                       for g, w in zip(got, want)]), label)


def deriv(y, dt):
    from gw_eccentricity.utils import time_deriv_4thOrder
    return time_deriv_4thOrder(y, dt)


@scenario(reach=["compared"], stubs=stubs, budget=(300, 3000),
          quick=[{"form": f, "prec": p, "sym_at": s} for f in FORMS
                 for p in ("no", "coprecessing", "inertial")
                 for s in ("amp", "phase", "step")
                 if (f == "hlm" or p != "inertial" or s != "amp")])
def forms(ctx, form, prec, sym_at):
    """Every amplitude, phase and phase step: the analysed data are the
    given ones."""
    obj = H.fresh()
    obj.precessing = prec != "no"
    obj.frame = "inertial" if prec == "inertial" else "coprecessing"
    dt, dtz = 0.5, 0.25
    data = {"t": 3.0 + dt * np.arange(N)}
    A, P = modes_for(ctx, obj.precessing, sym_at)
    W = supply(ctx, data, form, A, P, "", dt)
    zero = ctx.choice("zero", ("no",) + FORMS)
    Az = None
    if zero != "no":
        Az, Pz = modes_for(ctx, obj.precessing, "none", "_zeroecc")
        data["t_zeroecc"] = -2.0 + dtz * np.arange(N)
        Wz = supply(ctx, data, zero, Az, Pz, "_zeroecc", dtz)
    del _CALLS[:]
    exc = ctx.raises(lambda: obj.process_data_dict(
        data, ctx.choice("exclude", (None, 0)), None))
    ctx.check(exc is None, "accepted")
    if exc is not None:
        return
    new = ctx.last[0]
    inertial = prec == "inertial"
    want_calls = ([("", set(A), 2, 2)] if inertial else []) + \
        ([("_zeroecc", set(A), 2, 2)] if inertial and Az else [])
    ctx.check(_CALLS == want_calls, "rotated once each, if inertial")
    if inertial:
        ctx.check(obj.frame == "coprecessing", "frame noted")
    for tag, a, p, w, h in (("", A, P, W, dt),) + (
            (("_zeroecc", Az, Pz, Wz, dtz),) if Az else ()):
        n = len(new["t"]) if tag == "" else N
        fac = 1 if not inertial else (3.0 if tag else 2.0)
        ctx.check(set(new["amplm" + tag]) == set(a)
                  and set(new["phaselm" + tag]) == set(a)
                  and set(new["omegalm" + tag]) == set(a), "modes")
        AA, PP, WW = {}, {}, {}
        for k in a:
            AA[k] = a[k] * fac
            PP[k] = p[k] + 0.015 * k[1] * np.arange(N) * inertial
            # the given frequency counts unless the frame was changed
            WW[k] = deriv(PP[k], h) if w is None or inertial else w[k]
            got = [new[q + tag][k] for q in ("amplm", "phaselm", "omegalm")]
            ctx.check(all(len(g) == n for g in got), "length")
            ctx.check(ctx.all([ctx.close(x, y, 1e-9) for x, y in
                               zip(got[0], AA[k][:n])]), "amplitude")
            same_phase(ctx, got[1], PP[k][:n], "phase up to a constant")
            ctx.check(ctx.all([ctx.close(x, y, 1e-7) for x, y in
                               zip(got[2], WW[k][:n])]), "frequency")
        got = obj.get_amp_phase_omega_gw(new, tag=tag)
        pair = ((2, 2), (2, -2)) if obj.precessing else ((2, 2),)
        s = 1.0 / len(pair)
        ctx.check(ctx.all([ctx.close(x, s * sum(AA[k][i] for k in pair), 1e-9)
                           for i, x in enumerate(got[0])]),
                  "amplitude analysed: mean of (2,2) and (2,-2)")
        sg = {(2, 2): 1, (2, -2): -1}
        same_phase(ctx, got[1], [s * sum(sg[k] * PP[k][i] for k in pair)
                                 for i in range(n)],
                   "phase analysed: half the difference")
        ctx.check(ctx.all([ctx.close(x, s * sum(sg[k] * WW[k][i]
                                                for k in pair), 1e-7)
                           for i, x in enumerate(got[2])]),
                  "frequency analysed: half the difference")
    ctx.reach("compared")


@scenario(reach=["accepted", "rejected"], stubs=stubs,
          quick=[{"prec": "no"}, {"prec": "coprecessing"},
                 {"prec": "inertial"}])
def combinations(ctx, prec):
    """Every combination of supplied keys."""
    obj = H.fresh()
    obj.precessing = prec != "no"
    obj.frame = "inertial" if prec == "inertial" else "coprecessing"
    data = {}
    if not ctx.flag("no t"):
        data["t"] = 3.0 + 0.5 * np.arange(N)
    have = {}
    A, P = modes_for(ctx, obj.precessing, "none")
    full = {}
    supply(ctx, full, "hlm", A, P, "", 0.5)
    supply(ctx, full, "omega", A, P, "", 0.5)
    for tag in ("", "_zeroecc"):
        for k in ("hlm", "amplm", "phaselm", "omegalm"):
            have[k + tag] = ctx.flag("have " + k + tag)
            if have[k + tag]:
                data[k + tag] = dict(full[k])
        if tag:
            # only contradictory circular data are of interest here
            ctx.assume(have["hlm" + tag] and not have["omegalm" + tag])
            data["t_zeroecc"] = 3.0 + 0.5 * np.arange(N)
    exc = ctx.raises(lambda: obj.process_data_dict(data, None, None))
    ok = "t" in data and (
        (have["hlm"] and not have["amplm"] and not have["phaselm"])
        or (not have["hlm"] and have["amplm"] and have["phaselm"])) \
        and not have["amplm_zeroecc"] and not have["phaselm_zeroecc"]
    ctx.check((exc is None) == ok, "accepted exactly if unambiguous")
    ctx.reach("accepted" if ok else "rejected")


@scenario(reach=["rejected", "accepted"], stubs=stubs,
          quick=[{"form": f} for f in FORMS])
def signs(ctx, form):
    """Wrong-sign phases or frequencies, missing modes and uneven sampling
    raise."""
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    fault = ctx.choice("fault", ("none", "phase sign", "frequency sign",
                                 "no (2,2)", "no (2,-2)", "uneven",
                                 "frequency missing mode"))
    amp, ph, om = M.wave(n_orb=6, spu=8)
    n = len(amp)
    t = -3.0 + 0.5 * np.arange(n)
    prec = fault == "no (2,-2)" or ctx.flag("precessing")
    w = 1 + om
    if fault == "phase sign":
        # any slope that decreases overall
        ph = -ph
    if fault == "frequency sign":
        ctx.assume(form == "omega")
        c = ctx.real("frequency", -9, -0.125)
        w = ctx._arr([c] * n)
    if fault == "uneven":
        ctx.assume(form == "omega")
        j = ctx.choice("at", (1, 5, 40))
        d = ctx.real("offset", -0.4, 0.4)
        ctx.assume(ctx.any([ctx.ge(d, 0.01), ctx.le(d, -0.01)]))
        t = ctx._arr([x + d if i == j else x for i, x in enumerate(t)])
    A, P, W = {(2, 2): amp}, {(2, 2): ph}, {(2, 2): w}
    if prec:
        A[(2, -2)], P[(2, -2)], W[(2, -2)] = amp, -ph, -w
    if fault.startswith("no "):
        k = (2, 2) if fault == "no (2,2)" else (2, -2)
        for d in (A, P, W):
            d[(3, 3)] = d.pop(k)
    if fault == "frequency missing mode":
        ctx.assume(form == "omega" and prec)
        del W[(2, -2)]
    data = {"t": t}
    if form == "hlm":
        data["hlm"] = {k: A[k] * np.exp(-1j * P[k]) for k in A}
    else:
        data.update(amplm=A, phaselm=P)
        if form == "omega":
            data["omegalm"] = W
    obj = M.classes()["Amplitude"]
    exc = ctx.raises(lambda: obj(data, tref_in=5.0, precessing=prec,
                                 frame="coprecessing"))
    if fault == "none":
        ctx.check(exc is None, "correct data accepted")
        ctx.reach("accepted")
    else:
        ctx.check(exc is not None, "unusable data raise")
        ctx.reach("rejected")


METHODS = c09.METHODS


@scenario(reach=["compared"], stubs=stubs, sym_stubs=M.peak_stubs,
          quick=[{"method": m} for m in METHODS], budget=(300, 3000))
def measured(ctx, method):
    """The public function gives the same eccentricity and anomaly at every
    requested time in every form."""
    from gw_eccentricity.gw_eccentricity import measure_eccentricity
    from gw_eccentricity.eccDefinition import eccDefinition
    from gw_eccentricity.eccDefinitionUsingFrequencyFits import \
        eccDefinitionUsingFrequencyFits as FF
    freq = "Frequency" in method
    prec = "Residual" not in method and ctx.flag("precessing")
    amp, ph, om = M.wave(n_orb=6, spu=8)
    n = len(amp)
    if freq:
        # modulate the phase, so that its derivative has the extrema
        ph = ph - 0.3 * np.array([np.sin(2 * np.pi * (i - 2) / 8)
                                  for i in range(n)])
    t = 4.0 + 0.25 * np.arange(n)
    pairs = {(2, 2): (amp, ph)}
    if prec:
        pairs[(2, -2)] = (amp, -ph)
    zero = {}
    if "Residual" in method:
        x = np.arange(n)
        za = 1 + x / 64 + np.where(x > n - 20, (x - n + 20) * 0.01, 0)
        za = np.where(x < n - 6, za, za[n - 7] + 5 - 0.2 * (x - n + 3) ** 2)
        zero = {(2, 2): (za, 1.0 * x + 0.002 * x ** 2)}
    cut, peri, apo = M.expected(amp, ph, 2)

    def search(self, idx_ref, sign, nb, na, K, *a, **k):
        loc = (peri if sign > 0 else apo)[:2 * self.num_orbits]
        return (np.array(loc), a[1], K, loc[2] - 1, [[0.0] * len(loc)] * 3)
    x = ctx.real("x", 0, 2)
    tref = ctx._arr([t[peri[2]] + 0.1 + x, t[apo[2]] + 0 * x])
    outs = []
    patched = {(FF, "FindExtremaNearIdxRef"): search,
               (eccDefinition, "check_monotonicity_and_convexity"):
               lambda self: None,
               (eccDefinition, "compute_eccentricity"):
               lambda self, q: self.omega_gw_pericenters_interp(q)
               - self.omega_gw_apocenters_interp(q)}
    saved = {k: k[0].__dict__[k[1]] for k in patched}
    try:
        for (c, nm), f in patched.items():
            setattr(c, nm, f)
        for form in FORMS:
            data = {"t": t}
            for tag, src in (("", pairs), ("_zeroecc", zero)):
                if not src:
                    continue
                A = {k: v[0] for k, v in src.items()}
                P = {k: v[1] for k, v in src.items()}
                if tag:
                    data["t" + tag] = t - 1.5
                if form == "hlm":
                    data["hlm" + tag] = {k: A[k] * np.exp(-1j * P[k])
                                         for k in A}
                    continue
                data["amplm" + tag], data["phaselm" + tag] = A, P
                if form == "omega":
                    data["omegalm" + tag] = {k: deriv(P[k], 0.25) for k in P}
            with ctx.quiet():
                exc = ctx.raises(lambda: measure_eccentricity(
                    tref_in=tref, dataDict=data, method=method,
                    precessing=prec, frame="coprecessing", extra_kwargs={
                        "omega_gw_extrema_interpolation_method": "spline"}))
            outs.append((exc, None if exc else ctx.last))
    finally:
        for (c, nm), f in saved.items():
            setattr(c, nm, f)
    e0 = outs[1]
    ctx.check(e0[0] is None, "measured")
    for exc, o in outs:
        ctx.check((exc is None) == (e0[0] is None), "same outcome")
        if exc is not None or e0[0] is not None:
            continue
        for k in ("tref_out", "eccentricity", "mean_anomaly"):
            ctx.check(len(o[k]) == len(e0[1][k]), "same length")
            ctx.check(ctx.all([ctx.close(a, b, 1e-6) for a, b in
                               zip(o[k], e0[1][k])]), "same " + k)
    ctx.reach("compared")
