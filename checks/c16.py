"""C16: the zero result - only on request, for long data lacking extrema."""
import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from checks import c09

TITLE = "zero fallback"
ASSUMPTIONS = [
    "the extremum search is replaced by one that returns the given number of "
    "extrema (scenario decision), scipy's splines by piecewise-linear ones"]
H.base_object()

REFS = ("scalar", "zero-dim", "one", "two", "array", "unsorted")


def request(ctx, form, lo, hi):
    a, b = ctx.real("r0", lo, hi), ctx.real("r1", lo, hi)
    if form == "scalar":
        return a, [a], ()
    if form == "zero-dim":
        v = np.array(a, dtype=object) if ctx.symbolic else np.array(a)
        return v, [a], ()
    if form == "one":
        return [a], [a], (1,)
    if form == "two":
        return [a, b], [a, b], (2,)
    if form == "array":
        return ctx._arr([a, b, a]), [a, b, a], (3,)
    return ctx._arr([b, a]), [b, a], (2,)


def check_zero(ctx, out, dom, vals, shape):
    ctx.check(set(out) == {"eccentricity", "mean_anomaly", dom + "ref_out"},
              "keys of the zero result")
    for k in ("eccentricity", "mean_anomaly"):
        ctx.check(np.shape(out[k]) == shape, "shape of the request")
        ctx.check(ctx.all([ctx.eq(v, 0) for v in np.ravel(out[k])]),
                  "all zero")
    r = out[dom + "ref_out"]
    ctx.check(np.shape(r) == shape, "all requested points returned")
    if np.shape(r) == shape:
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(np.ravel(r), vals)]),
                  "requested points returned in order")


@scenario(reach=["zero", "error", "measured", "flag off", "short"],
          stubs=c09.stubs, sym_stubs=M.peak_stubs, budget=(240, 3000),
          quick=[{"ref": r} for r in REFS],
          thorough=[{"ref": r, "method": m} for r in REFS
                    for m in c09.METHODS])
def decision(ctx, ref, method="Amplitude"):
    """Any number of extrema found, any phase span, any request."""
    amp, ph, om = M.wave(n_orb=7)
    cut, peri, apo = M.expected(amp, ph, 2)
    t = -3.0 + 0.5 * np.arange(len(amp))
    w = 4.0 + om / 128
    w[peri], w[apo] = 6.0, 2.0
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): w}}
    if "Residual" in method:
        n = len(amp)
        x = np.arange(n + 6)
        data["t_zeroecc"] = -4.0 + 0.5 * x
        data["amplm_zeroecc"] = {(2, 2): 9 + .01 * x - .2 * abs(x - (n - 2))}
        data["phaselm_zeroecc"] = {(2, 2): 1.0 * x}
        data["omegalm_zeroecc"] = {(2, 2): 1 + 0.05 * x}
    npe, nap = ctx.choice("pericenters", (0, 1, 2, 5)), \
        ctx.choice("apocenters", (0, 1, 2, 5))
    few = npe < 2 or nap < 2
    want = ctx.choice("request", ("no", "yes", "unset"))
    dom = "t" if not few else ctx.choice("domain", ("t", "f"))
    mid = npe == 5 and nap == 5 and ctx.flag("midpoints")
    level = ctx.choice("level", (-1, 1)) if few else -1
    span = None
    kw = {"omega_gw_extrema_interpolation_method": "spline"}
    if want != "unset":
        kw["return_zero_if_small_ecc_failure"] = want == "yes"
    if mid:
        kw["treat_mid_points_between_pericenters_as_apocenters"] = True
    lo, hi = -99, 99
    if not few:
        a, b = (peri[1], peri[2]) if mid else \
            (peri[0], min(peri[npe - 1], apo[nap - 1]))
        lo, hi = float(t[a]), float(t[b])
    req, vals, shape = request(ctx, ref, lo, hi)
    if few:
        span = ctx.real("phase span", 0.5, 200)
        # not within rounding distance of the limit
        ctx.assume(ctx.any([ctx.ge(span, 20 * np.pi * 1.0001),
                            ctx.le(span, 20 * np.pi * 0.9999)]))

    def prep(obj):
        obj.find_extrema = lambda extrema_type="pericenters", *a: np.array(
            peri[:npe] if extrema_type == "pericenters" else apo[:nap],
            dtype=int)
        obj.compute_eccentricity = lambda q: \
            obj.omega_gw_pericenters_interp(q) \
            - obj.omega_gw_apocenters_interp(q)
        if few:
            n = len(obj.phase_gw)
            obj.phase_gw = ctx._arr([7.0 + span * (i / (n - 1))
                                     for i in range(n)])
    with ctx.quiet():
        exc = ctx.raises(lambda: M.measure(
            data, method, prep=prep, extra_kwargs=kw, debug_level=level,
            **{dom + "ref_in": req}))
    if not few:
        ctx.check(exc is None, "enough extrema: measured")
        if exc is None:
            out = ctx.last[1]
            e = np.ravel(out["eccentricity"])
            ctx.check(ctx.all([ctx.eq(v, 4.0) for v in e]),
                      "the measured value, not zero")
            ctx.check(np.shape(out["eccentricity"]) == shape, "shape")
        ctx.reach("measured")
        return
    long_ = bool(span > 20 * np.pi)
    if want == "yes" and long_:
        ctx.check(exc is None, "zero instead of an error on request")
        if exc is None:
            check_zero(ctx, ctx.last[1], dom, vals, shape)
        ctx.reach("zero")
        return
    ctx.check(exc is not None, "too few extrema is an error")
    ctx.reach("error")
    ctx.reach("flag off" if long_ else "short")


@scenario(reach=["zero", "error"], stubs=c09.stubs, sym_stubs=M.peak_stubs,
          quick=[{"method": m} for m in c09.METHODS[:4]])
def circular(ctx, method):
    """Data without oscillations through the real search: the span counts
    after the requested orbits were excluded."""
    amp, ph, om = M.wave(n_orb=ctx.choice("orbits", (4, 5, 6, 8)))
    n = len(amp)
    x = np.arange(n)
    m = int(np.argmax(amp))
    # growing steadily, with a parabolic peak at sample m
    amp = np.where(x < m - 3, 1 + x / 64, 4 - 0.1 * (x - m) ** 2.0)
    t = -3.0 + 0.5 * x
    w = 1 + x / 32
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): w}}
    if "Residual" in method:
        data["t_zeroecc"] = t.copy()
        data["amplm_zeroecc"] = {(2, 2): amp * 0.5}
        data["phaselm_zeroecc"] = {(2, 2): ph.copy()}
        data["omegalm_zeroecc"] = {(2, 2): w * 0.5}
    exclude = ctx.choice("exclude", (2, 3, 4))
    on = ctx.flag("request")
    dom = ctx.choice("domain", ("t", "f"))
    req, vals, shape = request(ctx, ctx.choice("ref", ("scalar", "two")),
                               -99, 99)
    target = ph[m] - 4 * np.pi * exclude
    assert target > ph[0]
    cut = int(np.argmin(abs(ph - target)))
    orbits = (ph[cut - 1] - ph[0]) / (4 * np.pi)
    assert abs(orbits - 5) > 1e-6
    with ctx.quiet():
        exc = ctx.raises(lambda: M.measure(
            data, method, num_orbits_to_exclude_before_merger=exclude,
            extra_kwargs={"return_zero_if_small_ecc_failure": on,
                          "omega_gw_extrema_interpolation_method": "spline"},
            **{dom + "ref_in": req}))
    if on and orbits > 5:
        ctx.check(exc is None, "zero on request")
        if exc is None:
            check_zero(ctx, ctx.last[1], dom, vals, shape)
        ctx.reach("zero")
    else:
        ctx.check(exc is not None, "error without the request or for short "
                  "data")
        ctx.reach("error")
