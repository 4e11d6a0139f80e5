"""C18: residuals use the circular data aligned at merger, inside its range."""
import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "residual data"
ASSUMPTIONS = [
    "scipy's spline is replaced by a piecewise-linear interpolant with the "
    "same interface (through its data, outside values only if allowed)",
    "the merger of the circular data is the vertex of the least-squares "
    "parabola through the five samples around the amplitude maximum"]
H.base_object("ResidualAmplitude")


def stubs():
    return M.spline_stubs() + M.rational_stubs()


def vertex(t, f, k):
    """Vertex of the least-squares parabola through samples k-2..k+2 of a
    uniformly sampled function (closed form)."""
    k = max(2, min(len(t) - 3, k))
    h = t[1] - t[0]
    y = [f[k + j] for j in range(-2, 3)]
    b = (2 * (y[4] - y[0]) + y[3] - y[1]) / 10
    a = (2 * (y[0] + y[4]) - y[1] - y[3] - 2 * y[2]) / 14
    return t[k] - h * b / (2 * a)


def circular(ctx, n_before, n_after, hz, off, sym_at, prec):
    """Circular modes with their maximum n_after samples before the end."""
    n = n_before + n_after + 1
    x = np.arange(n)
    a = 10 - 0.025 * (x - n_before) ** 2 + 0.01 * x
    w = 1 + 0.125 * x + 0.01 * x ** 2
    p = 1.5 * x + 0.03 * x ** 2
    a, w = list(a), list(w)
    if sym_at == "amplitude":
        # tilting the maximum keeps the parabola's curvature, so that its
        # vertex stays linear in the unknown
        j = ctx.choice("tilt", (0, 1, 2))
        d = ctx.real("amplitude", -0.03125, 0.03125)
        if j and n_after >= 2:
            a[n_before - j] = a[n_before - j] - d
            a[n_before + j] = a[n_before + j] + d
        else:
            a[0] = a[0] - 1 + 8 * d
    if sym_at == "frequency":
        i = ctx.choice("at", (0, 2, n_before))
        w[i] = ctx.real("frequency", 0.5, 3)
    if sym_at == "offset":
        off = ctx.real("offset", -50, 50)
    t = ctx._arr([off + hz * i for i in range(n)]) if sym_at == "offset" \
        else off + hz * x

    def arr(v):
        return ctx._arr(v) if not all(isinstance(q, (float, int))
                                      for q in v) else np.array(v)
    A, P, W = {(2, 2): arr(a)}, {(2, 2): p}, {(2, 2): arr(w)}
    if prec:
        A[(2, -2)] = 0.5 * A[(2, 2)]
        P[(2, -2)] = -p - 0.5
        W[(2, -2)] = -W[(2, 2)] - 0.25
        A[(2, 1)] = 0.1 * np.ones(n)
        P[(2, 1)] = p / 2
        W[(2, 1)] = W[(2, 2)] / 2
    tot = ctx._arr([_root(ctx, sum(v[i] * v[i] for v in A.values()))
                    for i in range(n)]) if prec else A[(2, 2)]
    return t, A, P, W, tot


def _root(ctx, v):
    from vf import sym
    return v.sqrt() if isinstance(v, sym.SNum) else np.sqrt(v)


@scenario(reach=["residuals", "starts late", "ends early"], stubs=stubs,
          query_ms=(20000, 60000),
          quick=[{"sym_at": s, "prec": p} for s in
                 ("amplitude", "frequency", "offset") for p in (False, True)
                 if not (p and s == "amplitude")],
          thorough=[{"sym_at": s, "prec": False, "steps": st} for s in
                    ("amplitude", "frequency", "offset")
                    for st in ((0.25, 0.5), (1.0, 0.75))])
def residuals(ctx, sym_at, prec, steps=(0.5, 0.5)):
    """Every sample value, offset and length of the circular data."""
    obj = H.fresh("ResidualAmplitude")
    h, hz = steps
    obj.precessing = prec
    obj.general_interp_kwargs = dict(obj.general_interp_kwargs)
    n = 9
    obj.t = -4.0 + h * np.arange(n)
    obj.t_merger = -4.0 + h * (ctx.choice("merger", (5.25, 6)))
    obj.amp_gw = ctx.reals("amp", n, 0, 9)
    obj.omega_gw = ctx.reals("omega", n, 0, 9)
    before, after = ctx.choice("lengths", ((3, 2), (9, 2), (8, 0), (9, 0),
                                           (8, 5), (14, 1)))
    t, A, P, W, tot = circular(ctx, before, after, hz, 17.0, sym_at, prec)
    obj.dataDict = {"t_zeroecc": t, "amplm_zeroecc": A, "phaselm_zeroecc": P,
                    "omegalm_zeroecc": W}
    exc = ctx.raises(obj.compute_res_amp_gw_and_res_omega_gw)
    k = before
    for i in range(len(tot)):
        if bool(tot[i] > tot[k]):
            k = i
    al = [x - vertex(t, tot, k) + obj.t_merger for x in t]
    m = 1e-9
    if exc is not None:
        ctx.check(ctx.any([ctx.ge(al[0], obj.t[0] - m),
                           ctx.le(al[-1], obj.t_merger + m)]),
                  "refused only without overlap")
        ctx.reach("starts late" if bool(al[0] > obj.t[0] - m)
                  else "ends early")
        return
    ctx.check(ctx.le(al[0], obj.t[0] + m),
              "circular data that start later are refused")
    ctx.check(ctx.ge(al[-1], obj.t_merger - m),
              "circular data that end before the merger are refused")
    amp, om = A[(2, 2)], W[(2, 2)]
    if prec:
        amp = 0.5 * (A[(2, 2)] + A[(2, -2)])
        om = 0.5 * (W[(2, 2)] - W[(2, -2)])
    for name, got, ecc, circ in (
            ("amplitude", obj.res_amp_gw, obj.amp_gw, amp),
            ("frequency", obj.res_omega_gw, obj.omega_gw, om)):
        ctx.check(len(got) == n, "one residual per sample")
        for i in range(n):
            ctx.check(ctx.close(got[i], ecc[i] - M.pl(al, circ, obj.t[i]),
                                1e-7),
                      f"{name} residual: minus the circular value there")
    # the circular frequency average uses the same alignment, without
    # extrapolation
    q = ctx.real("time", -8, 8) if sym_at == "offset" else \
        ctx.choice("time", (-7.0, -2.25, 0.125, 8.0))
    exc = ctx.raises(lambda: obj.compute_omega_gw_zeroecc(q))
    if exc is None:
        ctx.check(ctx.close(ctx.last, M.pl(al, om, q), 1e-7),
                  "circular frequency at a time")
        ctx.check(ctx.all([ctx.ge(q, al[0] - m), ctx.le(q, al[-1] + m)]),
                  "no circular average outside the circular data")
    else:
        ctx.check(ctx.any([ctx.le(q, al[0] + m), ctx.ge(q, al[-1] - m)]),
                  "circular average inside the circular data")
    ctx.reach("residuals")


@scenario(reach=["uneven", "even"], stubs=stubs)
def uneven(ctx):
    """A displaced circular sample is refused, wherever it is."""
    obj = H.fresh("ResidualAmplitude")
    obj.t = -4.0 + 0.5 * np.arange(9)
    obj.t_merger = -1.0
    obj.amp_gw = obj.omega_gw = np.arange(9.0)
    t, A, P, W, tot = circular(ctx, 12, 4, 0.5, 17.0, "none", False)
    j = ctx.choice("at", tuple(range(len(t))))
    displaced = ctx.flag("displaced")
    if displaced:
        d = ctx.real("by", -0.4, 0.4)
        ctx.assume(ctx.any([ctx.le(d, -1e-3), ctx.ge(d, 1e-3)]))
        t = ctx._arr([x + d if i == j else x for i, x in enumerate(t)])
    obj.dataDict = {"t_zeroecc": t, "amplm_zeroecc": A, "phaselm_zeroecc": P,
                    "omegalm_zeroecc": W}
    exc = ctx.raises(obj.compute_res_amp_gw_and_res_omega_gw)
    ctx.check((exc is None) != displaced,
              "exactly uneven circular steps raise")
    ctx.reach("uneven" if displaced else "even")


@scenario(reach=["refused", "measured"], stubs=stubs, sym_stubs=M.peak_stubs,
          quick=[{"method": m, "scalar": s} for m in
                 ("Amplitude", "ResidualAmplitude")
                 for s in (False, True)])
def beyond(ctx, method, scalar):
    """Nothing is returned at times beyond the circular data."""
    amp, ph, om = M.wave(n_orb=8, first="apo", lead=2, tail=3)
    n = len(amp)
    cut = n - 3 * 4 - 3 + 1      # the oscillating part only
    amp, ph, om = amp[:cut].copy(), ph[:cut], om[:cut].copy()
    peri, apo = M.locations(amp)
    om[peri], om[apo] = 4.0, 1.0
    merger = peri[3]
    amp[merger] = 2.5
    t = -3.0 + 0.5 * np.arange(cut)
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): om}}
    # circular data end `after` samples behind their maximum
    after = ctx.choice("after", (2, 5, 9, 13, 40))
    nb = merger + 4
    # small amplitudes, so that the residual keeps the extrema
    x = np.arange(nb + after + 1)
    za = 0.25 - 0.001 * np.abs(x - nb)
    tz = ctx.choice("offset", (0., 90., -7.)) + 0.5 * x
    data["t_zeroecc"] = tz
    data["amplm_zeroecc"] = {(2, 2): za}
    data["phaselm_zeroecc"] = {(2, 2): 1.0 * x}
    data["omegalm_zeroecc"] = {(2, 2): 0.25 + 0.002 * x}
    # both mergers from the same parabola rule
    tm = vertex(t, amp, merger)
    last = tm + 0.5 * after - (vertex(tz, za, nb) - tz[nb])
    q = ctx.real("t", -1, t[-1])
    req = q if scalar else ctx._arr([q, t[0] + 6.25, t[0] + 7])
    with ctx.quiet():
        exc = ctx.raises(lambda: M.measure(
            data, method, tref_in=req, num_orbits_to_exclude_before_merger=None,
            extra_kwargs={"omega_gw_extrema_interpolation_method": "spline"},
            prep=lambda o: setattr(o, "compute_eccentricity",
                                   lambda s: 0 * s)))
    if exc is None:
        out = np.atleast_1d(ctx.last[1]["tref_out"])
        ctx.check(ctx.all([ctx.le(v, last + 1e-9) for v in out]),
                  "no result beyond the circular data")
        ctx.reach("measured")
        return
    lo, hi = t[max(peri[0], apo[0])], t[min(peri[-1], apo[-1])]
    refuse = [ctx.all([ctx.ge(q, last - 1e-9), ctx.ge(q, lo - 1e-9),
                       ctx.le(q, hi + 1e-9)])]
    if scalar:
        refuse += [ctx.le(q, lo + 1e-9), ctx.ge(q, hi - 1e-9)]
    if bool(last < t[0] + 7):
        refuse.append(True)
    ctx.check(ctx.any(refuse), "refused only outside the measurable range or "
              "beyond the circular data")
    ctx.reach("refused")
