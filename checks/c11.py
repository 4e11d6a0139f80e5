"""C11: the frequency is the fourth-order derivative of the phase."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "fourth-order derivative"
ASSUMPTIONS = ["real arithmetic (the rounding of floats is not modelled)"]
H.base_object()
# the stencil coefficients are binary fractions in the code (25/12 is not)
TOL = 1e-11
SIZES = [{"n": n} for n in (5, 6, 7, 9)]
MORE = [{"n": n} for n in (5, 6, 7, 8, 9, 12, 17, 24)]


def deriv():
    from gw_eccentricity.utils import time_deriv_4thOrder
    return time_deriv_4thOrder


def poly(c, i):
    return sum(c[k] * i ** k for k in range(len(c)))


def dpoly(c, i):
    return sum(k * c[k] * i ** (k - 1) for k in range(1, len(c)))


@scenario(reach=["done"], quick=SIZES, thorough=MORE)
def exact_on_quartics(ctx, n):
    """y_i = p(i), p any polynomial of degree four: the result is p'(i)/dt at
    every sample.  (A polynomial in t on a uniform grid is one in i.)"""
    c = ctx.reals("c", 5, -1, 1)
    dt = ctx.real("dt", 1 / 64, 64)
    y = ctx._arr([poly(c, i) for i in range(n)])
    before = list(y)
    d = deriv()(y, dt)
    ctx.check(np.shape(d) == (n,), "one value per sample")
    for i in range(n):
        ctx.check(ctx.close(d[i] * dt, dpoly(c, i), TOL * n ** 4),
                  "exact derivative")
    ctx.check(all(a is b or a == b for a, b in zip(before, y)), "input kept")
    ctx.reach("done")


@scenario(reach=["done"], quick=SIZES, thorough=MORE)
def linear(ctx, n):
    """Arbitrary samples: additive, homogeneous, blind to constants, 1/dt."""
    y, z = ctx.reals("y", n, -8, 8), ctx.reals("z", n, -8, 8)
    s = 3.0
    o = ctx.real("offset", -64, 64)
    D = deriv()
    dy, dz = D(y, 0.5), D(z, 0.5)
    both, off, half = D(y + z, 0.5), D(y + o, 0.5), D(y, 0.25)
    scaled = D(y * s, 0.5)
    rev = D(y[::-1], 0.5)
    for i in range(n):
        ctx.check(ctx.close(both[i], dy[i] + dz[i], TOL), "additive")
        ctx.check(ctx.close(off[i], dy[i], TOL), "constant offset")
        ctx.check(ctx.close(half[i], dy[i] * 2, TOL), "1/dt")
        ctx.check(ctx.close(scaled[i], dy[i] * s, TOL), "homogeneous")
        ctx.check(ctx.close(rev[n - 1 - i], 0 - dy[i], TOL), "time reversal")
    ctx.reach("done")


@scenario(reach=["done"])
def modes(ctx):
    """Every mode of a dictionary is differentiated on its own, with the step
    of its own time array; nothing but the frequencies is changed."""
    obj = H.fresh()
    n = 7
    h, t0 = ctx.real("h", 1 / 64, 64), ctx.real("t0", -9, 9)
    t = ctx._arr([t0 + h * i for i in range(n)])
    ph, want = {}, {}
    for m in ((2, 2), (2, -2), (3, 3), (2, 0)):
        c = ctx.reals(f"c{m}", 5, -1, 1)
        ph[m] = ctx._arr([poly(c, i) for i in range(n)])
        want[m] = [dpoly(c, i) for i in range(n)]
    keep = dict(ph)
    om = obj.get_omegalm_from_phaselm(t, ph)
    ctx.check(list(om) == list(ph), "same modes")
    ctx.check(all(ph[m] is keep[m] for m in keep), "phases kept")
    for m in keep:
        for i in range(n):
            ctx.check(ctx.close(om[m][i] * h, want[m][i], 1e-7),
                      "derivative of mode")
    ctx.reach("done")


@scenario(reach=["derived", "given"], quick=[
    {"form": f} for f in ("amp", "hlm")])
def data_dict(ctx, form):
    """Through the constructor's data extraction: derived where missing (each
    data set with its own step), used as given where supplied."""
    obj = H.fresh()
    n, nz = 8, 9
    h, hz = ctx.real("h", 1 / 8, 2), ctx.real("hz", 1 / 8, 2)
    # small enough steps for an unambiguous unwrapping of complex modes
    c, cz = ctx.reals("c", 3, 0, 1 / 512), ctx.reals("cz", 3, 0, 1 / 512)
    ph = ctx._arr([1.0 * i + poly(c, i) for i in range(n)])
    pz = ctx._arr([0.75 * i + poly(cz, i) for i in range(nz)])
    t = ctx._arr([h * i for i in range(n)])
    tz = ctx._arr([3 + hz * i for i in range(nz)])
    give, givez = ctx.flag("omega given"), ctx.flag("omega_zeroecc given")
    data = {"t": t, "t_zeroecc": tz}
    for tag, p, k in (("", ph, n), ("_zeroecc", pz, nz)):
        a = 1 + 0.125 * np.arange(k)
        if form == "amp":
            data["amplm" + tag] = {(2, 2): a, (3, 3): a}
            data["phaselm" + tag] = {(2, 2): p, (3, 3): p * 1.5}
        else:
            data["hlm" + tag] = {(2, 2): a * np.exp(-1j * p),
                                 (3, 3): a * np.exp(-1j * p * 1.5)}
    w, wz = ctx.reals("w", n), ctx.reals("wz", nz)
    if give:
        data["omegalm"] = {(2, 2): w, (3, 3): w * 2}
    if givez:
        data["omegalm_zeroecc"] = {(2, 2): wz, (3, 3): wz * 2}
    out = obj.get_amp_phase_omega_data(data)
    for tag, g, gv, k, step, base, cc in (
            ("", give, w, n, h, 1.0, c),
            ("_zeroecc", givez, wz, nz, hz, 0.75, cz)):
        om = out["omegalm" + tag]
        ctx.check(set(om) == {(2, 2), (3, 3)}, "modes")
        for md, f, fg in (((2, 2), 1.0, 1.0), ((3, 3), 1.5, 2.0)):
            ctx.check(np.shape(om[md]) == (k,), "length")
            for i in range(k):
                if g:
                    ctx.check(ctx.eq(om[md][i], gv[i] * fg), "given" + tag)
                else:
                    ctx.check(ctx.close(om[md][i] * step,
                                        f * (base + dpoly(cc, i)), 1e-9),
                              "derived" + tag)
        ctx.reach("given" if g else "derived")


@scenario(reach=["even", "uneven"])
def uneven_steps(ctx):
    """Times with uneven steps are refused, whichever step is off."""
    amp, ph, om = M.wave(n_orb=2)
    n = len(amp)
    cut = M.expected(amp, ph, 2)[0]
    j = ctx.choice("which", (0, 1, 5, cut - 1))
    d = ctx.real("delta", -0.4, 0.4)
    t = np.empty(n, dtype=object)
    t[:] = [0.5 * i for i in range(n)]
    t[j] = t[j] + d
    t = ctx._arr(t)
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph}}
    exc = ctx.raises(lambda: M.classes()["Amplitude"](
        data, tref_in=np.array([3.0])))
    if exc is None:
        ctx.check(ctx.all([d <= 2e-5, d >= -2e-5]), "uneven steps refused")
        ctx.reach("even")
    else:
        ctx.check(ctx.any([d > 1e-6, d < -1e-6]), "even steps accepted")
        ctx.reach("uneven")
