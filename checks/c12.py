"""C12: the merger time is the vertex of the parabola at the global peak."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "merger time"
ASSUMPTIONS = ["real arithmetic; uniform time steps"]
H.base_object()


def fit():
    from gw_eccentricity.utils import peak_time_via_quadratic_fit
    return peak_time_via_quadratic_fit


def allmodes():
    from gw_eccentricity.utils import amplitude_using_all_modes
    return amplitude_using_all_modes


# weights of the least squares parabola through five equidistant points
W0 = [-3 / 35, 12 / 35, 17 / 35, 12 / 35, -3 / 35]
W1 = [-2 / 10, -1 / 10, 0, 1 / 10, 2 / 10]
W2 = [2 / 14, -1 / 14, -2 / 14, -1 / 14, 2 / 14]


@scenario(reach=["inner", "edge"], quick=[{"n": 5}, {"n": 7}, {"n": 9}],
          thorough=[{"n": n} for n in (5, 6, 7, 8, 9, 12, 16)])
def parabola(ctx, n):
    """The data are a parabola: its vertex and height are found exactly,
    wherever the vertex lies (inside or outside the sampled span)."""
    p, q = ctx.real("p", -8, 8), ctx.real("q", -64, 64)
    r = ctx.real("r", -4, -1 / 8)
    h = ctx.choice("h", (1.0, 0.25))
    y = ctx._arr([p + q * i + r * (i * i) for i in range(n)])
    t = 3.0 + h * np.arange(n)
    tp, fp = fit()(t, y)
    # vertex in units of the index: -q / (2 r)
    ctx.check(ctx.close((tp - 3.0) / h * (2 * r) + q, 0, 1e-6), "vertex time")
    ctx.check(ctx.close((fp - p) * (4 * r) + q * q, 0, 1e-5), "peak value")
    outside = bool(q < 0) or bool(q > (0 - r) * 2 * (n - 1))
    ctx.reach("edge" if outside else "inner")


PEAKS = {"centre": 4, "near start": 2, "near end": 6, "first": 0, "last": 8,
         "second": 1}


@scenario(reach=["done"], quick=[{"where": w} for w in PEAKS])
def least_squares(ctx, where):
    """Arbitrary samples: the parabola is the least squares one through the
    five samples around the largest one (the nearest five at the ends)."""
    n, m = 9, PEAKS[where]
    y = ctx.reals("y", n, 0, 4)
    for i in range(n):
        if i != m:
            ctx.assume(y[i] + 1 / 16 <= y[m])
    t = 0.5 * np.arange(n) - 2.0
    k = max(2, min(n - 3, m))
    c = [sum(w * v for w, v in zip(W, y[k - 2:k + 3]))
         for W in (W0, W1, W2)]
    ctx.assume(ctx.any([c[2] >= 1 / 64, c[2] <= -1 / 64]))
    tp, fp = fit()(t, y)
    ctx.check(ctx.close((tp - t[k]) * 2 * (2 * c[2]) + c[1], 0, 1e-7),
              "vertex of the local fit")
    ctx.reach("done")


@scenario(reach=["done"], quick=[{"where": w} for w in ("centre", "last")],
          thorough=[{"where": w} for w in PEAKS])
def equivariant(ctx, where):
    """Shifting and stretching time, rescaling the amplitude."""
    n, m = 9, PEAKS[where]
    base = [1.0, 1.5, 1.25, 2.0, 1.75, 2.25, 1.5, 2.0, 1.0]
    base[m] = 4.0
    e = ctx.reals("e", 2, -1 / 4, 1 / 4)
    y = list(base)
    y[max(m - 1, 0) if m else 1] = y[max(m - 1, 0) if m else 1] + e[0]
    y[m] = y[m] + e[1]
    y = ctx._arr([v + 0 * e[0] for v in y])
    i = np.arange(n)
    t0, h = ctx.real("t0", -100, 100), ctx.real("h", 1 / 8, 8)
    s = ctx.real("s", 1 / 8, 8)
    ref, fref = fit()(1.0 * i, y)
    k = max(2, min(n - 3, m))
    a, fa = fit()(ctx._arr([t0 + 0.5 * j for j in range(n)]), y)
    ctx.check(ctx.close(a, t0 + 0.5 * ref, 1e-6), "shift of time")
    ctx.check(ctx.close(fa, fref, 1e-6), "value under a shift")
    b, fb = fit()(ctx._arr([h * j for j in range(n)]), y)
    ctx.check(ctx.close(b / h, ref, 1e-6), "stretch of time")
    ctx.check(ctx.close(fb, fref, 1e-6), "value under a stretch")
    c, fc = fit()(1.0 * i, ctx._arr([s * v for v in y]))
    ctx.check(ctx.close(c, ref, 1e-6), "scale of amplitude")
    ctx.check(ctx.close(fc, s * fref, 1e-5), "value under a scale")
    del k
    ctx.reach("done")


# every (l, m) with l <= 4 and the (5, 5), (8, 8) modes, four at a time
_ALL = [(2, 2)] + [(l, m) for l in (2, 3, 4) for m in range(-l, l + 1)
                   if (l, m) != (2, 2)] + [(5, 5), (8, 8), (8, 0)]
MODE_SETS = tuple(tuple(_ALL[i:i + 4]) for i in range(0, len(_ALL), 4))


@scenario(reach=["done"], quick=[{"form": "hlm"}, {"form": "amplm"}])
def quadrature_sum(ctx, form):
    """sqrt(sum over every mode of |h|^2), whatever the phases and order."""
    modes = ctx.choice("modes", MODE_SETS)
    n = 2
    A = {m: ctx.reals(f"A{m}", n, 0, 8) for m in modes}
    order = ctx.choice("order", ([0, 1, 2, 3], [3, 1, 0, 2]))
    count = ctx.choice("count", (1, 2, 4))
    d = {}
    for j in order:
        m = modes[j]
        if j >= count and count != 4:
            continue
        if form == "hlm":
            ph = ctx.reals(f"ph{m}", n, -3, 3)
            d[m] = np.array([ctx.cplx(a, p) for a, p in zip(A[m], ph)])
        else:
            d[m] = A[m]
    keep = {m: list(v) for m, v in d.items()}
    out = allmodes()(d, form)
    if form == "hlm":
        out2 = allmodes()(d)
        ctx.check(ctx.eq_arr(out, out2), "complex modes are the default")
    for i in range(n):
        ctx.check(out[i] >= 0, "not negative")
        ctx.check(ctx.close(out[i] * out[i],
                            sum(A[m][i] * A[m][i] for m in d), 1e-6),
                  "quadrature sum")
    ctx.check(all(all(x is y or x == y for x, y in zip(keep[m], d[m]))
                  for m in d) and list(keep) == list(d), "modes kept")
    ctx.check(ctx.raises(lambda: allmodes()(d, "phaselm")) is not None,
              "unknown kind of data")
    ctx.reach("done")


TOTAL = {
    # (2,2) amplitude, second mode, the sample where the sum peaks
    "dominant": ([1, 1, 1, 1, 1, 2, 3, 4, 3, 2, 1, 1],
                 [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0], 7),
    "sub": ([1, 1, 3, 4, 3, 1, 1, 1, 1, 1, 1, 1],
            [0, 0, 0, 0, 0, 0, 2, 4, 6, 4, 2, 1], 8),
    "neither": ([1, 1, 1, 8, 1, 1, 6, 7, 6, 1, 1, 1],
                [0, 0, 0, 0, 0, 6, 7, 7, 6.5, 8, 0, 0], 7),
}


@scenario(reach=["done"], stubs=M.spline_stubs, quick=[
    {"case": c, "form": f} for c in TOTAL for f in ("amp", "hlm")])
def merger(ctx, case, form):
    """Through the constructor's data processing: every mode counts, for all
    time origins and steps; the value at the merger is the GW amplitude."""
    a22, a2, m = TOTAL[case]
    a22, a2 = np.array(a22, float), np.array(a2, float)
    n = len(a22)
    second = ctx.choice("mode", ((3, 3), (2, 1), (2, -2), (2, 0), (4, -4)))
    first = ctx.flag("listed first")
    t0 = ctx.real("t0", -100, 100)
    h = ctx.choice("h", (0.5, 4.0))
    t = ctx._arr([t0 + h * i for i in range(n)])
    # the data reach two orbits before the peak
    ph = 4 * np.pi * np.arange(n) / 3 if form == "amp" else \
        2.5 * np.arange(n)
    if form == "hlm":
        m0 = m
        if m0 * 2.5 < 8 * np.pi:
            a22 = np.concatenate([np.ones(9), a22])
            a2 = np.concatenate([np.zeros(9), a2])
            m = m + 9
            n = len(a22)
            t = ctx._arr([t0 + h * i for i in range(n)])
            ph = 2.5 * np.arange(n)
    A = {(2, 2): a22, second: a2}
    if first:
        A = {second: a2, (2, 2): a22}
    data = {"t": t}
    if form == "amp":
        data["amplm"] = A
        data["phaselm"] = {k: ph * (k[1] / 2) for k in A}
        data["omegalm"] = {k: np.ones(n) for k in A}
    else:
        data["hlm"] = {k: A[k] * np.exp(-1j * ph * (k[1] / 2)) for k in A}
        data["omegalm"] = {k: np.ones(n) for k in A}
    obj = H.fresh()
    obj.precessing, obj.frame = False, "inertial"
    new, tm, am, _ = obj.process_data_dict(data, None, None)
    tot = np.sqrt(a22 ** 2 + a2 ** 2)
    ctx.check(int(np.argmax(tot)) == m, "fixture")
    y = tot[m - 2:m + 3]
    c1, c2 = np.dot(W1, y), np.dot(W2, y)
    off = -c1 / (2 * c2)
    ctx.check(ctx.close(tm, t0 + h * (m + off), 1e-6), "merger time")
    near = m + int(np.round(off))
    ctx.check(ctx.close(am, a22[near], 1e-7), "amplitude at the merger")
    ctx.check(len(new["t"]) == n, "nothing cut")
    ctx.reach("done")
