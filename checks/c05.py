"""C05: average frequencies."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "average frequency"
ASSUMPTIONS = ["scipy's spline is replaced by a piecewise-linear interpolant "
               "through the same points, in the proof and in the replay"]
H.base_object()
LAYOUTS = {
    "alternate": ([0, 2, 4], [1, 3, 5]),
    "mixed": ([0, 3], [1, 2, 4]),
    "uneven": ([1, 2, 6], [0, 3, 5]),
    "long": ([0, 2, 4, 6], [1, 3, 5]),
}


def setup(ctx, layout, n_data=None):
    peri, apo = LAYOUTS[layout]
    n = max(peri + apo) + 1
    obj = H.fresh()
    obj.t = ctx.increasing("t", n, -50, 50)
    obj.phase_gw = ctx.reals("ph", n)
    obj.pericenters_location = np.array(peri)
    obj.apocenters_location = np.array(apo)
    obj.t_pericenters = obj.t[peri]
    obj.t_apocenters = obj.t[apo]
    for k in ("t_for_orbit_averaged_omega_gw",
              "sorted_idx_for_orbit_averaged_omega_gw"):
        if hasattr(obj, k):
            obj.__dict__.pop(k, None)
    for i in range(n - 1):
        ctx.assume(obj.t[i + 1] - obj.t[i] >= 1 / 16)
    return obj, peri, apo


def points(ctx, obj, peri, apo):
    """Unsorted (twice the midpoint, average) pairs, in exact arithmetic."""
    out = []
    for loc in (peri, apo):
        out.append([((obj.t[a] + obj.t[b]) / 2,
                     (obj.phase_gw[b] - obj.phase_gw[a])
                     / (obj.t[b] - obj.t[a]))
                    for a, b in zip(loc[:-1], loc[1:])])
    return out


@scenario(reach=["done"], quick=[{"layout": k} for k in LAYOUTS],
          stubs=M.spline_stubs)
def per_kind_average(ctx, layout):
    """Each average is phase advance over time, per kind, in order."""
    obj, peri, apo = setup(ctx, layout)
    pp, aa = points(ctx, obj, peri, apo)
    got_p = obj.get_orbit_averaged_omega_gw_between_pericenters()
    got_a = obj.get_orbit_averaged_omega_gw_between_apocenters()
    for got, loc, what in ((got_p, peri, "peri"), (got_a, apo, "apo")):
        ctx.check(np.shape(got) == (len(loc) - 1,), what + " count")
        for g, a, b in zip(got, loc[:-1], loc[1:]):
            ctx.check(ctx.eq(g * (obj.t[b] - obj.t[a]),
                             obj.phase_gw[b] - obj.phase_gw[a]),
                      what + " average")
    ctx.reach("done")


@scenario(reach=["ok", "nonmono"], stubs=M.spline_stubs,
          quick=[{"layout": "alternate"}, {"layout": "mixed"}],
          thorough=[{"layout": k} for k in LAYOUTS])
def merged_average(ctx, layout):
    """The merged table is ordered in time with each value at its own time,
    for every sampling and every phase; decreasing averages raise."""
    obj, peri, apo = setup(ctx, layout)
    # fix the times to a symbolic stretch of a chosen pattern: the ordering
    # of the midpoints is then decided and the values stay symbolic
    pat = ctx.choice("pattern", ((4, 4, 4, 4, 4, 4), (1, 6, 2, 7, 3, 5),
                                 (7, 1, 7, 1, 7, 1)))
    t0, h = ctx.real("t0", -4, 4), ctx.real("h")
    ctx.assume(h > 1 / 16)
    x = t0
    for i in range(len(obj.t)):
        obj.t[i] = x
        x = x + h * pat[i % 6] / 4
    obj.t_pericenters, obj.t_apocenters = obj.t[peri], obj.t[apo]
    # phase chosen so that the averages are the free variables
    av = {}
    for nm, loc in (("p", peri), ("a", apo)):
        obj.phase_gw[loc[0]] = ctx.real("ph0" + nm, -10, 10)
        for j, (a, b) in enumerate(zip(loc[:-1], loc[1:])):
            r = ctx.real(f"av{nm}[{j}]", -4, 12)
            av[(nm, j)] = r
            obj.phase_gw[b] = obj.phase_gw[a] + r * (obj.t[b] - obj.t[a])
    offs = np.concatenate([[0], np.cumsum([pat[i % 6] for i in
                                           range(len(obj.t) - 1)])])
    pts = []
    for nm, loc in (("p", peri), ("a", apo)):
        for j, (a, b) in enumerate(zip(loc[:-1], loc[1:])):
            pts.append(((offs[a] + offs[b]) / 8, av[(nm, j)]))
    pts.sort(key=lambda q: q[0])
    if len({q[0] for q in pts}) < len(pts):
        return          # two midpoints coincide: no ordering to preserve
    tt = [t0 + h * q[0] for q in pts]
    ww = [q[1] for q in pts]
    inc = ctx.all([ww[i] < ww[i + 1] for i in range(len(ww) - 1)])
    q = np.array(tt[:-1] + [(tt[0] + tt[1]) / 2], dtype=object)
    if not ctx.symbolic:
        q = q.astype(float)
    exc = ctx.raises(
        lambda: obj.compute_orbit_averaged_omega_gw_between_extrema(q))
    if not bool(inc):
        ctx.check(exc is not None, "non-increasing averages raise")
        ctx.reach("nonmono")
        return
    ctx.check(exc is None, "increasing averages are used")
    if exc is not None:
        return
    got = ctx.last
    for g, r in zip(got[:-1], ww):
        ctx.check(ctx.eq(g, r), "value at its own midpoint")
    ctx.check(ctx.eq(got[-1], (ww[0] + ww[1]) / 2), "between the midpoints")
    tl, idx = obj.get_t_average_for_orbit_averaged_omega_gw()
    for i, (a, b) in enumerate(zip(tl, tt)):
        ctx.check(ctx.eq(a, b), "times in order")
    ctx.reach("ok")


@scenario(reach=["mean"], quick=[{"q": 2}])
def mean_of_extrema(ctx, q):
    obj = H.fresh()
    p, a = ctx.reals("p", q), ctx.reals("a", q)
    t = np.arange(q, dtype=float)
    obj.omega_gw_pericenters_interp = lambda x: p
    obj.omega_gw_apocenters_interp = lambda x: a
    got = obj.compute_mean_of_extrema_interpolants(t)
    for i in range(q):
        ctx.check(ctx.eq(2 * got[i], p[i] + a[i]), "mean")
    ctx.reach("mean")


@scenario(reach=["orbit", "mean"], quick=[{"layout": "alternate"},
                                          {"layout": "long"}],
          stubs=M.spline_stubs)
def domain(ctx, layout):
    """The average is evaluated on exactly the samples in the overlap of its
    own times and the measurable span."""
    peri, apo = LAYOUTS[layout]
    obj = H.fresh()
    n = 8
    peri, apo = [p + 1 for p in peri], [a + 1 for a in apo]
    n = max(peri + apo) + 2
    obj.t = np.arange(n, dtype=float)
    obj.phase_gw = obj.t ** 2
    obj.omega_gw_average = None
    obj.pericenters_location = np.array(peri)
    obj.apocenters_location = np.array(apo)
    obj.tmin, obj.tmax = ctx.real("tmin", 0, 4), ctx.real("tmax", 2, 8)
    kind = ctx.choice("kind", ("orbit_averaged_omega_gw",
                               "mean_of_extrema_interpolants"))
    got_t = []

    def rec(t):
        got_t.append(t)
        return np.asarray(t, dtype=float) * 2
    obj.available_averaging_methods = {kind: rec}
    mids = [(a + b) / 2 for loc in (peri, apo)
            for a, b in zip(loc[:-1], loc[1:])]
    lo, hi = obj.tmin, obj.tmax
    if kind.startswith("orbit"):
        if not bool(lo >= min(mids)):
            lo = min(mids)
        if not bool(hi <= max(mids)):
            hi = max(mids)
        ctx.reach("orbit")
    else:
        ctx.reach("mean")
    want = [x for x in obj.t if bool(lo <= x) and bool(x <= hi)]
    ctx.assume(len(want) > 0)
    tt, ww = obj.get_omega_gw_average(kind)
    ctx.check(list(tt) == want, "times")
    ctx.check([float(x) for x in ww] == [2 * x for x in want], "values")
    ctx.check(len(got_t) == 1 and list(got_t[0]) == want,
              "evaluated in the overlap only")


@scenario(reach=["done"], stubs=M.spline_stubs, tol=1e-6,
          quick=[{"kind": k, "first": f} for k in
                 ("orbit_averaged_omega_gw", "mean_of_extrema_interpolants")
                 for f in ("apo", "peri")])
def average_api(ctx, kind, first):
    """The averages the measurement uses, for symbolic extremum frequencies
    and a symbolic phase scale."""
    data, t, w, cut, peri, apo = M.api_data(
        ctx, first, n_orb=4, wsym=kind.startswith("mean"))
    if kind.startswith("orbit"):
        # phase offsets at the samples move the averages
        ph = np.empty(len(t), dtype=object)
        ph[:] = [float(x) for x in data["phaselm"][(2, 2)]]
        for j, i in enumerate(peri):
            ph[i] = ph[i] + ctx.real(f"dp[{j}]", 0, 1 / 1024) * (j + 1)
        data["phaselm"] = {(2, 2): ctx._arr(ph)}
    om = data["omegalm"][(2, 2)]
    ph = data["phaselm"][(2, 2)]
    t0, t1 = max(t[peri[0]], t[apo[0]]), min(t[peri[-1]], t[apo[-1]])
    pts = []
    for loc in (peri, apo):
        for a, b in zip(loc[:-1], loc[1:]):
            pts.append(((t[a] + t[b]) / 2, (ph[b] - ph[a]) / (t[b] - t[a])))
    pts.sort(key=lambda q: q[0])
    tt, ww = [q[0] for q in pts], [q[1] for q in pts]
    if kind.startswith("orbit"):
        for i in range(len(ww) - 1):
            ctx.assume(ww[i + 1] - ww[i] > 1e-6)
        t0, t1 = max(t0, tt[0]), min(t1, tt[-1])
        g = [x for x in t[:cut] if t0 <= x <= t1]
        ref = [M.pl(tt, ww, x) for x in g]
    else:
        g = [x for x in t[:cut] if t0 <= x <= t1]
        ref = [(M.pl(t[peri], om[peri], x) + M.pl(t[apo], om[apo], x)) / 2
               for x in g]
    with ctx.quiet():
        obj = M.classes()["Amplitude"](
            data, tref_in=float(t0 + t1) / 2, extra_kwargs={
                "omega_gw_extrema_interpolation_method": "spline",
                "omega_gw_averaging_method": kind})
        obj.check_monotonicity_and_convexity = lambda *a, **k: None
        obj.compute_eccentricity = lambda x: np.zeros(len(x))
        obj.measure_ecc()
        tg, wg = obj.get_omega_gw_average()
    ctx.check(list(np.asarray(tg, dtype=float)) == [float(x) for x in g],
              "times of the average")
    for a, b in zip(wg, ref):
        ctx.check(ctx.eq(a, b), "average")
    ctx.reach("done")
