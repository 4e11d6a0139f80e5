"""C17: the rational-fit degree search ends on an admissible fit."""
import itertools
import warnings

import numpy as np

from vf.runner import scenario
from vf import harness as H
from vf import mini as M
from vf import sym

TITLE = "rational fit"
ASSUMPTIONS = [
    "search: the least-squares fit itself is a stand-in; whether the rate of "
    "change of the fit of given degrees is monotone is an arbitrary boolean",
    "fit: the Arnoldi basis is the real one; the linear solve (numpy qr and "
    "svd) is a stand-in returning arbitrary numerators, or failing"]
H.base_object()


class Fit:
    """A fit that only remembers what it was made of."""
    made = []

    def __init__(self, x, y, kwargs):
        self.x, self.y = x, y
        self.kwargs = dict(kwargs)
        self.degrees = tuple(kwargs["degrees"])
        Fit.made.append(self)

    def __call__(self, q):
        self.asked = q
        Fit.last = self
        return q


class Spline:
    def __init__(self, x, y):
        self.x, self.y = x, y


def fake_fit(x, y, rational_fit_kwargs=None, check_kwargs=True):
    return Fit(x, y, rational_fit_kwargs)


def fake_spline(x, y, *a, **k):
    return Spline(x, y)


def search_stubs():
    from gw_eccentricity import utils
    return [(utils.get_rational_fit, fake_fit),
            (utils.get_interpolant, fake_spline)]


@scenario(reach=["lowered", "raised", "spline", "kept"], stubs=search_stubs,
          quick=[{"npoints": n} for n in (4, 5, 6, 8, 12)] + [{"npoints": 30}],
          thorough=[{"npoints": n} for n in (*range(4, 20), 30, 50)])
def search(ctx, npoints):
    """Every sequence of monotone / non-monotone outcomes."""
    obj = H.fresh()
    start = ctx.choice("start", [None, (1, 1), (3, 3), (1, 4), (4, 1), (2, 3),
                                 (6, 6), (7, 2), (2, 9)])
    name = ctx.choice("name", ("pericenters", "apocenters"))
    # number of extrema decides the degrees started from
    orbits = {"few": (5, 20), "some": (21, 40), "more": (60, 41),
              "many": (20, 61)}[ctx.choice("orbits", (
                  "few", "some", "more", "many"))] if start is None else (5, 5)
    obj.pericenters_location = np.arange(orbits[0])
    obj.apocenters_location = np.arange(orbits[1])
    given = {"degrees": start, "max_iterations": 20, "verbose": False,
             "tol": 1e-7}
    obj.special_interp_kwargs_for_omega_gw_extrema = dict(given)
    obj.rational_fit_nonmonotonicity_history = {"pericenters": {},
                                                "apocenters": {}}
    obj.rational_fit_degrees = {"pericenters": "?", "apocenters": "?"}
    obj.debug_level = 0
    obj.t = 0.5 * np.arange(200)
    x = np.linspace(3.0, 90.0, npoints)
    y = 1 + np.arange(npoints)
    outcome = {}
    tested = []

    def bad(xx, yy, tol=None):
        f = Fit.last
        tested.append((f, xx, yy))
        if f.degrees not in outcome:
            outcome[f.degrees] = ctx.flag("bad%d_%d" % f.degrees)
        return outcome[f.degrees]
    obj.check_if_first_derivative_is_not_strictly_monotonic = bad
    Fit.made, Fit.last = [], None
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        res = obj.get_rational_fit_for_extrema(x, y, name)
    # -- every fit that was made is admissible
    for f in Fit.made:
        m, n = f.degrees
        ctx.check(m + n + 1 < npoints, "determined")
        if start is None or abs(start[0] - start[1]) < 2:
            ctx.check(m >= 1 and n >= 1, "degrees at least 1")
        ctx.check(f.x is x and f.y is y, "fits the given points")
        ctx.check({k: v for k, v in f.kwargs.items() if k != "degrees"}
                  == {k: v for k, v in given.items() if k != "degrees"},
                  "other options as given")
    for f, xx, yy in tested:
        ctx.check(yy is xx and xx[0] == x[0] and x[-1] - 0.5 <= xx[-1] <= x[-1]
                  and np.allclose(np.diff(xx), 0.5),
                  "tested over the whole span")
    seen = [f.degrees for f in Fit.made]
    ctx.check(len(seen) == len(set(seen)), "nothing fitted twice")
    ctx.check(obj.rational_fit_nonmonotonicity_history[name]
              == {d: outcome[d] for d in seen}
              and set(seen) == set(outcome), "history")
    other = {"pericenters": "apocenters"}.get(name, "pericenters")
    ctx.check(obj.rational_fit_nonmonotonicity_history[other] == {}
              and obj.rational_fit_degrees[other] == "?",
              "other extrema untouched")
    # -- the fit used
    final = obj.rational_fit_degrees[name]
    ctx.check(obj.special_interp_kwargs_for_omega_gw_extrema["degrees"]
              == final, "degrees kept")
    first = seen[0]
    d = first
    told = [str(w.message) for w in log]
    if outcome[first]:
        # lowered one by one until monotone
        path = [d]
        while outcome.get(d, True) and d != (1, 1):
            d = tuple(max(k - 1, 1) for k in d)
            path.append(d)
        ctx.check(seen == path, "lowered one by one")
        if outcome[d]:
            ctx.check(isinstance(res, Spline) and res.x is x and res.y is y
                      and final is None, "spline fallback")
            ctx.check(any("Falling back to using spline" in s for s in told),
                      "fallback reported")
            ctx.reach("spline")
            return
        ctx.reach("lowered")
    else:
        # raised until no longer monotone or determined
        while not outcome[d]:
            up = (d[0] + 1, d[1] + 1)
            if sum(up) + 1 >= npoints:
                ctx.check(up not in seen, "not beyond determined")
                break
            ctx.check(up in seen, "higher degrees tried")
            if up not in seen or outcome[up]:
                break
            d = up
        ctx.reach("raised" if d != first else "kept")
    ctx.check(isinstance(res, Fit) and res.degrees == d
              and tuple(final) == d, "last monotone fit used")
    ctx.check(not outcome[d], "the fit used is monotone")
    ctx.check(not told, "no fallback")
    # -- where it starts
    want = start if start is not None else {
        "few": (3, 3), "some": (4, 4), "more": (5, 5), "many": (6, 6)}[
        {20: "few", 40: "some", 60: "more", 61: "many"}[max(orbits)]]
    if sum(want) + 1 < npoints:
        ctx.check(first == want, "starts from the requested degrees")
    else:
        ctx.check(first[0] <= want[0] and first[1] <= want[1]
                  and sum(first) + 2 == npoints,
                  "starts from the largest determined degrees below")


@scenario(reach=["same", "lowered", "impossible"],
          quick=[{"top": 9}], thorough=[{"top": 16}])
def reduction(ctx, top):
    """Every pair of degrees and number of points."""
    from gw_eccentricity.rational_fit import (get_reduced_degrees,
                                              is_underdetermined)
    m = int(ctx.int("m", 0, top))
    n = int(ctx.int("n", 0, top))
    p = ctx.int("points", 0, 2 * top + 4)
    exc = ctx.raises(lambda: get_reduced_degrees((m, n), p))
    if exc is not None:
        ctx.check(ctx.le(p, 1), "possible with two points")
        ctx.reach("impossible")
        return
    a, b = ctx.last
    ctx.check(ctx.gt(p, a + b + 1), "determined")
    ctx.check(not is_underdetermined((a, b), p), "so it says")
    ctx.check(0 <= a <= m and 0 <= b <= n, "only lowered")
    if (a, b) == (m, n):
        return ctx.reach("same")
    ctx.check(ctx.eq(p, a + b + 2), "no more than needed")
    ctx.check(is_underdetermined((m, n), p), "only if needed")
    if a and b:
        ctx.check((n - b) - (m - a) in (0, 1),
                  "alternating, denominator first")
    ctx.reach("lowered")


@scenario(reach=["monotone", "nonmonotone"],
          quick=[{"n": 4}], thorough=[{"n": 4}, {"n": 5}])
def monotone(ctx, n):
    """What is called nonmonotone, for all values and both tolerances."""
    obj = H.fresh()
    y = ctx.reals("y", n, -50, 50)
    h = 0.5
    x = 3.0 + h * np.arange(n)
    tol = ctx.choice("tol", (1.0, None))
    d = [(y[1] - y[0]) / h] + \
        [(y[i + 1] - y[i - 1]) / (2 * h) for i in range(1, n - 1)] + \
        [(y[-1] - y[-2]) / h]
    up = ctx.flag("increasing at first")
    ctx.assume(ctx.ge(d[0], 0.01) if up else ctx.le(d[0], -0.01))
    for k in d[1:-1]:
        ctx.assume(ctx.any([ctx.ge(k, 0.01), ctx.le(k, -0.01)]))
    args = (x, ctx._arr(list(y))) + ((tol,) if tol else ())
    res = bool(obj.check_if_first_derivative_is_not_strictly_monotonic(*args))
    e = tol or 1e-5
    # the rate of change must not fall relative to its previous value by
    # more than the tolerance: for tol = 1, it must not change sign
    def falls(margin):
        out = []
        for a, b in zip(d[:-1], d[1:]):
            s = ctx.gt(a, 0)
            q = (1 - e) * a
            out.append(ctx.any([
                ctx.all([s, ctx.le(b, q - margin)]),
                ctx.all([ctx.not_(s), ctx.ge(b, q + margin)])]))
        return ctx.any(out)
    if res:
        ctx.check(falls(-1e-6), "nonmonotone only if the rate falls")
        ctx.reach("nonmonotone")
    else:
        ctx.check(ctx.not_(falls(1e-6)),
                  "monotone only if the rate never falls")
        ctx.reach("monotone")


ITER = 3


@scenario(reach=["converged", "failed", "all"],
          quick=[{"degrees": d} for d in ((0, 0), (1, 0), (0, 1))],
          thorough=[{"degrees": d} for d in ((0, 0), (1, 0), (0, 1), (1, 1),
                                             (2, 1))])
def best(ctx, degrees):
    """The coefficients kept are those of the iteration that came closest,
    and evaluating the fit reproduces that iteration."""
    from gw_eccentricity import rational_fit as R
    npts = 5
    x = np.array([2.0, 3.0, 4.0, 5.5, 6.0])
    y = np.full(npts, 3.0)
    m, n = degrees
    state = {"k": 0}
    fail_at = ctx.choice("solve fails at", (None, 1, 2))
    levels = []

    def solve(P, Q, Y):
        k = state["k"]
        state["k"] += 1
        if fail_at == k:
            raise np.linalg.LinAlgError("no solution")
        ctx.check(P.shape[1] == m + 1 and Q.shape[1] == n + 1
                  and len(Y) == npts, "sizes of the linear system")
        # rational function level_k * (Q b): the constant level_k
        lv = ctx.real("level%d" % k, -20, 20)
        levels.append(lv)
        b = np.array([1.0] + [0.25] * n)
        if m >= n:
            # numerator proportional to the denominator: P a / Q b = lv
            a = [lv * v for v in np.concatenate([b, np.zeros(m - n)])]
        else:
            b = np.array([1.0] + [0.0] * n)
            a = [lv * v for v in b[:m + 1]]
        return ctx._arr(a) if ctx.symbolic else np.array(a, float), \
            b, 1.0
    tol = 0.5
    saved = R._solve_using_varpro
    try:
        R._solve_using_varpro = solve
        fit = R.RationalFit(x, y, degrees)
        fit.fit(max_iterations=ITER, tol=tol)
        val = fit(x)
        mid = fit(4.5)
    finally:
        R._solve_using_varpro = saved
    ctx.check(1 <= len(levels) <= ITER, "bounded number of iterations")
    if not levels:
        return
    err = [abs(v - 3.0) for v in levels]
    lv = val[0]
    tiny = 1e-6
    ctx.check(ctx.all([ctx.close(v, lv, tiny) for v in val])
              and ctx.close(mid, lv, tiny), "evaluates the kept iteration")
    ctx.check(ctx.all([ctx.ge(e + tiny, abs(lv - 3.0)) for e in err]),
              "no iteration came closer")
    ctx.check(ctx.any([ctx.close(v, lv, tiny) for v in levels]),
              "an iteration that was made")
    if len(levels) < ITER:
        if fail_at is not None and len(levels) == fail_at:
            return ctx.reach("failed")
        # distance between successive approximations, at 5 points
        ref = levels[-2] if len(levels) > 1 else 0.0
        ctx.check(ctx.le(abs(levels[-1] - ref), tol / 5 ** 0.5 + tiny),
                  "stops early only when converged")
        return ctx.reach("converged")
    ctx.reach("all")


@scenario(reach=["first", "later"],
          quick=[{"degrees": d, "free": k} for d, k in
                 (((1, 1), 0), ((2, 1), 1), ((0, 1), 2))],
          thorough=[{"degrees": d, "free": k} for k in range(3)
                    for d in ((1, 1), (2, 1), (1, 2), (0, 1), (2, 2))]
          + [{"degrees": (1, 1), "free": None}])
def basis(ctx, degrees, free, iters=3):
    """Every iteration has a basis of its own; the iteration kept is
    evaluated with its own one, at the nodes and between them."""
    from gw_eccentricity import rational_fit as R
    x = np.array([2.0, 3.0, 4.0, 5.5, 6.0])
    m, n = degrees
    shape = [0.5, -0.25, 0.125]
    made = []

    def solve(P, Q, Y):
        k = len(made)
        b = np.array([1.0, [0.25, -0.5, 0.375, 0.125][k], 0.0625][:n + 1])
        a = np.array([1.0] + shape[:m])
        s = ctx.real("scale%d" % k, -20, 20) if free in (None, k) \
            else [1.0, -0.75, 1.25][k]
        made.append((s, np.array(P @ a, float) / np.array(Q @ b, float)))
        a = [s * v for v in a]
        return ctx._arr(a) if ctx.symbolic else np.array(a, float), b, 1.0
    def floats(f):
        # exact rationals would grow without bound; nothing symbolic is here
        def g(x, degree, w=None):
            return [np.array(v, float) if np.ndim(v) else float(v)
                    for v in f(x, degree, np.array(w, float))]
        return g
    saved = R._solve_using_varpro, R._arnoldi_basis
    try:
        R._solve_using_varpro = solve
        R._arnoldi_basis = floats(saved[1])
        fit = R.RationalFit(x, np.zeros(5), degrees)
        fit.fit(max_iterations=iters, tol=0.0)
    finally:
        R._solve_using_varpro, R._arnoldi_basis = saved
    val = fit(x)
    ctx.check(1 <= len(made) <= iters, "bounded number of iterations")
    # the data are zero: an iteration is as far off as its values are large
    off = [abs(s) * float(np.linalg.norm(r)) for s, r in made]
    tiny = 1e-6
    ctx.check(ctx.any([ctx.all(
        [ctx.le(off[k], f + tiny) for f in off]
        + [ctx.close(v, s * float(u), tiny) for v, u in zip(val, r)])
        for k, (s, r) in enumerate(made)]),
        "values of the iteration that came closest")
    one = [fit(q) for q in x[:2]]
    ctx.check(ctx.all([ctx.close(u, v, tiny) for u, v in zip(one, val)]),
              "same for one point at a time")
    ctx.reach("first" if len(made) == 1 or bool(off[0] <= off[-1])
              else "later")
