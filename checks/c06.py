"""C06: cleaning of the extrema."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "extrema cleaning"
H.base_object()
FOUR_PI = 4 * np.pi


def contiguous(ctx, full, kept):
    """kept is a contiguous run of full (concrete or symbolic entries);
    returns (#dropped in front, #dropped behind)."""
    full, kept = list(full), list(kept)
    if not kept:
        return None
    for a in range(len(full) - len(kept) + 1):
        if all(bool(ctx.eq(x, y)) for x, y in zip(full[a:], kept)):
            return a, len(full) - len(kept) - a
    return None


@scenario(reach=["same", "dropped"],
          quick=[{"p": 2, "a": 3}, {"p": 3, "a": 3}],
          thorough=[{"p": 4, "a": 4}, {"p": 5, "a": 3}, {"p": 3, "a": 5}])
def ends(ctx, p, a):
    """Every pair of location lists: only surplus extrema at the ends go."""
    obj = H.fresh()
    obj.debug_level = 0
    P = np.array([ctx.int(f"p{i}", 0, 200) for i in range(p)])
    A = np.array([ctx.int(f"a{i}", 0, 200) for i in range(a)])
    for L in (P, A):
        for i in range(len(L) - 1):
            ctx.assume(L[i] < L[i + 1])
    for x in P:
        for y in A:
            ctx.assume(ctx.ne(x, y))
    exc = ctx.raises(lambda: obj.drop_extra_extrema_at_ends(P, A))
    ctx.check(exc is None, "no error")
    if exc is not None:
        return
    p2, a2 = ctx.last
    dp, da = contiguous(ctx, P, p2), contiguous(ctx, A, a2)
    ctx.check(dp is not None and da is not None, "contiguous survivors")
    if dp is None or da is None:
        return

    def n_of(conds):
        return sum(1 for c in conds if bool(c))
    ctx.check(n_of(x > a2[-1] for x in p2) <= 1, "peri after last apo")
    ctx.check(n_of(x > p2[-1] for x in a2) <= 1, "apo after last peri")
    ctx.check(n_of(x < a2[0] for x in p2) <= 1, "peri before first apo")
    ctx.check(n_of(x < p2[0] for x in a2) <= 1, "apo before first peri")
    # nothing useful is lost
    for full, kept, d, other in ((P, p2, dp, A), (A, a2, da, P)):
        if d[1]:
            ctx.check(kept[-1] > other[-1], "only surplus dropped at the end")
        if d[0]:
            ctx.check(kept[0] < other[0], "only surplus dropped at the start")
    ctx.reach("dropped" if sum(dp) + sum(da) else "same")


def with_phases(ctx, n, gaps=None):
    """Object with n extrema on known samples and symbolic phases."""
    obj = H.fresh()
    obj.debug_level = 0
    loc = np.array([3 * i + (i % 2) for i in range(n)])
    N = loc[-1] + 4
    obj.t = np.arange(N, dtype=float)
    ph = np.zeros(N, dtype=object)
    ph[:] = -1e3
    d = ctx.reals("gap", n - 1, 1 / 4, 64) if gaps is None else gaps
    x = ctx.real("ph0", -8, 8)
    acc = [x]
    for i in range(n - 1):
        x = x + d[i]
        acc.append(x)
    for i, l in enumerate(loc):
        ph[l] = acc[i]
    obj.phase_gw = ctx._arr(ph)
    if not ctx.symbolic:
        obj.phase_gw = obj.phase_gw.astype(float)
    return obj, loc, d


@scenario(reach=["regular", "end", "start", "both"],
          quick=[{"n": 5}, {"n": 6}], thorough=[{"n": 4}, {"n": 7}])
def jumps(ctx, n):
    """Every sequence of phase gaps."""
    jump_case(ctx, *with_phases(ctx, n))


def jump_case(ctx, obj, loc, d):
    n = len(loc)
    m = n - 2
    for i in range(m):
        # away from the exact threshold (rounding in the replay)
        for c in (1.5, 1 / 1.5):
            ctx.assume(ctx.any([d[i + 1] > (c + 1e-3) * d[i],
                                d[i + 1] < (c - 1e-3) * d[i]]))
    kind = ctx.choice("kind", ("pericenters", "apocenters"))
    exc = ctx.raises(lambda: obj.drop_extrema_if_extrema_jumps(
        loc.copy(), extrema_type=kind))
    ctx.check(exc is None, "no error")
    if exc is not None:
        return
    kept = ctx.last
    run = contiguous(ctx, loc, kept)
    ctx.check(run is not None, "contiguous survivors")
    if run is None:
        return
    big = [i for i in range(m) if bool(d[i + 1] > 1.5 * d[i])]
    small = [i for i in range(m) if bool(d[i + 1] * 1.5 < d[i])]
    if not big and not small:
        ctx.check(run == (0, 0), "regular extrema unchanged")
        ctx.reach("regular")
        return
    # a jump clearly in the second half (end) or first half (start)
    end = big and big[0] > m // 2
    start = small and small[-1] < m // 2
    want_end = loc[big[0] + 1] if end else loc[-1]
    want_start = loc[small[-1] + 1] if start else loc[0]
    if end or not big or big[0] < m // 2 - 1:
        ctx.check(kept[-1] == want_end, "dropped after the jump")
    if start or not small or small[-1] > m // 2:
        ctx.check(kept[0] == want_start, "dropped before the jump")
    if end:
        ctx.reach("end")
    if start:
        ctx.reach("start")
    if (end and start) or n < 6:
        ctx.reach("both")


def two_irregular(ctx, n):
    """n - 1 gaps, all but two of them regular, those two anywhere."""
    i = int(ctx.choice("first irregular", list(range(n - 1))))
    j = int(ctx.choice("second irregular", list(range(i, n - 1))))
    return [ctx.real(f"gap[{k}]", 1 / 4, 64) if k in (i, j)
            else 13.5 for k in range(n - 1)]


@scenario(reach=["regular", "end", "start"],
          quick=[{"n": 8}], thorough=[{"n": 9}, {"n": 11}])
def two_jumps(ctx, n):
    """More extrema, any two gaps of any size among regular ones."""
    jump_case(ctx, *with_phases(ctx, n, two_irregular(ctx, n)))


@scenario(reach=["regular", "end", "start"],
          quick=[{"n": 8}, {"n": 9}], thorough=[{"n": 12}])
def two_close(ctx, n):
    close_case(ctx, *with_phases(ctx, n, two_irregular(ctx, n)))


@scenario(reach=["regular", "end", "start"],
          quick=[{"n": 5}, {"n": 6}], thorough=[{"n": 8}])
def too_close(ctx, n):
    close_case(ctx, *with_phases(ctx, n))


def close_case(ctx, obj, loc, d):
    n = len(loc)
    for x in d:
        ctx.assume(ctx.any([x > FOUR_PI + 1e-3, x < FOUR_PI - 1e-3]))
    kind = ctx.choice("kind", ("pericenters", "apocenters"))
    exc = ctx.raises(lambda: obj.drop_extrema_if_too_close(
        loc.copy(), extrema_type=kind))
    ctx.check(exc is None, "no error")
    if exc is not None:
        return
    kept = ctx.last
    run = contiguous(ctx, loc, kept)
    ctx.check(run is not None, "contiguous survivors")
    if run is None:
        return
    close = [i for i in range(n - 1) if bool(d[i] < FOUR_PI)]
    if not close:
        ctx.check(run == (0, 0), "regular extrema unchanged")
        ctx.reach("regular")
        return
    mid = (n - 1) // 2
    end, start = close[0] > mid, close[-1] < mid
    if end:
        ctx.check(kept[-1] == loc[close[0]], "dropped after the close pair")
        ctx.check(kept[0] == loc[0], "start kept")
        ctx.reach("end")
    elif start:
        ctx.check(kept[0] == loc[close[-1] + 1],
                  "dropped before the close pair")
        ctx.check(kept[-1] == loc[-1], "end kept")
        ctx.reach("start")


@scenario(reach=["regular", "irregular"], quick=[{"p": 4, "a": 4}],
          thorough=[{"p": 5, "a": 5}])
def good_extrema(ctx, p, a):
    """The combination, for alternating extrema of every phase spacing."""
    obj = H.fresh()
    obj.debug_level = 0
    first = ctx.choice("first", ("peri", "apo"))
    N = 2 * (p + a) + 3
    obj.t = np.arange(N, dtype=float)
    ph = np.zeros(N, dtype=object)
    o = 0 if first == "peri" else 2
    P = np.array([4 * i + 1 + o for i in range(p)])
    A = np.array([4 * i + 3 - o for i in range(a)])
    x = ctx.real("ph0", -8, 8)
    gaps = {}
    for L, nm in ((P, "p"), (A, "a")):
        y = x + (0 if nm == "p" else 1)
        for j, l in enumerate(L):
            if j:
                # one irregular kind at a time keeps the case split small
                g = ctx.real(f"{nm}[{j}]", 1, 60)
                gaps.setdefault(nm, []).append(g)
                y = y + g
            ph[l] = y
    irregular = ctx.choice("irregular", ("none", "p", "a"))
    for nm, gs in gaps.items():
        for i, g in enumerate(gs):
            ctx.assume(ctx.any([g > FOUR_PI + 1e-3, g < FOUR_PI - 1e-3]))
            if nm != irregular:
                ctx.assume(g > FOUR_PI)
                ctx.assume(g < FOUR_PI * 1.3)
            if i:
                for c in (1.5, 1 / 1.5):
                    ctx.assume(ctx.any([g > (c + 1e-3) * gs[i - 1],
                                        g < (c - 1e-3) * gs[i - 1]]))
    obj.phase_gw = ph if ctx.symbolic else ph.astype(float)
    exc = ctx.raises(lambda: obj.get_good_extrema(P.copy(), A.copy()))
    ctx.check(exc is None, "no error")
    if exc is not None:
        return
    p2, a2 = ctx.last
    rp, ra = contiguous(ctx, P, p2), contiguous(ctx, A, a2)
    ctx.check(rp is not None and ra is not None, "contiguous survivors")
    if rp is None or ra is None:
        return
    ctx.check(sum(x > a2[-1] for x in p2) <= 1, "peri after last apo")
    ctx.check(sum(x > p2[-1] for x in a2) <= 1, "apo after last peri")
    ctx.check(sum(x < a2[0] for x in p2) <= 1, "peri before first apo")
    ctx.check(sum(x < p2[0] for x in a2) <= 1, "apo before first peri")
    if irregular == "none":
        ctx.check(rp == (0, 0) and ra == (0, 0), "regular unchanged")
        ctx.reach("regular")
        return
    # no jump or close pair clearly in its half survives
    gs = gaps[irregular]
    big = [i for i in range(len(gs) - 1) if bool(gs[i + 1] > 1.5 * gs[i])]
    kept, loc = (p2, P) if irregular == "p" else (a2, A)
    if big and big[0] > (len(gs) - 1) // 2:
        ctx.check(kept[-1] <= loc[big[0] + 1], "past the jump dropped")
    ctx.reach("irregular")


@scenario(reach=["ok"], stubs=M.spline_stubs,
          quick=[{"first": "apo"}, {"first": "peri"}])
def cleaning_api(ctx, first):
    """Through a measurement: the extrema used are those found minus the ones
    at an end of the data, whichever one the finder missed."""
    data, t, w, cut, peri, apo = M.api_data(ctx, first, n_orb=7, flat=True)
    kind = ctx.choice("kind", ("pericenters", "apocenters"))
    full = {"pericenters": peri, "apocenters": apo}
    miss = ctx.int("miss", 0, len(full[kind]))
    k = int(miss)
    found = {x: list(v) for x, v in full.items()}
    if k < len(full[kind]):
        del found[kind][k]
    # a reference time inside whatever stretch survives
    mid = t[(peri[3] + peri[4]) // 2] if k <= 2 else t[(peri[2] + peri[3]) // 2]

    def prep(obj):
        obj.find_extrema = lambda extrema_type="pericenters": np.array(
            found[extrema_type])
    with ctx.quiet():
        obj, out = M.measure(data, tref_in=np.array([mid]), prep=prep,
                             extra_kwargs={
            "omega_gw_extrema_interpolation_method": "spline"})
    res = {"pericenters": list(obj.pericenters_location),
           "apocenters": list(obj.apocenters_location)}
    for x in res:
        ctx.check(contiguous(ctx, found[x], res[x]) is not None,
                  x + " contiguous")
        if k == len(full[kind]):
            ctx.check(res[x] == found[x], x + " regular unchanged")
        ctx.check([float(v) for v in getattr(obj, "t_" + x)]
                  == [float(t[i]) for i in res[x]], x + " times")
    a, b = res["pericenters"], res["apocenters"]
    ctx.check(sum(x > b[-1] for x in a) <= 1 and sum(
        x > a[-1] for x in b) <= 1 and sum(x < b[0] for x in a) <= 1 and sum(
        x < a[0] for x in b) <= 1, "no surplus at the ends")
    # a missed extremum well inside one half cuts there
    n = len(full[kind])
    x = res[kind]
    if 1 <= k <= n - 2:
        gap = (full[kind][k - 1], full[kind][k + 1])
        if k >= n // 2 + 2:
            ctx.check(not (x[0] <= gap[0] and x[-1] >= gap[1]),
                      "late gap removed")
        if k == 1:
            ctx.check(not (x[0] <= gap[0] and x[-1] >= gap[1]),
                      "early gap removed")
    ctx.reach("ok")
