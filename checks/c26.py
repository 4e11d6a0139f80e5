"""C26: interpolation never extrapolates silently."""
import numpy as np
from vf.runner import scenario
from vf import harness as H
from vf import mini as M

TITLE = "interpolation"
ASSUMPTIONS = [
    "scipy's two interpolator classes are replaced by recording stand-ins "
    "with their documented contract (pass through the data; ext / extrapolate "
    "select between an error or NaN and a value outside; refuse unsorted "
    "abscissae): the check is about what the repository hands to them, with "
    "which options, and what it refuses itself"]
H.base_object()
LOG = []


class Spline(M.PLSpline):
    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0,
                 check_finite=False):
        super().__init__(x, y, k=k, ext=ext)
        self.kw = dict(w=w, bbox=bbox, k=k, ext=ext,
                       check_finite=check_finite)
        self.kind = "spline"
        LOG.append(self)


class Pchip(M.PLSpline):
    def __init__(self, x, y, axis=0, extrapolate=None):
        super().__init__(x, y, k=1,
                         ext=0 if extrapolate in (None, True) else 1)
        self.kind = "monotonic_spline"
        self.kw = dict(extrapolate=extrapolate)
        LOG.append(self)

    def _val(self, q):
        v = super()._val(q)
        return np.nan if self._seg(q) is None else v


def stubs():
    from gw_eccentricity import utils
    return [(utils.InterpolatedUnivariateSpline, Spline),
            (utils.PchipInterpolator, Pchip)]


def utils():
    from gw_eccentricity import utils as u
    return u


KIND = ("spline", "monotonic_spline")


def same_data(ctx, f, x, y):
    ctx.check(len(f.x) == len(x) and len(f.y) == len(y), "all data used")
    for a, b, c, d in zip(f.x, x, f.y, y):
        ctx.check(ctx.eq(a, b), "abscissae")
        ctx.check(ctx.eq(c, d), "ordinates")


@scenario(reach=["inside", "outside", "extrapolated"], stubs=stubs,
          quick=[{"n": n, "kind": k} for n in (2, 3, 5) for k in KIND],
          thorough=[{"n": n, "kind": k} for n in (2, 3, 4, 5, 7)
                    for k in KIND])
def evaluate(ctx, n, kind):
    """Every data set, every targets: exact at the data, refused outside."""
    del LOG[:]
    x = ctx.increasing("x", n, -64, 64)
    y = ctx.reals("y", n, -64, 64)
    for i in range(n - 1):
        ctx.assume(x[i + 1] - x[i] >= 1 / 64)
    allow = ctx.choice("allow", (None, False, True))
    form = ctx.choice("targets", ("scalar", "one", "knots", "several"))
    q = ctx.real("q", -100, 100)
    new = {"scalar": q, "one": ctx._arr([q]),
           "knots": ctx._arr(list(x) + [q]),
           "several": ctx._arr([x[0], q, x[n - 1]])}[form]
    if form == "scalar" and not ctx.symbolic:
        new = float(q)
    kw = {} if allow is None else {"allowExtrapolation": allow}
    inside = bool(ctx.all([q >= x[0], q <= x[n - 1]]))
    before = list(x), list(y)
    exc = ctx.raises(lambda: utils().interpolate(
        new, x, y, interpolator=kind, **kw))
    ctx.check(all(a is b or a == b for p, r in zip(before, (x, y))
                  for a, b in zip(p, r)), "data kept")
    if exc is not None:
        ctx.check(not allow and not inside, "no error inside the span")
        ctx.reach("outside")
        return
    out = ctx.last
    far = ctx.any([q <= x[0] - 1e-9, q >= x[n - 1] + 1e-9])
    if not allow:
        ctx.check(ctx.not_(far), "extrapolation is refused")
    if not inside and not allow:
        return                         # within the rounding tolerance
    ctx.check(len(LOG) >= 1, "an interpolant is used")
    f = LOG[-1]
    ctx.check(f.kind == kind, "the chosen interpolator")
    same_data(ctx, f, x, y)
    if kind == "spline":
        ctx.check(f.kw["k"] == min(3, n - 1), "order")
        ctx.check(f.kw["ext"] == (0 if allow else 2), "ext")
    else:
        ctx.check(f.kw["extrapolate"] is bool(allow), "extrapolate")
    ctx.check(np.shape(out) == np.shape(new), "shape")
    for a, b in zip(np.ravel(np.asarray(out, dtype=object)),
                    np.ravel(np.asarray(new, dtype=object))):
        if allow and not inside:
            ctx.check(ctx.eq(a, M.pl(x, y, b)), "value")
        else:
            ctx.check(ctx.eq(a, M.pl(x, y, b)), "value at its own target")
    if form == "knots":
        for i in range(n):
            ctx.check(ctx.eq(out[i], y[i]), "passes through the data")
    ctx.reach("inside" if inside else "extrapolated")


@scenario(reach=["ok", "refused"], stubs=stubs, quick=[
    {"n": n, "kind": k} for n in (2, 3, 5) for k in KIND])
def unsorted(ctx, n, kind):
    """Unsorted or repeated abscissae and unequal lengths are refused."""
    x, y = ctx.reals("x", n, -64, 64), ctx.reals("y", n, -64, 64)
    extra = ctx.choice("extra", (0, 1, -1))
    yy = ctx._arr(list(y) + [0.0]) if extra == 1 else \
        y[:n - 1] if extra == -1 else y
    via = ctx.flag("via interpolate")
    allow = ctx.flag("allow")
    if via:
        exc = ctx.raises(lambda: utils().interpolate(
            x[:1], x, yy, allowExtrapolation=allow, interpolator=kind))
    else:
        exc = ctx.raises(lambda: utils().get_interpolant(
            x, yy, allow, kind))
    sorted_ = ctx.all([x[i] < x[i + 1] for i in range(n - 1)])
    if exc is None:
        ctx.check(ctx.all([sorted_]), "unsorted abscissae are refused")
        ctx.check(extra == 0 or len(yy) == n, "unequal lengths are refused")
        ctx.reach("ok")
    else:
        if extra == 0:
            ctx.check(ctx.not_(sorted_), "sorted abscissae are accepted")
        ctx.reach("refused")


OPTS = {"w": [None], "bbox": [[None, None], [-9.0, 9.0]], "k": [1, 2, 3, 5],
        "ext": [0, 1, 2, 3], "check_finite": [True]}
DEFAULT = {"w": None, "bbox": [None, None], "k": 3, "ext": 2,
           "check_finite": False}


@scenario(reach=["ok", "refused"], stubs=stubs, quick=[
    {"n": n} for n in (1, 2, 4, 6)])
def options(ctx, n):
    """Every option passed or defaulted; the dictionary is left alone."""
    del LOG[:]
    x = ctx.increasing("x", n, -64, 64)
    y = ctx.reals("y", n)
    kw = {}
    for name, vals in OPTS.items():
        if name == "w":
            continue
        j = ctx.int(name, -1, len(vals) - 1)
        j = int(j)
        if j >= 0:
            kw[name] = vals[j]
    check = ctx.flag("check")
    allow = ctx.flag("allow")
    if not check:
        kw = {**DEFAULT, **kw}
    bad = check and ctx.flag("unknown option")
    if bad:
        kw["nonsense"] = 1
    given = None if (check and not kw) else kw
    before = dict(kw)
    bbox = list(kw["bbox"]) if "bbox" in kw else None
    exc = ctx.raises(lambda: utils().get_interpolant(
        x, y, allow, "spline", given, check))
    ctx.check(kw == before and list(kw) == list(before)
              and (bbox is None or kw["bbox"] == bbox), "options kept")
    if exc is not None:
        ctx.check(bad or n < 2, "valid options accepted")
        if bad and n >= 2:
            ctx.check(isinstance(exc, ValueError), "kind of error")
        ctx.reach("refused")
        return
    ctx.check(not bad, "unknown option refused")
    ctx.check(n >= 2, "one point is not enough")
    want = {**DEFAULT, **kw}
    want["k"] = min(want["k"], n - 1)
    # 1 and 3 return other values than the data's own continuation
    want["ext"] = LOG[-1].kw["ext"] if allow and want["ext"] != 2 else \
        0 if allow else 2
    ctx.check(not allow or LOG[-1].kw["ext"] != 2, "extrapolation allowed")
    ctx.check(LOG[-1].kw == want, "options used")
    ctx.check(utils().get_default_spline_kwargs() == DEFAULT, "defaults kept")
    ctx.reach("ok")


@scenario(reach=["done"], stubs=stubs)
def unknown_kind(ctx):
    kind = ctx.choice("kind", ("linear", "", "Spline", "monotonic", None))
    x, y = ctx.increasing("x", 4), ctx.reals("y", 4)
    for f in (lambda: utils().get_interpolant(x, y, False, kind),
              lambda: utils().interpolate(x, x, y, interpolator=kind)):
        ctx.check(ctx.raises(f) is not None, "unknown interpolator")
    ctx.reach("done")


@scenario(reach=["time", "frequency"], stubs=stubs, quick=[
    {"average": a} for a in ("mean_of_extrema_interpolants",
                             "orbit_averaged_omega_gw", "omega_gw_zeroecc")])
def measurement(ctx, average):
    """Every interpolant made by a measurement refuses extrapolation, goes
    through sorted data and uses the options of its own group, except the
    documented one of the circular data after the merger."""
    del LOG[:]
    z = average == "omega_gw_zeroecc"
    data, t, w, cut, peri, apo = M.api_data(ctx, n_orb=6)
    kw = {"omega_gw_extrema_interpolation_method": "spline",
          "omega_gw_averaging_method": average,
          "special_interp_kwargs_for_omega_gw_extrema": {"k": 2},
          "general_interp_kwargs": {"k": 1}}
    if z:
        n = len(t)
        data["t_zeroecc"] = t
        a = data["amplm"][(2, 2)]
        data["amplm_zeroecc"] = {(2, 2): np.where(
            np.arange(n) < np.argmax(a) - 3, 1.0, a)}
        data["phaselm_zeroecc"] = data["phaselm"]
        data["omegalm_zeroecc"] = {(2, 2): 1.0 + np.arange(n) / 8}
    freq = ctx.flag("frequency")
    lo = t[max(peri[0], apo[0])]
    if freq:
        ref = {"fref_in": ctx.real("f", 0.2, 2)}
    else:
        ref = {"tref_in": lo + ctx.real("x", 0, 8)}
    if not ctx.symbolic:
        ref = {k: float(v) for k, v in ref.items()}

    def prep(obj):
        obj.et_from_ew22_0pn = lambda e: e
    exc = ctx.raises(lambda: M.measure(
        data, "ResidualAmplitude" if z else "Amplitude", extra_kwargs=kw,
        prep=prep, **ref))
    extrema = 0
    for f in LOG:
        ctx.check(f.kind == "spline", "interpolator")
        resid = z and len(f.x) == len(t)
        if f.kw["ext"] != 2:
            ctx.check(resid, "extrapolation is refused")
        ctx.check(f.kw["k"] in (1, 2), "order from an option group")
        if f.kw["k"] == 2:
            extrema += 1
            loc = peri if len(f.x) == len(peri) and f.x[0] == t[peri[0]] \
                else apo
            same_data(ctx, f, t[loc], w[loc])
    ctx.check(extrema >= 2, "two interpolants through the extrema")
    if exc is not None:
        return
    ctx.reach("frequency" if freq else "time")
