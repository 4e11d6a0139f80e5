"""C23: loading passes every parameter on and covers the eccentric data."""
import contextlib
import os
import shutil
import tempfile
import types
import warnings

import numpy as np

from vf import sym
from vf.runner import scenario
from vf import mini as M

TITLE = "loading"
ASSUMPTIONS = [
    "the LAL generators are stand-ins that record what they are given and "
    "return a strain G M/(c^2 D) times an arbitrary shape at the step asked "
    "for; their length is an arbitrary choice per call",
    "files (h5py, sxs, json) are stand-ins holding arbitrary numbers",
    "cubic splines are replaced by piecewise-linear ones"]

import lal                      # noqa: E402
import lalsimulation            # noqa: E402

MT10 = 10 * lal.MTSUN_SI


class Data:
    def __init__(self, a):
        self.data = types.SimpleNamespace(data=a)


class FakeLalsim:
    """Records the calls; the rest is the real module."""

    def __init__(self):
        self.calls = []
        self.rom = []
        self.maker = None

    def __getattr__(self, name):
        return getattr(lalsimulation, name)

    def SimInspiralChooseTDWaveform(self, *a, **k):
        if k:
            raise TypeError("keywords")
        (m1, m2, s1x, s1y, s1z, s2x, s2y, s2z, dist, incl, phi, lan, ecc,
         ano, dt, flow, fref, extra, tag) = a
        c = dict(m1=m1, m2=m2, s1=(s1x, s1y, s1z), s2=(s2x, s2y, s2z),
                 dist=dist, incl=incl, phi=phi, lan=lan, ecc=ecc, ano=ano,
                 dt=dt, flow=flow, fref=fref, extra=extra, tag=tag)
        self.calls.append(c)
        hp, hc = self.maker(c, len(self.calls) - 1)
        return Data(hp), Data(hc)

    def SimIMRSEOBNRv4ROMFrequencyOfTime(self, t, m1, m2, s1, s2):
        self.rom.append((t, m1, m2, s1, s2))
        return self.f0


FAKE = FakeLalsim()


def stubs():
    return [(lalsimulation, FAKE)] + M.spline_stubs()


def reset(maker=None):
    FAKE.calls.clear()
    FAKE.rom.clear()
    FAKE.maker = maker


def near(ctx, a, b, label, rel=1e-9):
    """a == b up to rounding."""
    ctx.check(ctx.close(a, b, rel * 1e-3 if _zero(b) else rel * _mag(b)),
              label)


def _zero(b):
    return isinstance(b, (int, float)) and b == 0


def _mag(b):
    return abs(b) if isinstance(b, (int, float)) else 1.0


def ratio(ctx, a, b, label, rel=1e-9):
    """a/b is 1 up to rounding, for b > 0"""
    ctx.check(ctx.all([a <= b * (1 + rel), a >= b * (1 - rel)]), label)


def spin(ctx, name, kind):
    z = ctx.real(name + "z", -0.9, 0.9)
    x = {"aligned": 0.0, "noise": 1e-6, "precessing": 0.3}[kind]
    return [x, 0.0, z]


@scenario(reach=["dimensionless", "physical"], stubs=stubs,
          quick=[{"physical": p, "sym_at": s} for p in (False, True)
                 for s in ("masses", "spins", "orbit", "grid", "strain")])
def generator(ctx, physical, sym_at):
    """What reaches the generator and how its output is converted."""
    from gw_eccentricity import load_data

    def var(group, name, lo, hi, default):
        return ctx.real(name, lo, hi) if sym_at == group else default

    q = var("masses", "q", 1, 50, 3.0)
    mass = var("masses", "M", 0.5, 1000, 60.0)
    dist = var("strain", "D", 0.5, 5000, 200.0)
    if sym_at == "spins":
        kind = ctx.choice("kind", ("aligned", "noise"))
        c1, c2 = spin(ctx, "s1", kind), spin(ctx, "s2", kind)
    else:
        c1, c2 = [0.0, 0.0, 0.25], [0.0, 0.0, -0.5]
    f = var("orbit", "Momega0", 0.001, 0.1, 0.0157)
    ecc = var("orbit", "ecc", 0, 0.9, 0.125)
    ano = var("orbit", "ano", 0, 6.2, 0.75)
    incl = var("orbit", "incl", 0, 3, 0.5)
    phi = var("orbit", "phi", 0, 6, 1.25)
    lan = var("orbit", "lan", 0, 6, 2.5)
    dt = var("grid", "dt", 0.01, 10, 0.5)
    n = 5
    shape_p = [var("strain", f"p{i}", -2, 2, 0.25 * i) for i in range(n)]
    shape_c = [var("strain", f"c{i}", -2, 2, -0.5 * i) for i in range(n)]

    def maker(c, k):
        # geometric strain of the total mass asked for
        fac = (c["m1"] + c["m2"]) * lal.G_SI / lal.C_SI**2 / c["dist"]
        return (_arr(ctx, [fac * x for x in shape_p]),
                _arr(ctx, [fac * x for x in shape_c]))

    reset(maker)
    kw = dict(M=mass, D=dist, physicalUnits=True) if physical else {}
    b1, b2 = list(c1), list(c2)
    t, h = load_data.generate_LAL_waveform(
        "EccentricTD", q, c1, c2, dt, f, inclination=incl, phi_ref=phi,
        longAscNodes=lan, eccentricity=ecc, meanPerAno=ano, **kw)
    ctx.check(len(FAKE.calls) == 1, "one call of the generator")
    ctx.check(c1 == b1 and c2 == b2, "the caller's spins are left alone")
    c = FAKE.calls[0]
    ctx.check(c["tag"] == lalsimulation.GetApproximantFromString(
        "EccentricTD"), "approximant")
    ctx.check(c["m1"] >= c["m2"] * (1 - 1e-9), "first mass is the larger")
    ratio(ctx, c["m1"], c["m2"] * q, "mass ratio")
    total = mass if physical else 10
    ratio(ctx, c["m1"] + c["m2"], total * lal.MSUN_SI, "total mass")
    for got, want in ((c["s1"], c1), (c["s2"], c2)):
        for i in range(2):
            ctx.check(ctx.eq(got[i], 0), "in-plane spin")
        near(ctx, got[2], want[2], "aligned spin")
    for key, want in (("ecc", ecc), ("ano", ano), ("incl", incl),
                      ("phi", phi), ("lan", lan)):
        near(ctx, c[key], want, key)
    secs = total * lal.MTSUN_SI
    ratio(ctx, c["dt"], dt * secs, "time step")
    ratio(ctx, c["flow"], f / np.pi / secs, "starting frequency")
    ratio(ctx, c["fref"], c["flow"], "reference frequency")
    if physical:
        ratio(ctx, c["dist"], dist * 1e6 * lal.PC_SI, "distance")
    ctx.check(len(t) == n and len(h) == n, "length")
    unit_t = load_data.time_dimless_to_mks(mass) if physical else 1
    unit_h = load_data.amplitude_dimless_to_mks(mass, dist) if physical else 1
    for i in range(n):
        if i:
            ratio(ctx, t[i], i * dt * unit_t, "time")
        else:
            near(ctx, t[0], 0, "time starts at zero")
        # h = h+ - i hx
        re, im = (h[i].real, h[i].imag)
        for got, want in ((re, shape_p[i]), (im, -shape_c[i])):
            ctx.check(ctx.close(got / unit_h, want, 2e-6), "strain")
    ctx.reach("physical" if physical else "dimensionless")


def _arr(ctx, x):
    if any(isinstance(v, sym.SNum) and sym.is_z(v.v) for v in x):
        return ctx._arr(x)
    return np.array([float(v) for v in x])


@scenario(reach=["refused", "accepted"], stubs=stubs)
def refused(ctx):
    """Inputs that cannot be meant are refused."""
    from gw_eccentricity import load_data
    reset(lambda c, k: (np.ones(5), np.ones(5)))
    which = ctx.choice("which", ("spin1", "spin2", "inplane", "M", "D",
                                 "missing", "unknown", "origin"))
    good = dict(approximant="EccentricTD", q=2.0, chi1=[0, 0, 0.25],
                chi2=[0, 0, 0.25], ecc=0.1, mean_ano=0.5, Momega0=0.01)
    bad = True
    if which in ("spin1", "spin2"):
        z = ctx.real("z", -1.5, 1.5)
        good["chi" + which[-1]] = [0, 0, z]
        ctx.assume(ctx.any([z < -1.001, z > 1.001,
                            ctx.all([z > -0.999, z < 0.999])]))
        bad = bool(ctx.any([z > 1, z < -1]))
    elif which == "inplane":
        x = ctx.real("x", 0, 0.5)
        ctx.assume(ctx.any([x < 9e-6, x > 1.1e-5]))
        good["chi" + ctx.choice("body", ("1", "2"))] = \
            [x, 0, 0.1] if ctx.flag("axis") else [0, x, 0.1]
        bad = bool(x > 1e-5)
    elif which in ("M", "D"):
        good["physicalUnits"] = True
        other = "D" if which == "M" else "M"
        good[other] = ctx.real("other", 1, 100)
    elif which == "missing":
        key = ctx.choice("key", sorted(good))
        if ctx.flag("none"):
            good[key] = None
        else:
            del good[key]
    elif which == "unknown":
        good["not_a_parameter"] = 1
    origin = "LAL" if which != "origin" else "LaL"

    def call():
        return load_data.load_waveform(origin, **good)
    if bad:
        ctx.check(ctx.raises(call) is not None, f"refuses: {which}")
        ctx.check(not FAKE.calls, "nothing is generated")
        ctx.reach("refused")
    else:
        call()
        ctx.check(len(FAKE.calls) == 1, "accepted")
        ctx.reach("accepted")


PEAK = [1.0, 2.0, 3.0, 2.0, 1.0]


def pulse(before, after=0):
    """'before' quiet samples, then a symmetric peak."""
    return np.array([0.5 + 0.01 * i for i in range(before)] + PEAK
                    + [0.25] * after)


def strain_maker(lengths, total=10):
    def maker(c, k):
        fac = total * lal.MSUN_SI * lal.G_SI / lal.C_SI**2 / c["dist"]
        a = pulse(lengths[min(k, len(lengths) - 1)])
        return fac * a, 0 * a
    return maker


def same_binary(ctx, c, d, but=()):
    for key in ("m1", "m2", "dist", "dt", "incl", "phi", "lan", "tag"):
        if key not in but:
            ctx.check(ctx.eq(c[key], d[key]), f"companion: {key}")
    for key in ("s1", "s2"):
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(c[key], d[key])]),
                  f"companion: {key}")


@scenario(reach=["alone", "long enough", "lowered"], stubs=stubs,
          quick=[{"approximant": a, "n0": n, "grow": g} for n, g, a in
                 ((5, 1, "EccentricTD"), (6, 2, "IMRPhenomT"))],
          thorough=[{"approximant": a, "n0": n, "grow": g}
                    for n in (4, 5, 6, 8) for g in (1, 2, 3)
                    for a in ("EccentricTD", "IMRPhenomT", "SEOBNRv4")])
def lal_waveform(ctx, approximant, n0, grow):
    """load_waveform(origin='LAL') with and without circular companion."""
    from gw_eccentricity import load_data
    q = ctx.real("q", 1, 20)
    s1, s2 = ctx.real("s1", -0.9, 0.9), ctx.real("s2", -0.9, 0.9)
    ecc = ctx.real("ecc", 0.01, 0.5)
    ano = ctx.real("ano", 0, 6.2)
    f = ctx.real("Momega0", 0.001, 0.05)
    comp = ctx.choice("companion", (False, True))
    first = int(ctx.int("first companion", 2, 9)) if comp else 0
    kw = dict(approximant=approximant, q=q, chi1=[0, 0, s1],
              chi2=[0, 0, s2], ecc=ecc, mean_ano=ano, Momega0=f,
              deltaTOverM=0.5, include_zero_ecc=comp)
    if ctx.flag("physical"):
        kw.update(physicalUnits=True, M=20.0, D=100.0)
        step, unit = 0.5 * 20 * lal.MTSUN_SI, load_data.\
            amplitude_dimless_to_mks(20.0, 100.0)
    else:
        step, unit = 0.5, 1.0
    reset(strain_maker([n0] + [first + grow * i for i in range(9)],
                       kw.get("M", 10)))
    before = dict(kw)
    d = load_data.load_waveform("LAL", **kw)
    ctx.check(kw == before, "the caller's parameters are left alone")
    c = FAKE.calls[0]
    ratio(ctx, c["m1"], c["m2"] * q, "mass ratio")
    for key, want in (("ecc", ecc), ("ano", ano)):
        near(ctx, c[key], want, f"eccentric: {key}")
    near(ctx, c["s1"][2], s1, "first spin")
    near(ctx, c["s2"][2], s2, "second spin")
    secs = (20 if "M" in kw else 10) * lal.MTSUN_SI
    ratio(ctx, c["flow"], f / np.pi / secs, "starting frequency")
    ylm = abs(lal.SpinWeightedSphericalHarmonic(0, 0, -2, 2, 2))

    def data(t, h, n, what):
        ctx.check(set(h) == {(2, 2)}, f"{what}: modes")
        h = h[(2, 2)]
        ctx.check(len(t) == len(h) == n + 5, f"{what}: lengths")
        want = pulse(n)
        for i in range(n + 5):
            ctx.check(abs(t[i] - (i - n - 2) * step) < 1e-6 * step,
                      f"{what}: merger at zero")
            ctx.check(abs(abs(h[i]) * ylm / unit - want[i]) < 1e-5,
                      f"{what}: mode amplitude")
    data(d["t"], d["hlm"], n0, "eccentric")
    if not comp:
        ctx.check(set(d) == {"t", "hlm"} and len(FAKE.calls) == 1,
                  "no companion unless asked for")
        ctx.reach("alone")
        return
    calls = FAKE.calls[1:]
    n1 = first + grow * (len(calls) - 1)
    ctx.check(n1 >= n0, "companion covers the eccentric data")
    ctx.check(d["t_zeroecc"][0] <= d["t"][0] + 1e-9 * step,
              "companion starts no later")
    data(d["t_zeroecc"], d["hlm_zeroecc"], n1, "companion")
    last = None
    for k in calls:
        same_binary(ctx, k, c)
        near(ctx, k["ecc"], 1e-5 if approximant == "EccentricTD" else 0.0,
             "companion is circular", 1e-6)
        ctx.check(k["flow"] <= c["flow"] * (1 + 1e-9),
                  "companion starts no higher")
        if last is not None:
            ctx.check(k["flow"] < last["flow"], "lowered when too short")
        last = k
    ctx.reach("lowered" if len(calls) > 1 else "long enough")


@scenario(reach=["first", "again"], stubs=stubs,
          quick=[{"n0": n, "grow": g} for n in (3, 5) for g in (1, 3)],
          thorough=[{"n0": n, "grow": g} for n in (3, 5, 9, 14)
                    for g in (1, 2, 3, 5)])
def companion_of_nr(ctx, n0, grow):
    """get_zeroecc_dataDict_for_nr."""
    from gw_eccentricity import load_data
    dt = 0.1                    # default step of the companion
    first = ctx.choice("first companion",
                       (1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 17, 24))
    off = ctx.real("offset", -1000, 1000)
    q = ctx.real("q", 1, 20)
    s1, s2 = ctx.real("s1", -0.9, 0.9), ctx.real("s2", -0.9, 0.9)
    FAKE.f0 = ctx.real("f0", 5, 500)
    frac = ctx.choice("frac", (0.0, 0.3))   # grids need not coincide
    lengths = [first + grow * i for i in range(12)]
    reset(strain_maker(lengths))
    a = pulse(n0)
    step = dt * (1 + frac)
    tn = _arr(ctx, [off + step * i for i in range(len(a))])
    nr = {"t": tn, "hlm": {(2, 2): a.astype(complex)}}
    params = {"q": q, "chi1": [0, 0, s1], "chi2": [0, 0, s2],
              "approximant": "IMRPhenomT"}
    if ctx.flag("metadata"):
        params.update(ecc=0.2, mean_ano=None)
    else:
        params.update(mean_ano=0.0)
    snap = dict(params)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = load_data.get_zeroecc_dataDict_for_nr(nr, params)
    ctx.check(params == snap, "the parameters are left alone")
    inspiral = (n0 + 2) * step
    t, m1, m2, z1, z2 = FAKE.rom[0]
    ctx.check(ctx.close(t / (inspiral * MT10), 1, 1e-6),
              "inspiral time of the data")
    ratio(ctx, m1, m2 * q, "mass ratio for the frequency")
    ratio(ctx, m1 + m2, 10 * lal.MSUN_SI, "mass for the frequency")
    near(ctx, z1, s1, "first spin for the frequency")
    near(ctx, z2, s2, "second spin for the frequency")
    ratio(ctx, FAKE.calls[0]["flow"], FAKE.f0, "frequency found is used")
    for i, c in enumerate(FAKE.calls):
        ratio(ctx, c["m1"], c["m2"] * q, "mass ratio")
        near(ctx, c["s1"][2], s1, "first spin")
        near(ctx, c["s2"][2], s2, "second spin")
        ctx.check(c["ecc"] == 0, "companion is circular")
        if i:
            ctx.check(c["flow"] < FAKE.calls[i - 1]["flow"],
                      "lowered when too short")
    n1 = lengths[len(FAKE.calls) - 1]
    tz, hz = out["t_zeroecc"], out["hlm_zeroecc"][(2, 2)]
    ctx.check(set(out) == {"t_zeroecc", "hlm_zeroecc"}, "keys")
    ctx.check(len(tz) == len(hz), "one value per time")
    ctx.check(5 < len(tz) <= n1 + 5, "a stretch of the companion")
    peak = int(np.argmax(np.abs(hz)))
    ctx.check(peak == len(tz) - 3 and abs(tz[peak]) < 1e-6 * dt,
              "companion ends like the generated waveform, merger at zero")
    ctx.check(tz[0] <= -inspiral + 1e-6, "companion starts no later")
    ctx.check(np.allclose(np.diff(tz.astype(float)), dt), "step")
    ctx.reach("again" if len(FAKE.calls) > 1 else "first")


@scenario(reach=["cut"])
def junk(ctx):
    """Removing the first orbits by the phase of the (2, 2) mode."""
    from gw_eccentricity import load_data
    n = 16
    a = ctx.real("a", 0.5, 2)
    orbits = ctx.real("orbits", 0, 2)
    t0 = ctx.real("t0", -500, 500)
    steps = [2.5 - 0.1 * (i % 4) for i in range(n - 1)]
    ph = np.concatenate([[0.7], 0.7 + np.cumsum(steps)])
    h = [ctx.cplx(a if i == 3 else 1.0, -float(p)) for i, p in enumerate(ph)]
    if ctx.symbolic:
        h, src = np.empty(n, dtype=object), h
        h[:] = src
    else:
        h = np.array(h)
    g = np.array([complex(i, -i) for i in range(n)])
    t = _arr(ctx, [t0 + i for i in range(n)])
    out_t, out = load_data.reomve_junk_from_nr_data(
        t, {(2, 2): h, (3, 3): g}, orbits)
    k = n - len(out_t)
    ctx.check(0 <= k < n, "something is left")
    ctx.check(ctx.all([ctx.eq(out_t[i], t[k + i]) for i in range(n - k)]),
              "times are the last ones")
    ctx.check(set(out) == {(2, 2), (3, 3)}, "all modes kept")
    for key, src in (((2, 2), h), ((3, 3), g)):
        ctx.check(len(out[key]) == n - k, "modes as long as times")
        ctx.check(all(out[key][i] is src[k + i] or out[key][i] == src[k + i]
                      for i in range(n - k)), "samples stay at their times")
    want = orbits * 4 * np.pi
    dist = [abs(float(p - ph[0]) - want) for p in ph]
    ctx.check(ctx.all([dist[k] <= x + 1e-6 for x in dist]),
              "the cut is where the orbits are completed")
    ctx.reach("cut")


class File(dict):
    def __init__(self, *a, **k):
        super().__init__(*a)
        self.attrs = k

    def close(self):
        pass


class Column:
    """A two-dimensional data set."""

    def __init__(self, rows):
        self.a = rows

    def __getitem__(self, key):
        return self.a[key]


def grid(ctx, cols):
    a = np.empty((len(cols[0]), len(cols)), dtype=object)
    for j, c in enumerate(cols):
        for i, v in enumerate(c):
            a[i, j] = v
    if not any(isinstance(v, sym.SNum) for v in a.flat):
        a = a.astype(float)
    return Column(a)


@contextlib.contextmanager
def module(**names):
    """Replace modules used by load_data."""
    from gw_eccentricity import load_data
    old = {k: getattr(load_data, k) for k in names}
    try:
        for k, v in names.items():
            setattr(load_data, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(load_data, k, v)


class FakeH5:
    def __init__(self, files):
        self.files = files
        self.opened = []

    def File(self, path, mode="r"):
        self.opened.append(path)
        if mode != "r":
            raise RuntimeError("opened for writing")
        return self.files[os.path.basename(path)]


@scenario(reach=["refused", "made one", "kept"], stubs=stubs)
def sxs_metadata(ctx):
    """Mass ratio, spins and relaxation time of an SXS simulation."""
    from gw_eccentricity import load_data
    m1 = ctx.real("m1", 0.3, 0.9)
    m2 = ctx.real("m2", 0.1, 0.6)
    chi = [[ctx.real(f"x{i}{j}", -0.5, 0.5) for j in range(3)]
           for i in range(2)]
    relax = ctx.real("relax", 10, 900)
    data = {"reference_dimensionless_spin1": chi[0],
            "reference_dimensionless_spin2": chi[1],
            "reference_mass1": m1, "reference_mass2": m2,
            "relaxation_time": relax, "initial_mass1": 7.0,
            "initial_mass2": 0.5, "initial_dimensionless_spin1": [9, 9, 9]}
    ctx.assume(ctx.any([m1 <= m2 * 0.99949, m1 >= m2 * 0.99951]))
    ctx.assume(ctx.any([m1 <= m2 * (1 - 1e-6), m1 >= m2]))
    tmp = tempfile.mkdtemp(prefix="c23_")
    try:
        path = os.path.join(tmp, "metadata.json")
        with open(path, "w") as f:
            f.write("{}")
        fake = types.SimpleNamespace(load=lambda f: data)
        with module(json=fake), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if m1 < m2 * 0.9995:
                ctx.check(ctx.raises(
                    lambda: load_data.get_params_dict_from_sxs_metadata(
                        path)) is not None, "swapped masses refused")
                ctx.reach("refused")
                return
            out = load_data.get_params_dict_from_sxs_metadata(path)
    finally:
        shutil.rmtree(tmp)
    if m1 < m2:
        ctx.check(ctx.eq(out["q"], 1), "noise below one becomes one")
        ctx.reach("made one")
    else:
        ratio(ctx, out["q"] * m2, m1, "mass ratio")
        ctx.reach("kept")
    for i in range(2):
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in
                           zip(out[f"chi{i + 1}"], chi[i])]), "spins")
    ctx.check(ctx.eq(out["t_relax"], relax), "relaxation time")


@scenario(reach=["loaded", "companion"], stubs=stubs,
          quick=[{"comp": False}, {"comp": True}])
def lvcnr_hack(ctx, comp):
    """LVCNR files read with h5py, any time origin of the file."""
    from gw_eccentricity import load_data
    n = 9
    a = list(pulse(n - 5))
    off = ctx.real("offset", -100, 1000)
    s1 = ctx.real("s1z", -0.9, 0.9)
    s2 = ctx.real("s2z", -0.9, 0.9)
    m1 = ctx.real("m1", 0.5, 0.9)
    m2 = ctx.real("m2", 0.1, 0.5)
    at = [off + 0.1 * i for i in range(n)]
    pt = list(at)
    ph = [-0.25 * i for i in range(n)]
    f = File({"amp_l2_m2": {"X": _arr(ctx, at), "Y": np.array(a)},
              "phase_l2_m2": {"X": _arr(ctx, pt), "Y": np.array(ph)}},
             spin1x=0.0, spin1y=0.0, spin1z=s1, spin2x=0.0, spin2y=0.0,
             spin2z=s2, mass1=m1, mass2=m2, eccentricity=0.25,
             mean_anomaly=0.5)
    FAKE.f0 = 30.0
    short = int(ctx.int("short", 0, 3)) if comp else 0
    lengths = [n - 5 - short + 2 * i for i in range(6)]
    reset(strain_maker(lengths))
    with module(h5py=FakeH5({"x.h5": f})), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d = load_data.load_waveform(
            "LVCNR_hack", filepath="/nowhere/x.h5", deltaTOverM=0.1,
            include_zero_ecc=comp, include_params_dict=True,
            num_orbits_to_remove_as_junk=0)
    p = d["params_dict"]
    ratio(ctx, p["q"] * m2, m1, "mass ratio")
    ctx.check(ctx.eq(p["chi1"][2], s1), "first spin")
    ctx.check(ctx.eq(p["chi2"][2], s2), "second spin")
    ctx.check(p["ecc"] == 0.25 and p["mean_ano"] == 0.5, "orbit")
    t, h = d["t"], d["hlm"][(2, 2)]
    ctx.check(len(t) == len(h), "one value per time")
    ctx.check(n - 1 <= len(t) <= n, "whole file")
    c = t[0]
    for i in range(len(t)):
        ctx.check(ctx.close(t[i] - c, 0.1 * i, 1e-6), "step")
        ctx.check(ctx.close(abs(h[i]), a[i], 1e-5), "amplitude")
    if not comp:
        ctx.check("t_zeroecc" not in d, "no companion unless asked for")
        ctx.reach("loaded")
        return
    # the shape peaks at n-3: that is the merger of both
    tz, hz = d["t_zeroecc"], d["hlm_zeroecc"][(2, 2)]
    ctx.check(len(tz) == len(hz), "companion: one value per time")
    peak = int(np.argmax(np.abs(hz)))
    ctx.check(tz[0] - tz[peak] <= -0.1 * (n - 3) + 1e-6,
              "companion starts no later, relative to merger")
    near(ctx, FAKE.calls[0]["s1"][2], s1, "companion: first spin")
    near(ctx, FAKE.calls[0]["s2"][2], s2, "companion: second spin")
    ratio(ctx, FAKE.calls[0]["m1"] * m2, FAKE.calls[0]["m2"] * m1,
          "companion: mass ratio")
    ctx.reach("companion")


@scenario(reach=["loaded", "companion"], stubs=stubs,
          quick=[{"comp": False}, {"comp": True}])
def eob(ctx, comp):
    """EOB files, with a second one for the companion."""
    from gw_eccentricity import load_data
    off, zoff = ctx.real("off", -100, 100), ctx.real("zoff", -100, 100)
    amp = ctx.real("amp", 0.5, 2)

    def file(off, before, fac):
        a = pulse(before)
        return File({"t": _arr(ctx, [off + 0.5 * i for i in range(len(a))]),
                     "(2, 2)": _arr(ctx, [fac * x for x in a])})
    files = FakeH5({"EccTest_1.h5": file(off, 3, amp),
                    "EccTest_0.h5": file(zoff, 6, 1.0)})
    kw = {"filepath": "/nowhere/EccTest_1.h5"}
    if comp:
        kw.update(include_zero_ecc=True,
                  filepath_zero_ecc="/nowhere/EccTest_0.h5")
    with module(h5py=files):
        d = load_data.load_waveform("EOB", **kw)
    for i in range(8):
        ctx.check(ctx.close(d["t"][i], 0.5 * (i - 5), 1e-6),
                  "merger at zero")
        ctx.check(ctx.close(d["hlm"][(2, 2)][i], amp * pulse(3)[i], 1e-9),
                  "strain")
    if comp:
        ctx.check(len(d["t_zeroecc"]) == 11, "companion file")
        for i in range(11):
            ctx.check(ctx.close(d["t_zeroecc"][i], 0.5 * (i - 8), 1e-6),
                      "companion: merger at zero")
            ctx.check(d["hlm_zeroecc"][(2, 2)][i] == pulse(6)[i],
                      "companion: strain")
        ctx.reach("companion")
    else:
        ctx.check("t_zeroecc" not in d, "no companion unless asked for")
        ctx.reach("loaded")


@scenario(reach=["whole", "part"], stubs=stubs)
def emri(ctx):
    """EMRI files: requested stretch, geodesic eccentricity at its times."""
    from gw_eccentricity import load_data
    n = 12
    a = pulse(n - 5)
    off = ctx.real("offset", -100, 100)
    t = [off + 2.0 * i for i in range(n)]
    e = [ctx.real(f"e{i}", 0.01, 0.9) for i in range(n)]
    files = FakeH5({
        "w.h5": {"Dataset1": grid(ctx, [t, a, [0.0] * n])},
        "w_ecc.h5": {"Dataset1": grid(ctx, [t, e])}})
    kw = {"filepath": "/nowhere/w.h5", "include_geodesic_ecc": True}
    lo = hi = None
    if ctx.flag("start"):
        kw["start_time"] = lo = ctx.real("start_time", -18, -8)
    if ctx.flag("end"):
        kw["end_time"] = hi = ctx.real("end_time", -4, 2)
    with module(h5py=files):
        d = load_data.load_waveform("EMRI", **kw)
    tt, h, ee = d["t"], d["hlm"][(2, 2)], d["e_geodesic"]
    ctx.check(len(tt) == len(h) == len(ee), "one value per time")
    ctx.check(len(tt) >= 2, "some data")
    full = [2.0 * (i - n + 3) for i in range(n)]
    k = 0
    while k < n and not abs(tt[0] - full[k]) < 1e-5:
        k += 1
    ctx.check(k + len(tt) <= n, "times of the file, merger at zero")
    for i in range(len(tt)):
        ctx.check(abs(tt[i] - full[k + i]) < 1e-5, "times in order")
        ctx.check(ctx.close(abs(h[i]), a[k + i], 1e-6), "amplitude")
        ctx.check(ctx.eq(ee[i], e[k + i]), "eccentricity of that time")
    last = full[k + len(tt) - 1]
    if lo is None:
        ctx.check(k == 0, "from the beginning")
    else:
        ctx.check(ctx.all([full[k] - lo <= 1.0 + 1e-6,
                           full[k] - lo >= -1.0 - 1e-6]),
                  "starts at the sample nearest to start_time")
    if hi is None:
        ctx.check(last >= full[-2] - 1e-9, "up to the end")
    else:
        ctx.check(ctx.all([last - hi <= 1.0 + 1e-6, last - hi >= -3 - 1e-6]),
                  "ends near end_time")
    ctx.reach("part" if lo is not None or hi is not None else "whole")


class FakeSxs:
    """sxs.load and the memory estimate."""

    def __init__(self, wave, mem):
        self.wave, self.mem, self.asked, self.start = wave, mem, [], []
        self.waveforms = types.SimpleNamespace(
            memory=types.SimpleNamespace(J_E=self.J_E))

    def load(self, path):
        self.asked.append(path)
        return self.wave

    def J_E(self, wave, integration_start_time=None):
        if wave is not self.wave:
            raise RuntimeError("memory of another waveform")
        self.start.append(integration_start_time)
        return self.mem


class Wave:
    """Modes of all ell up to 3 starting at ell_min."""

    def __init__(self, t, data, ell_min):
        self.t, self.data, self.ell_min = t, data, ell_min

    def index(self, l, m):
        return l * (l + 1) - self.ell_min ** 2 + m


@scenario(reach=["memory kept", "memory removed"], stubs=stubs,
          quick=[{"keep": k} for k in (True, False)])
def sxs_catalog(ctx, keep):
    """SXS files: requested modes, on the requested step, merger at zero."""
    from gw_eccentricity import load_data
    n = 12
    off = ctx.real("offset", -1000, 1000)
    order = ctx.choice("order", (2, 4))
    modes = ctx.choice("modes", (((2, 2),), ((2, 2), (2, 1), (3, 3)),
                                 ((3, -2), (2, 2))))
    relax = ctx.real("relax", 1, 9)
    step = ctx.choice("step", (0.5, 0.25))
    marks = {k: ctx.real(f"h{k}", 0.01, 0.02) for k in
             ((2, 2), (2, 1), (3, 3), (3, -2))}
    memo = ctx.real("memory", -0.005, 0.005)
    t = _arr(ctx, [off + 0.5 * i for i in range(n)])
    wave = Wave(t, None, 2)
    data = np.zeros((n, 12), dtype=object)
    a = pulse(n - 8, 3)
    for (l, m), v in marks.items():
        for i in range(n):
            data[i, wave.index(l, m)] = v if (l, m) != (2, 2) or i == 1 \
                else a[i]
    wave.data = data if ctx.symbolic else data.astype(complex)
    mem = Wave(t, np.zeros((n, 16), dtype=object), 0)
    for k in ((2, 2), (2, 1), (3, 3)):
        mem.data[2, mem.index(*k)] = memo
    if not ctx.symbolic:
        mem.data = mem.data.astype(complex)
    fake = FakeSxs(wave, mem)
    meta = {"reference_dimensionless_spin1": [0, 0, 0.1],
            "reference_dimensionless_spin2": [0, 0, 0.2],
            "reference_mass1": 0.75, "reference_mass2": 0.25,
            "relaxation_time": relax}
    tmp = tempfile.mkdtemp(prefix="c23_")
    try:
        for name in (f"Strain_N{order}.h5", f"Strain_N{order}.json",
                     "metadata.json"):
            with open(os.path.join(tmp, name), "w") as f:
                f.write("{}")
        with module(sxs=fake, json=types.SimpleNamespace(
                load=lambda f: meta)), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            d = load_data.load_waveform(
                "SXSCatalog", data_dir=tmp, extrap_order=order,
                mode_array=list(modes), deltaTOverM=step, keep_memory=keep,
                num_orbits_to_remove_as_junk=0, include_params_dict=True)
    finally:
        shutil.rmtree(tmp)
    ctx.check([os.path.basename(p) for p in fake.asked]
              == [f"Strain_N{order}"], "file of the extrapolation order")
    ctx.check(d["params_dict"]["q"] == 3.0, "mass ratio")
    ctx.check(set(d["hlm"]) == set(modes), "requested modes")
    tt = d["t"]
    c = tt[0]
    per = int(round(0.5 / step))
    ctx.check((n - 1) * per <= len(tt) <= (n - 1) * per + 1, "whole file")
    ctx.check(ctx.all([ctx.close(tt[i] - c, step * i, 1e-6)
                       for i in range(len(tt))]), "requested step")
    for key in modes:
        h = d["hlm"][key]
        ctx.check(len(h) == len(tt), "one value per time")
        for i in range(n - 1):
            want = a[i] if key == (2, 2) and i != 1 else marks[key]
            if not keep and i == 2 and key in ((2, 2), (2, 1), (3, 3)):
                want = want - memo
            ctx.check(ctx.close(h[i * per].real, want, 1e-6), "strain")
            ctx.check(ctx.close(h[i * per].imag, 0, 1e-6), "strain (imag)")
    if len(modes) == 1 and step == 0.5:
        ctx.check(ctx.close(tt[n - 6], 0, 1e-6), "merger at zero")
    if keep:
        ctx.check(not fake.start, "no memory estimate")
        ctx.reach("memory kept")
    else:
        ctx.check(len(fake.start) == 1 and ctx.eq(fake.start[0], relax),
                  "memory integrated from the relaxation time")
        ctx.reach("memory removed")


class Chain:
    def __init__(self, l, m, data, nxt):
        self.l, self.m, self.next = l, m, nxt
        self.mode = Data(data)


@scenario(reach=["loaded"], stubs=stubs)
def lvcnr(ctx):
    """LVCNR files read by LAL: arguments and conversion back."""
    from gw_eccentricity import load_data
    n = 9
    dt = ctx.choice("dt", (0.5, 0.1))
    f = ctx.choice("start", (0.0, None))
    if f is None:
        f = ctx.real("Momega0", 0.001, 0.05)
    m1, m2 = ctx.real("m1", 0.5, 0.9), ctx.real("m2", 0.1, 0.5)
    flow = ctx.real("f_lower", 100, 3000)
    spins = [ctx.real(f"s{i}", -0.5, 0.5) for i in range(6)]
    amp = ctx.real("a33", 0.01, 0.2)
    first = ctx.real("a22", 0.1, 0.6)
    got = {}

    def hlms(dt, m1, m2, dist, flow, fref, *rest):
        got.update(dt=dt, m1=m1, m2=m2, dist=dist, flow=flow, s=rest[:6])
        fac = 10 * lal.MSUN_SI * lal.G_SI / lal.C_SI**2 / dist
        main = _arr(ctx, [fac * x for x in [first] + list(pulse(n - 5))[1:]])
        return None, Chain(2, 2, main, Chain(
            3, 3, _arr(ctx, [fac * amp] + [fac * 0.125] * (n - 1)), None))
    file = File({}, mass1=m1, mass2=m2, f_lower_at_1MSUN=flow,
                eccentricity=0.25, mean_anomaly=0.5)
    fake = types.SimpleNamespace(
        SimInspiralWaveformParamsInsertNumRelData=lambda *a: None,
        SimInspiralNRWaveformGetSpinsFromHDF5File=lambda *a: spins,
        SimInspiralWaveformParamsLookupModeArray=lambda *a: None,
        SimInspiralNRWaveformGetHlms=hlms)
    with module(lalsim=fake, h5py=FakeH5({"x.h5": file})):
        d = load_data.load_waveform(
            "LVCNR", filepath="/nowhere/x.h5", deltaTOverM=dt, Momega0=f,
            num_orbits_to_remove_as_junk=0, include_params_dict=True)
    ratio(ctx, got["dt"], dt * MT10, "time step")
    ratio(ctx, got["m1"] * m2, got["m2"] * m1, "mass ratio")
    ratio(ctx, got["m1"] + got["m2"], 10 * lal.MSUN_SI, "total mass")
    want = flow / 10 if isinstance(f, float) and f == 0 else f / np.pi / MT10
    ratio(ctx, got["flow"], want, "starting frequency")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(got["s"], spins)]),
              "spins")
    p = d["params_dict"]
    ratio(ctx, p["q"] * m2, m1, "mass ratio returned")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in
                       zip(list(p["chi1"]) + list(p["chi2"]), spins)]),
              "spins returned")
    ctx.check(p["ecc"] == 0.25 and p["mean_ano"] == 0.5, "orbit returned")
    t = d["t"]
    ctx.check(len(t) == n and set(d["hlm"]) == {(2, 2), (3, 3)}, "modes")
    tm = t[n - 3]
    for i in range(n):
        ctx.check(ctx.close(t[i] - tm, (i - n + 3) * dt, 1e-6), "times")
        ctx.check(ctx.close(d["hlm"][(2, 2)][i],
                            pulse(n - 5)[i] if i else first, 2e-6), "strain")
        ctx.check(ctx.close(d["hlm"][(3, 3)][i],
                            0.125 if i else amp, 2e-6), "strain 33")
    ctx.reach("loaded")
