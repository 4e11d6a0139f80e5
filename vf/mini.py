"""A small waveform that goes through the real public API, and the
piecewise-linear interpolant that stands in for scipy's splines.

The stand-in honours the contract the code relies on (passes through its data,
raises outside the data unless ext=0, differentiable); it is installed in both
the symbolic and the replay runs, so counterexamples are about the
repository's code and not about one interpolation scheme.
"""
import numpy as np

from . import sym

SPU = 4          # samples per orbit of the mini waveform


class PLSpline:
    """Piecewise-linear stand-in for InterpolatedUnivariateSpline."""
    log = []

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0,
                 check_finite=False, _lin=True):
        self.x, self.y = list(x), list(y)
        self.ext, self.k = ext, k
        if len(self.x) != len(self.y) or len(self.x) <= k:
            raise ValueError("wrong number of data points")
        for a, b in zip(self.x[:-1], self.x[1:]):
            if not bool(a < b):
                raise ValueError("x must be strictly increasing")
        PLSpline.log.append(self)

    def _seg(self, q):
        n = len(self.x)
        if bool(q < self.x[0]) or bool(q > self.x[-1]):
            if self.ext == 2:
                raise ValueError("outside the interpolation range")
            if self.ext == 1:
                return None
        for i in range(1, n - 1):
            if bool(q < self.x[i]):
                return i - 1
        return n - 2

    def _val(self, q):
        i = self._seg(q)
        if i is None:
            return 0.0
        x, y = self.x, self.y
        return y[i] + (y[i + 1] - y[i]) * ((q - x[i]) / (x[i + 1] - x[i]))

    def _slope(self, q):
        i = self._seg(q)
        if i is None:
            return 0.0
        return (self.y[i + 1] - self.y[i]) / (self.x[i + 1] - self.x[i])

    @staticmethod
    def _map(f, q):
        if np.ndim(q) == 0:
            return f(q.item() if isinstance(q, np.ndarray) else q)
        vals = [f(v) for v in np.asarray(q).ravel()]
        if any(isinstance(v, sym.SNum) for v in vals):
            out = np.empty(len(vals), dtype=object)
            out[:] = vals
            return out
        return np.array(vals, dtype=float)

    def __call__(self, q, nu=0, ext=None):
        return self._map(self._val if nu == 0 else self._slope, q)

    def derivative(self, n=1):
        return (lambda q: self._map(self._slope, q)) if n == 1 else \
            (lambda q: self._map(lambda _: 0.0, q))


class PLRat(PLSpline):
    """Stand-in for the rational fit (exact at the data, extrapolates)."""

    def __init__(self, x, y):
        super().__init__(x, y, k=1, ext=0)


def spline_stubs():
    from gw_eccentricity import utils
    return [(utils.InterpolatedUnivariateSpline, PLSpline)]


def rational_stubs():
    from gw_eccentricity import utils
    return [(utils.get_rational_fit,
             lambda x, y, rational_fit_kwargs=None, check_kwargs=True:
             PLRat(x, y))]


def find_peaks(x, height=None, threshold=None, distance=None,
               prominence=None, width=None, wlen=None, rel_height=0.5,
               plateau_size=None):
    """scipy.signal.find_peaks for symbolic samples (same algorithm: strict
    local maxima or plateau centres, then the distance, prominence and width
    filters).  The replay runs scipy's own."""
    x = list(np.asarray(x).ravel())
    if all(not isinstance(v, (sym.SNum, sym.SBool)) for v in x):
        from scipy.signal import find_peaks as fp
        return fp(np.array(x, dtype=float), height, threshold, distance,
                  prominence, width, wlen, rel_height, plateau_size)
    if not (wlen is None and plateau_size is None and np.ndim(height) == 0
            and np.ndim(threshold) == 0):
        raise sym.Unsupported("find_peaks filter")
    n = len(x)
    peaks, i = [], 1
    while i < n - 1:
        if bool(x[i - 1] < x[i]):
            j = i
            while j < n - 1 and bool(x[j] == x[i]) and j > i - 1:
                if bool(x[j + 1] == x[i]):
                    j += 1
                else:
                    break
            if j < n - 1 and bool(x[j + 1] < x[i]):
                peaks.append((i + j) // 2)
                i = j
        i += 1
    if height is not None:
        peaks = [p for p in peaks if bool(x[p] >= height)]
    if threshold is not None:
        peaks = [p for p in peaks if bool(x[p] - x[p - 1] >= threshold)
                 and bool(x[p] - x[p + 1] >= threshold)]
    if distance is not None:
        dist = int(np.ceil(float(distance)))
        keep = [True] * len(peaks)
        order = sorted(range(len(peaks)), key=_Key(x, peaks))
        for a in reversed(order):
            if not keep[a]:
                continue
            for b in range(len(peaks)):
                if b != a and abs(peaks[a] - peaks[b]) < dist:
                    keep[b] = False
        peaks = [p for p, k in zip(peaks, keep) if k]
    if prominence is not None or width is not None:
        out = []
        for p in peaks:
            mins, bases = [], []
            for step in (-1, 1):
                j, lo, base = p, x[p], p
                while 0 <= j < n and bool(x[j] <= x[p]):
                    if bool(x[j] < lo):
                        lo, base = x[j], j
                    j += step
                mins.append(lo)
                bases.append(base)
            top = mins[0] if bool(mins[0] >= mins[1]) else mins[1]
            prom = x[p] - top
            if prominence is not None and not bool(prom >= prominence):
                continue
            if width is not None:
                h = x[p] - prom * rel_height
                j = p
                while j > bases[0] and bool(h < x[j]):
                    j -= 1
                lip = j
                if bool(x[j] < h):
                    lip = lip + (h - x[j]) / (x[j + 1] - x[j])
                j = p
                while j < bases[1] and bool(h < x[j]):
                    j += 1
                rip = j
                if bool(x[j] < h):
                    rip = rip - (h - x[j]) / (x[j - 1] - x[j])
                if not bool(rip - lip >= width):
                    continue
            out.append(p)
        peaks = out
    return np.array(peaks, dtype=int), {}


class _Key:
    def __new__(cls, x, peaks):
        import functools

        def cmp(a, b):
            if bool(x[peaks[a]] < x[peaks[b]]):
                return -1
            return 1 if bool(x[peaks[b]] < x[peaks[a]]) else 0
        return functools.cmp_to_key(cmp)


def peak_stubs():
    """For symbolic runs only."""
    import scipy.signal
    return [(scipy.signal.find_peaks, find_peaks)]


PATTERN = {4: ([0.5, 1.0, 1.5, 1.0], [0.5, 1.0, 2.0, 1.0]),
           8: ([0.5, 0.75, 1.0, 1.25, 1.5, 1.25, 1.0, 0.75],
               [0.5, 0.75, 1.0, 1.5, 2.0, 1.5, 1.0, 0.75])}


def wave(n_orb=6, first="apo", lead=2, tail=3, chirp=1 / 256, spu=SPU):
    """(amp, phase, omega) concrete arrays; one orbit = spu samples.

    Amplitude maxima (pericenters) and minima alternate every spu / 2 samples,
    the phase advances by slightly more than 4 pi per orbit, and a single
    global maximum (merger) follows.  Complex modes need spu=8: the phase then
    advances by less than pi per sample.
    """
    amp, ph, om = [], [], []
    p = 0.0
    step = 4 * np.pi * 1.02 / spu
    pa, po = PATTERN[spu]
    n = lead + n_orb * spu + (1 if first == "apo" else 1 + spu // 2)
    for i in range(n):
        k = (i - lead + (0 if first == "apo" else spu // 2)) % spu
        amp.append(pa[k])
        om.append(po[k] * (1 + 0.01 * i))
        ph.append(p)
        p += step * (1 + chirp * len(ph))
    for j in range(3 * spu + tail):
        # merger region: two orbits of rising amplitude, then the peak
        d = j - 3 * spu
        amp.append(1.6 + 0.2 * j if d < -2 else 4.2 - 0.1 * d * d
                   + 0.2 * 3 * (spu - 4))
        om.append(4.0 + 0.1 * j)
        ph.append(p)
        p += step * (1 + chirp * len(ph))
    return np.array(amp), np.array(ph), np.array(om)


def locations(amp):
    """Reference extrema of the concrete oscillating part."""
    peri = [i for i in range(1, len(amp) - 1)
            if amp[i] > amp[i - 1] and amp[i] > amp[i + 1]]
    apo = [i for i in range(1, len(amp) - 1)
           if amp[i] < amp[i - 1] and amp[i] < amp[i + 1]]
    return peri, apo


def classes():
    from gw_eccentricity.gw_eccentricity import get_available_methods
    return get_available_methods(return_dict=True)


def measure(data, method="Amplitude", quiet_checks=True, ctor=None,
            prep=None, **kw):
    """measure_eccentricity without the (diagnostic) monotonicity report."""
    obj = classes()[method](data, **kw) if ctor is None else \
        ctor(data, **kw)
    if quiet_checks:
        obj.check_monotonicity_and_convexity = lambda *a, **k: None
    if prep:
        prep(obj)
    return obj, obj.measure_ecc()


def pl(x, y, q):
    """Independent piecewise-linear evaluation (oracle side)."""
    n = len(x)
    i = 0
    while i < n - 2 and bool(q >= x[i + 1]):
        i += 1
    return y[i] + (y[i + 1] - y[i]) * ((q - x[i]) / (x[i + 1] - x[i]))


def e_ref(ctx, wp, wa):
    """Eccentricity from the defining formulas (Eqs. 4, 8 of the paper)."""
    if ctx.symbolic:
        sp, sa = sym.SNum(sym.lift(wp)).sqrt(), sym.SNum(sym.lift(wa)).sqrt()
        w = (sp - sa) / (sp + sa)
        psi = sym.ENGINE.arctan2(1 - w * w, 2 * w)
        k = sym.SNum(sym.ENGINE.sqrt(sym.rterm(3)))
        return (psi / 3).cos() - k * (psi / 3).sin()
    sp, sa = np.sqrt(wp), np.sqrt(wa)
    w = (sp - sa) / (sp + sa)
    psi = np.arctan2(1 - w * w, 2 * w)
    return np.cos(psi / 3) - np.sqrt(3) * np.sin(psi / 3)


def expected(amp, phase, exclude=2):
    """(cut index, pericenters, apocenters) of a concrete mini waveform,
    from the documented definitions."""
    m = int(np.argmax(amp))
    cut = len(amp) if exclude is None else int(np.argmin(np.abs(
        phase - (phase[m] - 4 * np.pi * exclude))))
    peri, apo = locations(amp[:cut])
    return cut, peri, apo


def sym_omega(ctx, om, where, lo, hi, name="om"):
    """omega array with symbolic entries at the given indices."""
    out = np.empty(len(om), dtype=object)
    out[:] = [float(x) for x in om]
    for n, i in enumerate(where):
        out[i] = ctx.real(f"{name}[{n}]", lo, hi)
    return ctx._arr(out)


def api_data(ctx, first="apo", n_orb=5, dt=0.5, t0=-3.0, wsym=True, tail=3,
             exclude=2, flat=False):
    """Concrete amplitude/phase, symbolic frequency at the extrema."""
    amp, ph, om = wave(n_orb=n_orb, first=first, tail=tail)
    t = t0 + dt * np.arange(len(amp))
    cut, peri, apo = expected(amp, ph, exclude)
    w = om
    if flat:
        w = w.copy()
        w[peri], w[apo] = 4.0, 1.0
        wsym = False
    if wsym:
        P, A = ctx.real("P", 4, 9), ctx.real("A", 1, 3)
        w = np.empty(len(om), dtype=object)
        w[:] = [float(x) for x in om]
        for j, i in enumerate(peri):
            w[i] = P * (64 + j * j) / 64
        for j, i in enumerate(apo):
            w[i] = A * (32 + j * j) / 32
        w = ctx._arr(w)
    data = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): ph},
            "omegalm": {(2, 2): w}}
    return data, t, w, cut, peri, apo


def in_order_selection(ctx, req, keep):
    """keep[i] decided per path -> the list of kept requested values."""
    return [r for r, k in zip(req, keep) if bool(k)]
