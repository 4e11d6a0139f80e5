"""Shared concrete fixtures and collaborator stand-ins."""
import contextlib
import copy
import io
import warnings

import numpy as np

from . import sym

_CACHE = {}


def toy_waveform(n_orb=14, dt=1.0, ecc=0.1, f0=0.02, zeroecc=False,
                 precessing=False):
    """An analytic inspiral-like (2,2) waveform with eccentric modulation."""
    T = 2 * np.pi / (f0 / 2) * n_orb
    t = np.arange(0, T, dt)
    tm = 1.15 * T
    om = f0 * (1 - t / tm) ** (-3 / 8)
    ph = np.concatenate([[0], np.cumsum(0.5 * (om[1:] + om[:-1]) * dt)])
    ell = ph / 2
    e = ecc * (1 - t / tm) ** (19 / 48)
    amp0 = (om / f0) ** (2 / 3)
    # exact integral of the modulation is not needed: omega is differentiated
    phase = ph + 4 * e * np.sin(ell)
    amp = amp0 * (1 + 1.5 * e * np.cos(ell))
    # ring up to a single global amplitude peak and decay
    tp = t[-1] + dt * np.arange(1, 200)
    pk = amp0[-1] * 3
    ampp = pk * np.exp(-((tp - tp[60]) / (60 * dt)) ** 2)
    ampp = np.maximum(ampp, 1e-3)
    omp = np.linspace(om[-1], 1.5 * om[-1], len(tp))
    php = phase[-1] + np.cumsum(omp * dt)
    t = np.concatenate([t, tp])
    amp = np.concatenate([amp, ampp])
    phase = np.concatenate([phase, php])
    d = {"t": t, "amplm": {(2, 2): amp}, "phaselm": {(2, 2): phase}}
    if precessing:
        d["amplm"][(2, -2)] = amp.copy()
        d["phaselm"][(2, -2)] = -phase
    if zeroecc:
        z = toy_waveform(n_orb=n_orb, dt=dt, ecc=0.0, f0=f0)
        d["t_zeroecc"] = z["t"]
        d["amplm_zeroecc"] = z["amplm"]
        d["phaselm_zeroecc"] = z["phaselm"]
    return d


@contextlib.contextmanager
def silent():
    with warnings.catch_warnings(), \
            contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def base_object(method="Amplitude", measured=True, **kw):
    """A real, concretely built eccDefinition object (cached).

    Built by the real constructor so that every attribute the code expects is
    there; scenarios take a shallow copy and replace the attributes that become
    symbolic.
    """
    key = (method, measured, repr(sorted(kw.items())))
    if key not in _CACHE:
        if sym.ENGINE is not None:
            raise RuntimeError("fixture must be built at import time")
        from gw_eccentricity.gw_eccentricity import get_available_methods
        cls = get_available_methods(return_dict=True)[method]
        d = toy_waveform(zeroecc="Residual" in method)
        with silent():
            obj = cls(d, tref_in=d["t"], extra_kwargs=kw or None)
            if measured:
                obj.measure_ecc()
        _CACHE[key] = obj
    return _CACHE[key]


def fresh(method="Amplitude", measured=True, **kw):
    return copy.copy(base_object(method, measured, **kw))


class Fn:
    """A collaborator stand-in: a function given by a table/callable."""

    def __init__(self, f):
        self.f = f

    def __call__(self, t, *a, **k):
        if isinstance(t, np.ndarray) and t.ndim:
            return np.array([self.f(x) for x in t.flat],
                            dtype=object if any(
                                not isinstance(self.f(x), (float, int))
                                for x in t.flat) else float).reshape(t.shape)
        if isinstance(t, (list, tuple)):
            return self(np.array(t, dtype=object))
        if isinstance(t, np.ndarray):
            t = t.item()
        return self.f(t)
