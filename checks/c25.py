"""C25 level, gain, index and scale helpers: every helper on an exhaustive
grid of small inputs (values, shapes, options), against closed forms and
against its inverse."""

import itertools as it
import warnings

import numpy as np
from scipy.interpolate import PchipInterpolator

import dsptoolbox as dsp
from dsptoolbox import tools as T
from mc.core import eq, must_raise, true
from mc import dsp as R
from mc.snap import pure

FS = 1000
CT, BQ = dsp.FilterCoefficientsType, dsp.BiquadEqType


def arr(*x):
    return np.array(x, float)


def sig(x, fs=FS, cls=dsp.Signal):
    return cls.from_time_data(np.array(x), fs, False) if cls is dsp.Signal else cls(None, np.array(x), fs, constrain_amplitude=False)


# ------------------------------------------------------------------ decibels
def decibels(ctx):
    vals = [0.0, 1e-320, 1e-200, 1e-6, 0.5, 1.0, 3.0, -2.0, 1e5, 1j, -3 + 4j]

    def one(x, amp, dr, mn):
        f = 20.0 if amp else 10.0
        got = pure(lambda x: T.to_db(x, amp, dr, mn), x)
        a = np.abs(x)
        if dr is not None:
            a = np.maximum(a, np.max(a) * 10 ** (-abs(dr) / f))
        elif mn is not None:
            a = np.maximum(a, mn)
        with np.errstate(divide="ignore"):
            ref = f * np.log10(a)
        eq(got, ref, "decibels", rtol=1e-12, atol=1e-9)
        true(np.shape(got) == np.shape(x), "shape kept")
        if mn == TINY and dr is None:
            back = pure(lambda g: T.from_db(g, amp), np.asarray(got))
            eq(back, np.maximum(np.abs(x), TINY), "from_db inverts to_db", rtol=1e-10)
        ctx.step()

    TINY = float(np.finfo(float).smallest_normal)
    n = 3 if ctx.thorough else 2
    for amp in (True, False):
        for dr in (None, 60.0, -60.0, 0.0):
            for mn in (None, TINY, 1e-3):
                for v in it.product(vals, repeat=n):
                    x = np.array(v)
                    if dr is not None and not np.any(x):
                        continue
                    ctx.case(f"to_db/{amp} {dr} {mn} {v}", one, x, amp, dr, mn)
                ctx.case(f"to_db/matrix {amp} {dr} {mn}", one, np.array(vals[:6]).reshape(3, 2), amp, dr, mn)
    for db in (-120.0, -20.0, -6.0, 0.0, 3.0, 40.0):
        for amp in (True, False):
            ctx.case(f"from_db/{db} {amp}", lambda db=db, amp=amp: (eq(T.from_db(db, amp), 10 ** (db / (20 if amp else 10)), "gain", rtol=1e-12),
                                                                    eq(T.to_db(T.from_db(np.array([db]), amp), amp), [db], "to_db inverts from_db", atol=1e-9), ctx.step()))


# -------------------------------------------------------------- small helpers
def helpers(ctx):
    def wrap():
        for k in range(-9, 10):
            for d in np.linspace(-0.999, 0.999, 41) * np.pi:
                p = arr(d + 2 * np.pi * k, d)
                w = pure(lambda p: T.wrap_phase(p), p)
                eq(w, [d, d], "wrapped phase", atol=1e-9)
                ctx.step()
        eq(np.abs(T.wrap_phase(arr(np.pi, -np.pi, 3 * np.pi))), [np.pi] * 3, "half turn", atol=1e-12)
        m = T.wrap_phase(np.arange(12.0).reshape(4, 3))
        eq(np.exp(1j * m), np.exp(1j * np.arange(12.0).reshape(4, 3)), "matrix", atol=1e-12)

    ctx.case("wrap_phase", wrap)

    def ema(t, fs, acc):
        f = T.get_smoothing_factor_ema(t, fs, acc)
        eq(1 - (1 - f) ** (t * fs), acc, "step response after the relaxation time", rtol=1e-9)
        true(0 < f < 1, "factor in range")
        ctx.step()

    for t in (0.001, 0.01, 0.1, 1.0):
        for fs in (1000, 8000, 48000):
            for acc in (0.5, 0.63, 0.95, 0.99):
                ctx.case(f"ema/{t} {fs} {acc}", ema, t, fs, acc)

    def power2(n):
        lo = 1
        while lo * 2 <= n:
            lo *= 2
        hi = lo if lo == n else 2 * lo
        eq(T.next_power_2(n, "floor"), lo, "floor")
        eq(T.next_power_2(n, "ceil"), hi, "ceil")
        c = T.next_power_2(n)
        true(c in (lo, hi), "closest is a neighbour")
        if hi != lo:
            lin, log = hi - n < n - lo, n * n > lo * hi
            if lin == log:
                true(c == (hi if lin else lo), f"closest of {n}: {c}")
        true(type(c) is int, "integer result")
        ctx.step()

    for n in range(1, 20000 if ctx.thorough else 2200):
        ctx.case(f"next_power_2/{n // 100}", power2, n)
    for n in (1.2, 2.7, 5.5, 1000.1):
        def frac(n=n):
            lo, hi = 2 ** int(np.floor(np.log2(n))), 2 ** int(np.ceil(np.log2(n)))
            eq([T.next_power_2(n, "floor"), T.next_power_2(n, "ceil")], [lo, hi], "fractional numbers")
        ctx.case(f"next_power_2/{n}", frac)
    ctx.case("next_power_2/invalid", lambda: (must_raise(lambda: T.next_power_2(0), "zero"), must_raise(lambda: T.next_power_2(-4), "negative"), must_raise(lambda: T.next_power_2(4, "up"), "mode")))

    def logf(lo, hi, n):
        f = T.log_frequency_vector([lo, hi], n)
        eq(f[0], lo, "starts at the lower limit", rtol=1e-12)
        if len(f) > 1:
            eq(f[1:] / f[:-1], np.full(len(f) - 1, 2 ** (1 / n)), "spacing", rtol=1e-9)
        true(f[-1] <= hi * (1 + 1e-9) and f[-1] * 2 ** (1 / n) >= hi * (1 - 1e-9), "covers the range")
        ctx.step()

    for lo, hi in ((20, 20000), (10, 100), (100, 150), (1, 2), (37.3, 5011.9), (50, 6400)):
        for n in (1, 2, 3, 5, 12, 24, 128):
            ctx.case(f"log_frequency_vector/{lo} {hi} {n}", logf, lo, hi, n)
    ctx.case("log_frequency_vector/zero", lambda: must_raise(lambda: T.log_frequency_vector([0, 10], 3), "zero"))

    def exact(f, y, cols):
        y = np.stack([y, y**2], axis=1) if cols else y
        for i in range(len(f)):
            eq(pure(lambda f, y: T.get_exact_value_at_frequency(f, y, float(f[i])), f, y), y[i], "stored value", atol=1e-12)
            if i + 1 < len(f):
                for r in (0.1, 0.5, 0.9):
                    q = f[i] + r * (f[i + 1] - f[i])
                    eq(T.get_exact_value_at_frequency(f, y, q), (1 - r) * y[i] + r * y[i + 1], "linear interpolation", atol=1e-9)
            ctx.step()
        must_raise(lambda: T.get_exact_value_at_frequency(f, y, f[0] - 1), "below the vector")
        must_raise(lambda: T.get_exact_value_at_frequency(f, y, f[-1] + 1), "above the vector")
        must_raise(lambda: T.get_exact_value_at_frequency(f, y[:-1], f[0]), "lengths")

    for f in ([1000.0], [0.0, 1000.0], [100.0, 400.0, 1000.0, 5000.0], [0.0, 0.5, 7.0, 8.0, 20.0]):
        for cplx in (False, True):
            for cols in (False, True):
                ctx.case(f"exact value/{f} {cplx} {cols}", exact, np.array(f), R.seq(len(f), 3, cplx), cols)

    def logmean(n, cols, axis):
        x = R.td(n, 3, 4) if cols else R.seq(n, 4)
        if axis == 1:
            x = x.T.copy()
        k = n ** (np.arange(n) / (n - 1))
        i = np.minimum(k.astype(int), n - 1)
        w = k - i
        y = x.T if axis == 1 else x
        ref = np.mean(y[i - 1] * (1 - w if y.ndim == 1 else (1 - w)[:, None]) + y[i] * (w if y.ndim == 1 else w[:, None]), axis=0)
        eq(pure(lambda x: T.log_mean(x, axis), x), ref, "mean over a logarithmic axis", rtol=1e-9, atol=1e-12)
        eq(T.log_mean(np.full_like(x, 0.7), axis), np.full_like(ref, 0.7), "constant", rtol=1e-9)
        ctx.step()

    for n in range(2, 40):
        ctx.case(f"log_mean/{n} vector", logmean, n, False, 0)
        ctx.case(f"log_mean/{n} matrix", logmean, n, True, 0)
        ctx.case(f"log_mean/{n} rows", logmean, n, True, 1)

    def xover(lo, hi, log):
        g = T.frequency_crossover([lo, hi], log)
        f = np.geomspace(lo / 3, hi * 3, 400)
        y = g(f)
        eq(y[f < lo], 0 * y[f < lo], "zero below")
        eq(y[f > hi], 1 + 0 * y[f > hi], "one above")
        true(np.all(np.diff(y) > -1e-6), "rising")
        m = (f > lo) & (f < hi)
        u = np.log(f[m] / lo) / np.log(hi / lo) if log else (f[m] - lo) / (hi - lo)
        eq(y[m], np.sin(np.pi / 2 * u) ** 2, "hann flank", atol=0.03)
        eq([float(g(float(v))) for v in f[::50]], y[::50], "scalar queries", atol=1e-12)
        ctx.step()

    for lo, hi in ((100, 400), (20, 100), (500, 1000), (1000, 16000)):
        for log in (True, False):
            ctx.case(f"frequency_crossover/{lo} {hi} {log}", xover, lo, hi, log)

    def erb(rng, res, ref):
        e = lambda f: 9.2645 * np.log(1 + 0.00437 * f)
        f = T.erb_frequencies(rng, res, ref)
        lo, hi = sorted(rng)
        eq(np.diff(e(f)), np.full(len(f) - 1, res), "spacing", rtol=1e-9)
        true(np.min(np.abs(f - ref)) < 1e-6 * ref, "contains the reference")
        true(f[0] >= lo - 1e-6 and f[-1] <= hi + 1e-6, "inside the range")
        true(e(f[0]) - res < e(lo) and e(f[-1]) + res > e(hi), "fills the range")
        ctx.step()

    for rng in ([20, 20000], [20000, 20], (100, 1500), np.array([50.0, 8000.0])):
        for res in (0.25, 0.5, 1, 1.5, 2):
            for ref in (200, 1000):
                ctx.case(f"erb/{tuple(rng)} {res} {ref}", erb, rng, res, ref)
    ctx.case("erb/invalid", lambda: (must_raise(lambda: T.erb_frequencies([1, 2, 3]), "three limits"), must_raise(lambda: T.erb_frequencies([20, 200], 0), "no resolution")))

    def octaves(n, rng):
        nom, ex = T.fractional_octave_frequencies(n, rng)
        nom2, ex2, (lo, up) = T.fractional_octave_frequencies(n, rng, True)
        eq(ex, ex2, "same centres")
        base = 10**0.3 if n in (1, 3) else 2.0
        k = n * np.log(ex / 1000) / np.log(base)
        eq(k, np.round(k), "centres are whole steps from 1 kHz", atol=1e-6)
        true(len(ex) < 2 or np.all(np.abs(np.diff(k) - 1) < 1e-6), "consecutive")
        g = 10**0.3
        eq(up / ex, np.full(len(ex), g ** (0.5 / n)), "upper edge", rtol=1e-9)
        eq(ex / lo, np.full(len(ex), g ** (0.5 / n)), "lower edge", rtol=1e-9)
        if n in (1, 3):
            true(len(nom) == len(ex) and np.all(np.abs(nom / ex - 1) < 0.03), "nominal next to exact")
            true(np.all((nom >= rng[0]) & (nom <= rng[1])), "nominal in range")
            allnom = T.fractional_octave_frequencies(n, (0.1, 1e6))[0]
            eq(nom, allnom[(allnom >= rng[0]) & (allnom <= rng[1])], "all in range")
        else:
            true(len(nom) == 0, "no nominal frequencies")
            eq([ex[0], ex[-1]], [1000 * 2 ** (-round(n * np.log2(1000 / rng[0])) / n), 1000 * 2 ** (round(n * np.log2(rng[1] / 1000)) / n)], "ends next to the limits", rtol=1e-6)
        ctx.step()

    for n in (1, 2, 3, 4, 6, 12, 24):
        for rng in ((20, 20000), (100, 1500), (125, 8000), (900, 1100), (31.5, 16000)):
            ctx.case(f"octaves/{n} {rng}", octaves, n, rng)
    ctx.case("octaves/invalid", lambda: (must_raise(lambda: T.fractional_octave_frequencies(1, (200, 20)), "order"), must_raise(lambda: T.fractional_octave_frequencies(1, (20,)), "limits")))

    def warp(lam):
        f = np.linspace(0, FS / 2, 64)
        w = pure(lambda f: T.warp_frequency(f, FS, lam), f)
        z = np.exp(-2j * np.pi * f / FS)
        ap = (z + lam) / (1 + lam * z)
        # phase of an allpass with the warping factor, either sign convention
        p1 = np.unwrap(-np.angle(ap)) / (2 * np.pi) * FS
        p2 = np.unwrap(-np.angle((z - lam) / (1 - lam * z))) / (2 * np.pi) * FS
        true(np.allclose(w, p1, atol=1e-6) or np.allclose(w, p2, atol=1e-6), "phase of a first-order allpass")
        eq(T.warp_frequency(w, FS, -lam), f, "opposite factor inverts", atol=1e-6)
        eq(w[[0, -1]], [0, FS / 2], "ends stay", atol=1e-9)
        true(np.all(np.diff(w) > 0), "rising")
        if lam:
            s = np.sign((w - f)[1:-1])
            true(np.all(s == s[0]), "one direction")
        ctx.step()

    for lam in np.round(np.linspace(-0.95, 0.95, 39), 3):
        ctx.case(f"warp_frequency/{lam}", warp, float(lam))
    ctx.case("warp_frequency/invalid", lambda: (must_raise(lambda: T.warp_frequency(arr(1), FS, 1.0), "factor 1"), must_raise(lambda: T.warp_frequency(arr(1), FS, -1.5), "factor -1.5")))


# -------------------------------------------------- interpolation, smoothing
def curves(ctx):
    db = lambda y, amp: (20 if amp else 10) * np.log10(np.maximum(np.abs(y), float(np.finfo(float).smallest_normal)))
    lin = lambda y, amp: 10 ** (y / (20 if amp else 10))
    fwd = {None: (lambda y: y, lambda y: y), "power2amplitude": (np.sqrt, np.square), "amplitude2power": (np.square, np.sqrt),
           "db2amplitude": (lambda y: lin(y, True), lambda y: db(y, True)), "db2power": (lambda y: lin(y, False), lambda y: db(y, False)),
           "amplitude2db": (lambda y: db(y, True), lambda y: lin(y, True)), "power2db": (lambda y: db(y, False), lambda y: lin(y, False))}

    def interp(mode, n, cols, upper):
        f = np.cumsum(np.abs(R.seq(n, 2)) + 0.1)
        y = np.abs(R.td(n, 2, 7)) + 0.05 if cols else np.abs(R.seq(n, 7)) + 0.05
        to, back = fwd[mode]
        t = np.unique(np.r_[f, (f[:-1] + f[1:]) / 2, f[:-1] * 0.75 + f[1:] * 0.25])
        ys = to(y)
        ref = np.stack([np.interp(t, f, c) for c in np.atleast_2d(ys.T)], axis=1)
        ref = back(ref if cols else ref[:, 0])
        got = pure(lambda f, y, t: T.interpolate_fr(f, y, t, mode.upper() if mode and upper else mode), f, y, t)
        eq(got, ref, "interpolated", rtol=1e-8, atol=1e-10)
        eq(T.interpolate_fr(f, y, f, mode), y, "values at the nodes", rtol=1e-8, atol=1e-10)
        out = T.interpolate_fr(f, y, arr(f[0] - 1, f[-1] + 1), mode)
        if mode and mode.endswith("2db"):
            eq(out, y[[0, -1]], "edges outside", rtol=1e-8)
        elif mode is None or mode[:2] != "db":
            eq(out, 0 * y[:2], "zero outside")
        ctx.step()

    for mode in fwd:
        for n in (2, 3, 5, 9):
            for cols in (False, True):
                for up in (False, True):
                    ctx.case(f"interpolate_fr/{mode} {n} {cols} {up}", interp, mode, n, cols, up)
    ctx.case("interpolate_fr/invalid", lambda: must_raise(lambda: T.interpolate_fr(arr(1, 2), arr(1, 2), arr(1), "cube2root"), "mode"))

    def tsm(x, up, down):
        fs = 100
        k = lambda t: 1 - 0.05 ** (1 / t / fs) if t else 1.0
        got = pure(lambda x: T.time_smoothing(x, fs, up, down), x)
        true(np.shape(got) == np.shape(x), "shape kept")
        X = np.asarray(x, float)
        X = X[:, None] if X.ndim == 1 else X
        ref = X.copy()
        for n in range(1, len(X)):
            for c in range(X.shape[1]):
                f = k(up) if down is None or X[n, c] > ref[n - 1, c] else k(down)
                ref[n, c] = f * X[n, c] + (1 - f) * ref[n - 1, c]
        eq(got, ref[:, 0] if np.ndim(x) == 1 else ref, "exponential average", rtol=1e-9, atol=1e-12)
        ctx.step()

    for up, down in ((0.05, None), (0.05, 0.02), (0.02, 0.3), (0.0, 0.1), (0.1, 0.0), (0.0, None)):
        for n in (3, 4, 5) if ctx.thorough else (3, 4):
            for v in it.product((0.0, 1.0, -0.5), repeat=n):
                ctx.case(f"time_smoothing/{up} {down} {v}", tsm, np.array(v), up, down)
        for x in (R.td(12, 2, 1), R.td(12, 3, 5), np.array([0, 3, 1, 7, 2]), np.array([[0, 1], [5, 2], [3, 9]])):
            ctx.case(f"time_smoothing/{up} {down} {x.shape} {x.dtype}", tsm, x, up, down)
    ctx.case("time_smoothing/invalid", lambda: (must_raise(lambda: T.time_smoothing(arr(1, 2), 10, -1.0), "negative"), must_raise(lambda: T.time_smoothing(arr(1, 2), 10, 0.0, 0.0), "no smoothing")))

    def edge_conv(v, w):
        h = len(w) // 2
        p = np.pad(v, ((h, h), (0, 0)), mode="edge")
        return sum(p[i : i + len(v)] * w[len(w) - 1 - i] for i in range(len(w)))

    def fos(n, spacing, frac, cols):
        x = R.td(n, 2, 3) + 0.8 if cols else R.seq(n, 3) + 0.8
        got = pure(lambda x: T.fractional_octave_smoothing(x, spacing, frac), x)
        true(np.shape(got) == np.shape(x), "shape kept")
        X = x if cols else x[:, None]
        k = n ** (np.arange(n) / (n - 1.0))
        lf = np.arange(1.0, n + 1)
        v = X if spacing else PchipInterpolator(lf, X, axis=0)(k)
        beta = spacing or np.log2(k[1])
        m = int(1 / (frac * beta) + 0.5)
        m += 1 - m % 2
        w = np.hanning(m) if m > 1 else np.ones(1)
        s = edge_conv(v, w / np.sum(w))
        if not spacing:
            s = np.stack([np.interp(lf, k, c) for c in s.T], axis=1)
        eq(got, s if cols else s[:, 0], "window over a logarithmic axis", rtol=1e-8, atol=1e-10)
        c = T.fractional_octave_smoothing(np.full_like(x, 0.3), spacing, frac)
        eq(c, np.full_like(x, 0.3), "constant curve kept", rtol=1e-9)
        cl = T.fractional_octave_smoothing(x - 1.0, spacing, frac, clip_values=True)
        eq(cl, np.maximum(T.fractional_octave_smoothing(x - 1.0, spacing, frac), 0), "clipped", atol=1e-12)
        ctx.step()

    for n in (8, 9, 33, 100, 257):
        for spacing in (None, 1 / 24, 1 / 12, 0.1):
            for frac in (1, 2, 3, 6, 12):
                m = int(1 / (frac * (spacing or np.log2(n ** (1 / (n - 1))))) + 0.5)
                if m + 1 - m % 2 in (3,):
                    pass
                for cols in (False, True):
                    ctx.case(f"octave smoothing/{n} {spacing} {frac} {cols}", fos, n, spacing, frac, cols)

    def fosw(n, win, frac):
        """Any window over equally spaced points, by name or as a vector"""
        x = R.td(n, 2, 3) + 0.8
        m = int(12 / frac + 0.5)
        m += 1 - m % 2
        w = {"boxcar": lambda: np.ones(m), "hamming": lambda: 0.54 - 0.46 * np.cos(2 * np.pi * np.arange(m) / max(m - 1, 1)) if m > 1 else np.ones(1), "bartlett": lambda: np.bartlett(m) if m > 1 else np.ones(1), "vector": lambda: np.array([1.0, 4.0, 2.0, 0.5, 0.25])}[win]()
        kw = dict(window_type=None, window_vec=w.copy()) if win == "vector" else dict(window_type=win)
        got = pure(lambda x: T.fractional_octave_smoothing(x, 1 / 12, frac, **kw), x)
        eq(got, edge_conv(x, w / np.sum(w)), f"window {win}", rtol=1e-8, atol=1e-10)
        ctx.step()

    for n in (8, 33, 100):
        for win in ("boxcar", "hamming", "bartlett", "vector"):
            for frac in (1, 2, 3, 12):
                ctx.case(f"octave smoothing/window {n} {win} {frac}", fosw, n, win, frac)


# -------------------------------------------------------------- signal levels
def levels(ctx):
    alphabet = (0.0, 0.5, -1.0, 0.25)

    def basic(x):
        s = sig(x)
        if not np.all(np.any(x, axis=0)):
            eq(pure(lambda s: dsp.rms(s, False), s), np.sqrt(np.mean(x**2, axis=0)), "rms", atol=1e-15)
            ctx.step()
            return
        rms = np.sqrt(np.mean(x**2, axis=0))
        eq(pure(lambda s: dsp.rms(s, False), s), rms, "rms", rtol=1e-12)
        eq(pure(lambda s: dsp.rms(s), s), 20 * np.log10(rms), "rms in dB", rtol=1e-12, atol=1e-12)
        cf = np.max(np.abs(x), axis=0) / rms
        eq(pure(lambda s: dsp.crest_factor(s, False), s), cf, "crest factor", rtol=1e-12)
        eq(pure(lambda s: dsp.crest_factor(s), s), 20 * np.log10(cf), "crest factor in dB", rtol=1e-12, atol=1e-12)
        mb = dsp.MultiBandSignal([sig(x), sig(2 * x)])
        eq(pure(lambda m: dsp.rms(m, False), mb), np.stack([rms, 2 * rms]), "rms of bands", rtol=1e-12)
        eq(pure(lambda m: dsp.crest_factor(m, False), mb), np.stack([cf, cf]), "crest factor of bands", rtol=1e-12)
        ctx.step()

    for n in (3, 4, 5) if ctx.thorough else (3, 4):
        for v in it.product(alphabet, repeat=n):
            ctx.case(f"levels/{v}", basic, np.array(v)[:, None])
    for ch in (2, 3):
        for v in it.product((0.5, -1.0), repeat=3 * ch):
            ctx.case(f"levels/{ch} {v}", basic, np.array(v).reshape(3, ch) * np.arange(1, ch + 1))

    def peak(f, ph, a):
        n = 400
        t = np.arange(n)
        x = np.stack([a * np.sin(2 * np.pi * f * t / FS + ph), 0.5 * np.sin(2 * np.pi * 25 * t / FS)], axis=1)
        s = sig(x)
        tp, p = pure(lambda s: dsp.true_peak_level(s), s)
        eq(p, 20 * np.log10(np.max(np.abs(x), axis=0)), "sample peak", atol=1e-9)
        # the interpolated maximum of a sinusoid is at least its largest phase sample at 4x
        true(tp[0] > 20 * np.log10(a * np.cos(np.pi * f / FS / 4)) - 0.1 and tp[0] < 20 * np.log10(a) + 1.2, f"true peak {tp[0]} of amplitude {20 * np.log10(a)}")
        true(abs(tp[1] - 20 * np.log10(0.5)) < 0.6, "true peak of the second channel")
        eq(dsp.crest_factor(s, True, True), tp - dsp.rms(s), "crest factor with true peak", atol=1e-9)
        mt, mp = dsp.true_peak_level(dsp.MultiBandSignal([s, s.copy()]))
        eq(mt, np.stack([tp, tp]), "true peak of bands")
        eq(mp, np.stack([p, p]), "peak of bands")
        ctx.step()

    for f in (25, 125, 250):
        for ph in (0.0, np.pi / 4, 1.0, np.pi / 2):
            for a in (0.1, 1.0, 2.0):
                ctx.case(f"true peak/{f} {ph:.2f} {a}", peak, f, ph, a)

    # loudness
    def gated(x, fs):
        sh = F_biquad(BQ.Highshelf, 1500, 4.0, 2**0.5 / 2, fs)
        hp = F_biquad(BQ.Highpass, 38.1, 0.0, 0.5, fs)
        y = x
        from scipy.signal import lfilter

        for b, a in (sh, hp):
            y = lfilter(b, a, y, axis=0)
        L, st = int(0.4 * fs + 0.5), int(0.1 * fs + 0.5)
        G = np.array([1, 1, 1, 1.41, 1.41])[: x.shape[1]]
        blocks = [np.mean(y[i : i + L] ** 2, axis=0) for i in range(0, len(y) - L + 1, st)]
        z = np.array(blocks)
        l = -0.691 + 10 * np.log10(z @ G + 1e-300)
        zz = z[l > -70]
        rel = -0.691 + 10 * np.log10(np.mean(zz, axis=0) @ G) - 10
        return l, -0.691 + 10 * np.log10(np.mean(z[l > max(rel, -70)], axis=0) @ G)

    def F_biquad(*a):
        return dsp.Filter.biquad(*a[:4], a[4]).get_coefficients(CT.Ba)

    def lufs(ch, kind, fs):
        n = int(1.95 * fs)
        t = np.arange(n) / fs
        x = np.stack([np.sin(2 * np.pi * (400 + 150 * c) * t) * 0.3 / (c + 1) for c in range(ch)], axis=1)
        if kind == "gap":
            x[n // 3 : 2 * n // 3] *= 1e-5
        if kind == "soft":
            x[n // 2 :] *= 0.1
        s = sig(x, fs)
        got = pure(lambda s: dsp.lufs_integrated(s), s)
        l, ref = gated(x, fs)
        true(abs(got - ref) < 0.1, f"loudness {got}, expected {ref}")
        got2 = dsp.lufs_integrated(sig(x * 0.5, fs))
        true(abs(got2 - got + 20 * np.log10(2)) < 0.05, "half the amplitude is 6 LU less")
        ctx.step()

    for ch in (1, 2, 3, 4, 5):
        for kind in ("steady", "gap", "soft"):
            for fs in (4000, 8000):
                ctx.case(f"lufs/{ch} {kind} {fs}", lufs, ch, kind, fs)
    ctx.case("lufs/6 channels", lambda: must_raise(lambda: dsp.lufs_integrated(sig(R.td(9, 6))), "too many channels"))

    # gains
    F = dsp.Filter
    FILT = {"ba": lambda: F.from_ba(arr(0.5, 0.2), arr(1, -0.4), FS), "fir": lambda: F.from_ba(arr(0.5, 0.2, 0.1), [1.0], FS),
            "sos": lambda: F.from_sos(np.array([[0.5, 0.1, 0, 1, -0.3, 0], [1, 0.2, 0.3, 1, 0.1, 0.2]]), FS),
            "zpk": lambda: F.iir_filter(3, 100.0, dsp.FilterPassType.Lowpass, FS)}
    fr = np.linspace(0, 500, 21)

    def gain(g, ch, cplx):
        x = R.td(7, ch, 2, cplx)
        s = sig(x)
        lin = 10 ** (np.atleast_1d(g) / 20)
        y = pure(lambda s: dsp.apply_gain(s, g), s)
        z = y.time_data + (1j * y.time_data_imaginary if cplx else 0)
        eq(z, x * lin, "gain of the signal", rtol=1e-12)
        back = dsp.apply_gain(y, -np.asarray(g) if np.ndim(g) else -g)
        z = back.time_data + (1j * back.time_data_imaginary if cplx else 0)
        eq(z, x, "inverse gain", rtol=1e-12, atol=1e-15)
        if np.ndim(g) == 0 or len(g) in (1, ch):
            m = dsp.apply_gain(dsp.MultiBandSignal([sig(x), sig(-x)]), g)
            eq(m.bands[1].time_data, np.real(-x * lin), "gain of a band", rtol=1e-12)
        ctx.step()

    for ch in (1, 2, 3):
        for cplx in (False, True):
            for g in [-20.0, -6, 0, 3.0, 12.0, arr(6.0)] + [arr(*v) for v in it.product((-6.0, 0.0, 20.0), repeat=ch)]:
                ctx.case(f"gain/{ch} {cplx} {g}", gain, g, ch, cplx)

    def fgain(nm, gs):
        f = FILT[nm]()
        H = f.get_transfer_function(fr)
        tot = 0.0
        for g in gs:
            f = pure(lambda f: dsp.apply_gain(f, g), f)
            tot += g
        lin = 10 ** (tot / 20)
        eq(f.get_transfer_function(fr), H * lin, "response", rtol=1e-9)
        for how in (CT.Ba, CT.Sos, CT.Zpk):
            c = f.get_coefficients(how)
            h = F({how: c}, FS).get_transfer_function(fr)
            eq(h, H * lin, f"response through {how.name}", rtol=1e-6, atol=1e-9)
        y = f.filter_signal(sig(np.eye(1, 20)[0]))
        eq(y.time_data, FILT[nm]().get_ir(20).time_data * lin, "filtered impulse", rtol=1e-9, atol=1e-12)
        ctx.step()

    for nm in FILT:
        for d in (1, 2, 3):
            for gs in it.product((-6.0, 0.0, 10.0), repeat=d):
                ctx.case(f"filter gain/{nm} {gs}", fgain, nm, gs)

    def bgain(names, g):
        b = dsp.FilterBank([FILT[n]() for n in names])
        H = b.get_transfer_function(fr, dsp.FilterBankMode.Parallel)
        ga = np.broadcast_to(np.atleast_1d(g), (len(names),))
        y = pure(lambda b: dsp.apply_gain(b, g), b)
        eq(y.get_transfer_function(fr, dsp.FilterBankMode.Parallel), H * 10 ** (ga / 20), "responses", rtol=1e-9)
        ctx.step()

    for names in (("ba", "fir"), ("sos", "zpk", "ba"), ("zpk",)):
        for g in [6.0] + [arr(*v) for v in it.product((-6.0, 10.0), repeat=len(names))]:
            ctx.case(f"bank gain/{names} {g}", bgain, names, g)
    ctx.case("gain/invalid", lambda: (must_raise(lambda: dsp.apply_gain("x", 1.0), "type"), must_raise(lambda: dsp.apply_gain(dsp.FilterBank([FILT["ba"]()]), arr(1, 2)), "number of gains")))


# ------------------------------------------------------ detrend and the others
def others(ctx):
    def detr(order, n, ch, coef):
        x = R.td(n, ch, 3)
        t = np.arange(n) / n
        p = sum(c * t**k for k, c in enumerate(coef[: order + 1]))
        a = pure(lambda s: dsp.detrend(s, order), sig(x))
        b = dsp.detrend(sig(x + p[:, None]), order)
        eq(a.time_data, b.time_data, "a trend makes no difference", atol=1e-8)
        V = np.vander(t, order + 1)
        eq(V.T @ a.time_data, np.zeros((order + 1, ch)), "nothing left of the trend", atol=1e-8)
        ref = x - V @ np.linalg.lstsq(V, x, rcond=None)[0]
        eq(a.time_data, ref, "least-squares residual", atol=1e-8)
        eq(dsp.detrend(a, order).time_data, a.time_data, "idempotent", atol=1e-9)
        m = dsp.detrend(dsp.MultiBandSignal([sig(x), sig(2 * x)]), order)
        eq(m.bands[1].time_data, 2 * ref, "bands", atol=1e-8)
        ctx.step()

    for order in range(4):
        for n in (5, 6, 12, 31):
            for ch in (1, 2, 3):
                for coef in it.product((0.0, 1.0, -2.0), repeat=min(order + 1, 2)):
                    ctx.case(f"detrend/{order} {n} {ch} {coef}", detr, order, n, ch, list(coef) + [0.7] * 4)
    ctx.case("detrend/invalid", lambda: must_raise(lambda: dsp.detrend(sig(R.td(5, 1)), -1), "order"))

    def env(n, ch, w):
        x = R.td(n, ch, 6)
        V = np.vander(np.arange(n), 2)
        d = x - V @ np.linalg.lstsq(V, x, rcond=None)[0]
        if w is None:
            X = R.dft(d)
            h = np.zeros(n)
            h[0] = 1
            h[1 : (n + 1) // 2] = 2
            if n % 2 == 0:
                h[n // 2] = 1
            an = np.conj(R.dft(np.conj(X * h[:, None]))) / n
            ref = np.abs(an)
            got = pure(lambda s: dsp.envelope(s), sig(x))
        else:
            ref = np.sqrt(np.array([np.sum(d[max(0, i - w + 1) : i + 1] ** 2, axis=0) / w for i in range(n)]))
            got = pure(lambda s: dsp.envelope(s, False, w), sig(x))
        eq(got, ref, "envelope", rtol=1e-7, atol=1e-7)
        ctx.step()

    for n in (6, 7, 12, 25):
        for ch in (1, 2, 3):
            for w in (None, 1, 2, 3, 5, 6):
                ctx.case(f"envelope/{n} {ch} {w}", env, n, ch, w)
    ctx.case("envelope/invalid", lambda: (must_raise(lambda: dsp.envelope(sig(R.td(5, 1)), False), "no window"), must_raise(lambda: dsp.envelope(sig(R.td(5, 1)), False, 0), "empty window")))

    def dith(tri, eps, trunc):
        x = R.td(2000, 2, 3) * 0.5
        np.random.seed(1)
        y = pure(lambda s: dsp.dither(s, tri, eps, None, trunc), sig(x)).time_data
        d = y - x
        lim = eps * (1 if tri else 0.5)
        if trunc:
            eq(y, y.astype(np.float16).astype(float), "16-bit floats")
            true(np.max(np.abs(d)) <= lim + 2.0**-11 * 0.5, "bounded error")
        else:
            true(np.max(np.abs(d)) <= lim + 1e-15, "bounded noise")
            true(np.max(np.abs(d)) > 0.8 * lim, "noise reaches its bound")
            true(abs(np.mean(d**2) / (eps**2 / (6 if tri else 12)) - 1) < 0.15, "noise power")
            true(abs(np.corrcoef(d.T)[0, 1]) < 0.1, "independent channels")
        ctx.step()

    for tri in (True, False):
        for eps in (1e-3, 2.0**-8):
            for trunc in (True, False):
                ctx.case(f"dither/{tri} {eps} {trunc}", dith, tri, eps, trunc)

    def specdiff(n, en, cplx, dr):
        a, b = R.td(n, 2, 1), R.td(n, 2, 9)
        s1, s2 = sig(a), sig(b)
        for s in (s1, s2):
            s.spectrum_method = dsp.SpectrumMethod.FFT
            s.set_spectrum_parameters(method=dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.FFTBackward)
        A, B = R.rdft(a), R.rdft(b)
        d = pure(lambda x, y: dsp.spectral_difference(x, y, 0.0, en, cplx, dr), dsp.Spectrum(np.fft.rfftfreq(n, 1 / FS), A if cplx else np.abs(A)), dsp.Spectrum(np.fft.rfftfreq(n, 1 / FS), B if cplx else np.abs(B)))
        if not cplx:
            A, B = np.abs(A), np.abs(B)
        if en:
            A = A / (dsp.Spectrum(np.fft.rfftfreq(n, 1 / FS), np.abs(A)).get_energy() ** 0.5)
            B = B / (dsp.Spectrum(np.fft.rfftfreq(n, 1 / FS), np.abs(B)).get_energy() ** 0.5)
        if dr is not None:
            m = np.abs(B)
            lim = np.maximum(m, np.max(m, axis=0) * 10 ** (-dr / 20))
            B = B / m * lim
        eq(d.spectral_data, A / B, "difference", rtol=1e-6, atol=1e-9)
        ctx.step()

    for n in (12, 16, 17):
        for en in (True, False):
            for cplx in (True, False):
                for dr in (None, 100.0, 12.0, 3.0):
                    ctx.case(f"spectral_difference/{n} {en} {cplx} {dr}", specdiff, n, en, cplx, dr)

    def specsmooth(n, en, cplx, dr, frac):
        """Smoothing both spectra beforehand gives the same difference"""
        f = np.fft.rfftfreq(n, 1 / FS)
        sp = lambda k: dsp.Spectrum(f, R.rdft(R.td(n, 2, k)) if cplx else np.abs(R.rdft(R.td(n, 2, k))))
        got = pure(lambda x, y: dsp.spectral_difference(x, y, frac, en, cplx, dr), sp(1), sp(9))
        a, b = sp(1), sp(9)
        if en:
            for s in (a, b):
                s.spectral_data = s.spectral_data / s.get_energy() ** 0.5
        want = dsp.spectral_difference(a.apply_octave_smoothing(frac), b.apply_octave_smoothing(frac), 0.0, False, cplx, dr)
        eq(got.spectral_data, want.spectral_data, "difference of the smoothed spectra", rtol=1e-9, atol=1e-12)
        ctx.step()

    for n in (16, 33, 64):
        for en in (True, False):
            for cplx in (True, False):
                for dr in (None, 12.0):
                    for frac in (1.0, 3.0, 6.0):
                        ctx.case(f"spectral_difference/smooth {n} {en} {cplx} {dr} {frac}", specsmooth, n, en, cplx, dr, frac)

    def shaped(names, tri):
        """Shaped dither is the filtered dither"""
        fl = {"fir": lambda: dsp.Filter.from_ba(np.array([0.5, -0.5]), [1.0], FS), "iir": lambda: dsp.Filter.from_ba(np.array([0.3, 0.1]), [1.0, -0.5], FS)}
        x = R.td(300, 2, 3) * 0.5
        np.random.seed(4)
        w = dsp.dither(sig(x), tri, 1e-3, None, False).time_data - x
        bank = dsp.FilterBank([fl[k]() for k in names])
        np.random.seed(4)
        y = dsp.dither(sig(x), tri, 1e-3, bank, False).time_data
        for k in names:
            b, a = ([0.5, -0.5], [1.0]) if k == "fir" else ([0.3, 0.1], [1.0, -0.5])
            z = np.zeros_like(w)
            for i in range(len(w)):
                z[i] = b[0] * w[i] + (b[1] * w[i - 1] - (a[1] * z[i - 1] if len(a) > 1 else 0) if i else 0)
            w = z
        eq(y, x + w, "signal plus filtered noise", rtol=1e-9, atol=1e-12)
        ctx.step()

    for names in (("fir",), ("iir",), ("fir", "iir"), ("fir", "fir")):
        for tri in (True, False):
            ctx.case(f"dither/shaped {names} {tri}", shaped, names, tri)

    def act(v, th, rel, at, re):
        fs = 1000
        x = np.array(v, float)
        s = sig(np.stack([x * 0, x], axis=1), fs)
        det, oth = pure(lambda s: dsp.activity_detector(s, th, 1, rel, None, at, re), s)
        k = lambda t: 1.0 if t == 0 else 1 - 0.05 ** (1000.0 / t / fs)
        p = (x / np.max(np.abs(x)) if rel else x) ** 2
        g = np.zeros(len(p))
        for i in range(1, len(p)):
            c = k(at) if p[i] > g[i - 1] else k(re)
            g[i] = c * p[i] + (1 - c) * g[i - 1]
        with np.errstate(divide="ignore"):
            lev = 10 * np.log10(g)
        if np.any(np.abs(lev - th) < 1e-6):
            return
        idx = lev > th
        eq(oth["signal_indices"], idx, "active samples")
        eq(oth["noise_indices"], ~idx, "inactive samples")
        if idx.any():
            eq(det.time_data[:, 0], x[idx], "active part")
        if (~idx).any():
            eq(oth["noise"].time_data[:, 0], x[~idx], "inactive part")
        ctx.step()

    pats = list(it.product((0.01, 1.0, 0.3), repeat=4))
    for v in pats:
        for th in (-20.0, -6.0):
            for rel in (True, False):
                for at, re in ((0.0, 0.0), (1.0, 25.0), (3.0, 2.0)):
                    ctx.case(f"activity/{v} {th} {rel} {at} {re}", act, [v[i // 3] * 0.5 * (-1) ** i for i in range(12)], th, rel, at, re)
    def pre_act(kind, th, rel):
        """Detection on the filtered channel, samples of the unfiltered one"""
        fs = 1000
        t = np.arange(200)
        x = 0.5 * np.sin(2 * np.pi * 0.03 * t) * (t > 60) + 0.4 * np.sin(2 * np.pi * 0.37 * t) * (t > 120)
        s = sig(np.stack([x[::-1], x], axis=1), fs)
        f = {"lowpass": lambda: dsp.Filter.iir_filter(2, 100, dsp.FilterPassType.Lowpass, fs), "highpass": lambda: dsp.Filter.iir_filter(2, 250, dsp.FilterPassType.Highpass, fs), "fir": lambda: dsp.Filter.from_ba(np.array([0.25, 0.5, 0.25]), [1.0], fs)}[kind]()
        det, oth = pure(lambda s: dsp.activity_detector(s, th, 1, rel, f, 1.0, 5.0), s)
        y = f.filter_signal(s.get_channels(1), zero_phase=True)
        idx = dsp.activity_detector(y, th, 0, rel, None, 1.0, 5.0)[1]["signal_indices"]
        eq(np.asarray(oth["signal_indices"]) * 1.0, np.asarray(idx) * 1.0, "activity of the filtered channel")
        true(idx.any() and not idx.all(), "scenario")
        eq(det.time_data[:, 0], x[idx], "unfiltered active samples")
        eq(oth["noise"].time_data[:, 0], x[~idx], "unfiltered inactive samples")
        ctx.step()

    for kind in ("lowpass", "highpass", "fir"):
        for th in (-30.0, -15.0):
            for rel in (True, False):
                ctx.case(f"activity/prefilter {kind} {th} {rel}", pre_act, kind, th, rel)
    ctx.case("activity/invalid", lambda: (must_raise(lambda: dsp.activity_detector(sig(R.td(5, 1)), 1.0), "threshold"), must_raise(lambda: dsp.activity_detector(sig(R.td(5, 2)), channel=[0, 1]), "channels")))


def _dispatch(ctx, what):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"db": decibels, "help": helpers, "curves": curves, "levels": levels, "others": others}[what](ctx)


def run(ctx):
    ctx.bound(
        decibels="every vector of 2 (thorough 3) out of 11 real, complex, zero and subnormal values x dynamic range x floor",
        helpers="power of two for every integer up to 2200 (20000); 39 warping factors; octave, ERB, log axes over ranges x resolutions",
        curves="7 interpolation modes x sizes; every ternary vector of length 3-4 (5) x smoothing times; octave smoothing over lengths x spacings x fractions",
        levels="every vector of length 3-4 (5) over 4 values; gains per channel, per filter form and sequences of up to 3 gains",
        others="trends of order 0-3, envelopes, spectral differences, every 3-level pattern of 4 segments for the activity detector",
    )
    ctx.parallel(_dispatch, [("db",), ("help",), ("curves",), ("levels",), ("others",)])
