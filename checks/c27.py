"""C27 transforms: each against its defining sum on every small length and on
exhaustive grids of parameters; inverses, tones on every bin or note."""

import contextlib
import io
import itertools

import numpy as np
from scipy.signal import get_window, lfilter

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R
from mc import optional

TR = dsp.transforms
S = dsp.SpectrumScaling
TINY = float(np.finfo(float).smallest_normal)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def sig(x, fs=1000, cls=None):
    return (cls or dsp.Signal).from_time_data(np.array(x, dtype=float), fs, constrain_amplitude=False)


def shape(n, ch):
    return n >= ch  # fewer samples than channels are transposed by the setter


# ----------------------------------------------------------------- Fourier sums
def fourier(ctx, n, ch):
    fs = 100
    x = R.td(n, ch, n)
    k = np.arange(n)
    for name, f in (("grid", np.arange(n) * fs / n), ("odd", np.array([0.0, 3.3, -7.1, 49.9, 50.0, 111.1])), ("one", np.array([12.5])), ("int", np.array([5, 0, 33]))):
        def dft():
            want = np.exp(-2j * np.pi * np.outer(f, k) / fs) @ x
            eq(pure(TR.dft, sig(x, fs), f), want, "DFT", 1e-9, 1e-9)
        ctx.case(f"dft/{n}-{ch}-{name}", dft)
        ctx.state("dft", n, ch, name)
        ctx.step()

    F = np.exp(-2j * np.pi * np.outer(k, k) / n)

    def cepstrum():
        X = F @ x
        r = pure(lambda s: TR.cepstrum(s, False), sig(x, fs))
        eq(r, np.conj(F) @ np.log(np.abs(X)) / n, "real cepstrum", 1e-8, 1e-9)
        c = pure(lambda s: TR.cepstrum(s, True), sig(x, fs))
        eq(np.exp(F @ c), X, "exponential of the complex cepstrum", 1e-8, 1e-9)
        eq((F @ c).real, np.log(np.abs(X)), "log magnitude", 1e-8, 1e-9)
        for g in (0.1, 1.0, 5.0):
            c = TR.cepstrum(sig(g * x, fs), True)
            s = pure(lambda z: TR.from_complex_cepstrum(z, fs), c)
            eq(s.time_data / s.amplitude_scale_factor, g * x, f"inverse at gain {g}", 1e-8, 1e-9)
            same(s.sampling_rate_hz, fs, "rate")
    if (np.abs(F @ x) > 1e-9).all():
        ctx.case(f"cepstrum/{n}-{ch}", cepstrum)
        ctx.step()

    def hilbert():
        m = np.where(k == 0, 1, np.where(2 * k < n, 2, np.where(2 * k == n, 1, 0)))
        z = np.conj(F) @ (m[:, None] * (F @ x)) / n
        for cls in (dsp.Signal, dsp.ImpulseResponse):
            s = sig(x, fs, cls)
            h = pure(TR.hilbert, s)
            true(type(h) is cls, "type")
            eq(h.time_data, x, "real part", 1e-9, 1e-9)
            eq(h.time_data_imaginary, z.imag, "imaginary part", 1e-9, 1e-9)
        mb = dsp.MultiBandSignal([sig(x, fs), sig(-2 * x[::-1], fs)])
        h = pure(TR.hilbert, mb)
        eq(h.bands[0].time_data_imaginary, z.imag, "band 0", 1e-9, 1e-9)
        eq(h.bands[1].time_data, -2 * x[::-1], "band 1, real", 1e-9, 1e-9)
        eq(h.bands[1].time_data_imaginary, TR.hilbert(sig(-2 * x[::-1], fs)).time_data_imaginary, "band 1", 1e-9, 1e-9)
        for b in range(1, (n + 1) // 2):
            c = np.cos(2 * np.pi * b * k / n + 0.4)[:, None]
            eq(TR.hilbert(sig(c, fs)).time_data_imaginary, np.sin(2 * np.pi * b * k / n + 0.4)[:, None], f"bin {b}", 1e-9, 1e-9)
    ctx.case(f"hilbert/{n}-{ch}", hilbert)
    ctx.step()


def mid_side(ctx):
    for n in (2, 3, 9):
        def one():
            x = R.td(n, 2, n)
            ms = pure(lambda s: TR.stereo_mid_side(s, True), sig(x))
            eq(ms.time_data, np.stack([(x[:, 0] + x[:, 1]) / 2, (x[:, 0] - x[:, 1]) / 2], axis=1), "mid, side")
            lr = pure(lambda s: TR.stereo_mid_side(s, False), sig(x))
            eq(lr.time_data, np.stack([x[:, 0] + x[:, 1], x[:, 0] - x[:, 1]], axis=1), "left, right")
            eq(TR.stereo_mid_side(ms, False).time_data, x, "inverse")
            eq(TR.stereo_mid_side(lr, True).time_data, x, "inverse")
        ctx.case(f"midside/{n}", one)
        ctx.step()
    for ch in (1, 3):
        ctx.case(f"midside/reject-{ch}", lambda: must_raise(lambda: TR.stereo_mid_side(sig(R.td(9, ch, 1)), True), "channels"))


# ---------------------------------------------------------------------- warping
def allpass_powers(lam, count, length):
    """Impulse responses of ((z^-1 - lam) / (1 - lam z^-1))^k by the recursion
    y[m] = lam y[m-1] + x[m-1] - lam x[m]"""
    h = np.zeros((count, length))
    h[0, 0] = 1
    for i in range(1, count):
        y = 0.0
        for m in range(length):
            y = lam * y + (h[i - 1, m - 1] if m else 0.0) - lam * h[i - 1, m]
            h[i, m] = y
    return h


def warping(ctx, n, thorough):
    for lam, ch in itertools.product((-0.9, -0.6, -0.1, 0.3, 0.75), (1, 2)):
        if not shape(n, ch):
            continue
        x = R.td(n, ch, n)
        A = allpass_powers(lam, n, 3 * n + 3)

        def warp():
            for cls in (dsp.Signal, dsp.ImpulseResponse):
                w = pure(lambda s: quiet(TR.warp, s, lam, False), sig(x, 1000, cls))
                true(type(w) is cls, "type")
                eq(w.time_data, A[:, :n].T @ x, "warped", 1e-9, 1e-9)
            for total in (1, n - 1, n, n + 3, 3 * n):
                if total < ch:
                    continue
                w = quiet(TR.warp, sig(x), lam, False, total).time_data
                m = min(n, total)
                eq(w, A[:m, :total].T @ x[:m], f"total length {total}", 1e-9, 1e-9)
            eq(quiet(TR.warp, sig(x), np.float64(lam), False).time_data, A[:, :n].T @ x, "numpy number", 1e-9, 1e-9)
        ctx.case(f"warp/{n}-{lam}-{ch}", warp)
        ctx.state("warp", n, lam, ch)
        ctx.step()

        def laguerre():
            # basis: sqrt(1 - l^2)/(1 + l z^-1) times powers of the allpass with -l
            h = np.zeros((n, 40 * n))
            y = np.sqrt(1 - lam**2) * (-lam) ** np.arange(40 * n)
            h[0] = y
            for i in range(1, n):
                z, prev = np.zeros_like(y), 0.0
                for m in range(len(y)):
                    prev = -lam * prev + (y[m - 1] if m else 0.0) + lam * y[m]
                    z[m] = prev
                h[i] = y = z
            w = pure(lambda s: TR.laguerre(s, lam), sig(x))
            eq(w.time_data, h[:, :n] @ x, "Laguerre", 1e-9, 1e-9)
            # enough coefficients carry the whole signal
            if abs(lam) <= 0.6 and n <= 9:
                big = np.zeros((40 * n, ch))
                big[:n] = x
                back = TR.laguerre(TR.laguerre(sig(big), lam), -lam).time_data
                eq(back, big, "inverse", 0, 1e-5)
                eq(np.sum(TR.laguerre(sig(big), lam).time_data ** 2, axis=0), np.sum(x**2, axis=0), "energy", 1e-6)
        ctx.case(f"laguerre/{n}-{lam}-{ch}", laguerre)
        ctx.step()

    def neutral():
        x = R.td(n, 1, n)
        eq(quiet(TR.warp, sig(x), 0.0, False).time_data, x, "warp by 0")
        eq(quiet(TR.warp, sig(x), 0, False).time_data, x, "warp by 0")
        eq(TR.laguerre(sig(x), 0.0).time_data, x, "Laguerre with 0")
    ctx.case(f"warp/neutral-{n}", neutral)

    def shift():
        for pre, other in itertools.product(range(n), (0, n // 2)):
            x = np.zeros((n, 2))
            x[pre:, 0] = 0.9 ** np.arange(n - pre)
            x[other:, 1] = 0.5 ** np.arange(n - other)
            y = np.stack([np.roll(x[:, 0], -max(pre - 1, 0)), np.roll(x[:, 1], -max(other - 1, 0))], axis=1)
            eq(quiet(TR.warp, sig(x), 0.5, True).time_data, quiet(TR.warp, sig(y), 0.5, False).time_data, f"start {pre}", 1e-9)
    if n >= 2:
        ctx.case(f"warp/shift-{n}", shift)


def warp_scales(ctx):
    x = 0.5 ** np.arange(20)[:, None]
    for fs in (8000, 16000, 44100, 48000, 96000):
        k = fs / 1e3
        bark = 1.0674 * np.sqrt(2 / np.pi * np.arctan(0.06583 * k)) - 0.1916
        erb = 0.7446 * np.sqrt(2 / np.pi * np.arctan(0.1418 * k)) + 0.03237
        for name, lam in (("bark", -bark), ("Bark-", bark), ("erb", -erb), ("erb-", erb)):
            def one():
                w, f = quiet(TR.warp, sig(x, fs), name, False)
                eq(f, lam, "factor", 1e-9)
                eq(w.time_data, quiet(TR.warp, sig(x, fs), lam, False).time_data, "signal", 1e-9)
            ctx.case(f"warp/{name}-{fs}", one)
            ctx.step()
    for bad in (1.0, -1.5, "mel", None):
        ctx.case(f"warp/reject-{bad}", lambda: must_raise(lambda: quiet(TR.warp, sig(x), bad, False), str(bad)))
    for bad in (1.0, -1.5):
        ctx.case(f"warp/reject-laguerre-{bad}", lambda: must_raise(lambda: TR.laguerre(sig(x), bad), str(bad)))
        ctx.case(f"warp/reject-filter-{bad}", lambda: must_raise(lambda: TR.warp_filter(dsp.Filter.from_ba([1, 0.5], [1, 0.2], 1000), bad), str(bad)))
    zs = dict(none=[], one=[0.4], pair=[0.5 + 0.6j, 0.5 - 0.6j], three=[-1, 0.3 + 0.1j, 0.3 - 0.1j])
    for (zn, z), (pn, p), lam, gain in itertools.product(zs.items(), zs.items(), (-0.7, 0.0, 0.4), (1.0, -0.25)):
        p = 0.9 * np.array(p)

        def filt():
            f = dsp.Filter.from_zpk(np.array(z), p, gain, 1000)
            w = pure(lambda q: TR.warp_filter(q, lam), f)
            same(w.sampling_rate_hz, 1000, "rate")
            z2, p2, k2 = w.get_coefficients(dsp.FilterCoefficientsType.Zpk)
            z1, p1, k1 = f.get_coefficients(dsp.FilterCoefficientsType.Zpk)
            om = np.linspace(0.1, 3, 23)
            u = np.exp(-1j * om)
            v = (u - lam) / (1 - lam * u)  # z^-1 of the original filter
            resp = lambda z, p, q: np.array([np.prod(1 - z * e) / np.prod(1 - p * e) for e in q])
            m = max(len(z1), len(p1))
            pad = lambda r: np.concatenate([r, np.zeros(m - len(r))])
            a, b = resp(pad(z2) if len(z2) < m else z2, p2, u), resp(z1, p1, v)
            ratio = a / b
            eq(ratio / ratio[0], np.ones(len(om)), "warped response up to a gain", 1e-7, 1e-7)
            eq(k2, k1, "gain stays", 1e-9)
            eq(np.sort(np.abs(p2))[::-1][: len(p1)].max(initial=0) < 1, True, "stable")
        ctx.case(f"warpfilter/{zn}-{pn}-{lam}-{gain}", filt)
        ctx.step()


# ------------------------------------------------------------- linear prediction
def yule_walker(x, order):
    n = len(x)
    r = np.array([x[: n - k] @ x[k:] / n for k in range(order + 1)])
    if r[0] == 0:
        return np.r_[1.0, np.zeros(order)], 0.0
    a = np.linalg.solve(r[np.abs(np.subtract.outer(np.arange(order), np.arange(order)))], -r[1:])
    return np.r_[1.0, a], r[0] + a @ r[1:]


def burg(x, order):
    f, b, a, v = x[1:], x[:-1], np.array([1.0]), np.mean(x**2)
    for _ in range(order):
        d = f @ f + b @ b
        k = -2 * f @ b / d if d > 0 else 0.0
        a = np.r_[a, 0] + k * np.r_[0, a[::-1]]
        f, b = (f + k * b)[1:], (b + k * f)[:-1]
        v *= 1 - k**2
    return a, v


def prediction(ctx, use_burg):
    for n, W, hop, order, ch, win in itertools.product((40, 49, 64), (16, 24), (None, 6, 16), (1, 2, 3, 5), (1, 2), (dsp.Window.Hann, dsp.Window.Boxcar)):
        x = R.td(n, ch, 3)
        x[25:, -1] = 0

        def one():
            s = sig(x)
            a, v = pure(lambda q: TR.lpc(q, order, W, False, use_burg, hop, win), s)
            step = W // 2 if hop is None else hop
            frames = -(-n // step)
            same(a.shape, (order + 1, frames, ch), "shape")
            same(v.shape, (frames, ch), "shape of the variances")
            w = get_window(win.to_scipy_format(), W)
            pad = np.concatenate([x, np.zeros((2 * W, ch))])
            for c, k in itertools.product(range(ch), range(frames)):
                fr = pad[k * step : k * step + W, c] * w
                wa, wv = (burg if use_burg else yule_walker)(fr, order)
                if not use_burg or np.sum(fr**2) > 1e-3:
                    eq(a[:, k, c], wa, f"coefficients of frame {k}", 1e-6, 1e-6)
                true(np.isfinite(a[:, k, c]).all(), f"frame {k} is not finite")
                eq(v[k, c], wv, f"variance of frame {k}", 1e-6, 1e-9)
            y = pure(lambda q: TR.lpc(q, order, W, True, use_burg, hop, win), s)
            same(y.time_data.shape, x.shape, "shape of the synthesis")
            true(np.isfinite(y.time_data).all(), "synthesis is not finite")
            same(y.sampling_rate_hz, 1000, "rate")
        ctx.case(f"lpc/{use_burg}-{n}-{W}-{hop}-{order}-{ch}-{win.name}", one)
        ctx.state("lpc", use_burg, n, W, hop, order, ch, win)
        ctx.step()
    # recover the generating filter
    for a0 in ([1, -0.9], [1, -1.2, 0.8], [1, 0.5, 0.3, -0.2]):
        def recover():
            x = lfilter([1], a0, np.random.RandomState(1).randn(20000))[:, None]
            a, v = TR.lpc(sig(x), len(a0) - 1, 20000, False, use_burg, 20000)
            eq(a[:, 0, 0], a0, "coefficients", 0, 0.05)
            eq(v[0, 0] / 0.375, 1.0, "variance", 0, 0.06)  # mean square of the window
        ctx.case(f"lpc/recover-{use_burg}-{a0}", recover)


# --------------------------------------------------------------------- features
def hz2mel(f):
    return 2595 * np.log10(1 + np.asarray(f) / 700)


def mel2hz(m):
    return 700 * (10 ** (np.asarray(m) / 2595) - 1)


def triangles(f, rng, nb, norm):
    m = np.linspace(*hz2mel(rng), nb + 2)
    i = [int(np.argmin(np.abs(f - b))) for b in mel2hz(m)]
    out = np.zeros((nb, len(f)))
    for k in range(nb):
        lo, mid, hi = i[k : k + 3]
        for q in range(lo, mid):
            out[k, q] = (q - lo) / (mid - lo)
        for q in range(mid, hi):
            out[k, q] = (hi - q) / (hi - mid)
        out[k, mid] = 1
        if norm:
            out[k] /= out[k].sum()
    return out, m[1:-1]


def mel(ctx):
    for bins, fs, nb, norm, rng in itertools.product((17, 33, 129), (1000, 8000, 48000), (1, 4, 10, 40), (True, False), (None, (0.05, 0.3), (0.4, 0.1))):
        f = np.linspace(0, fs / 2, bins)
        r = None if rng is None else [fs * rng[0], fs * rng[1]]

        def one():
            M, c = pure(lambda z: TR.mel_filterbank(z, r, nb, norm), f)
            W, m = triangles(f, (0, fs / 2) if r is None else sorted(r), nb, norm)
            eq(M, W, "filters", 1e-9, 1e-9)
            eq(c, m, "centre frequencies", 1e-9)
        ctx.case(f"mel/{bins}-{fs}-{nb}-{norm}-{rng}", one)
        ctx.state("mel", bins, fs, nb, norm, rng)
        ctx.step()
    f = np.linspace(0, 500, 33)
    for bad in ([0, 600], [-1, 100], [1, 2, 3]):
        ctx.case(f"mel/reject-{bad}", lambda: must_raise(lambda: TR.mel_filterbank(f, bad), str(bad)))


def dct2(x):
    n = len(x)
    k = np.arange(n)
    return np.tensordot(2 * np.cos(np.pi * np.outer(k, 2 * k + 1) / 2 / n), x, axes=(1, 0))


def features(ctx, sc, W):
    fs, n = 4000, 700
    x = R.td(n, 3, 5)
    t = np.arange(n) / fs
    x[:, 1] = np.sin(2 * np.pi * 440 * t)
    x[:, 2] *= np.exp(-t * 20)
    par = dict(window_length_samples=W, scaling=sc, overlap_percent=50)

    def power(s):
        tt, f, X = s.get_spectrogram()
        return tt, f, X if sc in (S.PowerSpectrum, S.PowerSpectralDensity) else np.abs(X) ** 2
    for given in (False, True):
        def one():
            s = sig(x, fs)
            q = s.copy()
            q.set_spectrogram_parameters(**par)
            tt, f, P = power(q)
            if not given:
                s = q
            g = dict(par) if given else None
            for nb, rng in itertools.product((5, 12, 40), (None, [100, 1500])):
                M, c = triangles(f, (0, fs / 2) if rng is None else rng, nb, True)
                want = 10 * np.log10(np.maximum(np.tensordot(M, P, axes=(1, 0)), TINY))
                a, b, L = pure(lambda z: TR.log_mel_spectrogram(z, 0, rng, nb, False, g), s)
                eq(a, tt, "times")
                eq(b, c, "mel frequencies", 1e-9)
                ok = want > -3000
                eq(L[ok], want[ok], "log mel spectrogram", 1e-8, 1e-8)
                if rng is None and nb == 40:
                    a, b, C = pure(lambda z: TR.mfcc(z, 0, None, False, g), s)
                    eq(b, c, "mel frequencies", 1e-9)
                    eq(C, np.abs(dct2(want)), "mfcc", 1e-7, 1e-6)
                elif rng is not None:
                    a, b, C = pure(lambda z: TR.mfcc(z, 0, M, False, g), s)
                    eq(a, tt, "times")
                    eq(C, np.abs(dct2(want)), "mfcc with own filters", 1e-7, 1e-6)
            if not given:
                for a4, comp in itertools.product((440, 415.3), (0.5, 3.0)):
                    a, C, Q = pure(lambda z: TR.chroma_stft(z, a4, comp), s)
                    eq(a, tt, "times")
                    fr = a4 * 2 ** ((np.arange(128) - 69) / 12)
                    pitch = np.stack([P[(f >= v * 2 ** (-1 / 24)) & (f < v * 2 ** (1 / 24))].sum(axis=0) for v in fr])
                    eq(Q, np.log(1 + comp * pitch), "pitch", 1e-9, 1e-12)
                    eq(C, np.log(1 + comp * np.stack([pitch[i::12].sum(axis=0) for i in range(12)])), "chroma", 1e-9, 1e-12)
        ctx.case(f"features/{sc.name}-{W}-{given}", one)
        ctx.state("features", sc, W, given)
        ctx.step()


def notes(ctx):
    """a tone on every semitone of three octaves lands in its pitch class"""
    fs, n = 8000, 8192
    t = np.arange(n) / fs
    for midi, a4 in itertools.product(range(60, 96), (440, 452)):
        def one():
            s = sig(np.sin(2 * np.pi * a4 * 2 ** ((midi - 69) / 12) * t)[:, None], fs)
            s.set_spectrogram_parameters(window_length_samples=2048)
            _, C, P = TR.chroma_stft(s, a4)
            k = C.shape[1] // 2
            same(int(np.argmax(C[:, k, 0])), midi % 12, "pitch class")
            same(int(np.argmax(P[:, k, 0])), midi, "pitch")
        ctx.case(f"notes/{midi}-{a4}", one)
        ctx.step()


# ---------------------------------------------------------------------- wavelets
def wavelets(ctx, interp):
    fs, n = 1000, 90
    x = R.td(n, 3, 8)
    x[:, 1] = np.cos(2 * np.pi * 110 * np.arange(n) / fs)
    for (b, h), scale in itertools.product(((1.0, None), (None, 2.0), (3.0, None)), (1.0, 0.5)):
        B = b if h is None else h**2 / np.log(2) / 4
        T = np.sqrt(B * np.log(1e5))
        wv = TR.MorletWavelet(b=b, h=h, scale=scale, interpolation=interp)
        step = 0.005
        g = np.arange(-T, T + step, step)
        base = np.exp(2j * np.pi / scale * g - g**2 / B) / np.sqrt(np.pi * B)
        freqs = np.array([40.0, 110.0, 230.0])

        def kernel(f):
            sc = 1 / scale / f * fs
            pos = np.arange(sc * (g[-1] - g[0]) + 1) / (sc * step)
            if interp:
                return np.interp(pos, np.arange(len(g)), base)[pos < len(g)]
            pos = pos.astype(int)
            return base[pos[pos < len(g)]]

        def one():
            gx, gb = wv.get_base_wavelet()
            eq(gx, g, "axis")
            eq(gb, base, "Morlet", 1e-9, 1e-12)
            eq(wv.get_center_frequency(), 1 / scale, "centre frequency")
            for f in freqs:
                k = kernel(f)
                got = wv.get_wavelet(f, fs)
                same(len(got), len(k), "length")
                eq(got[:-1], k[:-1], "wavelet", 1e-9, 1e-9)
                tt = -T + np.arange(len(k)) * scale * f / fs
                eq(got, np.exp(2j * np.pi / scale * tt - tt**2 / B) / np.sqrt(np.pi * B), "formula", 0, 2e-3 if interp else 0.08 / scale)
            many = wv.get_wavelet(freqs, fs)
            for f, w in zip(freqs, many):
                eq(w, wv.get_wavelet(f, fs), "several frequencies")
            for chan, cols in ((None, [0, 1, 2]), (1, [1]), ([2, 0], [2, 0])):
                C = pure(lambda s: TR.cwt(s, freqs, wv, chan), sig(x, fs))
                same(C.shape, (3, n, len(cols)), "shape")
                for i, f in enumerate(freqs):
                    k = np.array(wv.get_wavelet(f, fs))
                    k = k / np.abs(k).sum()
                    for c, col in enumerate(cols):
                        full = np.convolve(x[:, col], k)
                        st = (len(k) - 1) // 2
                        eq(C[i, :, c], full[st : st + n], f"coefficients at {f}", 1e-8, 1e-9)
            C = TR.cwt(sig(x, fs), freqs, wv)
            for norm in (False, True):
                Q = pure(lambda s: TR.cwt(s, freqs, wv, None, True, norm), sig(x, fs))
                d = np.empty_like(C)
                d[:, 1:-1] = (C[:, 2:] - C[:, :-2]) / 2
                d[:, 0], d[:, -1] = C[:, 1] - C[:, 0], C[:, -1] - C[:, -2]
                inst = np.abs(np.imag(d / C)) / 2 / np.pi * fs
                want = np.zeros_like(C)
                for i, t, c in itertools.product(range(3), range(n), range(3)):
                    k = np.argmin(np.abs(freqs - inst[i, t, c]))
                    if abs(freqs[k] - inst[i, t, c]) <= 0.05 * freqs[i]:
                        want[k, t, c] += C[i, t, c] * ((freqs[i] / fs) ** 1.5 if norm else 1)
                eq(Q, want, f"synchrosqueezed {norm}", 1e-8, 1e-9)
        ctx.case(f"cwt/{interp}-{b}-{h}-{scale}", one)
        ctx.state("cwt", interp, b, h, scale)
        ctx.step()

    def tone():
        wv = TR.MorletWavelet(b=2.0)
        m = 400
        t = np.arange(m) / fs
        for f, a in itertools.product((60.0, 100.0, 150.0), (1.0, 0.1)):
            C = TR.cwt(sig(a * np.cos(2 * np.pi * f * t)[:, None], fs), np.array([f / 2, f, 2 * f]), wv)
            eq(np.abs(C[1, 150:250, 0]), np.full(100, a / 2), f"tone at {f}", 0.02)
            true(np.abs(C[[0, 2], 150:250]).max() < 0.3 * a, "neighbours")
    ctx.case(f"cwt/tone-{interp}", tone)


def constant_q(ctx, fs, a4, octaves, bpo):
    o0, o1 = octaves
    lo = a4 * 2 ** (o0 - 4 - 9 / 12)
    count = (o1 - o0 + 1) * bpo
    top = a4 * 2 ** (o1 - 4 + 2 / 12)
    freqs = top * 2.0 ** (-np.arange(count)[::-1] / bpo)
    n = int(fs * 0.5)
    t = np.arange(n) / fs
    nyq = fs / int((fs // 2) / (top * 1.1)) / 2
    bins = range(0, count, 1 if bpo == 12 else 5)

    def vector():
        x = R.td(n, 2, 4)
        f, C = pure(lambda s: TR.vqt(s, None, 1, 50, list(octaves), bpo, a4), sig(x, fs))
        same(C.shape, (count, n, 2), "shape")
        eq(f, freqs, "frequencies", 1e-9)
        if bpo == 12:
            eq(f[0], lo, "C of the first octave", 1e-9)
        for chan, cols in ((1, [1]), ([1, 0], [1, 0])):
            f, D = TR.vqt(sig(x, fs), chan, 1, 50, list(octaves), bpo, a4)
            eq(D, C[:, :, cols], "selected channels", 1e-9, 1e-12)
        f, D = TR.vqt(sig(-3 * x, fs), None, 1, 50, list(octaves), bpo, a4)
        eq(D, -3 * C, "gain", 1e-9, 1e-9)
        # Silence at the end changes no coefficient before it, for every
        # remainder of the decimations
        step = int((fs // 2) / (top * 1.1)) * 2 ** (o1 - o0)
        for extra in range(1, min(step, 17) + 1):
            f, D = TR.vqt(sig(np.pad(x, ((0, extra), (0, 0))), fs), None, 1, 50, list(octaves), bpo, a4)
            same(D.shape, (count, n + extra, 2), "shape")
            safe = n - 60 * step  # The signal after decimation ends there
            eq(D[:, :safe], C[:, :safe], f"{extra} samples of silence", 1e-6, 1e-8)
    ctx.case(f"vqt/vector-{fs}-{a4}-{octaves}-{bpo}", vector)
    for k, gamma in itertools.product(bins, (0, 20)):
        if gamma == 0 and freqs[k] * (2 ** (1 / bpo) - 1) < 6:
            continue  # the kernel would not fit in the signal

        def tone():
            s = sig(np.cos(2 * np.pi * freqs[k] * t)[:, None], fs)
            f, C = TR.vqt(s, None, 1, gamma, list(octaves), bpo, a4)
            m = np.abs(C[:, n // 2, 0])
            # the decimation attenuates close to its new nyquist frequency
            clear = lambda q: freqs[k] * 2 ** ((count - 1 - q) // bpo) < 0.75 * nyq
            deep = 0.03 if clear(k) else 0.25
            true(0.5 * (1 - deep) < m[k] < 0.5 * (1.05 if deep < 0.1 else 1.25), f"level of the tone {m[k]}")
            if deep > 0.1:
                return
            true(m[k] >= m.max() * 0.995, f"peak at bin {np.argmax(m)}")
            # response of the Hann kernel of the stated bandwidth at the bins
            # around: B = f (2^(1/bins) - 1) + gamma
            for j in (k - 1, k + 1):
                if not 0 <= j < count or not clear(j):
                    continue
                B = freqs[j] * (2 ** (1 / bpo) - 1) + gamma
                u = (freqs[k] - freqs[j]) / B
                hann = abs(np.sinc(u) / (1 - u**2)) if abs(abs(u) - 1) > 1e-3 else 0.5
                eq(m[j], 0.5 * hann, f"bin {j}", 0, 0.04)
        ctx.case(f"vqt/tone-{fs}-{a4}-{octaves}-{bpo}-{k}-{gamma}", tone)

        def kernels():
            s = sig(np.cos(2 * np.pi * freqs[k] * t)[:, None], fs)
            for q, w in ((1, "hamming"), (0.5, "hann"), (0.7, "blackman"), (0.8, ("gaussian", 300))):
                f, C = TR.vqt(s, None, q, gamma, list(octaves), bpo, a4, w)
                m = np.abs(C[:, n // 2, 0])
                for j in (k - 2, k - 1, k, k + 1, k + 2):
                    if not 0 <= j < count or freqs[k] * 2 ** ((count - 1 - j) // bpo) >= 0.75 * nyq:
                        continue
                    B = (freqs[j] * (2 ** (1 / bpo) - 1) + gamma) / q
                    rate = 2 * nyq / 2 ** ((count - 1 - j) // bpo)
                    L = round(rate / B)
                    if L < 12:
                        continue
                    wv = get_window(w, L, fftbins=False)
                    gain = lambda d: abs(np.sum(wv * np.exp(2j * np.pi * d / rate * np.arange(L)))) / wv.sum()
                    # The negative frequency adds to it
                    tol = 0.04 + 0.5 * gain(freqs[k] + freqs[j])
                    eq(m[j], 0.5 * gain(freqs[k] - freqs[j]), f"q {q}, {w}: bin {j}", 0, tol)
        if k % 3 == 0 and bpo == 12:
            ctx.case(f"vqt/kernels-{fs}-{a4}-{octaves}-{k}-{gamma}", kernels)
        ctx.state("vqt", fs, a4, octaves, bpo, k, gamma)
        ctx.step()


# ----------------------------------------------------------------- filter bank
def banks(ctx):
    fs, n = 4000, 600
    x = R.td(n, 2, 6)
    freqs = np.array([200.0, 500.0, 1100.0])
    for (oct_, hz), order, zero in itertools.product(((1.0, None), (1 / 3, None), (None, 50.0)), (2, 4, 8), (False, True)):
        def one():
            sp = pure(lambda s: TR.spectrum_via_filterbank(s, freqs, oct_, hz, order, zero), sig(x, fs))
            eq(sp.frequency_vector_hz, freqs, "frequencies")
            for k, f in enumerate(freqs):
                band = [f - hz / 2, f + hz / 2] if hz else [f * 2 ** (-oct_ / 2), f * 2 ** (oct_ / 2)]
                fl = dsp.Filter.iir_filter(order, band, dsp.FilterPassType.Bandpass, fs)
                y = fl.filter_signal(sig(x, fs), zero_phase=zero).time_data
                eq(sp.spectral_data[k], np.sqrt(np.mean(y**2, axis=0)), f"band {f}", 1e-8)
        ctx.case(f"banks/{oct_}-{hz}-{order}-{zero}", one)
        ctx.step()

    def tones():
        t = np.arange(8000) / fs
        for k, a in itertools.product(range(3), (1.0, 0.2)):
            s = sig(a * np.sin(2 * np.pi * freqs[k] * t)[:, None], fs)
            sp = TR.spectrum_via_filterbank(s, freqs, 0.5)
            eq(sp.spectral_data[k, 0], a / np.sqrt(2), "RMS of the tone", 0.02)
            true(np.delete(sp.spectral_data[:, 0], k).max() < 0.02 * a, "other bands")
    ctx.case("banks/tones", tones)
    for bad in (dict(), dict(bandwidth_octaves=1, bandwidth_hz=20), dict(bandwidth_hz=-1), dict(bandwidth_octaves=0)):
        ctx.case(f"banks/reject-{bad}", lambda: must_raise(lambda: TR.spectrum_via_filterbank(sig(x, fs), freqs, **bad), str(bad)))


def waterfall(ctx):
    """what is drawn, recorded at the plotting library"""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D
    x = R.td(600, 3, 6)
    for c, sc, dr, given in itertools.product(range(3), (S.FFTBackward, S.PowerSpectralDensity), (40, 20, None), (True, False)):
        def one():
            seen = []
            old = Axes3D.plot_surface
            Axes3D.plot_surface = lambda self, *a, **k: seen.append(a)
            try:
                s = sig(x)
                par = dict(window_length_samples=64, scaling=sc)
                q = s.copy()
                q.set_spectrogram_parameters(**par)
                pure(lambda z: TR.plot_waterfall(z, c, dr, par if given else None), s if given else q)
            finally:
                Axes3D.plot_surface = old
                plt.close("all")
            t, f, X = q.get_spectrogram()
            db = (20 if sc is S.FFTBackward else 10) * np.log10(np.maximum(np.abs(X[..., c]), TINY))
            if dr is not None:
                db = np.maximum(db, db.max() - dr)
            eq(seen[0][0], np.tile(t, (len(f), 1)), "times")
            eq(seen[0][1], np.tile(f[:, None], (1, len(t))), "frequencies")
            ok = db > -3000
            eq(seen[0][2][ok], db[ok], "levels", 1e-8, 1e-8)
        ctx.case(f"waterfall/{c}-{sc.name}-{dr}-{given}", one)
        ctx.step()
    ctx.case("waterfall/reject", lambda: must_raise(lambda: TR.plot_waterfall(sig(x), 0, -3), "dynamic range"))


def dispatch(ctx, name, a):
    globals()[name](ctx, *a)


def no_numba(ctx):
    """Package without the optional compiled kernel: the same transforms"""
    optional.compare(ctx, ("dft",))


def run(ctx):
    t = ctx.thorough
    jobs = [("constant_q", (fs, a4, o, b)) for fs in ((8000, 11025, 22050) if t else (8000, 11025)) for a4 in ((440, 415) if t else (440,)) for o in ((3, 4), (4, 4), (2, 5)) if a4 * 2 ** (o[1] - 4 + 2 / 12) * 2.2 < fs for b in (12, 24)]
    jobs += [("fourier", (n, ch)) for n in range(1, 33 if t else 18) for ch in (1, 2, 3) if shape(n, ch)]
    jobs += [("warping", (n, t)) for n in ((1, 2, 3, 5, 9, 16, 30) if t else (1, 2, 3, 5, 9))]
    jobs += [("features", (sc, W)) for sc in S for W in ((32, 64, 128, 256) if t else (64, 256))]
    jobs += [("prediction", (b,)) for b in (False, True)] + [("wavelets", (i,)) for i in (True, False)]
    jobs += [(n, ()) for n in ("no_numba", "mid_side", "warp_scales", "mel", "notes", "banks", "waterfall")]
    ctx.bound(lengths=f"1..{32 if t else 17}", features="every scaling", vqt="a tone on every bin (every fifth with 24 per octave)")
    ctx.assume("Laguerre inverse up to the coefficients that were kept; wavelets and constant-Q levels where the kernel fits in the signal")
    ctx.parallel(dispatch, jobs)
