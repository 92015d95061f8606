"""C09 framing, overlap-add, STFT and its inverse: every length, window,
step/overlap, padding, FFT length and scaling in the bound against index
arithmetic and the DFT sum."""

import itertools

import numpy as np
from scipy.signal.windows import get_window

import dsptoolbox as dsp
from dsptoolbox import tools
from mc.core import eq, must_raise, same, true
from mc import dsp as R

S = dsp.SpectrumScaling
PLAIN = [
    dsp.Window.Boxcar, dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman, dsp.Window.Triang, dsp.Window.Bartlett,
    dsp.Window.Flattop, dsp.Window.Parzen, dsp.Window.Bohman, dsp.Window.Blackmanharris, dsp.Window.Nuttall, dsp.Window.Barthann,
    dsp.Window.Cosine, dsp.Window.Exponential, dsp.Window.Tukey, dsp.Window.Taylor, dsp.Window.Lanczos,
]


def sig(x, fs):
    return dsp.Signal.from_time_data(np.array(x), fs, constrain_amplitude=False)


# ---------------------------------------------------------------- framing
def frames_ref(x, W, step, n):
    out = np.zeros((W, n, x.shape[1]))
    for f in range(n):
        for i in range(W):
            if f * step + i < len(x):
                out[i, f] = x[f * step + i]
    return out


def framing(ctx, Lmax, Wmax):
    for L in range(1, Lmax + 1):
        for W in range(1, Wmax + 1):
            for step in range(1, W + 2):
                for ch in (1, 2):
                    x = R.td(L, ch, L)
                    ctx.step()
                    ctx.state("frame", L, W, step, ch)

                    def keep():
                        y = x.copy()
                        f = tools.framed_signal(x, W, step, True)
                        true(np.array_equal(x, y), "input modified")
                        eq(f, frames_ref(x, W, step, -(-L // step)), "frames", 0, 0)
                        true(not np.shares_memory(f, x), "frames share memory with the input")
                        if step == W:
                            eq(tools.reconstruct_from_framed_signal(f, step, None, L), x, "frames put together", 0, 0)

                    ctx.case(f"framed/{L}-{W}-{step}-{ch}", keep)
                    complete = (L - W) // step + 1 if L >= W else 0
                    div = L >= W and (L - W) % step == 0

                    def drop():
                        if L < W:
                            try:
                                f = tools.framed_signal(x, W, step, False)
                            except ValueError:
                                return
                            same(f.shape[1], 0, "frames")
                            return
                        f = tools.framed_signal(x, W, step, False)
                        n = f.shape[1]
                        true(n == complete or (div and n == complete - 1), f"{n} frames, {complete} complete ones")
                        eq(f, frames_ref(x, W, step, n), "frames", 0, 0)

                    ctx.case(f"framed-nokeep/{L}-{W}-{step}-{ch}", drop)
                    if div:
                        ctx.case(
                            f"framed-nokeep-count/div-{L}-{W}-{step}-{ch}",
                            lambda: same(tools.framed_signal(x, W, step, False).shape[1], complete, "frames without padding"),
                        )


def windows_for(W):
    yield "boxcar", "boxcar", np.ones(W)
    yield "hann", "hann", get_window("hann", W)
    yield "hamming", "hamming", get_window("hamming", W)
    t = np.linspace(0.2, 1.0, W)
    yield "ramp", t, t
    z = np.where(np.arange(W) % 3 == 1, 0.005, 0.9)
    yield "tiny", z, z


def overlap_add(ctx, Lmax, Wmax):
    for L in range(1, Lmax + 1):
        for W in range(2, Wmax + 1):
            for step in range(1, W + 1):
                x = R.td(L, 2, 1)
                for name, arg, w in windows_for(W):
                    ctx.step()
                    ctx.state("ola", L, W, step, name)

                    def one():
                        n = -(-L // step)
                        fr = frames_ref(x, W, step, n) * w[:, None, None]
                        fr0 = fr.copy()
                        y = tools.reconstruct_from_framed_signal(fr, step, arg, L)
                        true(np.array_equal(fr, fr0), "input modified")
                        env = np.zeros(step * (n - 1) + W)
                        for f in range(n):
                            env[f * step: f * step + W] += w**2
                        ok = env[:L] >= 1e-4
                        same(y.shape, x.shape, "shape")
                        eq(y[ok], x[ok], "reconstruction", 1e-10, 1e-12)
                        eq(y[~ok], (x * env[:L, None] / 1e-4)[~ok], "samples under the safety threshold", 1e-10, 1e-12)
                        full = tools.reconstruct_from_framed_signal(fr, step, arg)
                        same(full.shape, (len(env), 2), "full shape")
                        k = min(L, len(full))
                        eq(full[:k], y[:k], "length only pads or trims")
                        true(not np.any(full[L:]), "samples after the end")
                        longer = tools.reconstruct_from_framed_signal(fr, step, arg, len(env) + 3)
                        same(longer.shape, (len(env) + 3, 2), "padded shape")
                        eq(longer[: len(env)], full, "padded")
                        # without window: frames are just added
                        plain = tools.reconstruct_from_framed_signal(fr, step)
                        tot = np.zeros((len(env), 2))
                        for f in range(n):
                            tot[f * step: f * step + W] += fr[:, f]
                        eq(plain, tot, "sum of frames")

                    ctx.case(f"overlap-add/{L}-{W}-{step}-{name}", one)


# -------------------------------------------------------------------- STFT
def stft_ref(x, fs, W, w, ov, nfft, detrend, padding, sc):
    o = int(ov / 100 * W + 0.5)
    step = W - o
    if padding:
        z = np.zeros((o, x.shape[1]))
        x = np.concatenate([z, x, z])
    n = -(-len(x) // step)
    fr = frames_ref(x, W, step, n) * w[:, None, None]
    if detrend:
        fr = fr - fr.mean(axis=0)
    N = nfft or W
    if N >= W:
        fr = np.concatenate([fr, np.zeros((N - W,) + fr.shape[1:])])
    else:
        fr = fr[:N]
    k = np.arange(N // 2 + 1)
    X = np.tensordot(np.exp(-2j * np.pi * np.outer(k, np.arange(N)) / N), fr, axes=(1, 0))
    if sc == S.FFTBackward:
        return X, step
    if sc == S.FFTForward:
        return X / N, step
    if sc == S.FFTOrthogonal:
        return X / np.sqrt(N), step
    one_sided = np.full(len(k), 2.0)
    one_sided[0] = 1.0
    if N % 2 == 0:
        one_sided[-1] = 1.0
    one_sided = one_sided[:, None, None]
    ref = {
        S.AmplitudeSpectrum: np.sum(w) ** 2, S.PowerSpectrum: np.sum(w) ** 2,
        S.AmplitudeSpectralDensity: fs * np.sum(w**2), S.PowerSpectralDensity: fs * np.sum(w**2),
    }[sc]
    if sc in (S.PowerSpectrum, S.PowerSpectralDensity):
        return np.abs(X) ** 2 * one_sided / ref, step
    return X * np.sqrt(one_sided / ref), step


POWER = (S.PowerSpectrum, S.PowerSpectralDensity)


def stft_case(ctx, L, ch, W, win, ov, nfft, det, pad, sc, fs=1000):
    x = R.td(L, ch, 3) + 0.2
    w = get_window(win.to_scipy_format(), W)
    ctx.step()
    tag = f"{L}-{ch}-{W}-{win.name}-{ov}-{nfft}-{det}-{pad}-{sc.name}"
    ctx.state(tag)

    def one():
        s = sig(x, fs)
        s.set_spectrogram_parameters(W, win, ov, nfft, det, pad, sc)
        t, f, X = s.get_spectrogram()
        want, step = stft_ref(x, fs, W, w, ov, nfft, det, pad, sc)
        eq(X, want, "STFT", 1e-9, 1e-11)
        N = nfft or W
        eq(f, np.arange(N // 2 + 1) * fs / N, "frequencies")
        same(len(t), X.shape[1], "time vector length")
        same(float(t[0]), 0.0, "first time")
        true(np.all(np.diff(t) > 0), "time vector increases")
        if sc in POWER or N < W:
            return
        # -- inverse: the samples whose windows add up to enough
        n = X.shape[1]
        o = W - step
        env = np.zeros(step * (n - 1) + W)
        for i in range(n):
            env[i * step: i * step + W] += w**2
        env = env[o:] if pad else env
        keep = env[:L] >= 1e-4
        if not pad:  # documented: distortion at the edges without padding
            keep[: W - step] = False
            keep[n * step:] = False
        if det:
            return
        X0 = X.copy()
        r = dsp.transforms.istft(X, original_signal=s)
        true(np.array_equal(X, X0), "istft changed the STFT")
        same(type(r), dsp.Signal, "type")
        same(r.sampling_rate_hz, fs, "rate")
        same(r.length_samples, L, "length")
        eq(s.time_data, x, "signal modified")
        eq(r.time_data[keep], x[keep], "istft with signal", 1e-7, 1e-9)
        par = dict(window_length_samples=W, window_type=win, overlap_percent=ov, fft_length_samples=nfft, detrend=det, padding=pad, scaling=sc)
        r2 = dsp.transforms.istft(X, parameters=par, sampling_rate_hz=fs)
        r3 = dsp.transforms.istft(X, sampling_rate_hz=fs, window_length_samples=W, window_type=win, overlap_percent=ov, fft_length_samples=nfft, padding=pad, scaling=sc)
        for q in (r2, r3):
            same(q.sampling_rate_hz, fs, "rate")
            true(q.length_samples >= L or not keep.any() or q.length_samples > np.flatnonzero(keep)[-1], "reconstruction too short")
            m = min(L, q.length_samples)
            d = q.amplitude_scale_factor
            k = keep[:m]
            eq(q.time_data[:m][k], d * x[:m][k], "istft with parameters", 1e-7, 1e-9)

    ctx.case(f"stft/{tag}", one)


def stft_windows(ctx, win, thorough):
    for ov in (0, 25, 33, 50, 62.5, 75, 90):
        for L in (7, 16, 37) + ((48, 61) if thorough else ()):
            for pad in (True, False):
                for sc in (S.FFTBackward, S.AmplitudeSpectralDensity, S.PowerSpectrum):
                    stft_case(ctx, L, 2, 16, win, ov, None, False, pad, sc)


def stft_params(ctx, ch, W, ov, thorough):
    for win in (dsp.Window.Hann, dsp.Window.Boxcar):
        for L in sorted({max(1, ch), 5, W - 1, W, W + 1, 2 * W + 3} | (set(range(3, 2 * W)) if thorough else set())):
            for nfft in (None, W + 1, 2 * W) + ((W - 3,) if not thorough else (W, W - 3, W + 4)):
                for pad in (True, False):
                    for det in (True, False):
                        for sc in S:
                            stft_case(ctx, L, ch, W, win, ov, nfft, det, pad, sc)


def rejects(ctx):
    s = sig(R.td(40, 1), 1000)
    for W in (15, 17, 8, 0, 131072):
        def f():
            q = s.copy()
            q.set_spectrogram_parameters(W)
            q.get_spectrogram()
        ctx.case(f"reject/window-{W}", lambda: must_raise(f, "window length"))
    for ov in (-1, 100, 130):
        def g():
            q = s.copy()
            q.set_spectrogram_parameters(16, overlap_percent=ov)
            q.get_spectrogram()
        ctx.case(f"reject/overlap-{ov}", lambda: must_raise(g, "overlap"))
    X = s.copy().set_spectrogram_parameters(16).get_spectrogram()[2]
    ctx.case("reject/dims", lambda: must_raise(lambda: dsp.transforms.istft(X[..., 0], s), "2D"))
    ctx.case("reject/nothing", lambda: must_raise(lambda: dsp.transforms.istft(X), "no parameters"))


def run(ctx):
    T = ctx.thorough
    parts = [("framing", (24 if T else 14, 10 if T else 7)), ("overlap_add", (16 if T else 10, 8 if T else 6)), ("rejects", ())]
    parts += [("stft_windows", (w, T)) for w in PLAIN]
    parts += [("stft_params", (ch, W, ov, T)) for ch in (1, 3) for W in (16, 32) for ov in ((0, 33, 50, 75) if not T else (0, 1, 10, 25, 33, 50, 66.7, 75, 90, 99))]
    ctx.assume("without padding, istft distorts the samples under the first and last window (documented) and the distortion itself is not judged")
    ctx.bound(framing_lengths="1..14", window_lengths="1..7 (frames), 16, 32 (STFT)", windows=len(PLAIN), scalings=7)
    ctx.parallel(lambda c, f, a: globals()[f](c, *a), parts[::-1])
