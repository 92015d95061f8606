"""C15 spectra, scalings and cross-spectral matrices: every method, scaling,
window, overlap, average, length parity and channel count against the DFT sum,
and against Parseval and sinusoid levels (which do not share the formula)."""

import numpy as np
from scipy.signal.windows import get_window

import dsptoolbox as dsp
from dsptoolbox import tools
from mc.core import eq, must_raise, same, true
from mc import dsp as R

S = dsp.SpectrumScaling
M = dsp.SpectrumMethod
W_ALL = [
    dsp.Window.Boxcar, dsp.Window.Hann, dsp.Window.Hamming, dsp.Window.Blackman, dsp.Window.Triang, dsp.Window.Bartlett,
    dsp.Window.Flattop, dsp.Window.Parzen, dsp.Window.Bohman, dsp.Window.Blackmanharris, dsp.Window.Nuttall, dsp.Window.Barthann,
    dsp.Window.Cosine, dsp.Window.Exponential, dsp.Window.Tukey, dsp.Window.Taylor, dsp.Window.Lanczos,
]
POWER = (S.PowerSpectrum, S.PowerSpectralDensity)
PHYS = POWER + (S.AmplitudeSpectrum, S.AmplitudeSpectralDensity)


def sig(x, fs, kind="sig"):
    cls = dsp.ImpulseResponse if kind == "ir" else dsp.Signal
    return cls.from_time_data(np.array(x), fs, constrain_amplitude=False)


def power_gain(sc, n, fs, w):
    """One-sided factor for |X|^2, per bin, of a DFT of length n."""
    g = np.ones(n // 2 + 1)
    if sc in PHYS:
        g *= 2.0
        g[0] = 1.0
        if n % 2 == 0 and n > 1:
            g[-1] = 1.0
    s1 = n if w is None else np.sum(w, axis=0)
    s2 = n if w is None else np.sum(w**2, axis=0)
    if sc == S.FFTForward:
        return g / n**2
    if sc == S.FFTOrthogonal:
        return g / n
    if sc in (S.PowerSpectrum, S.AmplitudeSpectrum):
        return g / s1**2
    if sc in (S.PowerSpectralDensity, S.AmplitudeSpectralDensity):
        return g / s2 / fs
    return g


# ------------------------------------------------------------- FFT method
def inputs(n, ch):
    yield "gen", R.td(n, ch, 2) + 0.1
    for i in range(n) if n <= 8 else (0, n // 2, n - 1):
        d = np.zeros((n, ch))
        d[i] = np.arange(1, ch + 1)
        yield f"d{i}", d
    yield "dc", np.ones((n, ch)) * np.arange(1, ch + 1)


def fft_method(ctx, n, ch, fs):
    for name, x in inputs(n, ch):
        for pad in (True, False):
            for sc in S:
                for kind in ("sig", "ir"):
                    ctx.step()
                    tag = f"{n}-{ch}-{fs}-{name}-{pad}-{sc.name}-{kind}"
                    ctx.state(tag)

                    def one():
                        s = sig(x, fs, kind)
                        s.set_spectrum_parameters(M.FFT, pad_to_fast_length=pad, scaling=sc)
                        f, X = s.get_spectrum()
                        F = n if len(f) == 1 else int(round(fs / f[1]))
                        true(F >= n and (pad or F == n) and F < 2 * n + 8, f"FFT length {F}")
                        same(len(f), F // 2 + 1, "bins")
                        eq(f, np.arange(F // 2 + 1) * fs / F, "frequencies")
                        D = R.rdft(x, F)
                        g = power_gain(sc, F, fs, None)[:, None]
                        if sc in POWER:
                            true(not np.iscomplexobj(X), "power spectrum is complex")
                            eq(X, np.abs(D) ** 2 * g, "power spectrum")
                        else:
                            eq(X, D * np.sqrt(g), "spectrum")
                        if sc == S.PowerSpectralDensity:
                            eq(np.sum(X, axis=0) * fs / F, np.sum(x**2, axis=0) / F, "density does not integrate to the mean square")
                        if ch > 1:
                            f2, C = s.get_csm()
                            eq(f2, f, "frequencies of the CSM")
                            true(s.spectrum_scaling == sc, "get_csm changed the scaling")
                            cross = D[:, :, None] * D[:, None, :].conj() * power_gain(sc, F, fs, None)[:, None, None]
                            check_csm(C, cross, sc, sc in PHYS)
                        eq(s.get_spectrum()[1], X, "second read")

                    ctx.case(f"fft/{tag}", one)


def check_csm(C, cross, sc, rooted):
    same(C.shape, cross.shape, "CSM shape")
    eq(C, np.conj(np.swapaxes(C, 1, 2)), "CSM is not hermitian")
    i = np.arange(C.shape[1])
    if sc in POWER or not rooted:
        eq(C, cross, "CSM")
    else:
        eq(C[:, i, i], np.sqrt(np.abs(cross[:, i, i])), "CSM diagonal")
        eq(C**2, cross, "squared CSM", 1e-9, 1e-11)


def sinusoids(ctx, n, fs):
    k = np.arange(n)
    for b in range(1, (n + 1) // 2):
        for phase in (0.0, 0.7, 2.0):
            for amp in (0.5, 2.0):
                x = amp * np.cos(2 * np.pi * b * k / n + phase)[:, None]
                ctx.step()
                ctx.state("sine", n, b, phase, amp)

                def one():
                    s = sig(x, fs)
                    for sc, want in ((S.AmplitudeSpectrum, amp / 2**0.5), (S.PowerSpectrum, amp**2 / 2)):
                        s.set_spectrum_parameters(M.FFT, pad_to_fast_length=False, scaling=sc)
                        X = np.abs(s.get_spectrum()[1][:, 0])
                        eq(X[b], want, f"RMS in {sc.name}")
                        X[b] = 0
                        eq(X, np.zeros(len(X)), f"other bins in {sc.name}", 1e-9, 1e-12)
                    if n in (8, 16, 32):
                        # several whole windows, not detrended: same level for any window
                        y = np.tile(x, (4, 1))
                        for win in (dsp.Window.Boxcar, dsp.Window.Hann):
                            if win == dsp.Window.Hann and (b < 2 or b > n // 2 - 2):
                                continue
                            s2 = sig(y, fs)
                            for sc, want in ((S.AmplitudeSpectrum, amp / 2**0.5), (S.PowerSpectrum, amp**2 / 2)):
                                s2.set_spectrum_parameters(M.WelchPeriodogram, window_length_samples=n, window_type=win, overlap_percent=0, detrend=False, scaling=sc)
                                eq(s2.get_spectrum()[1][b, 0], want, f"RMS with Welch in {sc.name}")

                ctx.case(f"sine/{n}-{b}-{phase}-{amp}", one)


# ----------------------------------------------------------------- Welch
def bias(n):
    return sum((-1.0) ** (k + 1) / k for k in range(1, (n if n % 2 else n - 1) + 1))


def welch_ref(x, W, w, ov, det):
    step = W - int(ov / 100 * W)
    n = -(-len(x) // step)
    fr = np.zeros((W, n, x.shape[1]))
    for f in range(n):
        seg = x[f * step: f * step + W]
        fr[: len(seg), f] = seg
    fr *= w[:, None, None]
    if det:
        fr -= fr.mean(axis=0)
    k = np.arange(W // 2 + 1)
    return fr, np.tensordot(np.exp(-2j * np.pi * np.outer(k, np.arange(W)) / W), fr, axes=(1, 0))


def average(v, how):
    if how == "mean":
        return v.mean(axis=1)
    return (np.median(v.real, axis=1) + 1j * np.median(v.imag, axis=1)) / bias(v.shape[1])


def welch_case(ctx, L, ch, W, win, ov, det, how, sc, fs):
    x = R.td(L, ch, 3) + 0.15
    w = get_window(win.to_scipy_format(), W)
    tag = f"{L}-{ch}-{W}-{win.name}-{ov}-{det}-{how}-{sc.name}-{fs}"
    ctx.step()
    ctx.state(tag)

    def one():
        s = sig(x, fs)
        s.set_spectrum_parameters(M.WelchPeriodogram, window_length_samples=W, window_type=win, overlap_percent=ov, detrend=det, average=how, scaling=sc)
        f, X = s.get_spectrum()
        eq(f, np.arange(W // 2 + 1) * fs / W, "frequencies")
        fr, D = welch_ref(x, W, w, ov, det)
        g = power_gain(sc, W, fs, w)
        P = average(np.abs(D) ** 2 + 0j, how).real * g[:, None]
        eq(X, P if sc in POWER else np.sqrt(P), "Welch spectrum")
        if sc == S.PowerSpectralDensity and how == "mean":
            eq(np.sum(X, axis=0) * fs / W, np.mean(np.sum(fr**2, axis=0), axis=0) / np.sum(w**2), "density does not integrate to the mean square of the windowed frames")
        if ch > 1:
            f2, C = s.get_csm()
            eq(f2, f, "frequencies of the CSM")
            cross = np.stack([np.stack([average(D[:, :, i] * D[:, :, j].conj(), how) * g for j in range(ch)], -1) for i in range(ch)], 1)
            check_csm(C, cross, sc, True)
            i = np.arange(ch)
            eq(C[:, i, i], X, "diagonal of the CSM is not the spectrum")

    ctx.case(f"welch/{tag}", one)


def welch_windows(ctx, win, fs):
    for ov in (0, 25, 33, 50, 62.5, 75, 87.5):
        for L in (9, 16, 23, 40):
            for sc in S:
                welch_case(ctx, L, 1, 8, win, ov, False, "mean", sc, fs)
                if sc in PHYS:
                    welch_case(ctx, L, 2, 16, win, ov, True, "median", sc, fs)


def welch_params(ctx, W, ov, thorough):
    for win in (dsp.Window.Hann, dsp.Window.Boxcar, dsp.Window.Exponential):
        for L in sorted({1, 2, 3, 5, W - 1, W, W + 1, 2 * W, 2 * W + 3, 5 * W + 1} | (set(range(3, 4 * W)) if thorough else set())):
            for ch in range(1, min(L, 3) + 1):
                for det in (True, False):
                    for how in ("mean", "median"):
                        for sc in S:
                            welch_case(ctx, L, ch, W, win, ov, det, how, sc, 1000)


# ------------------------------------------------------- conversion of scaling
def conversions(ctx):
    for n in (1, 2, 3, 7, 8, 12):
        x = R.td(n, 2, 6)
        D = R.rdft(x)
        for fs in (1000, 44100):
            for w in (None, get_window("hann", n) + 0.1, np.ones((n, 1)) * np.array([[1.0, 2.0]])):
                for sc in S:
                    ctx.step()

                    def one():
                        D0 = D.copy()
                        if sc in PHYS:
                            got = tools.scale_spectrum(D, sc, n, fs, w)
                            true(np.array_equal(D, D0), "input modified")
                            g = np.array(power_gain(sc, n, fs, None))
                            if w is not None:
                                s1, s2 = np.sum(w, axis=0), np.sum(w**2, axis=0)
                                den = s1**2 if sc in (S.PowerSpectrum, S.AmplitudeSpectrum) else s2 * fs
                                one_sided = g * (n**2 if sc in (S.PowerSpectrum, S.AmplitudeSpectrum) else n * fs)
                                g = one_sided[:, None] / np.atleast_1d(den)[None, :]
                            else:
                                g = g[:, None]
                            want = np.abs(D) ** 2 * g if sc in POWER else D * np.sqrt(g)
                            eq(got, want, "scale_spectrum")
                        for out in S:
                            c = np.asarray(sc.conversion_factor(out, n, fs, w))
                            a = np.asarray(sc.get_scaling_factor(n, fs, w)).astype(float)
                            b = np.asarray(out.get_scaling_factor(n, fs, w)).astype(float)
                            pa, pb = (a if sc in POWER else a**2), (b if out in POWER else b**2)
                            ratio = pb / pa
                            if sc not in POWER and out not in POWER:
                                ratio = np.sqrt(ratio)
                            eq(np.ravel(c), np.ravel(ratio), f"conversion {sc.name} to {out.name}")
                            back = np.asarray(out.conversion_factor(sc, n, fs, w))
                            eq(np.ravel(c * back), np.ones(np.size(c)), "there and back")
                        for amp, pw in ((S.AmplitudeSpectrum, S.PowerSpectrum), (S.AmplitudeSpectralDensity, S.PowerSpectralDensity)):
                            eq(np.asarray(amp.get_scaling_factor(n, fs, w)) ** 2, pw.get_scaling_factor(n, fs, w), "amplitude squared is power")

                    ctx.case(f"conversion/{n}-{fs}-{'n' if w is None else w.ndim}-{sc.name}", one)


def windowed_ir(ctx):
    for n in (5, 8, 12):
        x = R.td(n, 2, 6)
        w = np.stack([get_window("hann", n), get_window("blackman", n)], axis=1) + 0.05
        for sc in S:
            for pad in (True, False):
                ctx.step()

                def one():
                    s = sig(x, 1000, "ir")
                    s.set_window(w)
                    s.set_spectrum_parameters(M.FFT, pad_to_fast_length=pad, scaling=sc)
                    f, X = s.get_spectrum()
                    F = int(round(1000 / f[1]))
                    D = R.rdft(x, F)
                    want = []
                    for c in range(2):
                        g = power_gain(sc, F, 1000, w[:, c])
                        want.append(np.abs(D[:, c]) ** 2 * g if sc in POWER else D[:, c] * np.sqrt(g))
                    eq(X, np.stack(want, 1), "spectrum of the windowed impulse response")

                ctx.case(f"window/{n}-{sc.name}-{pad}", one)


def rejects(ctx):
    s = sig(R.td(40, 1), 1000)
    for W in (7, 4, 0, 24, 524288):
        def f():
            s.copy().set_spectrum_parameters(M.WelchPeriodogram, window_length_samples=W).get_spectrum()
        ctx.case(f"reject/window-{W}", lambda: must_raise(f, "window length"))
    for ov in (-1, 100, 200):
        def g():
            s.copy().set_spectrum_parameters(M.WelchPeriodogram, window_length_samples=8, overlap_percent=ov).get_spectrum()
        ctx.case(f"reject/overlap-{ov}", lambda: must_raise(g, "overlap"))
    ctx.case("reject/average", lambda: must_raise(lambda: s.copy().set_spectrum_parameters(M.WelchPeriodogram, window_length_samples=8, average="max").get_spectrum(), "average"))
    ctx.case("reject/csm", lambda: must_raise(lambda: s.get_csm(), "CSM of one channel"))


def run(ctx):
    T = ctx.thorough
    parts = []
    for n in list(range(1, 41 if T else 18)) + [31, 49]:
        for ch in (1, 2, 3):
            if n >= ch:
                for fs in (1000, 44100) if T or n % 3 == 0 else (1000,):
                    parts.append(("fft_method", (n, ch, fs)))
        parts.append(("sinusoids", (n, 1000)))
    parts.append(("sinusoids", (32, 48000)))
    parts += [("welch_windows", (w, 1000)) for w in W_ALL]
    parts += [("welch_params", (W, ov, T)) for W in ((8, 16) if not T else (8, 16, 32)) for ov in ((0, 50, 75) if not T else (0, 10, 33, 50, 75, 87.5))]
    parts += [("conversions", ()), ("windowed_ir", ()), ("rejects", ())]
    ctx.bound(fft_lengths="1..17, 31, 49", welch_windows="8, 16", windows=len(W_ALL), scalings=7, channels="1..3")
    ctx.parallel(lambda c, f, a: globals()[f](c, *a), parts[::-1])
