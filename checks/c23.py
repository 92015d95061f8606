"""C23 distances: every measure, option and pair of a set of signals against
its defining sum; identity, gain, order and sign laws on top."""

import itertools

import numpy as np
from scipy.integrate import simpson
from scipy.signal import get_window

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R
from checks.c15 import welch_ref

D = dsp.distances
S = dsp.SpectrumScaling
M = dsp.SpectrumMethod


def sig(x, fs):
    return dsp.Signal.from_time_data(np.array(x, dtype=float), fs, constrain_amplitude=False)


def signals(n, fs):
    """Columns of the pairs under test"""
    t = np.arange(n) / fs
    g = R.td(n, 3, 11)
    out = dict(noise=g[:, 0], other=g[:, 1] + 0.3 * g[:, 0], tilt=np.convolve(g[:, 2], [1, -0.9])[:n])
    out["pulse"] = np.where(np.arange(n) == n // 3, 1.0, 0.0) + 1e-3 * g[:, 1]
    out["tone"] = np.sin(2 * np.pi * fs / 7.3 * t) + 1e-2 * g[:, 2]
    return out


# ---------------------------------------------------------- spectral distances
def psd(x, fs, method, params):
    """Power spectrum up to a factor which is common to all frequencies
    (apart from the first and last)"""
    n = len(x)
    if method is M.FFT:
        if params.get("detrend", True):
            x = x - x.mean()
        m = n if not params.get("pad_to_fast_length", True) else None
        return None if m is None else (np.fft.rfftfreq(n, 1 / fs), np.abs(np.fft.rfft(x)) ** 2)
    L = params["window_length_samples"]
    w = get_window("hann", L)
    _, X = welch_ref(x[:, None], L, w, 50, params.get("detrend", True))
    return np.fft.rfftfreq(L, 1 / fs), np.mean(np.abs(X[:, :, 0]) ** 2, axis=1)


FORMULA = dict(
    log_spectral=lambda x, y, f: np.sqrt(simpson((10 * np.log10(x / y)) ** 2, x=f)),
    itakura_saito=lambda x, y, f: simpson(x / y - np.log(x / y) - 1, x=f),
)
SCALINGS = (None, S.FFTForward, S.PowerSpectralDensity, S.AmplitudeSpectrum, S.PowerSpectrum, S.AmplitudeSpectralDensity)


def expected(name, f, x, y, rng, norm):
    """The ends of the range may or may not belong to it"""
    lo, hi = (int(np.argmin(np.abs(f - r))) for r in rng)
    for a, b in ((lo, hi), (lo, hi + 1)):
        p, q = x[a:b], y[a:b]
        if norm:
            p, q = p / p.sum(), q / q.sum()
        yield FORMULA[name](p, q, f[a:b])


def spectral(ctx, name, fs, n, thorough):
    fn = getattr(D, name)
    cols = signals(n, fs)
    params = [(M.FFT, dict(pad_to_fast_length=False))]
    for L in (32, 64) if thorough else (32,):
        params.append((M.WelchPeriodogram, dict(window_length_samples=L, window_type=dsp.Window.Hann)))
    for (method, par), sc, norm, rng in itertools.product(params, SCALINGS, (True, False), ([fs * 0.06, fs * 0.4], [fs * 0.4, fs * 0.06], (fs // 8, fs // 4))):
        p = dict(par) if sc is None else dict(par, scaling=sc)
        for pair in itertools.permutations(cols, 2) if thorough or norm and sc is None else [("noise", "tilt"), ("pulse", "tone"), ("other", "noise")]:
            def one():
                a, b = (cols[k] for k in pair)
                s1, s2 = sig(np.stack([a, b, a, a], axis=1), fs), sig(np.stack([b, a, a, 3 * b], axis=1), fs)
                s1.set_spectrum_parameters(method=M.FFT)
                d = pure(lambda x, y: fn(x, y, method, rng, norm, dict(p)), s1, s2)
                same(d.shape, (4,), "shape")
                # two or more independent routes to the same value
                f, pa = psd(a, fs, method, par)
                f, pb = psd(b, fs, method, par)
                r = np.sort(rng)
                pairs = ((pa, pb), (pb, pa), (pa, pa), (pa, 9 * pb))
                for k, (x, y) in enumerate(pairs):
                    wants = list(expected(name, f, x, y, r, norm))
                    ok = any(abs(d[k] - w) <= 1e-6 * max(abs(w), 1e-3 if k != 2 else 1) for w in wants)
                    true(ok, f"channel {k}: got {d[k]}, expected {wants}")
                eq(d[2], 0, "distance to itself", 0, 1e-9)
                true((d >= -1e-9).all(), f"negative distance {d}")
                if norm:
                    eq(d[3], d[0], "gain does not matter", 1e-8)
                if name == "log_spectral":
                    eq(d[1], d[0], "symmetry", 1e-9)
            ctx.case(f"{name}/{fs}-{n}-{method.name}-{par.get('window_length_samples')}-{sc.name if sc else None}-{norm}-{rng}-{pair}".replace(" ", ""), one)
            ctx.state(name, fs, n, method, sc, norm, str(rng), pair)
            ctx.step()


def spectral_general(ctx):
    fs, n = 1000, 256
    c = signals(n, fs)
    a, b = sig(np.stack([c["noise"], c["tilt"]], axis=1), fs), sig(np.stack([c["other"], c["tone"]], axis=1), fs)
    for name in FORMULA:
        fn = getattr(D, name)
        for method in (M.FFT, M.WelchPeriodogram):
            def whole():
                par = dict(window_length_samples=32) if method is M.WelchPeriodogram else dict(pad_to_fast_length=False)
                d = fn(a, b, method, None, True, par)
                for k in range(2):
                    f, x = psd(a.time_data[:, k], fs, method, dict(par, detrend=True))
                    f, y = psd(b.time_data[:, k], fs, method, dict(par, detrend=True))
                    # the mean is removed: 0 Hz carries no information
                    true(any(abs(d[k] - w) < 1e-6 * abs(w) for w in expected(name, f, x, y, (f[1], fs // 2), True)), "all frequencies")
                    par["detrend"] = False
                d = fn(a, b, method, None, True, par)
                for k in range(2):
                    f, x = psd(a.time_data[:, k], fs, method, par)
                    f, y = psd(b.time_data[:, k], fs, method, par)
                    true(any(abs(d[k] - w) < 1e-6 * abs(w) for w in expected(name, f, x, y, (0, fs // 2), True)), "all frequencies, with mean")
            ctx.case(f"{name}/whole-{method.name}", whole)

            def settings():
                # the settings of the given signals do not take part
                x, y = a.copy(), b.copy()
                r = [50, 400]
                d = fn(x, y, method, r)
                x.set_spectrum_parameters(method=M.WelchPeriodogram, scaling=S.PowerSpectralDensity, window_length_samples=64)
                y.set_spectrum_parameters(method=M.FFT, scaling=S.AmplitudeSpectrum, smoothing=3)
                x.activate_cache = True
                x.get_spectrum()
                eq(fn(x, y, method, r), d, "settings of the signals", 1e-9)
            ctx.case(f"{name}/settings-{method.name}", settings)
            ctx.step()
        ctx.case(f"{name}/reject-rate", lambda: must_raise(lambda: fn(a, sig(b.time_data, 2000), f_range_hz=None), "rates"))
        ctx.case(f"{name}/reject-channels", lambda: must_raise(lambda: fn(a, sig(b.time_data[:, :1], fs), f_range_hz=None), "channels"))
        for rng in ([20, 600], [-1, 100], [1, 2, 3]):
            ctx.case(f"{name}/reject-{rng}", lambda: must_raise(lambda: fn(a, b, f_range_hz=rng), str(rng)))


# -------------------------------------------------------------- SNR, SI-SDR
def time_domain(ctx, n, thorough):
    fs = 1000
    g = R.td(n, 4, 5)
    cols = [g[:, 0], g[:, 1], 1e-3 * g[:, 2], np.linspace(-1, 3, n), 50 * g[:, 3] + 7]
    for i, j in itertools.permutations(range(len(cols)), 2):
        for kind in ("full", "one"):
            def one():
                x = np.stack([cols[i], cols[j], cols[(i + 1) % 5]], axis=1)
                y = np.stack([cols[j], cols[i], cols[(j + 2) % 5]], axis=1)
                if kind == "one":
                    y = y[:, :1]
                ye = np.repeat(y, 3, axis=1) if kind == "one" else y
                d = pure(D.snr, sig(x, fs), sig(y, fs))
                eq(d, 10 * np.log10((x**2).sum(axis=0) / (ye**2).sum(axis=0)), "SNR", 1e-9, 1e-9)
                longer = np.concatenate([y, y, y])
                eq(D.snr(sig(x, fs), sig(longer, fs)), d, "noise of another length", 1e-9, 1e-9)
                eq(D.snr(sig(10 * x, fs), sig(y, fs)), d + 20, "gain", 1e-9)
                # target y, modified x
                d = pure(D.si_sdr, sig(y, fs), sig(x, fs))
                same(d.shape, (3,), "shape")
                al = (x * ye).sum(axis=0) / (ye**2).sum(axis=0)
                with np.errstate(divide="ignore"):
                    want = 10 * np.log10(((al * ye) ** 2).sum(axis=0) / ((al * ye - x) ** 2).sum(axis=0))
                ok = want < 150
                eq(d[ok], want[ok], "SI-SDR", 1e-7, 1e-7)
                true((d[~ok] > 150).all(), "SI-SDR of equals")
                for g1, g2 in ((3, 1), (1, -0.01), (-20, 7)):
                    e = D.si_sdr(sig(g1 * y, fs), sig(g2 * x, fs))
                    eq(e[ok], d[ok], "gain does not matter", 1e-6, 1e-6)
                if kind == "full":
                    p = [2, 0, 1]
                    eq(D.si_sdr(sig(y[:, p], fs), sig(x[:, p], fs)), d[p], "order of channels", 1e-9)
                    s = D.si_sdr(sig(x, fs), sig(x * [1, 2, -3], fs))
                    true((s > 200).all(), "target against itself")
            ctx.case(f"time/{n}-{i}-{j}-{kind}", one)
            ctx.state("time", n, i, j, kind)
            ctx.step()
    a, b = sig(g, fs), sig(g[:, :2], fs)
    ctx.case(f"time/reject-{n}", lambda: (
        must_raise(lambda: D.snr(a, b), "channels"), must_raise(lambda: D.snr(a, sig(g, 500)), "rate"),
        must_raise(lambda: D.si_sdr(a, b), "channels"), must_raise(lambda: D.si_sdr(a, sig(g, 500)), "rate"),
        must_raise(lambda: D.si_sdr(a, sig(g[:-1], fs)), "length")))


# ------------------------------------------------ frequency-weighted segmental
def bands_of(s, rng):
    fb = dsp.filterbanks.auditory_filters_gammatone(frequency_range_hz=list(rng), resolution=1, sampling_rate_hz=s.sampling_rate_hz)
    mb = fb.filter_signal(s, mode=dsp.FilterBankMode.Parallel)
    return np.stack([b.time_data for b in mb.bands])


def segmental(X, Y, fs, lim, gamma):
    """bands x samples: mean over the frames of the limited weighted SNR"""
    L = int(0.075 * fs)
    L += L % 2
    w = np.hamming(L + 1)[:-1]
    n = X.shape[1]
    starts = range(0, n, L // 2)
    out = []
    pad = lambda z: np.pad(z, ((0, 0), (0, 2 * L)))
    X, Y = pad(X), pad(Y)
    for k in starts:
        a = np.abs(np.fft.rfft(X[:, k : k + L] * w, axis=1))
        b = np.abs(np.fft.rfft(Y[:, k : k + L] * w, axis=1))
        W = a**gamma
        if not W.any():
            continue
        a = a / a.sum(axis=1, keepdims=True)
        s = b.sum(axis=1, keepdims=True)
        b = b / np.where(s > 0, s, 1)
        with np.errstate(divide="ignore"):
            v = 10 * np.log10(a**2 / np.maximum((a - b) ** 2, 1e-60))
        out.append(np.clip(np.mean((W * v).sum(axis=0) / W.sum(axis=0)), *lim))
    return np.mean(out)


def fw(ctx, fs, n, thorough):
    cols = signals(n, fs)
    for (i, j), rng, lim, gamma in itertools.product(itertools.permutations(("noise", "other", "tilt", "tone"), 2), ([100, fs * 0.4], [fs * 0.2, 200]), ([-10, 35], [5, -3], (0, 4)), (0.2, 1.0)):
        def one():
            x, y = cols[i], cols[j]
            A = sig(np.stack([x, y, x], axis=1), fs)
            B = sig(np.stack([0.5 * x + 0.01 * y, x, x], axis=1), fs)
            d = pure(lambda a, b: D.fw_snr_seg(a, b, list(rng), list(lim), gamma), A, B)
            same(d.shape, (3,), "shape")
            X, Y = bands_of(A, np.sort(rng)), bands_of(B, np.sort(rng))
            lo = np.sort(lim)
            for k in range(3):
                eq(d[k], segmental(X[..., k], Y[..., k], fs, lo, gamma), f"channel {k}", 1e-6, 1e-6)
            eq(d[2], lo[1], "equal signals", 1e-9)
            eq(D.fw_snr_seg(sig(3 * A.time_data, fs), sig(-0.1 * B.time_data, fs), list(rng), list(lim), gamma)[:2], d[:2], "gain does not matter", 1e-4, 1e-4)
            s = D.fw_snr_seg(sig(x[:, None], fs), B, list(rng), list(lim), gamma)
            eq(s[[0, 2]], d[[0, 2]], "one original for all", 1e-9)
        ctx.case(f"fw/{fs}-{n}-{i}-{j}-{rng}-{lim}-{gamma}".replace(" ", ""), one)
        ctx.state("fw", fs, n, i, j, str(rng), str(lim), gamma)
        ctx.step()
    for lead, tail, both in itertools.product((0, n // 3), (0, n // 3), (True, False)):
        def silence():
            x = cols["noise"].copy()
            y = cols["other"].copy()
            for z in (x, y) if both else (x,):
                z[:lead] = 0
                z[n - tail :] = 0
            A, B = sig(x[:, None], fs), sig(y[:, None], fs)
            d = D.fw_snr_seg(A, B, [100, fs * 0.4])
            true(np.isfinite(d).all(), "finite")
            X, Y = bands_of(A, [100, fs * 0.4]), bands_of(B, [100, fs * 0.4])
            eq(d, [segmental(X[..., 0], Y[..., 0], fs, [-10, 35], 0.2)], "with silence", 1e-6, 1e-6)
        ctx.case(f"fw/silence-{fs}-{n}-{lead}-{tail}-{both}", silence)
    a = sig(np.stack([cols["noise"], cols["tone"]], axis=1), fs)
    r = [100, fs * 0.4]
    ctx.case(f"fw/reject-{fs}-{n}", lambda: [must_raise(f, "arguments") for f in (
        lambda: D.fw_snr_seg(a, sig(a.time_data, fs + 1), r), lambda: D.fw_snr_seg(a, sig(a.time_data[:-1], fs), r), lambda: D.fw_snr_seg(a, sig(a.time_data[:, :1], fs), r),
        lambda: D.fw_snr_seg(a, a, [100, fs]), lambda: D.fw_snr_seg(a, a, [0, 100]), lambda: D.fw_snr_seg(a, a, r, [1, 2, 3]), lambda: D.fw_snr_seg(a, a, r, gamma=0.01))])


def dispatch(ctx, name, a):
    globals()[name](ctx, *a)


def run(ctx):
    t = ctx.thorough
    jobs = [("spectral", (name, fs, n, t)) for name in FORMULA for fs, n in (((1000, 256), (8000, 255), (44100, 512)) if t else ((1000, 256), (8000, 255)))]
    jobs += [("time_domain", (n, t)) for n in ((10, 33, 400) if t else (10, 33))]
    jobs += [("fw", (fs, n, t)) for fs, n in (((2000, 500), (2000, 613), (8000, 3000), (8000, 4200)) if t else ((2000, 500), (2000, 613)))]
    jobs += [("spectral_general", ())]
    ctx.bound(signals="5 columns, every ordered pair", ranges=3, scalings=6)
    ctx.assume("either end of a frequency range may count as inside or outside; integrals are Simpson sums over the frequencies in Hz")
    ctx.parallel(dispatch, jobs)
