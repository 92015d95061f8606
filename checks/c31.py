"""C31 Plots: every combination of the plotting options; the lines and images
which matplotlib holds are compared with the data the object reports."""

import itertools
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

warnings.simplefilter("ignore")
N = dsp.MagnitudeNormalization
S = dsp.SpectrumScaling
M = dsp.SpectrumMethod
FM = dsp.FilterBankMode
F = dsp.filterbanks
FS = 4000


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in ax.lines]


def check_lines(ax, x, y, what, rtol=1e-9, atol=1e-9, only=None):
    """y (points, lines)"""
    got = lines(ax)
    y = np.asarray(y)
    y = y[:, None] if y.ndim == 1 else y
    if only is None:
        same(len(got), y.shape[1], what + ": number of lines")
    for k in range(y.shape[1]):
        eq(got[k][0], x, f"{what}: x of line {k}", 1e-9, 1e-12)
        eq(got[k][1], y[:, k], f"{what}: line {k}", rtol, atol)


def figure(fn, *objs):
    plt.close("all")
    out = pure(lambda *_: fn(), *objs) if objs else fn()
    fig = out[0]
    true(fig is not None, "a figure")
    return fig, out[1]


def done():
    plt.close("all")


def near(f, hz):
    return int(np.argmin(np.abs(f - hz)))


def cut(f, y, rng, inclusive):
    if rng is None:
        return f, y
    lo, hi = sorted(rng)
    s = slice(near(f, lo), near(f, hi) + (1 if inclusive else 0))
    return f[s], y[s]


def normalized(f, power, norm, ref):
    """dB of a power (bins, channels) normalized as stated; 1 kHz is a bin"""
    db = 10 * np.log10(power)
    if norm is N.NoNormalization:
        return db - 20 * np.log10(ref)
    k = near(f, 1000)
    value = {
        N.OneKhz: lambda: db[k],
        N.OneKhzFirstChannel: lambda: np.full(db.shape[1], db[k, 0]),
        N.Max: lambda: db.max(axis=0),
        N.MaxFirstChannel: lambda: np.full(db.shape[1], db[:, 0].max()),
        N.Energy: lambda: 10 * np.log10(power.mean(axis=0)),
        N.EnergyFirstChannel: lambda: np.full(db.shape[1], 10 * np.log10(power[:, 0].mean())),
    }[norm]()
    return db - value


RANGES = (None, [200.0, 1500.0], [1200.0, 400.0])


# ---------------------------------------------------------------------- signal
def make_signal(kind, ch, n, calibrated=False):
    x = R.td(n, ch, 3) * 0.8
    s = (dsp.ImpulseResponse if kind == "ir" else dsp.Signal)(None, x, FS, constrain_amplitude=False)
    s.calibrated_signal = calibrated
    return s


def power_of(s):
    f, sp = s.get_spectrum()
    a = np.abs(sp)
    return f, (a**2 if s.spectrum_scaling.is_amplitude_scaling() else a)


def magnitude(ctx, kind):
    methods = [(M.FFT, 128), (M.FFT, 129)] + ([(M.WelchPeriodogram, 160)] if kind == "signal" else [])
    for (method, n), scaling, ch, cal in itertools.product(methods, S, (1, 2, 3), (False, True)):
        for norm, rng in itertools.product(N, RANGES):
            if cal and norm not in (N.NoNormalization, N.Max):
                continue
            if ch == 3 and (norm not in (N.Max, N.MaxFirstChannel) or rng is not None):
                continue
            def one():
                s = make_signal(kind, ch, n, cal)
                s.set_spectrum_parameters(method=method, scaling=scaling, pad_to_fast_length=False, window_length_samples=32, detrend=False)
                f, p = power_of(s.copy())
                if norm in (N.OneKhz, N.OneKhzFirstChannel) and not np.any(np.isclose(f, 1000)):
                    return
                f, p = cut(f, p, rng, True)
                fig, ax = figure(lambda: s.plot_magnitude(range_hz=rng, normalize=norm), s)
                check_lines(ax, f, normalized(f, p, norm, 2e-5 if cal else 1.0), "magnitude", 1e-8, 1e-7)
                same([t.get_text() for t in ax.get_legend().get_texts()], [f"Channel {k}" for k in range(ch)], "legend")
                if rng is not None:
                    eq(np.sort(ax.get_xlim()), np.sort(rng), "limits")
                done()
            ctx.case(f"magnitude/{kind}-{method.name}-{n}-{scaling.name}-{ch}-{cal}-{norm.name}-{rng}", one)
            ctx.step()


def smoothed(ctx, kind):
    for scaling, ch, rng, fr in itertools.product((S.FFTBackward, S.AmplitudeSpectrum, S.PowerSpectralDensity), (1, 2), (None, [200.0, 1500.0]), (1, 3)):
        def one():
            s = make_signal(kind, ch, 256)
            s.set_spectrum_parameters(method=M.FFT, scaling=scaling, pad_to_fast_length=False)
            f, p = power_of(s.copy())
            f, p = cut(f, p, rng, True)
            a = dsp.tools.fractional_octave_smoothing(p**0.5, None, fr)
            fig, ax = figure(lambda: s.plot_magnitude(range_hz=rng, smoothing=fr), s)
            check_lines(ax, f, 20 * np.log10(a), "smoothed", 1e-8, 1e-7)
            # A smoothing of the signal's own spectrum is not applied twice
            s.spectrum_smoothing = 1
            fig, ax = figure(lambda: s.plot_magnitude(range_hz=rng, smoothing=fr), s)
            check_lines(ax, f, 20 * np.log10(a), "smoothed once", 1e-8, 1e-7)
            same(s.spectrum_smoothing, 1.0, "setting")
            done()
        ctx.case(f"smoothed/{kind}-{scaling.name}-{ch}-{rng}-{fr}", one)
        ctx.step()


def time(ctx, kind):
    for ch, n, cplx in itertools.product((1, 2, 3), (40, 41), (False, True)):
        def one():
            x = R.td(n, ch, 5) * 0.5
            if cplx:
                x = x + 1j * R.td(n, ch, 6) * 0.4
            s = (dsp.ImpulseResponse if kind == "ir" else dsp.Signal)(None, x, FS)
            fig, ax = figure(lambda: s.plot_time(), s)
            same(len(ax), ch, "axes")
            for k in range(ch):
                y = [x[:, k].real] + ([x[:, k].imag] if cplx else [])
                check_lines(ax[k], s.time_vector_s, np.stack(y, 1), "time")
                true(ax[k].get_ylim()[1] >= np.max(np.abs(x[:, k].real)), "limits")
            for peak, win, dyn, cal in itertools.product((False, True), (0.0, 5.0 / FS, 8.0 / FS), (None, 60.0, 100.0), (False, True)):
                s.calibrated_signal = cal
                fig, ax = figure(lambda: s.plot_spl(peak, dyn, win), s)
                sq = x.real**2
                sqi = x.imag**2
                if win:
                    w = np.ones(round(win * FS)) / round(win * FS)
                    sq, sqi = (np.stack([np.convolve(q[:, k], w, "full")[(len(w) - 1) // 2:][:n] for k in range(ch)], 1) for q in (sq, sqi))
                db = 10 * np.log10(sq)
                top = db.max(axis=0)
                off = top if peak else (20 * np.log10(2e-5) if cal else 0.0) + 0 * top
                for k in range(ch):
                    got = lines(ax[k])
                    same(len(got), 1 + cplx, "lines")
                    eq(got[0][0], s.time_vector_s, "x")
                    eq(got[0][1], db[:, k] - off[k], "spl", 1e-7, 1e-6)
                    if cplx:
                        lim = (60.0 if dyn == 60.0 else dyn or 500.0)
                        want = 10 * np.log10(sqi)
                        want = np.maximum(want, want.max() - lim) - off
                        eq(got[1][1], want[:, k], "spl of the imaginary part", 1e-7, 1e-6)
                    if dyn is not None:
                        lo, hi = ax[k].get_ylim()
                        eq(hi - lo, dyn, "dynamic range")
                        eq(hi, (0 if peak else top[k] - off[k]) + 1, "upper limit")
                done()
        ctx.case(f"time/{kind}-{ch}-{n}-{cplx}", one)
        ctx.step(36)


def phase_delay(ctx, kind):
    for ch, n, rng in itertools.product((1, 2), (128, 129), RANGES[:2]):
        def one():
            s = make_signal(kind, ch, n)
            for method in (M.FFT,) + ((M.WelchPeriodogram,) if kind == "signal" else ()):
                s.set_spectrum_parameters(method=method, pad_to_fast_length=False, window_length_samples=32)
                fft = s.copy()
                fft.set_spectrum_parameters(method=M.FFT, pad_to_fast_length=False, scaling=S.FFTBackward)
                # The group delay plot uses a fast length
                f = np.fft.rfftfreq(n if n == 128 else 135, 1 / FS)
                sp = np.fft.rfft(s.time_data, len(f) * 2 - (2 if n == 128 else 1), axis=0)
                gd = -np.gradient(np.unwrap(np.angle(sp), axis=0), f[1] - f[0], axis=0) / 2 / np.pi * 1e3
                fig, ax = figure(lambda: s.plot_group_delay(range_hz=rng), s)
                x, y = cut(f, gd, rng, False)
                check_lines(ax, x, y, "group delay", 1e-7, 1e-7)
                for lat in (3.0, [1.0, 2.5][:ch]):
                    fig, ax = figure(lambda: s.plot_group_delay(range_hz=None, remove_ir_latency=[lat] * ch if np.isscalar(lat) else lat), s)
                    want = gd - np.broadcast_to(lat, ch) / FS * 1e3
                    got = np.stack([l[1] for l in lines(ax)], 1)
                    # unwrapped anew: up to a step of one period
                    d = (got - want)[2:-2] / (1e3 / (f[1] - f[0]) / 2)
                    true(np.all(np.abs(d - np.round(d)) < 1e-6), "latency removed")
                if method != M.FFT:
                    must_raise(lambda: s.plot_phase(), "phase of a Welch periodogram")
                    continue
                f, sp = fft.get_spectrum()
                for sc, unwrap in itertools.product(S, (False, True)):
                    s.spectrum_scaling = sc
                    ph = np.angle(sp)
                    ph = np.unwrap(ph, axis=0) if unwrap else ph
                    fig, ax = figure(lambda: s.plot_phase(range_hz=rng, unwrap=unwrap), s)
                    x, y = cut(f, ph, rng, False)
                    check_lines(ax, x, y, "phase", 1e-9, 1e-9)
            # Pure delays
            d = [3, 7][:ch]
            x = np.zeros((n, ch))
            x[d, range(ch)] = 0.5
            s = (dsp.ImpulseResponse if kind == "ir" else dsp.Signal)(None, x, FS)
            s.set_spectrum_parameters(method=M.FFT, pad_to_fast_length=False)
            fig, ax = figure(lambda: s.plot_group_delay(range_hz=rng), s)
            for k, l in enumerate(lines(ax)):
                eq(l[1], np.full(len(l[1]), d[k] / FS * 1e3), "pure delay", 1e-6)
            for lat in (d, "peak", "min_phase"):
                fig, ax = figure(lambda: s.plot_phase(range_hz=rng, remove_ir_latency=lat), s)
                for l in lines(ax):
                    eq(l[1], 0 * l[1], f"phase without latency {lat}", 0, 1e-3 if lat == "peak" else 1e-6)
                fig, ax = figure(lambda: s.plot_group_delay(range_hz=rng, remove_ir_latency=lat), s)
                for l in lines(ax):
                    eq(l[1], 0 * l[1], f"delay without latency {lat}", 0, 1e-3)
            done()
        ctx.case(f"phase/{kind}-{ch}-{n}-{rng}", one)
        ctx.step(10)


def matrices(ctx):
    for ch, scaling, method, rng in itertools.product((2, 3), S, (M.FFT, M.WelchPeriodogram), (None, [200.0, 1500.0])):
        def one():
            s = make_signal("signal", ch, 128)
            s.set_spectrum_parameters(method=method, scaling=scaling, pad_to_fast_length=False, window_length_samples=32, detrend=False)
            f, c = s.copy().get_csm()
            fig, ax = figure(lambda: s.plot_csm(rng, True), s)
            amp = scaling.is_amplitude_scaling() and scaling.has_physical_units()
            db = (20 if (amp or (method == M.WelchPeriodogram and scaling.is_amplitude_scaling())) else 10) * np.log10(np.maximum(np.abs(c), np.finfo(float).smallest_normal))
            if rng is None:
                x, sel = f, slice(None)
            else:
                sel = slice(near(f, rng[0]), near(f, rng[1]))
                x = f[sel]
            for i in range(ch):
                for j in range(ch):
                    check_lines(ax[i, j], x, db[sel, i, j], f"csm {i} {j}", 1e-8, 1e-7)
            phases = [a for a in fig.axes if a not in list(ax.flat)]
            same(len(phases), ch * (ch - 1), "phase axes")
            want = iter([(i, j) for i in range(ch) for j in range(ch) if i != j])
            for a, (i, j) in zip(phases, want):
                check_lines(a, x, np.unwrap(np.angle(c[sel, i, j])), f"csm phase {i} {j}", 1e-8, 1e-8)
            fig, ax = figure(lambda: s.plot_csm(rng, False), s)
            same(len(fig.axes), ch * ch, "no phase axes")
            done()
        ctx.case(f"csm/{ch}-{scaling.name}-{method.name}-{rng}", one)
        ctx.step()
    for ch, scaling, chn, cal, logf, dyn in itertools.product((1, 3), S, (0, 1, 2), (False, True), (True, False), (50, 90)):
        if chn >= ch:
            continue
        def spec():
            s = make_signal("signal", ch, 300, cal)
            s.set_spectrogram_parameters(window_length_samples=64, scaling=scaling, detrend=False)
            t, f, z = s.copy().get_spectrogram()
            fig, ax = figure(lambda: s.plot_spectrogram(chn, logf, dyn), s)
            im = ax.images[0]
            got = np.asarray(im.get_array())
            sel = f >= 20
            p = np.abs(z[sel][:, :, chn])
            db = (20 if scaling.is_amplitude_scaling() else 10) * np.log10(np.maximum(p, 1e-300)) - (20 * np.log10(2e-5) if cal else 0)
            same(got.shape, db.shape, "shape")
            ok = p > 1e-12
            eq(got[ok], db[ok], "image", 1e-8, 1e-6)
            same(im.origin, "lower", "origin")
            eq(im.get_extent(), [t[0], t[-1], f[sel][0], f[-1]], "extent")
            eq(im.norm.vmax, np.max(got), "maximum")
            eq(im.norm.vmax - im.norm.vmin, dyn, "range")
            same(ax.get_yscale(), "log" if logf else "linear", "scale")
            done()
        ctx.case(f"spectrogram/{ch}-{scaling.name}-{chn}-{cal}-{logf}-{dyn}", spec)
        ctx.step()


def bode(ctx):
    for scaling, norm, ch, n, gd in itertools.product(S, N, (1, 2), (128, 144), (False, True)):
        def one():
            s = make_signal("ir", ch, n)
            s.set_spectrum_parameters(method=M.FFT, scaling=scaling, pad_to_fast_length=False)
            f, p = power_of(s.copy())
            ph = np.angle(np.fft.rfft(s.time_data, axis=0))
            fig, ax = figure(lambda: s.plot_bode(normalize=norm, show_group_delay=gd), s)
            if norm in (N.OneKhz, N.OneKhzFirstChannel) and not np.any(np.isclose(f, 1000)):
                return
            check_lines(ax[0], f, normalized(f, p, norm, 1.0), "magnitude", 1e-8, 1e-7)
            if gd:
                ph = -np.gradient(np.unwrap(ph, axis=0), f[1] - f[0], axis=0) / 2 / np.pi
            check_lines(ax[1], f, ph, "phase or group delay", 1e-7, 1e-8)
            done()
        ctx.case(f"bode/{scaling.name}-{norm.name}-{ch}-{n}-{gd}", one)
        ctx.step()


def windows(ctx):
    for ch, n in itertools.product((1, 2), (40, 41)):
        def one():
            s = make_signal("ir", ch, n)
            w = dsp.transfer_functions.window_ir(s, n - 4)[0]
            true(hasattr(w, "window"), "a window")
            fig, ax = figure(lambda: w.plot_time(), w)
            for k in range(ch):
                same(len(lines(ax[k])), 2, "lines")
                eq(lines(ax[k])[0][1], w.time_data[:, k], "time data")
                eq(lines(ax[k])[1][1], w.window[:, k] * np.max(np.abs(w.time_data[:, k])), "window")
            for peak, cal in itertools.product((False, True), repeat=2):
                w.calibrated_signal = cal
                fig, ax = figure(lambda: w.plot_spl(peak), w)
                for k in range(ch):
                    a, b = lines(ax[k])
                    ok = w.window[:, k] > 1e-6
                    d = b[1][ok] - 20 * np.log10(w.window[ok, k])
                    true(np.ptp(d) < 1e-6, "the window in dB")
                    true(abs(d[0] - np.max(a[1])) < 1.0, "at the level of the peak")
            done()
        ctx.case(f"window/{ch}-{n}", one)
        ctx.step()


# --------------------------------------------------------------------- filters
def filters():
    b = np.array([0.3, -0.4, 0.25, 0.1, 0.05])
    return {
        "fir": dsp.Filter.from_ba(b, [1.0], FS),
        "fir-long": dsp.Filter.from_ba(np.hanning(33) / 16, [1.0], FS),
        "iir": dsp.Filter.from_ba([0.2, 0.3], [1.0, -0.5, 0.2], FS),
        "sos": dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 800.0, 6.0, 1.0, FS),
        "zpk": dsp.Filter.from_zpk([0.2, -0.9], [0.3 + 0.2j, 0.3 - 0.2j], 0.5, FS),
    }


def transfer(f, flt):
    b, a = flt.get_coefficients(dsp.FilterCoefficientsType.Ba)[:2]
    z = np.exp(-1j * 2 * np.pi * f / FS)
    return np.polynomial.polynomial.polyval(z, b) / np.polynomial.polynomial.polyval(z, a)


def filter_plots(ctx):
    for (name, flt), rng, n in itertools.product(filters().items(), RANGES[:2], (4, 512)):
        def one():
            m = n if n >= flt.order else flt.order + 100
            f = np.fft.rfftfreq(m, 1 / FS)
            if n == 4 and not name == "fir-long":
                return
            H = transfer(f, flt)
            for zp in (False, True):
                if zp and n == 4:
                    continue
                fig, ax = figure(lambda: flt.plot_magnitude(n, rng, zero_phase=zp), flt)
                got = lines(ax)[0]
                true(len(lines(ax)) == 1, "one line")
                HH = np.abs(transfer(got[0], flt))
                if not zp:
                    ok = HH > 1e-7
                    eq(got[1][ok], 20 * np.log10(HH[ok]), "magnitude", 1e-5, 1e-5)
                fx, _ = cut(f, f, rng, True)
                if n != 4:
                    eq(got[0], fx, "frequencies")
            for unwrap in (False, True):
                fig, ax = figure(lambda: flt.plot_phase(n, rng, unwrap), flt)
                got = lines(ax)[0]
                ok = np.abs(transfer(got[0], flt)) > 1e-7
                d = (got[1] - np.angle(transfer(got[0], flt)))[ok]
                eq(np.exp(1j * d), np.ones(len(d)) + 0j, "phase", 0, 1e-4)
                if unwrap:
                    true(np.max(np.abs(np.diff(got[1]))) <= np.pi + 1e-9, "unwrapped")
            fig, ax = figure(lambda: flt.plot_group_delay(n, rng), flt)
            got = lines(ax)[0]
            h = 0.01
            num = -np.angle(transfer(got[0] + h, flt) / transfer(got[0] - h, flt)) / (2 * h) / 2 / np.pi * 1e3
            ok = np.abs(transfer(got[0], flt)) > 1e-3
            eq(got[1][ok], num[ok], "group delay", 1e-4, 1e-4)
            fig, ax = figure(lambda: flt.plot_zp(), flt)
            z, p, k = flt.get_coefficients(dsp.FilterCoefficientsType.Zpk)
            gz, gp = lines(ax)
            for g, w in ((gz, z), (gp, p)):
                c = sorted(g[0] + 1j * g[1], key=lambda v: (round(v.real, 6), round(v.imag, 6)))
                w = sorted(np.asarray(w, complex), key=lambda v: (round(v.real, 6), round(v.imag, 6)))
                w = [v for v in w]
                if len(c) == len(w):
                    eq(np.array(c), np.array(w), "zeros and poles", 1e-5, 1e-5)
            if flt.is_fir:
                b = flt.get_coefficients(dsp.FilterCoefficientsType.Ba)[0]
                for db in (False, True):
                    fig, ax = figure(lambda: flt.plot_taps(in_db=db), flt)
                    ok = np.abs(b) > 0
                    got = lines(ax)[0]
                    eq(got[0], np.arange(len(b)) / FS, "time")
                    eq(got[1][ok], 20 * np.log10(np.abs(b[ok])) if db else b[ok], "taps", 1e-9)
            else:
                must_raise(lambda: flt.plot_taps(), "taps of an IIR filter")
            done()
        ctx.case(f"filter/{name}-{rng}-{n}", one)
        ctx.step(6)


def bank_plots(ctx):
    fl = filters()
    banks = {
        "two": ["fir", "iir"],
        "one": ["sos"],
        "three": ["iir", "fir", "sos"],
    }
    for (name, fs), mode, rng in itertools.product(banks.items(), FM, RANGES[:2]):
        def one():
            fb = dsp.FilterBank([fl[k] for k in fs])
            Hs = lambda f: {
                FM.Parallel: lambda: np.stack([transfer(f, fl[k]) for k in fs], 1),
                FM.Sequential: lambda: np.prod([transfer(f, fl[k]) for k in fs], 0)[:, None],
                FM.Summed: lambda: np.sum([transfer(f, fl[k]) for k in fs], 0)[:, None],
            }[mode]()
            f = np.fft.rfftfreq(512, 1 / FS)
            fig, ax = figure(lambda: fb.plot_magnitude(512, mode, rng), fb)
            x, _ = cut(f, f, rng, True)
            check_lines(ax, x, 20 * np.log10(np.abs(Hs(x))), "magnitude", 1e-5, 1e-5)
            for unwrap in (False, True):
                fig, ax = figure(lambda: fb.plot_phase(512, mode, rng, unwrap), fb)
                ph = np.angle(Hs(f))
                got = lines(ax)
                same(len(got), ph.shape[1], "lines")
                for k, g in enumerate(got):
                    eq(np.exp(1j * (g[1] - np.angle(Hs(g[0])[:, k]))), np.ones(len(g[0])) + 0j, "phase", 0, 1e-5)
                    true(len(g[0]) > (100 if rng else 250), "frequencies")
                    true(np.max(np.abs(np.diff(g[1]))) <= np.pi + 1e-9 if unwrap else np.max(np.abs(g[1])) <= np.pi + 1e-9, "unwrapped")
            fig, ax = figure(lambda: fb.plot_group_delay(512, mode, rng), fb)
            for k, g in enumerate(lines(ax)):
                want = -np.gradient(np.unwrap(np.angle(Hs(f)[:, k])), f[1] - f[0]) / 2 / np.pi * 1e3
                ids = [near(f, v) for v in g[0]]
                eq(g[1], want[ids], "group delay", 1e-4, 1e-4)
            done()
        ctx.case(f"bank/{name}-{mode.name}-{rng}", one)
        ctx.step(4)

    def multirate():
        fb = dsp.FilterBank([fl["fir"], dsp.Filter.from_ba([1.0, 0.5], [1.0], 2 * FS)], same_sampling_rate=False)
        for mode in FM:
            true(fb.plot_magnitude(64, mode) is None, "no plot for multirate banks")
    ctx.case("bank/multirate", multirate)


def special_banks(ctx):
    for order, freqs, rng, zp in itertools.product((2, 4), ([500.0], [300.0, 900.0]), RANGES[:2], (False, True)):
        def lr():
            fb = F.linkwitz_riley_crossovers(freqs, [order] * len(freqs), FS)
            n = 512
            d = np.zeros((n, 1))
            d[n // 2 if zp else 0] = 1.0
            bands = fb.filter_signal(dsp.Signal(None, d, FS, constrain_amplitude=False), mode=FM.Parallel, zero_phase=zp)
            f = np.fft.rfftfreq(n, 1 / FS)
            H = np.stack([np.fft.rfft(b.time_data[:, 0]) for b in bands.bands], 1)
            fb = F.linkwitz_riley_crossovers(freqs, [order] * len(freqs), FS)
            fig, ax = figure(lambda: fb.plot_magnitude(n, FM.Parallel, rng, zp), fb)
            x, h = cut(f, np.concatenate([H, H.sum(1)[:, None]], 1), rng, True)
            got = lines(ax)
            same(len(got), h.shape[1], "bands and their sum")
            for k, g in enumerate(got):
                eq(g[0], x, "frequencies")
                ok = np.abs(h[:, k]) > 1e-8
                eq(g[1][ok], 20 * np.log10(np.abs(h[ok, k])), f"line {k}", 1e-6, 1e-5)
            if not zp:
                for mode in (FM.Parallel, FM.Summed):
                    Y = H if mode is FM.Parallel else H.sum(1)[:, None]
                    fig, ax = figure(lambda: fb.plot_phase(n, mode, rng), fb)
                    for k, g in enumerate(lines(ax)):
                        ids = [near(f, v) for v in g[0]]
                        ok = np.abs(Y[ids, k]) > 1e-6
                        eq(np.exp(1j * (g[1] - np.angle(Y[ids, k])))[ok], np.ones(ok.sum()) + 0j, "phase", 0, 1e-5)
                    fig, ax = figure(lambda: fb.plot_group_delay(n, mode, rng), fb)
                    for k, g in enumerate(lines(ax)):
                        want = -np.gradient(np.unwrap(np.angle(Y[:, k])), f[1] - f[0]) / 2 / np.pi * 1e3
                        ids = [near(f, v) for v in g[0]]
                        ok = np.abs(Y[ids, k]) > 1e-3
                        eq(g[1][ok], want[ids][ok], "group delay", 1e-4, 1e-3)
            done()
        ctx.case(f"bank/lr-{order}-{len(freqs)}-{rng}-{zp}", lr)
        ctx.step(4)
    b = np.array([0.1, 0.4, 0.4, 0.1])
    for mode, down, rng in itertools.product(FM, (False, True), (None, [100.0, 700.0])):
        if mode is FM.Sequential and down:
            continue
        def qmf():
            fb = F.qmf_crossover(dsp.Filter.from_ba(b, [1.0], FS))
            n = 256
            hi = b * (-1.0) ** np.arange(4)
            fs = FS // 2 if down else FS
            H = []
            for c in (b, hi):
                x = np.append(c, np.zeros(n - 4))
                H.append(np.fft.rfft(x[1::2] if down else x))
            H = np.array(H).T
            Y = {FM.Parallel: H, FM.Summed: H.sum(1)[:, None], FM.Sequential: H.prod(1)[:, None]}[mode]
            f = np.fft.rfftfreq((len(Y) - 1) * 2, 1 / fs)
            fig, ax = figure(lambda: fb.plot_magnitude(n, mode, rng, down), fb)
            x, y = cut(f, Y, rng, True)
            got = lines(ax)
            same(len(got), Y.shape[1], "lines")
            for k, g in enumerate(got):
                eq(g[0], x, "frequencies")
                ok = np.abs(y[:, k]) > 1e-9
                eq(g[1][ok], 20 * np.log10(np.abs(y[ok, k])), "magnitude", 1e-6, 1e-6)
            done()
        ctx.case(f"bank/qmf-{mode.name}-{down}-{rng}", qmf)
        ctx.step()
    for fc, q, rng in itertools.product((200.0, 900.0), (0.7, 2.0), RANGES[:2]):
        def sv():
            z = F.StateVariableFilter(fc, q, FS)
            n = 1024
            ir = F.StateVariableFilter(fc, q, FS).get_ir(n)
            H = np.stack([np.fft.rfft(b.time_data[:, 0]) for b in ir.bands], 1)
            f = np.fft.rfftfreq(n, 1 / FS)
            fig, ax = figure(lambda: z.plot_magnitude(n, rng))
            x, y = cut(f, H, rng, True)
            got = lines(ax)
            same(len(got), 4, "lowpass, highpass, bandpass, allpass")
            same([t.get_text() for t in ax.get_legend().get_texts()], ["Lowpass", "Highpass", "Bandpass", "Allpass"], "legend")
            for k, g in enumerate(got):
                eq(g[0], x, "frequencies")
                ok = np.abs(y[:, k]) > 1e-5
                eq(g[1][ok], 20 * np.log10(np.abs(y[ok, k])), "magnitude", 1e-5, 1e-4)
            fig, ax = figure(lambda: z.plot_phase(n, rng))
            for k, g in enumerate(lines(ax)):
                ids = [near(f, v) for v in g[0]]
                ok = np.abs(H[ids, k]) > 1e-4
                eq(np.exp(1j * (g[1] - np.angle(H[ids, k])))[ok], np.ones(ok.sum()) + 0j, "phase", 0, 1e-4)
            fig, ax = figure(lambda: z.plot_group_delay(n, rng))
            for k, g in enumerate(lines(ax)):
                want = -np.gradient(np.unwrap(np.angle(H[:, k])), f[1] - f[0]) / 2 / np.pi * 1e3
                ids = [near(f, v) for v in g[0]]
                ok = np.abs(H[ids, k]) > 1e-2
                eq(g[1][ok], want[ids][ok], "group delay", 1e-3, 1e-3)
            done()
        ctx.case(f"bank/svf-{fc}-{q}-{rng}", sv)
        ctx.step(3)


# -------------------------------------------------------------------- spectrum
def spectra(ctx):
    f = np.array([125.0, 250, 500, 1000, 2000])
    d = np.array([[1, 4, 2.0], [2, 3, 1], [4, 2, 0.5], [3, 5, 0.25], [0.5, 1, 3]])
    for ch, cplx, norm, db in itertools.product((1, 2, 3), (False, True), N, (True, False)):
        def one():
            z = d[:, :ch] * (np.exp(1j * np.arange(5))[:, None] if cplx else 1.0)
            s = dsp.Spectrum(f, z)
            fig, ax = figure(lambda: s.plot_magnitude(db, norm), s)
            m = d[:, :ch]
            if norm in (N.Energy, N.EnergyFirstChannel):
                got = np.stack([l[1] for l in lines(ax)], 1)
                q = (got - 20 * np.log10(m)) if db else got / m
                true(np.max(np.ptp(q, axis=0)) < 1e-9, "one factor")
                if norm is N.EnergyFirstChannel:
                    true(np.ptp(q) < 1e-9, "one factor for all channels")
                else:
                    e = (10 ** (got / 20) if db else got) ** 2
                    E = np.trapezoid(e, f, axis=0)
                    true(np.ptp(E) / E[0] < 1e-9, "same energy")
                return
            ref = {
                N.NoNormalization: np.ones(ch),
                N.OneKhz: m[3],
                N.OneKhzFirstChannel: np.full(ch, m[3, 0]),
                N.Max: m.max(0),
                N.MaxFirstChannel: np.full(ch, m[:, 0].max()),
            }[norm]
            check_lines(ax, f, 20 * np.log10(m / ref) if db else m / ref, "magnitude")
            true(("dB" in ax.get_ylabel()) == db, "label " + ax.get_ylabel())
            true("Magnitude" in ax.get_ylabel(), "label " + ax.get_ylabel())
            if db:
                fig, ax = figure(lambda: s.plot_magnitude(True, norm, 6.0), s)
                w = 20 * np.log10(m / ref)
                check_lines(ax, f, np.maximum(w, w.max() - 6.0), "dynamic range")
            s.set_coherence(np.clip(m / 5, 0, 1))
            fig, ax = figure(lambda: s.plot_coherence(), s)
            for k in range(ch):
                check_lines(ax[k], f, m[:, k] / 5, "coherence")
            done()
        ctx.case(f"spectrum/{ch}-{cplx}-{norm.name}-{db}", one)
        ctx.step()


# --------------------------------------------------------------- other objects
def others(ctx):
    E_ = dsp.effects
    for thr, ratio, knee, mix, downw in itertools.product((-30.0, -12.0), (1.0, 2.0, 8.0), (0.0, 6.0), (100, 40), (True, False)):
        def comp():
            c = E_.Compressor(thr, 0.5, 20, ratio)
            c.set_advanced_parameters(knee_factor_db=knee, mix_percent=mix, downward_compression=downw)
            fig, ax = figure(lambda: c.show_compression(), c)
            got = lines(ax)
            eq(got[0][0], got[0][1], "input")
            x, y = got[1]
            eq(x, got[0][0], "x")
            over = x > thr + knee
            under = x < thr - knee
            if downw:
                want = np.where(x > thr, thr + (x - thr) / ratio, x)
            else:
                want = np.where(x < thr, thr + (x - thr) / ratio, x)
            m = mix / 100
            want = 20 * np.log10(10 ** (want / 20) * m + 10 ** (x / 20) * (1 - m))
            ok = over | under
            true(ok.sum() > 100, "some gains")
            eq(y[ok], want[ok], "compression", 1e-9, 1e-9)
            eq(got[2][0], [thr, thr], "threshold")
            eq(got[3][1], [thr, thr], "threshold")
            done()
        ctx.case(f"other/compression-{thr}-{ratio}-{knee}-{mix}-{downw}", comp)
        ctx.step()
    for ms, fb in itertools.product((5.0, 20.0), (0.3, 0.7)):
        def delay():
            e = E_.DigitalDelay(ms, fb)
            fig, ax = figure(lambda: e.plot_delay(), e)
            x, y = lines(ax)[0]
            for k in range(8):
                i = int(round(k * ms * 2))
                eq(x[i], k * ms, "time")
                eq(y[i], 20 * np.log10(fb) * k, "level", 1e-9, 1e-9)
            quiet = np.ones(len(x), bool)
            quiet[:: int(ms * 2)] = False
            true(np.all(y[quiet] < -200), "nothing between")
            done()
        ctx.case(f"other/delay-{ms}-{fb}", delay)
        ctx.step()
    for w in ("harmonic", "sawtooth", "square", "triangle"):
        def lfo():
            l = E_.LFO(3.0, w)
            fig, ax = figure(lambda: l.plot_waveform(), l)
            eq(lines(ax)[0][1], E_.LFO(2.0, w).get_waveform(1000, 1000), "waveform", 0, 1e-12)
            done()
        ctx.case(f"other/lfo-{w}", lfo)
        ctx.step()
    BF = dsp.beamforming
    lx, ly = [-1.0, 0.0, 1.0, 2.0], [0.5, 1.0, 2.0]
    for d1, d2 in ((("x"), ("y")), ("x", "z"), ("y", "z")):
        for shape, rng in itertools.product((1, 2), (20, 6)):
            def map2():
                g = BF.Regular2DGrid(lx, ly, (d1, d2), 1.5)
                m = np.arange(1.0, 13) ** 2
                fig, ax = figure(lambda: g.plot_map(m.copy() if shape == 1 else g.reconstruct_map_shape(m.copy()), rng), g)
                im = ax.images[0]
                got = np.asarray(im.get_array())
                x0, x1, y0, y1 = im.get_extent()
                h, v = ax.get_xlabel()[0], ax.get_ylabel()[0]
                k = {"x": 0, "y": 1, "z": 2}
                true({h, v} == {d1, d2}, "axes")
                # Every point is drawn at its coordinates
                for c, p in zip(g.coordinates, m):
                    i = round((c[k[v]] - y0) / (y1 - y0) * (got.shape[0] - 1), 9)
                    j = round((c[k[h]] - x0) / (x1 - x0) * (got.shape[1] - 1), 9)
                    if c[k[v]] not in (y0, y1) or c[k[h]] not in (x0, x1):
                        continue
                    if im.origin == "upper":
                        i = got.shape[0] - 1 - i
                    eq(got[int(i), int(j)], 10 * np.log10(p), "value", 1e-9)
                eq(im.norm.vmax, 10 * np.log10(m.max()), "maximum")
                eq(im.norm.vmax - im.norm.vmin, rng, "range")
                done()
            ctx.case(f"other/map-{d1}{d2}-{shape}-{rng}", map2)
            ctx.step()
    lz = [0.0, 3.0]
    for third, at in itertools.product("xyz", (0.4, 2.9)):
        def map3():
            g = BF.Regular3DGrid(lx, ly, lz)
            m = np.arange(1.0, 25)
            fig, ax = figure(lambda: g.plot_map(m.copy(), third, at, 20), g)
            im = ax.images[0]
            got = np.asarray(im.get_array())
            x0, x1, y0, y1 = im.get_extent()
            h, v = ax.get_xlabel()[0], ax.get_ylabel()[0]
            k = {"x": 0, "y": 1, "z": 2}
            true({h, v} == set("xyz") - {third}, "axes")
            ls = {"x": lx, "y": ly, "z": lz}[third]
            plane = ls[int(np.argmin(np.abs(np.array(ls) - at)))]
            seen = 0
            for c, p in zip(g.coordinates, m):
                if c[k[third]] != plane or c[k[v]] not in (y0, y1) or c[k[h]] not in (x0, x1):
                    continue
                i, j = (c[k[v]] == y1) * (got.shape[0] - 1), (c[k[h]] == x1) * (got.shape[1] - 1)
                if im.origin == "upper":
                    i = got.shape[0] - 1 - i
                eq(got[int(i), int(j)], 10 * np.log10(p), "value", 1e-9)
                seen += 1
            same(seen, 4, "corners")
            must_raise(lambda: g.plot_map(m.copy(), "w", at), "dimension")
            done()
        ctx.case(f"other/map3-{third}-{at}", map3)
        ctx.step()
    P = dsp.plots
    for n, ch, xn, lab in itertools.product((1, 5), (0, 1, 3), (False, True), (None, "list", "str")):
        def generic():
            m = R.td(max(n, ch), max(ch, 1), 8)[:n]
            m = m[:, 0] if ch == 0 else m
            x = None if xn else np.arange(n) * 2.0 + 1
            k = max(ch, 1)
            labels = None if lab is None else ([f"l{i}" for i in range(k)] if lab == "list" else "one")
            if lab == "str" and k != 1:
                return
            fig, ax = figure(lambda: P.general_plot(x, m, labels=labels, log_x=False))
            check_lines(ax, np.arange(n) if xn else x, m, "general plot")
            fig, ax = figure(lambda: P.general_plot_two_axes(x, m, x, m * 2, labels1=labels, log_x=False))
            check_lines(ax[0], np.arange(n) if xn else x, m, "first axis")
            check_lines(ax[1], np.arange(n) if xn else x, m * 2, "second axis")
            for names in (None, "x", ["y"], [f"x{i}" for i in range(k)]):
                for columns in (False, True):
                    fig, ax = figure(lambda: P.general_subplots_line(x, m, columns, xlabels=names, ylabels=None if names is None else [f"y{i}" for i in range(k)]))
                    for i in range(k):
                        check_lines(ax[i], np.arange(n) if xn else x, m if m.ndim == 1 else m[:, i], "subplot")
                        last = names if type(names) is str else (names or [""])[-1]
                        same(ax[i].get_xlabel(), names[i] if names is not None and type(names) is not str and len(names) > 1 else (last or "") * (i == k - 1), "x label")
                        same(ax[i].get_ylabel(), "" if names is None else f"y{i}", "y label")
                    done()
            if m.ndim == 2:
                fig, ax = figure(lambda: P.general_matrix_plot(m, range_z=5.0))
                eq(np.asarray(ax.images[0].get_array()), m, "matrix")
                eq(ax.images[0].norm.vmax - ax.images[0].norm.vmin, 5.0, "range")
            done()
        ctx.case(f"other/plots-{n}-{ch}-{xn}-{lab}", generic)
        ctx.step()

    def computed():
        s = make_signal("signal", 2, 600)
        s.set_spectrogram_parameters(window_length_samples=64)
        for ch in (0, 1):
            t, f, mel, fig, ax = dsp.transforms.log_mel_spectrogram(s, ch, generate_plot=True, stft_parameters=dict(window_length_samples=128))
            got = np.asarray(ax.images[0].get_array())
            mel = mel[..., ch]
            ok = np.isfinite(mel)
            eq(got[ok], mel[ok], "mel spectrogram", 1e-9)
            t, f, c, fig, ax = dsp.transforms.mfcc(s, ch, generate_plot=True, stft_parameters=dict(window_length_samples=128))
            got = np.asarray(ax.images[0].get_array())
            c = c[..., ch]
            ok = np.isfinite(c)
            eq(got[ok], c[ok], "MFCC", 1e-9)
            done()
        for scaling, dyn, ch in itertools.product(S, (None, 30.0), (0, 1)):
            s.set_spectrogram_parameters(window_length_samples=64, scaling=scaling)
            t, f, sp = s.copy().get_spectrogram()
            a = np.abs(sp[..., ch])
            db = (20 if scaling.is_amplitude_scaling() else 10) * np.log10(np.maximum(a, 1e-300))
            if dyn is not None:
                db = np.maximum(db, db.max() - dyn)
            fig, ax = figure(lambda: dsp.transforms.plot_waterfall(s, ch, dyn), s)
            eq(ax.xy_dataLim.intervalx, [t[0], t[-1]], "waterfall time")
            eq(ax.xy_dataLim.intervaly, [f[0], f[-1]], "waterfall frequency")
            if dyn is not None:
                eq(ax.zz_dataLim.intervalx, [db.min(), db.max()], "waterfall levels", 1e-6, 1e-6)
            else:
                eq(ax.zz_dataLim.intervalx[1], db.max(), "waterfall peak", 1e-6, 1e-6)
            done()
        r = dsp.room_acoustics.ShoeboxRoom([3, 4, 5], t60_s=0.5)
        fr = np.linspace(50, 200, 40)
        p, modes, plot = r.get_analytical_transfer_function([1, 1, 1], [2, 2, 2], fr, 3, True)
        db = 20 * np.log10(np.abs(p))
        check_lines(plot[1], fr, db - db.max(), "room")
        done()
    ctx.case("other/computed", computed)


def run(ctx):
    parts = []
    for kind in ("signal", "ir"):
        parts += [(magnitude, kind), (smoothed, kind), (time, kind), (phase_delay, kind)]
    parts += [(matrices,), (bode,), (windows,), (filter_plots,), (bank_plots,), (special_banks,), (spectra,), (others,)]
    ctx.bound(plots="every plotting method x normalizations x scalings x ranges x channels", length="128-600 samples")
    ctx.parallel(lambda c, fn, *a: fn(c, *a), parts)
