"""C01 cache coherence: breadth-first search over histories of mutations,
setting changes, reads, plots and copies of a Signal / ImpulseResponse with a
cache; after every history each getter returns what a freshly built object
with the model's data and settings returns."""

import copy

import numpy as np
import matplotlib.pyplot as plt

import dsptoolbox as dsp
from mc.core import canon, eq, same, true
from mc import dsp as R

FS = 1000
SM, SS, W = dsp.SpectrumMethod, dsp.SpectrumScaling, dsp.Window
SP0 = dict(
    method=SM.WelchPeriodogram, smoothing=0, pad_to_fast_length=True,
    window_length_samples=1024, window_type=W.Hann, overlap_percent=50.0,
    detrend=True, average="mean", scaling=SS.FFTBackward,
)
SPA = dict(SP0, window_length_samples=16)
SG0 = dict(
    window_length_samples=1024, window_type=W.Hann, overlap_percent=50.0,
    fft_length_samples=None, detrend=False, padding=True, scaling=SS.FFTBackward,
)
SGA = dict(SG0, window_length_samples=16)
N = 47
DATA = {
    "tdA": R.td(N, 2),
    "tdB": R.td(N, 2, 9),
    "tdLong": R.td(N + 6, 2, 4),
    "td3": R.td(N, 3, 2),
    "tdLoud": 5.0 * R.td(N, 2, 6),
}
DATA["tdCplx"] = R.td(N, 2, 3) + 1j * R.td(N, 2, 8)


class Model:
    def __init__(self, kind):
        self.kind = kind
        self.td = DATA["tdA"].copy()
        self.fs = FS
        self.sp = dict(SP0)
        if kind == "ir":
            self.sp["method"] = SM.FFT
        self.sg = dict(SG0)
        self.window = None
        self.constrain = False

    def set_td(self, td):
        td = np.array(td)
        if self.constrain:
            mx = max(np.max(np.abs(td.real)), np.max(np.abs(td.imag)))
            if mx > 1.0:
                td = td / mx
        self.td = td
        self.window = None


def fresh(m):
    cls = dsp.Signal if m.kind == "sig" else dsp.ImpulseResponse
    s = cls(None, m.td.copy(), m.fs, constrain_amplitude=False)
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.sg)
    if m.window is not None:
        s.set_window(m.window.copy())
    return s


REF = {}


def reference(m):
    key = canon((m.kind, m.td, m.fs, m.sp, m.sg, m.window))
    if key not in REF:
        out = {}
        out["spectrum"] = fresh(m).get_spectrum()
        if m.td.shape[1] > 1:
            out["csm"] = fresh(m).get_csm()
        out["spectrogram"] = fresh(m).get_spectrogram()
        REF[key] = out
    return REF[key]


def read(s, m, what, force=False, scribble=False):
    ref = reference(m)
    if what == "csm" and m.td.shape[1] < 2:
        return
    if what == "time":
        eq(s.time_vector_s, np.linspace(0, m.td.shape[0] / m.fs, m.td.shape[0]), "time vector")
        return
    got = getattr(s, f"get_{what}")(force) if force else getattr(s, f"get_{what}")()
    for i, (g, r) in enumerate(zip(got, ref[what])):
        eq(g, r, f"get_{what}()[{i}]", rtol=1e-10, atol=1e-12)
    if scribble:
        for g in got:
            g[...] = 77.0


GETTERS = ("spectrum", "csm", "spectrogram", "time")


def probe(s, m):
    """All getters twice, on a throw-away copy."""
    t = copy.deepcopy(s)
    td = t.time_data if not t.is_complex_signal else t.time_data + 1j * t.time_data_imaginary
    eq(td, m.td, "time data")
    true(np.iscomplexobj(m.td) == t.is_complex_signal, "complex flag")
    same(t.sampling_rate_hz, m.fs, "sampling rate")
    same(t.spectrum_scaling, m.sp["scaling"], "spectrum scaling")
    same(t.spectrum_method, m.sp["method"], "spectrum method")
    same(float(t.spectrum_smoothing), float(m.sp["smoothing"]), "spectrum smoothing")
    for g in GETTERS:
        read(t, m, g)
    for g in GETTERS[::-1]:
        read(t, m, g)


def ops_mut(kind):
    ops = {}

    def data(k):
        def f(s, m):
            s.time_data = DATA[k].copy()
            m.set_td(DATA[k])
            return s, m
        return f

    for k in DATA:
        ops[k] = data(k)

    def fs(s, m):
        s.sampling_rate_hz = m.fs = 1500 if m.fs == 1000 else 1000
        return s, m

    ops["fs"] = fs

    def add(s, m):
        x = R.td(m.td.shape[0], 1, 31)
        s.add_channel(None, x.copy(), s.sampling_rate_hz)
        m.set_td(np.concatenate([m.td, x], axis=1))
        return s, m

    ops["add_channel"] = add

    def remove(s, m):
        if m.td.shape[1] < 2:
            return None
        s.remove_channel(0)
        m.set_td(m.td[:, 1:])
        return s, m

    def swap(s, m):
        order = list(range(m.td.shape[1]))[::-1]
        s.swap_channels(order)
        m.set_td(m.td[:, order])
        return s, m

    ops["remove_channel"], ops["swap_channels"] = remove, swap

    def constrain(s, m):
        m.constrain = not m.constrain
        if m.constrain:
            m.set_td(m.td)
        s.constrain_amplitude = m.constrain
        return s, m

    ops["constrain"] = constrain

    def params(k, **kw):
        def f(s, m):
            m.sp = dict(SPA, **kw)
            s.set_spectrum_parameters(**m.sp)
            return s, m
        ops[k] = f

    params("sp_welch16")
    params("sp_win", window_type=W.Hamming)
    params("sp_overlap", overlap_percent=25.0)
    params("sp_detrend", detrend=False)
    params("sp_median", average="median")
    params("sp_len8", window_length_samples=8)
    params("sp_psd", scaling=SS.PowerSpectralDensity)
    params("sp_fft", method=SM.FFT)
    params("sp_fft_nopad", method=SM.FFT, pad_to_fast_length=False)
    params("sp_fft_amp", method=SM.FFT, scaling=SS.AmplitudeSpectrum)
    params("sp_fft_smooth", method=SM.FFT, smoothing=3)

    def setter(k, attr, key, val):
        def f(s, m):
            m.sp = dict(m.sp, **{key: val})
            setattr(s, attr, val)
            return s, m
        ops[k] = f

    setter("method_fft", "spectrum_method", "method", SM.FFT)
    setter("method_welch", "spectrum_method", "method", SM.WelchPeriodogram)
    setter("scaling_psd", "spectrum_scaling", "scaling", SS.PowerSpectralDensity)
    setter("scaling_fft", "spectrum_scaling", "scaling", SS.FFTForward)
    setter("smooth3", "spectrum_smoothing", "smoothing", 3)
    setter("smooth0", "spectrum_smoothing", "smoothing", 0)

    def sg(k, **kw):
        def f(s, m):
            m.sg = dict(SGA, **kw)
            s.set_spectrogram_parameters(**m.sg)
            return s, m
        ops[k] = f

    sg("sg_16")
    sg("sg_len32", window_length_samples=32)
    sg("sg_win", window_type=W.Hamming)
    sg("sg_overlap", overlap_percent=75.0)
    sg("sg_fft", fft_length_samples=32)
    sg("sg_detrend", detrend=True)
    sg("sg_nopad", padding=False)
    sg("sg_scale", scaling=SS.AmplitudeSpectrum)

    def cache(v):
        def f(s, m):
            s.activate_cache = v
            return s, m
        return f

    ops["cache_on"], ops["cache_off"] = cache(True), cache(False)

    def calibrated(s, m):
        s.calibrated_signal = not s.calibrated_signal
        return s, m

    ops["calibrated"] = calibrated
    if kind == "ir":
        def win(k):
            def f(s, m):
                m.window = 0.4 + 0.5 * np.abs(R.td(*m.td.shape, k))
                s.set_window(m.window.copy())
                return s, m
            return f

        def clear(s, m):
            s.clear_time_window()
            m.window = None
            return s, m

        ops["windowA"], ops["windowB"], ops["clear_window"] = win(41), win(53), clear

    def cp(s, m):
        c = s.copy()
        # the original must be unaffected by what happens to the copy
        t = s.copy()
        t.time_data = DATA["tdLong"].copy()
        t.spectrum_smoothing = 6
        t.get_spectrum()
        return c, m

    def renew(s, m):
        x = R.td(N - 5, 2, 77)
        s.get_spectrum()
        c = s.copy_with_new_time_data(x.copy())
        m.set_td(x)
        if m.kind == "ir":
            m.sp = dict(m.sp, method=SM.FFT)
        return c, m

    def channels(s, m):
        c = s.get_channels([m.td.shape[1] - 1, 0])
        td = m.td[:, [m.td.shape[1] - 1, 0]]
        m.set_td(td)
        if m.kind == "ir":
            m.sp = dict(m.sp, method=SM.FFT)
        return c, m

    def total(s, m):
        c = s.sum_channels()
        m.set_td(np.sum(m.td, axis=1, keepdims=True))
        if m.kind == "ir":
            m.sp = dict(m.sp, method=SM.FFT)
        return c, m

    ops["copy"], ops["copy_new_td"], ops["get_channels"], ops["sum_channels"] = cp, renew, channels, total
    return ops


def ops_read():
    ops = {}

    def rd(k, g, **kw):
        def f(s, m):
            read(s, m, g, **kw)
            return s, m
        ops[k] = f

    for g in GETTERS:
        rd(f"r_{g}", g)
    for g in GETTERS[:3]:
        rd(f"force_{g}", g, force=True)
        rd(f"scribble_{g}", g, scribble=True)

    def everything(s, m):
        for g in GETTERS:
            read(s, m, g)
        return s, m

    ops["r_all"] = everything
    return ops


def ops_plot(kind):
    ops = {}

    def pl(k, name, need=None, **kw):
        def f(s, m):
            if need is not None and not need(m):
                return None
            getattr(s, name)(**kw)
            plt.close("all")
            return s, m
        ops[k] = f

    fft = lambda m: m.sp["method"] == SM.FFT and not m.sp["scaling"].has_physical_units()
    many = lambda m: m.td.shape[1] > 1
    pl("plot_magnitude", "plot_magnitude", smoothing=2)
    pl("plot_magnitude_norm", "plot_magnitude", normalize=dsp.MagnitudeNormalization.Max)
    pl("plot_phase", "plot_phase", fft, smoothing=2)
    pl("plot_group_delay", "plot_group_delay")
    pl("plot_group_delay_peak", "plot_group_delay", remove_ir_latency="peak")
    pl("plot_spectrogram", "plot_spectrogram")
    pl("plot_csm", "plot_csm", many)
    pl("plot_time", "plot_time")
    pl("plot_spl", "plot_spl")
    if kind == "ir":
        pl("plot_bode", "plot_bode", fft, smoothing=2)
        pl("plot_bode_norm", "plot_bode", fft, normalize=dsp.MagnitudeNormalization.Max, show_group_delay=True)
    return ops


def start(kind, setup):
    m = Model(kind)
    s = fresh(m)
    s.activate_cache = True
    if setup == "welch":
        m.sp, m.sg = dict(SPA), dict(SGA)
    elif setup == "fft":
        m.sp, m.sg = dict(SPA, method=SM.FFT), dict(SGA)
    elif setup == "fftamp":
        m.sp = dict(SPA, method=SM.FFT, scaling=SS.PowerSpectrum)
        m.sg = dict(SGA)
    s.set_spectrum_parameters(**m.sp)
    s.set_spectrogram_parameters(**m.sg)
    return s, m


def run_history(ctx, kind, setup, hist, ops):
    s, m = start(kind, setup)
    for name in hist:
        r = ops[name](s, m)
        if r is None:
            return None
        s, m = r
        ctx.step()
    if ctx.state(canon((s, m))):
        probe(s, m)
    ctx.outcome(hist[-1], canon(m))
    return True


def explore(ctx, kind, setup, prefix, tail_sets):
    ops = {**ops_mut(kind), **ops_read(), **ops_plot(kind)}
    for tail in tail_sets:
        h = tuple(prefix) + tuple(tail)
        ctx.case(f"{kind}-{setup}/" + ".".join(h), run_history, ctx, kind, setup, h, ops)


def run(ctx):
    parts = []
    for kind in ("sig", "ir"):
        mut, plots, reads = list(ops_mut(kind)), list(ops_plot(kind)), list(ops_read())
        for setup in ("welch", "fft", "fftamp"):
            if kind == "sig" and setup == "fftamp" and not ctx.thorough:
                continue
            core_reads = ["r_all", "r_spectrum", "r_csm"]
            # (1) every mutation after every read, one more step, then probe
            for r1 in reads if ctx.thorough else core_reads + ["scribble_spectrum", "scribble_csm", "scribble_spectrogram", "force_spectrogram"]:
                tails = [(a,) for a in mut + reads]
                parts.append((kind, setup, (r1,), tails))
            # (2) read, mutation, read/mutation, mutation
            for a in mut:
                mid = reads + mut if ctx.thorough else ["r_all", "r_spectrum"] + mut
                tails = [(b,) for b in mid]
                if ctx.thorough:
                    tails += [(b, c) for b in ("r_all", "r_spectrum", "r_csm", "cache_off", "cache_on") for c in mut]
                else:
                    tails += [("r_all", c) for c in mut]
                    if a == "cache_off":
                        tails += [("r_all", c, d) for c in mut for d in ("r_all", "cache_on")]
                        tails += [("r_all", c, "r_all", "cache_on") for c in mut]
                        tails += [(c, "r_all", "cache_on") for c in mut]
                parts.append((kind, setup, ("r_all", a), tails))
            # (3) plots before and after reads and setting changes
            some = ["smooth3", "scaling_psd", "sp_fft_smooth", "tdB"] + (["windowA"] if kind == "ir" else [])
            if ctx.thorough:
                some = mut
            for p in plots:
                tails = [(p,), (p, "r_all")]
                tails += [(a, p, "r_all") for a in some] + [(p, a, "r_all") for a in some]
                tails += [("r_all", a, p) for a in some]
                tails += [(p, q) for q in plots] if ctx.thorough else []
                parts.append((kind, setup, ("r_all",), tails))
                parts.append((kind, setup, ("smooth3",), [(p, "r_all"), ("r_all", p), ("r_spectrum", p, "r_spectrum")]))
    ctx.bound(histories="read; mutation; read|mutation; mutation; all getters", channels="1-4", samples=N)
    ctx.assume("cached results are compared with those of a newly built object; the values themselves are decided by C09 and C15")
    ctx.parallel(explore, parts)
