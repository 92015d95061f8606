"""C13 Spectrum as a table over frequency: every history of table operations
against a list-of-rows model, and every combination of interpolation domain,
scheme, edge rule, output and query against an own interpolator."""

import copy
import itertools

import numpy as np
from scipy.interpolate import CubicSpline, PchipInterpolator

import dsptoolbox as dsp
from mc.core import Mismatch, canon, eq, must_raise, same, true
from mc import dsp as R
from mc.snap import pure

D = dsp.InterpolationDomain
SCH = dsp.InterpolationScheme
E = dsp.InterpolationEdgeHandling
T = dsp.SpectrumType
FV = {
    "lin": np.array([0.0, 100.0, 200.0, 300.0, 400.0]),
    "lin2": np.array([50.0, 75.0, 100.0, 125.0, 150.0, 175.0]),
    "log": np.array([20.0, 40.0, 80.0, 160.0, 320.0]),
    "other": np.array([10.0, 11.0, 40.0, 45.5, 200.0, 260.0]),
}


def data(n, ch, cplx, k=0):
    x = R.td(n, ch, 3 + k, cplx) * 4
    return x if cplx else np.abs(x) + 0.05


def interp_ref(f, y, q, domain, scheme, edge):
    """Interpolated complex or power/magnitude values of one channel."""

    def one(v):
        if scheme == SCH.Linear:
            out = np.empty(len(q))
            for i, x in enumerate(q):
                x = min(max(x, f[0]), f[-1])
                k = min(max(int(np.searchsorted(f, x)), 1), len(f) - 1)
                w = (x - f[k - 1]) / (f[k] - f[k - 1])
                out[i] = (1 - w) * v[k - 1] + w * v[k]
            return out
        fn = CubicSpline if scheme == SCH.Cubic else PchipInterpolator
        return fn(f, v)(q)

    if domain == D.Power:
        out = np.maximum(one(np.abs(y) ** 2), 0)
    elif domain == D.Magnitude:
        out = np.maximum(one(np.abs(y)), 0)
    elif domain == D.Complex:
        out = one(np.real(y)) + 1j * one(np.imag(y))
    else:
        ph = np.angle(y)
        for i in range(1, len(ph)):
            while ph[i] - ph[i - 1] > np.pi:
                ph[i:] -= 2 * np.pi
            while ph[i] - ph[i - 1] < -np.pi:
                ph[i:] += 2 * np.pi
        out = one(np.abs(y)) * np.exp(1j * one(ph))
    for i, x in enumerate(q):
        for outside, edge_i in ((x < f[0], 0), (x > f[-1], -1)):
            if outside:
                if edge == E.ZeroPad:
                    out[i] = 0.0
                elif edge == E.OnePad:
                    out[i] = 1.0
                else:
                    e = y[edge_i]
                    out[i] = abs(e) ** 2 if domain == D.Power else abs(e) if domain == D.Magnitude else e
    return out


def output_ref(v, domain, out):
    if out == T.Complex:
        return v
    mag = np.sqrt(v) if domain == D.Power else np.abs(v)
    if out == T.Magnitude:
        return mag
    if out == T.Power:
        return mag**2
    return None  # dB is checked by its magnitude


def table_ref(f, y, q, domain, scheme, edge, out):
    if out == T.Complex and domain in (D.Power, D.Magnitude):
        domain = D.MagnitudePhase
    v = np.stack([interp_ref(f, y[:, c], q, domain, scheme, edge) for c in range(y.shape[1])], axis=1)
    if out == T.Db:
        m = output_ref(v, domain, T.Magnitude)
        return m
    return output_ref(v, domain, out)


def queries(f):
    yield "nodes", f
    yield "mid", np.sort(np.concatenate([f, (f[1:] * 0.37 + f[:-1] * 0.63)]))
    yield "out", np.concatenate([[max(f[0] - 5.0, 0.0)], f[1:3] + 1.3, [f[-1] + 1e-3, f[-1] * 2]])
    yield "left", np.array([f[0] * 0.5])
    yield "one", np.array([f[1] + 0.5])
    yield "unsorted", np.array([f[3] + 0.1, f[0], f[-1] + 9.0, f[2]])


def interpolation(ctx, fv, ch, cplx, domain, scheme, edge):
    f = FV[fv]
    y = data(len(f), ch, cplx)
    sp = dsp.Spectrum(f, y)
    if domain in (D.Complex, D.MagnitudePhase) and not cplx:
        must_raise(lambda: sp.set_interpolator_parameters(domain, scheme, edge), "complex domain for magnitudes")
        return
    sp.set_interpolator_parameters(domain, scheme, edge)
    for out in T:
        if out == T.Complex and not cplx:
            must_raise(lambda: sp.get_interpolated_spectrum(f, out), "complex output of magnitudes")
            continue
        for name, q in queries(f):
            outside = np.any(q < f[0]) or np.any(q > f[-1])
            if edge == E.Error and outside:
                must_raise(lambda: sp.get_interpolated_spectrum(q, out), f"{name} outside")
                continue
            got = pure(lambda s, q: s.get_interpolated_spectrum(q, out), sp, q)
            want = table_ref(f, y, q, domain, scheme, edge, out)
            if out == T.Db:
                ok = want > 1e-8
                eq(np.where(ok, 10 ** (got / 20), 0), np.where(ok, want, 0), f"{name} {out.name}", rtol=1e-8)
                true(np.all(got[~ok] < -100), "dB of zero")
            else:
                eq(got, want, f"{name} {out.name}", rtol=1e-8)
            if name == "nodes" and out == T.Magnitude:
                eq(got, np.abs(y), "stored values", rtol=1e-8)
            ctx.step()
            ctx.outcome(got.tobytes())


# ---------------------------------------------------------------- histories
class Model:
    def __init__(self, f, y, coh, domain, scheme, edge):
        self.f, self.y, self.coh = f, y, coh
        self.domain, self.scheme, self.edge = domain, scheme, edge

    def copy(self):
        return copy.deepcopy(self)

    def rows(self, sel):
        self.f, self.y = self.f[sel], self.y[sel]
        if self.coh is not None:
            self.coh = self.coh[sel]

    def cols(self, sel):
        self.y = self.y[:, sel]
        if self.coh is not None:
            self.coh = self.coh[:, sel]

    @property
    def cplx(self):
        return np.iscomplexobj(self.y)

    def energy(self, lo=None, hi=None):
        i = bracket(self.f, lo, hi, True)
        p, f = np.abs(self.y[i]) ** 2, self.f[i]
        return np.sum((p[1:] + p[:-1]) / 2 * np.diff(f)[:, None], axis=0)


def bracket(f, lo, hi, inclusive):
    """Indices kept by a trim; inclusive keeps the bins enclosing the range."""
    idx = []
    for i, v in enumerate(f):
        ok = True
        if lo is not None:
            ok &= v > lo if not inclusive else (v >= lo or (i + 1 < len(f) and f[i + 1] > lo))
        if hi is not None:
            ok &= v < hi if not inclusive else (v <= hi or f[i - 1] < hi or i == 0)
        if ok:
            idx.append(i)
    return np.array(idx, dtype=int)


def check(sp, m):
    eq(sp.frequency_vector_hz, m.f, "frequencies")
    eq(sp.spectral_data, m.y, "data", rtol=1e-8)
    same(sp.spectral_data.shape, (sp.number_frequency_bins, sp.number_of_channels), "shape of the data")
    same(sp.is_complex, m.cplx, "is_complex")
    same(sp.is_magnitude, not m.cplx, "is_magnitude")
    same(sp.spectrum_type, T.Complex if m.cplx else T.Magnitude, "type")
    same(sp.has_coherence, m.coh is not None, "has_coherence")
    if m.coh is not None:
        eq(sp.coherence, m.coh, "coherence")
    q = np.array([m.f[0] - min(1.0, m.f[0]), m.f[0], (m.f[0] + m.f[-1]) / 2, m.f[-1] + 3.0])
    dom = m.domain
    if len(m.f) > 1:
        if m.edge != E.Error:
            eq(
                sp.get_interpolated_spectrum(q, T.Magnitude),
                table_ref(m.f, m.y, q, dom, m.scheme, m.edge, T.Magnitude),
                "interpolation",
                rtol=1e-8,
            )
        eq(sp.get_energy(), m.energy(), "energy")
        n = len(m.f)
        ends = [None, m.f[0], m.f[n // 2], m.f[-1], (m.f[n // 2 - 1] + m.f[n // 2]) / 2]
        for lo, hi in itertools.product(ends, ends):
            if lo is None or hi is None or lo < hi:
                eq(sp.get_energy(lo, hi), m.energy(lo, hi), f"energy {lo} {hi}")
    same((sp.length_frequency_bins, sp.number_frequency_bins), (len(m.f),) * 2, "number of bins")
    c = sp.copy()
    c.spectral_data = c.spectral_data * 2
    if c.has_coherence:
        c.coherence[...] = 7
    eq(sp.spectral_data, m.y, "data after changing a copy", rtol=1e-8)


def apply(sp, m, op):
    name = op[0]
    m = m.copy()
    n, ch = m.y.shape
    if name.startswith("trim"):
        lo, hi, inc = op[1:]
        idx = bracket(m.f, lo, hi, inc)
        if inc and lo is not None and lo > m.f[-1]:
            return None
        if len(idx) == 0:
            must_raise(lambda: sp.trim(lo, hi, inc), name)
        else:
            true(sp.trim(lo, hi, inc) is sp, "trim returns self")
            m.rows(idx)
    elif name.startswith("rem"):
        if ch == 1 or op[1] >= ch:
            must_raise(lambda: sp.remove_channel(op[1]), name)
        else:
            sp.remove_channel(op[1])
            m.cols([c for c in range(ch) if c != (op[1] if op[1] >= 0 else ch + op[1])])
    elif name.startswith("swap"):
        if sorted(op[1]) != list(range(ch)):
            must_raise(lambda: sp.swap_channels(op[1]), name)
        else:
            sp.swap_channels(op[1])
            m.cols(list(op[1]))
    elif name.startswith("get"):
        sel = [c for c in op[1] if c < ch]
        if not sel:
            return None
        old = sp
        sp = sp.get_channels(sel)
        eq(old.spectral_data, m.y, "source of get_channels", rtol=1e-8)
        m.cols(sel)
    elif name.startswith("sum"):
        old = sp
        sp = pure(lambda s: s.sum_channels(op[1]), sp)
        m.y = np.sqrt(np.sum(np.abs(m.y) ** 2, axis=1, keepdims=True)) if op[1] else np.sum(m.y, axis=1, keepdims=True)
        if m.coh is not None and ch > 1:
            m.coh = None
        if not m.cplx and m.domain in (D.Complex, D.MagnitudePhase):
            m.domain = D.Power
        true(sp is not old, "sum returns a new spectrum")
    elif name == "resample":
        q = op[1]
        out = T.Complex if m.cplx else T.Magnitude
        if len(m.f) < 2:
            return None
        if m.edge == E.Error and (q[0] < m.f[0] or q[-1] > m.f[-1]):
            must_raise(lambda: sp.resample(q), name)
        else:
            sp.resample(q.copy())
            y = table_ref(m.f, m.y, q, m.domain, m.scheme, m.edge, out)
            if m.coh is not None:
                m.coh = np.stack([np.interp(q, m.f, c, left=0, right=0) for c in m.coh.T], axis=1)
            m.f, m.y = q.copy(), y
    elif name.startswith("gain"):
        g = op[1]
        if len(np.atleast_1d(g)) not in (1, ch):
            must_raise(lambda: sp.apply_gain(g), name)
        else:
            sp.apply_gain(g)
            m.y = m.y * 10 ** (np.atleast_1d(g) / 20)
    elif name.startswith("norm"):
        ref = op[1]
        fr = m.f[len(m.f) // 2] * 1.0
        if len(m.f) < 2 or (ref is not None and ref >= ch):
            return None
        v = table_ref(m.f, m.y, np.array([fr]), m.domain, m.scheme, m.edge, T.Magnitude)
        if np.any(v < 1e-6):
            return None
        sp.normalize(fr, ref)
        m.y = m.y / (v if ref is None else v[0, ref])
    elif name == "coh":
        c = np.abs(R.td(n, ch, 40)) * 2
        sp.set_coherence(c)
        m.coh = c.copy()
        c[...] = 9.0
    elif name == "coh-bad":
        must_raise(lambda: sp.set_coherence(np.ones((n + 1, ch))), name)
        must_raise(lambda: sp.set_coherence(np.ones((n, ch), dtype=complex)), name)
    elif name.startswith("int"):
        dom, sch, edge = op[1:]
        if dom in (D.Complex, D.MagnitudePhase) and not m.cplx:
            must_raise(lambda: sp.set_interpolator_parameters(dom, sch, edge), name)
        else:
            sp.set_interpolator_parameters(dom, sch, edge)
            m.domain, m.scheme, m.edge = dom, sch, edge
    elif name == "data-bad":
        must_raise(lambda: setattr(sp, "spectral_data", np.ones((n + 3, ch + n + 9))), name)
        must_raise(lambda: setattr(sp, "spectral_data", -np.ones((n, ch))), name) if False else None
    check(sp, m)
    return sp, m


def ops(f):
    mid = f[len(f) // 2]
    return [
        ("trim-lo", f[1], None, True),
        ("trim-hi", None, mid, True),
        ("trim-between", f[0] + 1.0, f[-1] - 1.0, True),
        ("trim-excl", f[0], f[-1], False),
        ("trim-excl-between", f[0] + 1.0, f[-1] - 1.0, False),
        ("trim-none", f[0] + 1.2, f[0] + 1.1, False),
        ("rem", -1),
        ("rem0", 0),
        ("rem5", 5),
        ("swap10", (1, 0)),
        ("swap201", (2, 0, 1)),
        ("get1", (1,)),
        ("get20", (2, 0)),
        ("sum-power", True),
        ("sum", False),
        ("resample", np.array([f[0], f[1] * 0.3 + f[2] * 0.7, mid + 0.5, f[-1] + 2.0])),
        ("gain", 6.0),
        ("gain-vec", np.array([3.0, -2.0])),
        ("norm", None),
        ("norm1", 1),
        ("coh",),
        ("coh-bad",),
        ("int-cubic", D.Magnitude, SCH.Cubic, E.Extend),
        ("int-pchip", D.MagnitudePhase, SCH.Pchip, E.OnePad),
        ("int-err", D.Power, SCH.Linear, E.Error),
        ("data-bad",),
    ]


def part_hist(ctx, fv, ch, cplx, first):
    f = FV[fv]
    y = data(len(f), ch, cplx, 2)
    sp = dsp.Spectrum(f, y)
    m = Model(f.copy(), y.copy(), None, D.Power, SCH.Linear, E.ZeroPad)
    name = f"hist/{fv}x{ch}{'c' if cplx else ''}"
    r = ctx.case(f"{name}/{first[0]}", apply, sp, m, first)
    if r is None:
        return
    ctx.bfs(f"{name}/{first[0]}", r[0], ops(f), apply, 3 if ctx.thorough else 2, model=r[1])


# ------------------------------------------------------- construction, signals
def construct(ctx, n, ch, cplx):
    f = np.cumsum(np.arange(1, n + 1)) * 3.0
    y = data(n, ch, cplx)
    for arr in (y, y.T.copy(), [list(c) for c in y.T], y[:, 0]):
        a = np.array(arr)
        want = y if a.ndim == 2 else y[:, :1]
        if a.ndim == 2 and a.shape[0] == a.shape[1] and a is not y and not np.array_equal(a, y):
            continue
        sp = dsp.Spectrum(f, arr)
        eq(sp.spectral_data, want, "data")
        eq(sp.frequency_vector_hz, f, "frequencies")
        same(len(sp), n, "len")
        ctx.step()
    sp = dsp.Spectrum(f, y)
    y0 = y.copy()
    y *= 3
    eq(sp.spectral_data, y0, "data after changing the given array")
    if n > 1:
        for bad in (f[::-1], f - 100.0, np.repeat(f[:1], n), f + 1j, np.stack([f, f])):
            must_raise(lambda: dsp.Spectrum(bad, y0), "bad frequencies")
    must_raise(lambda: dsp.Spectrum(f, np.ones((n + 1, ch + n + 2))), "bad shape")
    if not cplx:
        must_raise(lambda: dsp.Spectrum(f, -y0), "negative magnitudes")


def spacing(ctx):
    same(dsp.Spectrum(FV["lin"], np.ones(5)).frequency_vector_type, dsp.FrequencySpacing.Linear, "lin")
    same(dsp.Spectrum(FV["lin2"], np.ones(6)).frequency_vector_type, dsp.FrequencySpacing.Linear, "lin2")
    same(dsp.Spectrum(FV["log"], np.ones(5)).frequency_vector_type, dsp.FrequencySpacing.Logarithmic, "log")
    same(dsp.Spectrum(FV["other"], np.ones(6)).frequency_vector_type, dsp.FrequencySpacing.Other, "other")
    sp = dsp.Spectrum(FV["lin"], np.ones(5)).resample(FV["log"][:4])
    same(sp.frequency_vector_type, dsp.FrequencySpacing.Logarithmic, "after resampling")
    sp = dsp.Spectrum(FV["other"], np.ones(6)).trim(10.0, 200.0)
    same(sp.frequency_vector_type, dsp.FrequencySpacing.Other, "after trimming")


def signals(ctx, n, ch, fs, scaling, method):
    x = R.td(n, ch, 5) * 0.9
    s = dsp.Signal.from_time_data(x, fs, constrain_amplitude=False)
    s.spectrum_method, s.spectrum_scaling = method, scaling
    f, y = s.get_spectrum()
    sp = pure(lambda s: dsp.Spectrum.from_signal(s), s)
    eq(sp.frequency_vector_hz, f, "frequencies")
    eq(sp.spectral_data, np.abs(y) if scaling.is_amplitude_scaling() else np.sqrt(np.abs(y)), "magnitude")
    same(sp.is_magnitude, True, "magnitude type")
    must_raise(lambda: sp.to_signal(fs), "magnitudes to signal")
    if scaling != dsp.SpectrumScaling.FFTBackward or method != dsp.SpectrumMethod.FFT:
        if not np.iscomplexobj(y):
            must_raise(lambda: dsp.Spectrum.from_signal(s, True), "complex from real spectrum")
        return
    spc = pure(lambda s: dsp.Spectrum.from_signal(s, True), s)
    eq(spc.spectral_data, y, "complex")
    if n < 4:
        return
    back = pure(lambda q: q.to_signal(fs), spc)
    # the spectrum may be that of the signal padded to a fast FFT length
    nfft = int(round(fs / (f[1] - f[0])))
    true(nfft >= n and len(f) == nfft // 2 + 1, "frequency resolution")
    xp = np.zeros((nfft, ch))
    xp[:n] = x
    eq(back.time_data / back.amplitude_scale_factor, xp, "signal after conversion to a spectrum and back")
    same(back.sampling_rate_hz, fs, "rate")
    for sec in (n / fs, (n + 5) / fs, (n - 2) / fs):
        b = spc.to_signal(fs, sec)
        k = int(round(sec * fs))
        w = np.zeros((k, ch))
        w[: min(k, n)] = x[: min(k, n)]
        eq(b.time_data / b.amplitude_scale_factor, w, f"length {k}")
        ctx.step()


def interpolated_signal(ctx, n, up, log):
    """A spectrum that has to be interpolated keeps its timing: a delayed
    pulse stays where it is."""
    fs = 1000
    f = np.fft.rfftfreq(n, 1 / fs)
    d = 6
    y = (np.exp(-2j * np.pi * f * d / fs) * np.exp(-((f / 200.0) ** 2)))[:, None]
    sp = dsp.Spectrum(f, y)
    if log:
        sp = dsp.Spectrum(np.geomspace(2.0, 500.0, 300), (lambda q: np.exp(-2j * np.pi * q * d / fs) * np.exp(-((q / 200.0) ** 2)))(np.geomspace(2.0, 500.0, 300)))
    s = pure(lambda q: q.to_signal(fs * up, n / fs) if log else q.to_signal(fs * up), sp)
    same(s.sampling_rate_hz, fs * up, "rate")
    same(s.length_samples, n * up, "length")
    same(int(np.argmax(np.abs(s.time_data[:, 0]))), d * up, "position of the pulse")


def append(ctx, chs, cplx, flag):
    f = FV["lin"]
    sps = []
    for i, c in enumerate(chs):
        g = f if i == 0 else FV["lin2"]
        sps.append(dsp.Spectrum(g, data(len(g), c, cplx, i)))
    r = pure(lambda l: dsp.append_spectra(l, flag), sps)
    out = T.Complex if cplx and flag else T.Magnitude
    want = np.concatenate(
        [table_ref(s.frequency_vector_hz, s.spectral_data, f, D.Power, SCH.Linear, E.ZeroPad, out) for s in sps], axis=1
    )
    eq(r.spectral_data, want, "appended", rtol=1e-8)
    eq(r.frequency_vector_hz, f, "frequencies")


def warp(ctx, fs, lam, cplx):
    f = np.array([0.0, 50.0, 120.0, 300.0, 450.0, 500.0])
    y = data(6, 2, cplx)
    sp = dsp.Spectrum(f, y).warp(lam, fs)
    w = 2 * np.pi * f / fs
    z = np.exp(1j * w)
    # phase of the first-order allpass
    al = (z + lam) / (1 + lam * z)
    eq(np.exp(2j * np.pi * sp.frequency_vector_hz / fs), al, "warped frequencies", atol=1e-9)
    true(np.all(np.diff(sp.frequency_vector_hz) > 0), "order")
    eq(sp.spectral_data, y, "data")
    sp.warp(-lam, fs)
    eq(sp.frequency_vector_hz, f, "warped back", rtol=1e-7, atol=1e-6)
    must_raise(lambda: sp.warp(1.0, fs), "factor 1")
    must_raise(lambda: sp.warp(0.3, 800), "rate too low")


def smoothing(ctx, fv, ch, cplx, frac):
    f = {"lin": np.linspace(0, 500, 51), "log": np.geomspace(20, 500, 40), "other": np.concatenate([np.linspace(10, 60, 9), [80.0, 170.0]])}[fv]
    v = np.arange(1, ch + 1) * (0.5 + (0.3j if cplx else 0))
    sp = dsp.Spectrum(f, np.ones((len(f), 1)) * v)
    sp.set_coherence(np.ones((len(f), ch)) * 0.5)
    sp.apply_octave_smoothing(frac)
    n = sp.number_frequency_bins
    if fv != "other":
        eq(sp.frequency_vector_hz, f, "frequencies")
    eq(sp.spectral_data, np.ones((n, 1)) * v, "a constant spectrum stays", rtol=1e-8)
    same(sp.coherence.shape, (n, ch), "coherence")
    # channels do not mix
    y = data(len(f), ch, cplx, 5)
    a = dsp.Spectrum(f, y).apply_octave_smoothing(frac).spectral_data
    for c in range(ch):
        b = dsp.Spectrum(f, y[:, c]).apply_octave_smoothing(frac).spectral_data
        eq(a[:, c], b[:, 0], "channel alone", rtol=1e-8)
    # the curves are smoothed with the chosen window, phases unwrapped
    if fv == "other":
        return
    fos = dsp.tools.fractional_octave_smoothing
    beta = np.log2(f[-1] / f[-2]) if fv == "log" else None
    for win, name in ((dsp.Window.Hann, "hann"), (dsp.Window.Boxcar, "boxcar"), (dsp.Window.Hamming, "hamming"), (dsp.Window.Blackman, "blackman")):
        s = dsp.Spectrum(f, y)
        true(s.apply_octave_smoothing(frac, win) is s, "in place")
        if cplx:
            want = fos(np.abs(y), beta, frac, name) * np.exp(1j * fos(np.unwrap(np.angle(y), axis=0), beta, frac, name))
        else:
            want = fos(y, beta, frac, name)
        eq(s.spectral_data, want, f"window {name}", rtol=1e-9, atol=1e-12)


def from_filters(ctx, cplx):
    f = FV["other"]
    a = dsp.Filter.from_ba([0.3, -0.2, 0.45], [1.0, -0.3, 0.35], 1000)
    b = dsp.Filter.from_ba([0.3, 0.1], [1.0], 1000)
    ha, hb = (R.filter_response(*p, f, 1000) for p in (([0.3, -0.2, 0.45], [1.0, -0.3, 0.35]), ([0.3, 0.1], [1.0])))
    w = (lambda v: v) if cplx else np.abs
    eq(dsp.Spectrum.from_filter(f, a, cplx).spectral_data[:, 0], w(ha), "filter")
    M = dsp.FilterBankMode
    bank = dsp.FilterBank([a, b])
    eq(dsp.Spectrum.from_filterbank(f, bank, M.Parallel, cplx).spectral_data, w(np.stack([ha, hb], axis=1)), "parallel")
    eq(dsp.Spectrum.from_filterbank(f, bank, M.Sequential, cplx).spectral_data[:, 0], w(ha * hb), "sequential")
    eq(dsp.Spectrum.from_filterbank(f, bank, M.Summed, cplx).spectral_data[:, 0], w(ha + hb), "summed")


def part_int(ctx, fv, scheme):
    for ch, cplx, domain, edge in itertools.product((1, 2, 3), (False, True), D, E):
        ctx.case(
            f"interpolation/{fv}/{ch}{'c' if cplx else ''}/{domain.name}/{scheme.name}/{edge.name}",
            interpolation, ctx, fv, ch, cplx, domain, scheme, edge,
        )


def part_misc(ctx):
    for n, ch, cplx in itertools.product(range(1, 9), (1, 2, 3), (False, True)):
        ctx.case(f"construct/{n}x{ch}{'c' if cplx else ''}", construct, ctx, n, ch, cplx)
    ctx.case("spacing", spacing, ctx)
    for n in range(3, 24 if ctx.thorough else 15):
        for ch in (1, 2):
            for sc in dsp.SpectrumScaling:
                for m in dsp.SpectrumMethod:
                    if m == dsp.SpectrumMethod.FFT:
                        for fs in (1000, 44100):
                            ctx.case(f"signal/{n}x{ch}/{fs}/{sc.name}", signals, ctx, n, ch, fs, sc, m)
    for n, up, log in itertools.product((64, 63, 80), (2, 3), (False, True)):
        ctx.case(f"interpolated-signal/{n}/{up}/{log}", interpolated_signal, ctx, n, up, log)
    for chs, cplx, flag in itertools.product(((1, 1), (2, 1), (1, 2, 2), (3, 1)), (False, True), (False, True)):
        ctx.case(f"append/{chs}/{cplx}/{flag}", append, ctx, chs, cplx, flag)
    for fs, lam, cplx in itertools.product((1000, 1200), (-0.8, -0.3, 0.0, 0.2, 0.7), (False, True)):
        ctx.case(f"warp/{fs}/{lam}/{cplx}", warp, ctx, fs, lam, cplx)
    for fv, ch, cplx, fr in itertools.product(("lin", "log", "other"), (1, 2), (False, True), (1, 3, 12)):
        ctx.case(f"smoothing/{fv}/{ch}/{cplx}/{fr}", smoothing, ctx, fv, ch, cplx, fr)
    for c in (False, True):
        ctx.case(f"from-filter/{c}", from_filters, ctx, c)


def _dispatch(ctx, kind, *a):
    dict(i=part_int, h=part_hist, m=part_misc)[kind](ctx, *a)


def run(ctx):
    ctx.bound(
        interpolation="4 frequency vectors x 1-3 channels x real/complex x 4 domains x 3 schemes x 4 edge rules x 4 outputs x 6 query vectors",
        histories=f"all sequences of 26 operations of length {4 if ctx.thorough else 3} from {'6' if ctx.thorough else '3'} start spectra",
        signals="lengths 3-14 (23), all scalings of the FFT method, both ways",
    )
    ctx.assume("cubic and shape-preserving interpolants are SciPy's CubicSpline and PchipInterpolator on the stored values of the selected domain")
    parts = [("m",)] + [("i", fv, s) for fv in FV for s in SCH]
    starts = [("lin", 2, True), ("other", 3, False), ("log", 1, True)]
    if ctx.thorough:
        starts += [("lin", 3, False), ("log", 3, True), ("other", 2, True)]
    for fv, ch, c in starts:
        parts += [("h", fv, ch, c, o) for o in ops(FV[fv])]
    ctx.parallel(_dispatch, parts)
