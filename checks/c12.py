"""C12 persistence: every reachable state (up to a depth) of every class that
can be saved is written, read back and driven on; audio files are written and
read for every code of the format; a model of the directory decides histories
of saves and loads."""

import copy
import os
import shutil
import tempfile

import numpy as np
import soundfile as sf

import dsptoolbox as dsp
from mc.core import canon, eq, must_raise, same, true
from mc import dsp as R
from mc.snap import differs, view

F, W = dsp.Filter, dsp.Window
PAR, SUM, SEQ = dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Summed, dsp.FilterBankMode.Sequential
FFT, WELCH = dsp.SpectrumMethod.FFT, dsp.SpectrumMethod.WelchPeriodogram
SS = dsp.SpectrumScaling
FS = 1000


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c12_")
        with open(self.d + "/sentinel.bin", "wb") as f:
            f.write(b"keep me")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def files(self):
        out = {}
        for r, _, fs in os.walk(self.d):
            for f in fs:
                with open(os.path.join(r, f), "rb") as h:
                    out[os.path.relpath(os.path.join(r, f), self.d)] = h.read()
        return out


def sig(x, fs=FS, cls=dsp.Signal, ca=False):
    return cls.from_time_data(np.array(x), fs, ca) if cls is dsp.Signal else cls(None, np.array(x), fs, ca)


def full(o):
    """Observable state including what private settings decide."""
    return view(copy.deepcopy(o))


# ------------------------------------------------------------- the classes
def small(s):
    s.set_spectrum_parameters(method=s.spectrum_method, window_length_samples=32)
    return s.set_spectrogram_parameters(window_length_samples=32)


def s_real():
    return small(sig(R.td(40, 2, 1)))


def s_cplx():
    return small(sig(R.td(40, 3, 2, True)))


def s_ir():
    x = R.td(40, 2, 1) * np.exp(-np.arange(40) / 6)[:, None]
    x[3] = [0.9, -0.8]
    return small(sig(x, cls=dsp.ImpulseResponse))


def o_settings(s):
    s.set_spectrum_parameters(FFT, scaling=SS.AmplitudeSpectrum, window_length_samples=16, pad_to_fast_length=False)
    return s


def o_welch(s):
    s.set_spectrum_parameters(WELCH, scaling=SS.PowerSpectralDensity, window_length_samples=16, window_type=W.Hamming, overlap_percent=25, detrend=False, average="median")
    return s


def o_sg(s):
    s.set_spectrogram_parameters(window_length_samples=16, overlap_percent=50.0, window_type=W.Blackman, padding=False)
    return s


def o_cache(s):
    s.activate_cache = True
    s.get_spectrum()
    s.get_spectrogram()
    return s


def o_constrain(s):
    s.constrain_amplitude = True
    return s


def o_gain(s):
    s.time_data = s._get_data() * 3.0 if hasattr(s, "_get_data") else s.time_data * 3.0
    return s


def o_calib(s):
    s.calibrated_signal = True
    return s


def o_rate(s):
    s.sampling_rate_hz = 1500
    return s


def o_chan(s):
    return s.get_channels([1, 0])


def o_window(s):
    return dsp.transfer_functions.window_ir(s, 20, window_type=W.Hann)[0] if isinstance(s, dsp.ImpulseResponse) else s


def p_signal(s):
    s = copy.deepcopy(s)
    out = [s.time_data, s.time_vector_s, s.amplitude_scale_factor, s.get_spectrum(), s.length_seconds]
    if s.time_data_imaginary is not None:
        out.append(s.time_data_imaginary)
    if s.number_of_channels > 1:
        out.append(s.get_csm())
    out.append(s.get_spectrogram())
    s.time_data = s.time_data * 5.0
    out += [s.time_data, s.amplitude_scale_factor, s.get_spectrum()]
    return out


def mb():
    return dsp.filterbanks.linkwitz_riley_crossovers([100.0, 250.0], [4, 2], FS).filter_signal(s_real(), PAR)


def mb_multi():
    return dsp.MultiBandSignal([small(sig(R.td(80, 2, 1))), small(sig(R.td(40, 2, 2), 500))], same_sampling_rate=False, info={"a": 1})


def p_mb(m):
    m = copy.deepcopy(m)
    out = [[p_signal(b) for b in m.bands], m.metadata, m.get_all_time_data()]
    out.append(m.info)
    if m.same_sampling_rate:
        out.append(m.collapse().time_data)
        out.append(full(m.get_all_bands(1)))
    m.add_band(m.bands[0].copy())
    out.append(m.number_of_bands)
    return out


def feed(f, n, k, **kw):
    return f.filter_signal(sig(R.td(n, 2, k)), **kw)


def o_run(f):
    feed(f, 7, 4, activate_zi=True)
    return f


def p_filter(f):
    f = copy.deepcopy(f)
    out = [f.order, f.is_iir, f.sampling_rate_hz, f.metadata, f.get_transfer_function(np.array([10.0, 120.0, 470.0]))]
    out.append(feed(f, 6, 9).time_data)
    out.append(feed(f, 6, 9, activate_zi=True).time_data)
    out.append(f.get_coefficients(dsp.FilterCoefficientsType.Ba))
    out.append(f.get_ir(16).time_data)
    return out


def f_iir():
    return F.iir_filter(3, 150.0, dsp.FilterPassType.Lowpass, FS)


def f_fir():
    return F.from_ba(R.seq(5, 2), [1.0], FS)


def f_cheb():
    return F.iir_filter(4, [60.0, 200.0], dsp.FilterPassType.Bandpass, FS, filter_design_method=dsp.IirDesignMethod.Chebyshev2, stopband_attenuation_db=40.0)


def f_biquad():
    return F.biquad(dsp.BiquadEqType.Peaking, 120.0, 5.0, 0.8, FS)


def o_fgain(f):
    return f.apply_gain(4.0) if hasattr(f, "apply_gain") else f


def bank():
    return dsp.FilterBank([f_iir(), f_fir(), f_biquad()], info={"x": [1, 2]})


def bank_multi():
    a = f_iir()
    b = F.from_ba(R.seq(4, 2), [1.0], 500)
    return dsp.FilterBank([a, b], same_sampling_rate=False)


def o_bank_run(b):
    feed(b, 7, 4, mode=PAR, activate_zi=True)
    return b


def o_bank_add(b):
    b.add_filter(F.from_ba([0.5, 0.25], [1.0, -0.2], FS))
    return b


def o_bank_swap(b):
    b.swap_filters(list(range(b.number_of_filters))[::-1])
    return b


def p_bank(b):
    b = copy.deepcopy(b)
    out = [getattr(b, "info", None), [p_filter(f) for f in getattr(b, "filters", [])] if getattr(b, "same_sampling_rate", True) else None]
    if not getattr(b, "same_sampling_rate", True):
        return out + [[f.sampling_rate_hz for f in b.filters], full(b)]
    for m in (PAR, SUM):
        r = feed(b, 9, 3, mode=m)
        out.append(full(r))
    r = b.filter_signal(sig(R.td(9, 2, 5)), mode=PAR, activate_zi=True)
    out.append([x.time_data for x in r.bands])
    return out


def lr():
    return dsp.filterbanks.linkwitz_riley_crossovers([250.0, 100.0], [4, 2], FS)


def gamma():
    return dsp.filterbanks.auditory_filters_gammatone([100, 400], 2, FS)


def p_gamma(b):
    b = copy.deepcopy(b)
    r = b.filter_signal(sig(R.td(60, 2, 3)), PAR)
    return [full(r), b.reconstruct(r).time_data, b.info]


def qmf():
    return dsp.filterbanks.qmf_crossover(F.from_ba(np.array([0.5, 0.5]), [1.0], FS))


def p_qmf(b):
    b = copy.deepcopy(b)
    r = b.filter_signal(sig(R.td(12, 2, 3)), PAR, downsample=True)
    return [full(r), b.reconstruct_signal(r, upsample=True).time_data, p_bank(b)]


def sp_cplx():
    return dsp.Spectrum(np.linspace(0, 500, 21), R.td(21, 2, 3, True))


def sp_mag():
    return dsp.Spectrum(np.geomspace(10, 500, 15), np.abs(R.td(15, 2, 3)))


def o_coh(s):
    s.set_coherence(np.abs(R.td(s.number_frequency_bins, s.number_of_channels, 4)))
    return s


def o_interp(s):
    D, C, E = dsp.InterpolationDomain, dsp.InterpolationScheme, dsp.InterpolationEdgeHandling
    s.set_interpolator_parameters(D.Magnitude, C.Cubic, E.OnePad)
    return s


def o_sgain(s):
    return s.apply_gain(3.0)


def o_strim(s):
    return s.trim(20.0, 400.0)


def p_spec(s):
    s = copy.deepcopy(s)
    out = [full(s), s.get_energy(), s.frequency_vector_type]
    out.append(s.get_interpolated_spectrum(np.array([5.0, 33.0, 111.0, 480.0, 600.0]), dsp.SpectrumType.Magnitude))
    out.append(s.has_coherence and s.coherence)
    out.append(full(s.copy().resample(np.array([50.0, 75.0, 200.0]))))
    return out


SIG_OPS = [("settings", o_settings), ("welch", o_welch), ("spectrogram", o_sg), ("cache", o_cache), ("constrain", o_constrain), ("gain", o_gain), ("calibrated", o_calib), ("rate", o_rate), ("swap", o_chan)]
KINDS = {
    "signal": (s_real, SIG_OPS, p_signal, "save_signal"),
    "complex": (s_cplx, SIG_OPS, p_signal, "save_signal"),
    "ir": (s_ir, SIG_OPS + [("window", o_window)], p_signal, "save_signal"),
    "multiband": (mb, [("copy", lambda m: m.copy()), ("swap", lambda m: m.swap_bands([2, 0, 1]) if m.number_of_bands == 3 else m), ("drop", lambda m: m.remove_band(0) if m.number_of_bands > 1 else m), ("info", lambda m: (m.info.update(k=3), m)[1])], p_mb, "save_signal"),
    "multirate": (mb_multi, [("swap", lambda m: m.swap_bands([1, 0]))], p_mb, "save_signal"),
    "iir": (f_iir, [("run", o_run), ("gain", o_fgain)], p_filter, "save_filter"),
    "fir": (f_fir, [("run", o_run), ("gain", o_fgain)], p_filter, "save_filter"),
    "cheb": (f_cheb, [("run", o_run), ("gain", o_fgain)], p_filter, "save_filter"),
    "biquad": (f_biquad, [("run", o_run), ("gain", o_fgain)], p_filter, "save_filter"),
    "bank": (bank, [("run", o_bank_run), ("add", o_bank_add), ("swap", o_bank_swap)], p_bank, "save_filterbank"),
    "bankrates": (bank_multi, [("swap", o_bank_swap)], p_bank, "save_filterbank"),
    "lr": (lr, [("run", o_bank_run)], p_bank, "save_filterbank"),
    "gammatone": (gamma, [], p_gamma, "save_filterbank"),
    "qmf": (qmf, [("run", o_bank_run)], p_qmf, "save_filterbank"),
    "spec": (sp_cplx, [("coh", o_coh), ("interp", o_interp), ("gain", o_sgain), ("trim", o_strim)], p_spec, "save_spectrum"),
    "mag": (sp_mag, [("coh", o_coh), ("interp", o_interp), ("gain", o_sgain), ("trim", o_strim)], p_spec, "save_spectrum"),
}


def save(o, kind, path):
    m = getattr(o, KINDS[kind][3])
    if kind in ("signal", "complex", "ir"):
        return m(path, "pkl")
    return m(path)


def roundtrip(kind, o):
    probe = KINDS[kind][2]
    with Dir() as d:
        before, disk = full(o), d.files()
        save(o, kind, d.d + "/x")
        d2 = d.files()
        same(sorted(set(d2) - set(disk)), ["x.pkl"], "files created")
        same({k: d2[k] for k in disk}, disk, "other files")
        true(canon(full(o)) == canon(before), f"saving changed the object: {differs(before, full(o))[:4]}")
        n = dsp.load_pkl_object(d.d + "/x" if kind != "lr" else d.d + "/x.pkl")
        true(type(n) is type(o), f"type {type(n)}")
        true(canon(full(n)) == canon(before), f"loaded object differs: {differs(before, full(n))[:4]}")
        want = canon(view(probe(o)))
        true(canon(view(probe(n))) == want, "loaded object behaves differently")
        same(d.files(), d2, "loading and using changes no file")
        # the loaded one is independent of the saved one
        for _, op in KINDS[kind][1]:
            n = op(n)
        true(canon(full(o)) == canon(before), "using the loaded object changed the saved one")
        m = dsp.load_pkl_object(d.d + "/x.pkl")
        true(canon(full(m)) == canon(before), "second load differs")


def explore(ctx, kind):
    make, ops, _, _ = KINDS[kind]

    def apply(o, m, op):
        o = op[1](o)
        roundtrip(kind, o)
        return o, m

    ctx.case(f"{kind}/initial", roundtrip, kind, make())
    depth = (4 if ctx.thorough else 3) if len(ops) < 6 else (3 if ctx.thorough else 2)
    ctx.bfs(kind, make(), ops, apply, depth, digest=lambda p: canon(full(p[0])))


# -------------------------------------------------- histories on a directory
def history(ctx, kind):
    """All words over {change, save to a, save to b, load a, load b}; the model
    is the list of versions and what each path holds."""
    make, ops, _, _ = KINDS[kind]
    change = (ops or [("nop", lambda o: o)])[0][1]
    depth = 5 if ctx.thorough else 4

    def walk(word):
        with Dir() as d:
            o, disk, held = make(), {}, None
            for c in word:
                if c == "m":
                    o = change(o)
                elif c in "ab":
                    save(o, kind, d.d + "/" + c)
                    disk[c] = canon(full(o))
                else:
                    p = c.lower()
                    if p not in disk:
                        must_raise(lambda: dsp.load_pkl_object(d.d + "/" + p + ".pkl"), "loading what was never saved")
                        continue
                    o = dsp.load_pkl_object(d.d + "/" + p + ".pkl")
                    true(canon(full(o)) == disk[p], f"{p} does not hold what was last saved to it")
                same(sorted(d.files()), sorted(["sentinel.bin"] + [p + ".pkl" for p in disk]), "files")
            ctx.state(kind, word)

    words = [""]
    for _ in range(depth):
        words = [w + c for w in words for c in "mabAB"]
        for w in words:
            ctx.step()
            ctx.case(f"history/{kind}/{w}", walk, w)


# ---------------------------------------------------------------- audio files
BITS = {16: ("PCM_16", 2.0**-15), 24: ("PCM_24", 2.0**-23), 32: ("FLOAT", 2.0**-24), 64: ("DOUBLE", 0.0)}


def audio(ctx, x, fs, mode, bits, name, cls):
    s = sig(x, fs, cls)
    with Dir() as d:
        os.makedirs(d.d + "/a.b")
        before, disk = full(s), d.files()
        path = d.d + "/" + name
        s.save_signal(path, mode, bits)
        true(canon(full(s)) == canon(before), "saving changed the signal")
        real = path if name.endswith("." + mode) else path + "." + mode
        same(sorted(set(d.files()) - set(disk)), [os.path.relpath(real, d.d)], "file created")
        info = sf.info(real)
        same((info.samplerate, info.channels, info.frames, info.subtype, info.format), (fs, x.shape[1], x.shape[0], BITS[bits][0], mode.upper()), "file format")
        for n in (cls.from_file(real), cls(real)):
            true(type(n) is cls, "type")
            same(n.sampling_rate_hz, fs, "rate")
            same(n.time_data.shape, x.shape, "shape")
            if bits == 64:
                same(n.time_data, x, "samples")
            elif bits == 32:
                same(n.time_data, x.astype(np.float32).astype(float), "samples")
            else:
                true(np.max(np.abs(n.time_data - x)) <= 1.0001 * BITS[bits][1], "samples within the resolution")
        tol = 1.0001 * BITS[bits][1] if bits < 32 else (0 if bits == 64 else 1e-7 * max(1.0, np.max(np.abs(x))))
        for c in range(x.shape[1]):
            f = dsp.Filter.fir_from_file(real, c)
            same(f.sampling_rate_hz, fs, "rate of the filter")
            b = f.get_coefficients(dsp.FilterCoefficientsType.Ba)
            same((b[0].shape, np.asarray(b[1]).tolist()), ((len(x),), [1.0]), "coefficients of the filter")
            true(np.max(np.abs(b[0] - x[:, c])) <= tol, f"taps from channel {c}")
        fb = dsp.FilterBank.firs_from_file(real)
        same((fb.number_of_filters, fb.sampling_rate_hz), (x.shape[1], fs), "filters of the bank")
        for c, f in enumerate(fb.filters):
            true(np.max(np.abs(f.get_coefficients(dsp.FilterCoefficientsType.Ba)[0] - x[:, c])) <= tol, f"taps of filter {c}")
        if len(x) <= x.shape[1]:
            return
        t = sig(x[:, :1], fs, cls)
        t.add_channel(real)
        true(np.max(np.abs(t.time_data[:, 1:] - x)) <= 1.0001 * BITS[bits][1] * max(1.0, np.max(np.abs(x))), "channels added from the file")
    ctx.step()


def codes(ctx, bits, mode, ch):
    """Every code of the format (16 bits) or a complete lattice of them."""
    n = 2 ** (bits - 1)
    if bits == 16:
        k = np.arange(-n, n)
    else:
        k = np.unique(np.array([s * (2**p + o) for s in (1, -1) for p in range(24) for o in (-1, 0, 1)]))
        k = k[(k >= -n) & (k < n)]
    x = (k / n)[: len(k) // ch * ch].reshape(-1, ch)
    s = sig(x)
    with Dir() as d:
        s.save_signal(d.d + "/c", mode, bits)
        y = dsp.Signal.from_file(d.d + "/c." + mode).time_data
        true(np.max(np.abs(y - x)) <= 1.0001 / n, "every code comes back within one step")
        true(np.all(np.diff(y.ravel()) >= 0), "order of the codes kept")
        same(y[x == 0], x[x == 0], "zero")
        # what was read is a fixed point up to the same resolution
        dsp.Signal.from_file(d.d + "/c." + mode).save_signal(d.d + "/e", mode, bits)
        z = dsp.Signal.from_file(d.d + "/e." + mode).time_data
        true(np.max(np.abs(z - y)) <= 1.0001 / n, "second generation")
    ctx.step(len(k))


def rejects(ctx, which):
    s = s_real()
    with Dir() as d:
        disk = d.files()
        before = full(s)
        f = dict(
            format=lambda: s.save_signal(d.d + "/x.ogg", "wav"),
            depth=lambda: s.save_signal(d.d + "/x", "wav", 20),
            mode=lambda: s.save_signal(d.d + "/x", "mp3"),
            mismatch=lambda: s.save_signal(d.d + "/x.wav", "flac", 16),
            pkl=lambda: bank().save_filterbank(d.d + "/x.wav"),
            filter=lambda: f_iir().save_filter(d.d + "/x.txt"),
            spec=lambda: sp_mag().save_spectrum(d.d + "/x.txt"),
            lr=lambda: lr().save_filterbank(d.d + "/x.txt"),
            load=lambda: dsp.load_pkl_object(d.d + "/nothing.pkl"),
            loadfmt=lambda: dsp.load_pkl_object(d.d + "/sentinel.bin"),
            read=lambda: dsp.Signal.from_file(d.d + "/sentinel.bin"),
            both=lambda: dsp.Signal(d.d + "/sentinel.bin", np.zeros((4, 1)), FS),
        )[which]
        must_raise(f, which)
        same(d.files(), disk, "files after a refused operation")
        true(canon(full(s)) == canon(before), "signal after a refused operation")
    ctx.step()


def part_audio(ctx, mode, ch):
    for bits in (16, 24, 32, 64) if mode == "wav" else (16, 24):
        for n in range(ch, 8 if not ctx.thorough else 20):
            for fs in (1000, 44100, 48000, 96000):
                for cls in (dsp.Signal, dsp.ImpulseResponse):
                    names = ("x", "x." + mode, "a.b/y", "a.b/y." + mode) if n == ch + 1 else ("x",)
                    for name in names:
                        ctx.case(f"audio/{mode}/{bits}/{n}x{ch}/{fs}/{cls.__name__}/{name}", audio, ctx, R.td(n, ch, n + 1), fs, mode, bits, name, cls)
        if bits >= 32:
            ctx.case(f"audio/{mode}/{bits}/hot/{ch}", audio, ctx, 30.0 * R.td(9, ch, 2), FS, mode, bits, "x", dsp.Signal)
        else:
            ctx.case(f"codes/{mode}/{bits}/{ch}", codes, ctx, bits, mode, ch)


def part_rejects(ctx):
    for w in "format depth mode mismatch pkl filter spec lr load loadfmt read both".split():
        ctx.case(f"reject/{w}", rejects, ctx, w)


def _dispatch(ctx, kind, *a):
    dict(e=explore, h=history, a=part_audio, r=part_rejects)[kind](ctx, *a)


def run(ctx):
    ctx.bound(
        states=f"16 kinds of objects, histories of up to {4 if ctx.thorough else 3} settings and uses ({3 if ctx.thorough else 2} for signals), saved and loaded in every state reached",
        directory=f"every word of up to {5 if ctx.thorough else 4} of change, save to a or b, load a or b",
        audio="wav 16-64 bit, flac 16-24 bit, 1-4 channels, 4 rates, every 16-bit code, a lattice of 24-bit codes",
    )
    ctx.assume("audio files hold the real part; signals with fewer samples than channels are excluded (read transposed)")
    parts = [("e", k) for k in KINDS] + [("h", k) for k in ("signal", "ir", "multiband", "iir", "bank", "spec")]
    parts += [("a", m, c) for m in ("wav", "flac") for c in (1, 2, 3, 4)] + [("r",)]
    ctx.parallel(_dispatch, parts)
