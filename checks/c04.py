"""C04 Calls neither change nor share the data handed to them."""

import copy
import itertools
import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import dsptoolbox as dsp
from mc import catalog as K
from mc import dsp as R
from mc.core import Mismatch, canon, true
from mc.snap import differs, view

TF, TR, RA, DI, FB, EF, BF, G, T = K.TF, K.TR, K.RA, K.DI, K.FB, K.EF, dsp.beamforming, dsp.generators, dsp.tools
FS = K.FS
RANDOM = ("dither", "dither/truncate", "lpc/synth")


def shot(*objs):
    return view(copy.deepcopy(list(objs)))


def modify(o, depth=0):
    """Write into everything a result gives access to and use its modifying methods."""
    if depth > 4:
        return
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size and o.dtype != object:
            o[...] = 3
    elif isinstance(o, tuple):
        for x in o:
            modify(x, depth + 1)
    elif isinstance(o, list):
        for x in o:
            modify(x, depth + 1)
        o.clear()
    elif isinstance(o, dict):
        for x in o.values():
            modify(x, depth + 1)
        o.clear()
    elif isinstance(o, dsp.Signal):
        o.set_spectrum_parameters(method=K.SM.FFT, smoothing=2, window_length_samples=8, overlap_percent=10.0)
        o.set_spectrogram_parameters(window_length_samples=8, overlap_percent=75.0)
        td = o.time_data
        td[...] = 3
        if o.is_complex_signal:
            o.time_data_imaginary[...] = 3
        if isinstance(o, dsp.ImpulseResponse) and hasattr(o, "window"):
            modify(o.window, depth + 1)
        o.add_channel(None, np.ones(o.length_samples), o.sampling_rate_hz)
        o.swap_channels(np.arange(o.number_of_channels)[::-1])
        o.calibrated_signal = True
    elif isinstance(o, dsp.MultiBandSignal):
        for b in o.bands:
            modify(b, depth + 1)
        o.add_band(o.bands[0].copy())
        o.remove_band(0)
        o.bands.clear()
    elif isinstance(o, dsp.Filter):
        o.initialize_zi(2)
        if o.has_sos:
            modify(o.sos, depth + 1)
        elif o.has_zpk:
            modify(o.zpk, depth + 1)
        else:
            modify(o.ba, depth + 1)
        o.warning_if_complex = not o.warning_if_complex
    elif isinstance(o, dsp.FilterBank):
        o.add_filter(K.fir(fs=o.filters[0].sampling_rate_hz))
        o.swap_filters(list(range(o.number_of_filters))[::-1])
        o.remove_filter(0)
        o.filters.clear()
    elif isinstance(o, dsp.Spectrum):
        modify(o.spectral_data, depth + 1)
        modify(o.coherence if o.has_coherence else None, depth + 1)
        modify(o.frequency_vector_hz, depth + 1)


def agree(a, b, what):
    true(canon(a) == canon(b), f"{what}: {differs(a, b)[:6]}")


def call(fn, args, ctx=None, repeat=True):
    before = shot(*args)
    r = fn(*args)
    agree(before, shot(*args), "the call changed what it was given")
    first = shot(r)
    if repeat:
        r2 = fn(*args)
        agree(first, shot(r2), "a second call gives another result")
        modify(r2)
        agree(first, shot(r), "results of two calls share data")
        agree(before, shot(*args), "modifying the result changed what the call was given")
    modify(r)
    agree(before, shot(*args), "modifying the result changed what the call was given")
    if repeat:
        agree(first, shot(fn(*args)), "modifying a result changed what later calls return")
    if ctx is not None:
        ctx.step(4)
    return r


# ------------------------------------------------------------------ signals
def tune(s, setting):
    """Signals in non-default states."""
    if setting == "plain":
        return s
    for x in s.bands if isinstance(s, dsp.MultiBandSignal) else [s]:
        if setting == "fft":
            x.set_spectrum_parameters(method=K.SM.FFT, scaling=K.SS.FFTBackward, pad_to_fast_length=False)
        elif setting == "welch":
            x.set_spectrum_parameters(method=K.SM.WelchPeriodogram, window_length_samples=16, overlap_percent=25.0, window_type=K.W.Hamming, smoothing=2, scaling=K.SS.PowerSpectralDensity)
            x.set_spectrogram_parameters(window_length_samples=32, overlap_percent=75.0)
        elif setting == "cache":
            x.activate_cache = True
            x.get_spectrum()
            if x.number_of_channels > 1:
                x.get_csm()
        elif setting == "window" and isinstance(x, dsp.ImpulseResponse):
            x.set_window(np.linspace(1, 0, x.time_data.size).reshape(x.time_data.shape))
    return s


def args_for(o, kind, w, cplx, setting):
    return [tune(K.make(kind, w, cplx), setting), tune(K.make(kind, w, cplx, True), setting)]


def one(ctx, o, kind, w, cplx, setting):
    ch = list(range(len(w)))
    try:
        o.fn(*args_for(o, kind, w, cplx, setting), ch)
    except Mismatch:
        raise
    except Exception:
        # rejected here: the rejected call must not modify its arguments either
        a = args_for(o, kind, w, cplx, setting)
        before = shot(*a)
        try:
            o.fn(*a, ch)
        except Exception:
            ctx.outcome("raises")
        agree(before, shot(*a), "a rejected call changed what it was given")
        return
    call(lambda s, a: o.fn(s, a, ch), args_for(o, kind, w, cplx, setting), ctx, o.name not in RANDOM)


def part_signals(ctx, idx):
    o = K.OPS[idx]
    pool = K.POOLS[o.pool]
    words = [pool[0], pool[1] + pool[0]] + ([pool[2 % len(pool)] + pool[1] + pool[0]] if ctx.thorough else [])
    for kind in o.kinds.split():
        for setting in ("plain", "fft", "welch", "cache") + (("window",) if kind == "ir" else ()):
            for cplx in (False, True) if o.cplx else (False,):
                for w in words:
                    ctx.case(f"signals/{o.name}/{kind}/{setting}", one, ctx, o, kind, w, cplx, setting)


# -------------------------------------------------------------------- pairs
def part_pairs(ctx, kind, idx):
    """After any one operation, every other one gives what it gives on a fresh signal."""
    ops = [o for o in K.OPS if kind in o.kinds.split() and o.pool != "decay" and o.name not in RANDOM]
    first = ops[idx]
    setting = "cache"

    def fresh():
        return args_for(first, kind, "bd" if kind != "mb" else "b", False, setting)

    ch = [0, 1] if kind != "mb" else [0]
    base = fresh()
    try:
        first.fn(*base, ch)
    except Exception:
        pass
    for o in ops:
        key = (kind, o.name)
        if key not in EXPECT:
            EXPECT[key] = outcome(o, fresh(), ch)
        ctx.case(f"pairs/{kind}/{first.name}", pair, ctx, o, EXPECT[key], copy.deepcopy(base), ch)


EXPECT = {}


def outcome(o, args, ch):
    try:
        return shot(o.fn(*args, ch))
    except Exception as e:
        return "raises " + type(e).__name__


def pair(ctx, o, want, args, ch):
    agree(want, outcome(o, args, ch), f"{o.name} gives another result after the first operation")
    ctx.step(2)


# ------------------------------------------------------------------ objects
def sp(n=33, ch=2, cplx=True, coh=False):
    f = np.linspace(0, 500, n)
    x = R.td(n, ch, 40) + (1j * R.td(n, ch, 41) if cplx else 3.0)
    s = dsp.Spectrum(f, x if cplx else np.abs(x))
    if coh:
        s.set_coherence(np.abs(R.td(n, ch, 42)) / 2)
    return s


def sig(w="ab", **k):
    return K.make("sig", w, **k)


def irs(w="bd"):
    return K.make("ir", w)


def mbs(w="ab"):
    return K.make("mb", w)


def sosf():
    return dsp.Filter.iir_filter(4, 100.0, dsp.FilterPassType.Highpass, FS)


def baf():
    return dsp.Filter.from_ba([1.0, 0.3, 0.2], [1.0, -0.4, 0.1], FS)


def zpkf():
    return dsp.Filter.from_zpk(np.array([0.3, -0.2]), np.array([0.5, 0.1]), 0.7, FS)


def used_bank():
    b = K.bank()
    b.initialize_zi(2)
    b.filter_signal(sig(), K.PAR, activate_zi=True)
    return b


def grid():
    return BF.Regular2DGrid(np.linspace(-0.5, 0.5, 3), np.linspace(-0.4, 0.4, 4), ["x", "y"], 1.0)


def mics():
    return BF.MicArray({"x": np.array([0.0, 0.1, -0.1, 0.05]), "y": np.array([0.1, 0.0, -0.1, 0.2]), "z": np.zeros(4)})


def micsig():
    s = dsp.Signal.from_time_data(R.td(256, 4, 3), 8000, constrain_amplitude=False)
    s.set_spectrum_parameters(window_length_samples=64)
    return s


OBJ = {}


def obj(name, make, fn, repeat=True):
    OBJ[name] = (make, fn, repeat)


fv = lambda: np.array([0.0, 10.0, 55.5, 200.0, 499.0])
SETS = lambda: np.random.default_rng(3)

FILTERS = {"fir": K.fir, "iir": sosf, "ba": baf, "zpk": zpkf, "biquad": K.hp}
for nm, mk in FILTERS.items():
    obj(f"Filter.copy/{nm}", lambda mk=mk: [mk()], lambda f: f.copy())
    for m in dsp.FilterCoefficientsType:
        obj(f"Filter.get_coefficients/{nm}/{m.name}", lambda mk=mk: [mk()], lambda f, m=m: f.get_coefficients(m))
    for z in (True, False):
        obj(f"Filter.get_ir/{nm}/{z}", lambda mk=mk: [mk()], lambda f, z=z: f.get_ir(32, z))
        obj(f"Filter.filter_signal/{nm}/{z}", lambda mk=mk: [mk(), sig()], lambda f, s, z=z: f.filter_signal(s, zero_phase=z))
        obj(f"FilterBank(one)/{nm}/{z}", lambda mk=mk: [mk(), sig()], lambda f, s, z=z: dsp.FilterBank([f]).filter_signal(s, K.PAR, zero_phase=z))
    obj(f"Filter.get_transfer_function/{nm}", lambda mk=mk: [mk(), fv()], lambda f, v: f.get_transfer_function(v))
    obj(f"Filter.get_group_delay/{nm}", lambda mk=mk: [mk(), fv()], lambda f, v: f.get_group_delay(v, False))
    obj(f"Filter.metadata/{nm}", lambda mk=mk: [mk()], lambda f: (f.metadata, f.metadata_str, f.order, f.is_iir))
    obj(f"Filter.resample/{nm}", lambda mk=mk: [mk(), sig()], lambda f, s: f.filter_and_resample_signal(s, 500))
    obj(f"resample_filter/{nm}", lambda mk=mk: [mk()], lambda f: dsp.resample_filter(f, 2000))
    obj(f"warp_filter/{nm}", lambda mk=mk: [mk()], lambda f: TR.warp_filter(f, 0.3))
    obj(f"apply_gain(filter)/{nm}", lambda mk=mk: [mk()], lambda f: dsp.apply_gain(f, -3.0))
    obj(f"merge_filters/{nm}", lambda mk=mk: [[mk(), mk(), mk()]], lambda f: dsp.merge_filters(f))
    obj(f"Spectrum.from_filter/{nm}", lambda mk=mk: [fv(), mk()], lambda v, f: dsp.Spectrum.from_filter(v, f, True))
    obj(f"activity/{nm}", lambda mk=mk: [sig(), mk()], lambda s, f: dsp.activity_detector(s, pre_filter=f))
    for p in ("plot_magnitude", "plot_phase", "plot_group_delay"):
        obj(f"Filter.{p}/{nm}", lambda mk=mk: [mk(), [20.0, 400.0]], lambda f, r, p=p: close(getattr(f, p)(64, r)))
    obj(f"Filter.plot_zp/{nm}", lambda mk=mk: [mk()], lambda f: close(f.plot_zp()))
    obj(f"save_filter/{nm}", lambda mk=mk: [mk()], lambda f: saved(f.save_filter))
    if nm != "fir":
        obj(f"Lattice/{nm}", lambda mk=mk: [mk(), sig()], lambda f, s: FB.LatticeLadderFilter.from_filter(f).filter_signal(s))
        obj(f"StateSpace/{nm}", lambda mk=mk: [mk()], lambda f: run_rt(FB.StateSpaceFilter.from_filter(f)))
    obj(f"IIRFilter/{nm}", lambda mk=mk: [mk()], lambda f: run_rt((FB.FIRFilter if f.is_fir else FB.IIRFilter).from_filter(f)))
obj("Filter.from_ba", lambda: [np.array([1.0, 0.2]), np.array([2.0, 0.3])], lambda b, a: dsp.Filter.from_ba(b, a, FS).filter_signal(sig()))
obj("Filter.from_sos", lambda: [np.array([[1.0, 0.2, 0.1, 1.0, 0.3, 0.1]])], lambda s: dsp.Filter.from_sos(s, FS).filter_signal(sig()))
obj("Filter.from_zpk", lambda: [np.array([0.2, 0.3]), np.array([0.5, 0.1])], lambda z, p: dsp.Filter.from_zpk(z, p, 2.0, FS).filter_signal(sig()))
obj("Filter.iir_filter", lambda: [[50.0, 200.0]], lambda f: dsp.Filter.iir_filter(2, f, dsp.FilterPassType.Bandpass, FS))
obj("Filter.fir_filter", lambda: [np.array([50.0, 200.0])], lambda f: dsp.Filter.fir_filter(8, f, dsp.FilterPassType.Bandpass, FS))
for c in ("FIRFilter", "FIRFilterOverlapSave", "FIRUniformPartitioned"):
    obj(c, lambda: [R.seq(9, 3)], lambda b, c=c: run_rt(getattr(FB, c)(b)))
obj("IIRFilter(b, a)", lambda: [np.array([2.0, 0.2, 1.0]), np.array([2.0, 0.3, 0.1])], lambda b, a: run_rt(FB.IIRFilter(b, a)))
obj("WarpedFIR", lambda: [R.seq(5, 3)], lambda b: run_rt(FB.WarpedFIR(b, 0.3, FS)))
obj("WarpedIIR", lambda: [np.array([2.0, 0.2, 1.0]), np.array([2.0, 0.3, 0.1])], lambda b, a: run_rt(FB.WarpedIIR(b, a, 0.3, FS)))
obj("LatticeLadderFilter", lambda: [np.array([0.2, 0.3]), np.array([0.5, 0.1, 0.7])], lambda k, c: run_rt(FB.LatticeLadderFilter(k, c, FS)))
obj("StateSpaceFilter", lambda: [0.3 * R.td(2, 2, 1), R.td(2, 1, 2), R.td(2, 1, 3).T, np.array([[0.5]])], lambda a, b, c, d: run_rt(FB.StateSpaceFilter(a, b, c, d)))
obj("KautzFilter", lambda: [np.array([0.5, 0.3 + 0.4j, -0.2]), irs("b")], lambda p, i: kautz(p, i))
obj("KautzFilter.from_ir", lambda: [irs("b")], lambda i: FB.KautzFilter.from_ir(i, 4, 2).get_ir(32))
obj("ParallelFilter", lambda: [np.array([0.5, 0.3 + 0.4j]), irs("b"), sig()], lambda p, i, s: parallel(p, i, s))
obj("FilterChain", lambda: [[FB.FIRFilter(R.seq(3, 1)), FB.FIRFilter(R.seq(4, 2))]], lambda f: FB.FilterChain(f).n_filters)
obj("arma", lambda: [irs("e")], lambda i: FB.arma(i, 3, 2))
obj("PhaseLinearizer", lambda: [-np.linspace(0, 9, 65) ** 1.1, irs("b")], lambda p, i: FB.PhaseLinearizer(p, 128, FS).get_filter())
obj("GroupDelayDesigner", lambda: [np.linspace(0.001, 0.01, 65)], lambda g: FB.GroupDelayDesigner(g, 128, FS).get_filter_as_ir())
obj("FirDesigner", lambda: [np.linspace(1, 2, 65), np.linspace(0.001, 0.01, 65)], lambda m, g: FB.FirDesigner(m, g, 128, FS).get_filter_as_ir())
obj("linkwitz_riley_crossovers", lambda: [[200.0, 60.0], [4, 2]], lambda f, o: FB.linkwitz_riley_crossovers(f, o, FS).filter_signal(sig(), K.PAR))
obj("linkwitz_riley_crossovers/array", lambda: [np.array([200.0, 60.0]), np.array([4, 2])], lambda f, o: FB.linkwitz_riley_crossovers(f, o, FS).filter_signal(sig(), K.PAR))
obj("fractional_octave_bands", lambda: [[250.0, 60.0]], lambda f: FB.fractional_octave_bands(f, 1, 4, FS))
obj("fractional_octave_bands/array", lambda: [np.array([250.0, 60.0])], lambda f: FB.fractional_octave_bands(f, 1, 4, FS))
obj("reconstructing_fractional_octave_bands", lambda: [[60.0, 250.0]], lambda f: FB.reconstructing_fractional_octave_bands(f, n_samples=128, sampling_rate_hz=FS))
obj("auditory_filters_gammatone", lambda: [[400.0, 60.0]], lambda f: FB.auditory_filters_gammatone(f, 2.0, FS))
obj("qmf_crossover", lambda: [dsp.Filter.fir_filter(11, 250.0, dsp.FilterPassType.Lowpass, FS), sig()], lambda f, s: FB.qmf_crossover(f).filter_signal(s, K.PAR))
obj("complementary_fir_filter", lambda: [dsp.Filter.fir_filter(10, 250.0, dsp.FilterPassType.Lowpass, FS)], lambda f: FB.complementary_fir_filter(f))

BANKS = {
    "plain": K.bank, "used": used_bank, "LR": lambda: FB.linkwitz_riley_crossovers([60.0, 200.0], [4, 2], FS), "gammatone": K.gamma,
    "octave": lambda: FB.fractional_octave_bands([60.0, 250.0], 1, 4, FS)[0], "qmf": K.qmf,
}
for nm, mk in BANKS.items():
    obj(f"FilterBank.copy/{nm}", lambda mk=mk: [mk()], lambda b: b.copy())
    for mode in (K.PAR, K.SEQ, K.SUM):
        if mode == K.SEQ and nm in ("LR", "qmf") or nm == "qmf" and mode == K.SUM:
            continue
        obj(f"FilterBank.filter_signal/{nm}/{mode.name}", lambda mk=mk: [mk(), sig()], lambda b, s, m=mode: b.filter_signal(s, m))
        obj(f"FilterBank.filter_signal(ir)/{nm}/{mode.name}", lambda mk=mk: [mk(), irs()], lambda b, s, m=mode: b.filter_signal(s, m))
        if nm != "qmf":
            obj(f"FilterBank.zero_phase/{nm}/{mode.name}", lambda mk=mk: [mk(), dsp.pad_trim(sig(), 200)], lambda b, s, m=mode: b.filter_signal(s, m, zero_phase=True))
            obj(f"FilterBank.get_ir/{nm}/{mode.name}", lambda mk=mk: [mk()], lambda b, m=mode: b.get_ir(64, m))
        if nm not in ("qmf", "LR"):
            obj(f"FilterBank.get_transfer_function/{nm}/{mode.name}", lambda mk=mk: [mk(), fv()], lambda b, v, m=mode: b.get_transfer_function(v, m))
        if nm not in ("qmf", "LR"):
            obj(f"Spectrum.from_filterbank/{nm}/{mode.name}", lambda mk=mk: [fv(), mk()], lambda v, b, m=mode: dsp.Spectrum.from_filterbank(v, b, m, True))
        if nm in ("plain", "used", "octave"):
            for p in ("plot_magnitude", "plot_phase", "plot_group_delay"):
                obj(f"FilterBank.{p}/{nm}/{mode.name}", lambda mk=mk: [mk(), [20.0, 400.0]], lambda b, r, p=p, m=mode: close(getattr(b, p)(256, m, range_hz=r)))
    if nm != "LR":
        obj(f"FilterBank.metadata/{nm}", lambda mk=mk: [mk()], lambda b: (b.metadata, b.metadata_str))
    obj(f"save_filterbank/{nm}", lambda mk=mk: [mk()], lambda b: saved(b.save_filterbank))
    obj(f"filter_multiband/{nm}", lambda mk=mk: [mk(), mbs()], lambda b, m: b.filter_multiband_signal(dsp.MultiBandSignal([x for x in m.bands][: b.number_of_filters])) if hasattr(b, "filters") and b.number_of_filters <= 3 else 0)
obj("FilterBank(list)", lambda: [[K.fir(), sosf()]], lambda f: (lambda b: (b.add_filter(baf()), b.swap_filters([2, 0, 1]), b.remove_filter(0), 0)[-1])(dsp.FilterBank(f)))
obj("append_filterbanks", lambda: [[K.bank(), dsp.FilterBank([sosf()])]], lambda f: (lambda b: (b.add_filter(baf()), b.remove_filter(0), 0)[-1])(dsp.append_filterbanks(f)))
obj("append_filterbanks/result", lambda: [[K.bank(), dsp.FilterBank([sosf()])]], lambda f: dsp.append_filterbanks(f))
obj("apply_gain(bank)", lambda: [K.bank()], lambda b: dsp.apply_gain(b, 3.0))
obj("apply_gain(bank)/vec", lambda: [K.bank(), np.array([1.0, 2.0, 3.0])], lambda b, g: dsp.apply_gain(b, g))
obj("merge_filters(bank)", lambda: [dsp.FilterBank([K.fir(), K.fir(9)])], lambda b: dsp.merge_filters(b))
obj("filter_to_ir", lambda: [K.fir()], lambda f: TF.filter_to_ir(f))
obj("filter_to_ir(bank)", lambda: [dsp.FilterBank([K.fir(), K.fir(9)])], lambda f: TF.filter_to_ir(f))

for cplx, coh in itertools.product((True, False), repeat=2):
    mk = lambda cplx=cplx, coh=coh: [sp(cplx=cplx, coh=coh)]
    mk2 = lambda extra, mk=mk: (lambda: mk() + extra())
    tag = f"{'complex' if cplx else 'magnitude'}{'/coh' if coh else ''}"
    O = lambda name, m, fn, tag=tag: obj(f"Spectrum.{name}/{tag}", m, fn)
    O("copy", mk, lambda s: s.copy())
    O("get_channels", mk, lambda s: s.get_channels([1, 0]))
    O("get_channels1", mk, lambda s: s.get_channels(0))
    O("sum", mk, lambda s: s.sum_channels())
    O("sum-amp", mk, lambda s: s.sum_channels(False))
    O("resample", mk2(lambda: [fv()]), lambda s, f: s.copy().resample(f))
    O("trim", mk, lambda s: s.copy().trim(50.0, 200.0))
    O("energy", mk, lambda s: s.get_energy(20.0, 300.0))
    O("normalize", mk, lambda s: s.copy().normalize(100.0))
    O("smooth", mk, lambda s: s.copy().apply_octave_smoothing(3.0))
    O("gain", mk2(lambda: [np.array([1.0, 2.0])]), lambda s, g: s.copy().apply_gain(g))
    O("warp", mk, lambda s: s.copy().warp(0.3, FS))
    for t in dsp.SpectrumType:
        if cplx or t.name not in ("Complex", "DB_Phase"):
            O(f"interpolate/{t.name}", mk2(lambda: [fv()]), lambda s, f, t=t: s.get_interpolated_spectrum(f, t))
    O("plot_magnitude", mk, lambda s: close(s.plot_magnitude()))
    O("append", mk2(lambda: [[sp(cplx=cplx, coh=coh), sp(cplx=True, ch=1, coh=coh)]]), lambda s, l: dsp.append_spectra(l))
    O("save", mk, lambda s: saved(s.save_spectrum))
    O("difference", mk2(lambda: [sp(ch=2)]), lambda s, t: dsp.spectral_difference(s, t))
    O("min_phase_from_mag", mk, lambda s: TF.min_phase_from_mag(s, FS, 64))
    O("lin_phase_from_mag", mk, lambda s: TF.lin_phase_from_mag(s, FS, 40.0, False))
    if cplx:
        O("to_signal", mk, lambda s: s.to_signal(FS))
        O("to_signal2", mk, lambda s: s.to_signal(2 * FS, 0.1))

# signals with arrays, lists, dictionaries and options
obj("Signal.time_data=", lambda: [R.td(20, 2, 1)], lambda x: setd(x))
obj("Signal.add_channel", lambda: [sig(), R.td(60, 1, 1)], lambda s, x: s.copy().add_channel(None, x, FS))
obj("Signal.swap", lambda: [sig(), [1, 0]], lambda s, o: s.copy().swap_channels(o))
obj("Signal.get_channels/list", lambda: [sig(), [1, 0]], lambda s, o: s.get_channels(o))
obj("ImpulseResponse.set_window", lambda: [irs(), np.linspace(0, 1, 128).reshape(64, 2)], lambda i, w: (lambda c: (c.set_window(w), c.copy())[1])(i.copy()))
obj("ImpulseResponse.from_signal", lambda: [sig()], lambda s: dsp.ImpulseResponse.from_signal(s))
obj("MultiBandSignal(list)", lambda: [[sig(), sig("ba")]], lambda l: (lambda m: (m.add_band(sig()), m.swap_bands([2, 0, 1]), m.remove_band(0), 0)[-1])(dsp.MultiBandSignal(l)))
obj("MultiBandSignal(info)", lambda: [[sig()], {"a": 1}], lambda l, d: (lambda m: (m.add_band(sig()), 0)[-1])(dsp.MultiBandSignal(l, info=d)))
obj("MultiBandSignal.swap_bands", lambda: [mbs(), [2, 0, 1]], lambda m, o: m.copy().swap_bands(o))
obj("append_signals", lambda: [[sig(), sig("ba"), K.make("sig", "b", n=40)]], lambda l: dsp.append_signals(l))
obj("append_signals(mb)", lambda: [[mbs(), mbs("ba")]], lambda l: dsp.append_signals(l))
obj("fractional_delay/channels", lambda: [sig(), [1]], lambda s, c: dsp.fractional_delay(s, 0.004, c, order=10))
obj("delay/channels", lambda: [sig(), [1]], lambda s, c: dsp.delay(s, 3, c))
obj("apply_gain/list", lambda: [sig(), np.array([1.0, 2.0])], lambda s, g: dsp.apply_gain(s, g))
obj("dither", lambda: [sig(), K.bank()], lambda s, b: dsp.dither(s, noise_shaping_filterbank=b), False)
obj("deconvolve/range", lambda: [sig(), sig("ba"), [50.0, 200.0]], lambda s, a, r: TF.spectral_deconvolve(s, a, start_stop_hz=r))
obj("window_ir/types", lambda: [irs(), [K.W.Hann, K.W.Hamming]], lambda i, w: TF.window_ir(i, 40, window_type=w))
obj("harmonics/range", lambda: [dsp.pad_trim(irs("b"), 2000), [20.0, 400.0]], lambda i, r: TF.harmonics_from_chirp_ir(i, r, 1.0, 3))
obj("thd/list", lambda: [[K.make("ir", "d"), K.make("ir", "b"), K.make("ir", "e")]], lambda l: TF.harmonic_distortion_analysis(l, generate_plot=False))
obj("thd/range", lambda: [dsp.pad_trim(irs("d"), 2000), [20.0, 400.0]], lambda i, r: TF.harmonic_distortion_analysis(i, r, 1.0, 3, generate_plot=False))
obj("log_mel/params", lambda: [sig(), [50.0, 400.0], dict(window_length_samples=32)], lambda s, r, p: TR.log_mel_spectrogram(s, 0, r, 4, False, p))
obj("mfcc/params", lambda: [sig(), K.MEL.copy(), dict(window_length_samples=16)], lambda s, m, p: TR.mfcc(s, 0, m, False, p))
obj("plot_waterfall", lambda: [sig("b"), dict(window_length_samples=16)], lambda s, p: close(TR.plot_waterfall(s, stft_parameters=p)))
obj("mel_filterbank", lambda: [np.linspace(0, 500, 65), [50.0, 400.0]], lambda f, r: TR.mel_filterbank(f, r, 4))
obj("istft", lambda: [K.stft(sig()).get_spectrogram()[2], K.stft(sig())], lambda x, s: TR.istft(x, s))
obj("istft/dict", lambda: [K.stft(sig()).get_spectrogram()[2], dict(K.stft(sig())._spectrogram_parameters)], lambda x, p: TR.istft(x, parameters=p, sampling_rate_hz=FS))
obj("from_cepstrum", lambda: [TR.cepstrum(sig("ad"))], lambda c: TR.from_complex_cepstrum(c, FS))
obj("cwt", lambda: [sig(), np.array([60.0, 120.0]), TR.MorletWavelet(h=3.0, step=1e-2), np.array([1])], lambda s, f, w, c: TR.cwt(s, f, w, c, True))
obj("wavelet", lambda: [TR.MorletWavelet(h=3.0, step=1e-2), np.array([60.0, 120.0])], lambda w, f: (w.get_wavelet(f, FS), w.get_base_wavelet(), w.get_center_frequency()))
obj("vqt", lambda: [dsp.pad_trim(sig(), 300), np.array([1]), [1, 2]], lambda s, c, o: TR.vqt(s, c, octaves=o, bins_per_octave=12))
obj("chroma/plot", lambda: [K.stft(sig())], lambda s: TR.chroma_stft(s, plot_channel=0)[0])
obj("dft", lambda: [sig(), fv()], lambda s, f: TR.dft(s, f))
obj("via_filterbank", lambda: [sig(), np.array([60.0, 120.0])], lambda s, f: TR.spectrum_via_filterbank(s, f, 0.5, order=2))
obj("find_modes", lambda: [irs("b"), [50.0, 200.0]], lambda i, r: RA.find_modes(i, r))
obj("convolve_rir", lambda: [sig(), K.make("ir", "i")], lambda s, r: RA.convolve_rir_on_signal(s, r))
obj("reverb/list", lambda: [K.decay(sig(), [0, 1]), [50, 100]], lambda i, k: RA.reverb_time(i, RA.ReverbTime.T20, k))
obj("reverb/array", lambda: [K.decay(sig(), [0, 1]), np.array([50, 100])], lambda i, k: RA.reverb_time(i, RA.ReverbTime.T20, k))
obj("descriptors(mb)", lambda: [RA_bands()], lambda m: RA.descriptors(m, RA.RoomAcousticsDescriptor.C80, True))
obj("reverb(mb)", lambda: [RA_bands()], lambda m: RA.reverb_time(m, RA.ReverbTime.T20))
for m in ("log_spectral", "itakura_saito"):
    obj(m, lambda: [sig("ab"), sig("bd"), [400.0, 50.0], dict(window_length_samples=32)], lambda a, b, r, p, m=m: getattr(DI, m)(a, b, f_range_hz=r, spectrum_parameters=p))
obj("fw_snr_seg", lambda: [sig("ad"), sig("bd"), [400.0, 50.0], [35, -10]], lambda a, b, r, q: DI.fw_snr_seg(a, b, r, q))
obj("calibrate", lambda: [(R.seq(64, 2), FS), sig("a")], lambda c, s: dsp.CalibrationData(c).calibrate_signal(s))
obj("calibrate/signal", lambda: [sig("b"), sig("a")], lambda c, s: dsp.CalibrationData(c).calibrate_signal(s))
obj("calibrate/mb", lambda: [sig("b"), mbs("a")], lambda c, s: dsp.CalibrationData(c).calibrate_signal(s))
for p, k in (
    ("plot_magnitude", {}), ("plot_magnitude", dict(normalize=dsp.MagnitudeNormalization.Max, smoothing=3)), ("plot_time", {}), ("plot_spl", dict(window_length_s=0.01)),
    ("plot_spl", dict(normalize_at_peak=True)), ("plot_group_delay", {}), ("plot_group_delay", dict(smoothing=3)), ("plot_spectrogram", {}), ("plot_phase", dict(unwrap=True)), ("plot_phase", dict(smoothing=3)),
    ("plot_csm", {}), ("plot_bode", {}), ("plot_bode", dict(smoothing=3)),
):
    for kind in ("sig", "ir"):
        for st in ("fft", "welch"):
            if hasattr(K.make(kind, "a"), p) and not (p == "plot_phase" and st == "welch"):
                obj(f"{kind}.{p}/{k}/{st}", lambda kind=kind, st=st: [tune(K.make(kind, "bd"), st), [20.0, 400.0]], lambda s, r, p=p, k=k: close(plotted(s, p, r, k)))
for kind, mk in (("sig", sig), ("ir", irs)):
    for md, bits in (("wav", 32), ("flac", 16), ("pkl", 32)):
        obj(f"{kind}.save/{md}", lambda mk=mk: [mk()], lambda s, md=md, bits=bits: saved(lambda p: s.save_signal(p, md, bits)))
obj("mb.save", lambda: [mbs()], lambda s: saved(s.save_signal))

# tools
mat = lambda: [np.abs(R.td(16, 2, 4)) + 0.1]
obj("fractional_octave_smoothing", mat, lambda x: T.fractional_octave_smoothing(x, 0.1, 3))
obj("fractional_octave_smoothing/clip", mat, lambda x: T.fractional_octave_smoothing(x - 0.5, 0.1, 3, clip_values=True))
obj("fractional_octave_smoothing/window", lambda: [np.abs(R.td(16, 2, 4)), np.hanning(5)], lambda x, w: T.fractional_octave_smoothing(x, 0.1, 3, None, w))
obj("wrap_phase", lambda: [np.linspace(-20, 20, 33)], lambda x: T.wrap_phase(x))
for md in (None, "db2amplitude", "amplitude2db", "power2db", "amplitude2power"):
    obj(f"interpolate_fr/{md}", lambda: [np.array([0.0, 100.0, 200.0]), np.array([1.0, 2.0, 3.0]), np.array([50.0, 150.0])], lambda a, b, c, md=md: T.interpolate_fr(a, b, c, md))
obj("time_smoothing", mat, lambda x: T.time_smoothing(x, FS, 0.01, 0.02))
obj("log_frequency_vector", lambda: [[20.0, 400.0]], lambda r: T.log_frequency_vector(r, 3))
for am in (True, False):
    for dr in (None, 40.0):
        obj(f"to_db/{am}/{dr}", lambda: [R.td(16, 2, 4) * np.array([1.0, 0.0])], lambda x, am=am, dr=dr: T.to_db(x, am, dr))
    obj(f"from_db/{am}", mat, lambda x, am=am: T.from_db(x, am))
obj("get_exact_value_at_frequency", lambda: [np.linspace(0, 500, 16), np.abs(R.seq(16, 3))], lambda f, y: T.get_exact_value_at_frequency(f, y, 100.0))
obj("log_mean", mat, lambda x: T.log_mean(x))
obj("frequency_crossover", lambda: [[50.0, 200.0], fv()], lambda r, f: T.frequency_crossover(r)(f))
obj("erb_frequencies", lambda: [[400.0, 20.0]], lambda r: T.erb_frequencies(r))
obj("erb_frequencies/array", lambda: [np.array([400.0, 20.0])], lambda r: T.erb_frequencies(r))
obj("fractional_octave_frequencies", lambda: [[20.0, 400.0]], lambda r: T.fractional_octave_frequencies(3, r, True))
for sc in dsp.SpectrumScaling:
    obj(f"scale_spectrum/{sc.name}", lambda: [R.td(17, 2, 4) + 1j * R.td(17, 2, 5), np.hanning(32)], lambda x, w, sc=sc: T.scale_spectrum(x, sc, 32, FS, w))
obj("framed_signal", lambda: [R.td(40, 2, 4)], lambda x: T.framed_signal(x, 8, 4))
obj("framed_signal/1", lambda: [R.td(40, 2, 4)], lambda x: T.framed_signal(x, 40, 40))
obj("reconstruct_from_framed_signal", lambda: [np.stack([R.td(8, 3, 4), R.td(8, 3, 5)], 2), np.hanning(8)], lambda x, w: T.reconstruct_from_framed_signal(x, 4, w))
for a in ("f32", "f64", "i16", "u8", "i32"):
    for b in ("f32", "f64", "i16", "u8", "i32"):
        if a != b:
            obj(f"convert/{a}/{b}", lambda a=a: [codes(a)], lambda x, a=a, b=b: T.convert_sample_representation(x, a, b))
obj("warp_frequency", lambda: [fv()], lambda f: T.warp_frequency(f, FS, 0.3))
obj("next_power_2", lambda: [np.array([3, 5, 9])], lambda x: T.next_power_2(3))

# rooms, beamforming, effects
obj("ShoeboxRoom", lambda: [[3.0, 4.0, 2.5], [1.0, 1.0, 1.0], [2.0, 2.0, 1.5], fv()], lambda d, a, b, f: room(d, a, b, f))
obj("ShoeboxRoom/array", lambda: [np.array([3.0, 4.0, 2.5]), np.array([1.0, 1.0, 1.0]), np.array([2.0, 2.0, 1.5]), fv()], lambda d, a, b, f: room(d, a, b, f))
obj("detailed_absorption", lambda: [absorption()], lambda d: RA.ShoeboxRoom([3.0, 4.0, 2.5], t60_s=0.3).add_detailed_absorption(d) and 0)
obj("generate_synthetic_rir", lambda: [RA.ShoeboxRoom([3.0, 4.0, 2.5], t60_s=0.2), [1.0, 1.0, 1.0], [2.0, 2.0, 1.5]], lambda r, a, b: RA.generate_synthetic_rir(r, a, b, 2000, 0.1, max_order=2, apply_bandpass=False))
obj("Grid", lambda: [{"x": np.arange(3.0), "y": np.arange(3.0) + 1, "z": np.ones(3)}], lambda d: BF.Grid(d).extent)
obj("MicArray", lambda: [{"x": np.arange(3.0), "y": np.arange(3.0) + 1, "z": np.ones(3)}], lambda d: micinfo(BF.MicArray(d)))
obj("Regular2DGrid", lambda: [np.arange(3.0), np.arange(4.0), ["x", "z"], R.seq(12, 1)], lambda a, b, d, m: BF.Regular2DGrid(a, b, d, 2.0).reconstruct_map_shape(m).copy())
obj("Regular3DGrid", lambda: [np.arange(3.0), np.arange(4.0), np.arange(2.0), R.seq(24, 1)], lambda a, b, d, m: BF.Regular3DGrid(a, b, d).reconstruct_map_shape(m).copy())
obj("plot_map", lambda: [grid(), np.abs(R.seq(12, 1)) + 0.1], lambda g, m: close(g.plot_map(m)))
for b in ("DASFrequency", "CleanSC", "Orthogonal", "Functional", "MVDR"):
    obj(f"Beamformer{b}", lambda: [micsig(), mics(), grid(), BF.SteeringVector()], lambda s, m, g, v, b=b: getattr(BF, "Beamformer" + b)(s, m, g, v).get_beamformer_map(1000.0, 1))
obj("BeamformerDASTime", lambda: [micsig(), mics(), grid()], lambda s, m, g: BF.BeamformerDASTime(s, m, g).get_beamformer_output())
obj("MonopoleSource", lambda: [dsp.Signal.from_time_data(R.td(64, 1, 2), 8000), [0.1, 0.2, 1.0], mics()], lambda s, c, m: BF.MonopoleSource(s, c).get_signals_on_array(m))
obj("mix_sources", lambda: [sources(), mics()], lambda s, m: BF.mix_sources_on_array(s, m))
obj("mix_sources/one", lambda: [sources()[0], mics()], lambda s, m: BF.mix_sources_on_array(s, m))
obj("Chorus", lambda: [sig("b"), np.array([2.0, 3.0]), np.array([6.0, 9.0]), [EF.LFO(10.0), EF.LFO(7.0)]], lambda s, d, b, m: EF.Chorus(d, b, m, 60.0).apply(s))
obj("Tremolo", lambda: [sig("b"), EF.LFO(10.0, "sawtooth", False, 2.0)], lambda s, m: EF.Tremolo(0.5, m).apply(s))
obj("Tremolo/array", lambda: [sig("ab"), np.linspace(0.2, 0.9, 64)], lambda s, m: EF.Tremolo(0.5, m).apply(s))
obj("Distortion/list", lambda: [sig("ab"), [EF.DistortionType.Arctan, EF.DistortionType.HardClip], [30.0, 70.0], [0.0, 3.0]], lambda s, t, m, o: distort(s, t, m, o))
obj("SpectralSubtractor", lambda: [sig("b"), np.abs(R.seq(9, 2))], lambda s, x: EF.SpectralSubtractor(False, -12.0, 0.016, x).apply(s))
obj("Compressor", lambda: [sig("ab"), K.iir()], lambda s, f: K.compressor().apply(s))


def setd(x):
    s = sig()
    s.time_data = x
    return dsp.normalize(s, -3.0)


def RA_bands():
    d = K.decay(sig("ab"), [0, 1])
    return dsp.MultiBandSignal([d, d.copy_with_new_time_data(d.time_data * 0.5)])


def close(r):
    plt.close("all")


def plotted(s, p, r, k):
    if p in ("plot_magnitude", "plot_group_delay", "plot_phase", "plot_csm", "plot_bode"):
        getattr(s, p)(r, **k)
    else:
        getattr(s, p)(**k)


def saved(fn):
    d = tempfile.mkdtemp(prefix="c04_")
    try:
        fn(os.path.join(d, "x"))
    finally:
        shutil.rmtree(d)


def run_rt(f):
    if hasattr(f, "process_block") and hasattr(f, "prepare"):
        f.prepare(8, 1)
        return np.concatenate([f.process_block(R.seq(8, i), 0) for i in range(3)])
    f.set_n_channels(1)
    return np.array([f.process_sample(float(x), 0) for x in R.seq(20, 1)])


def kautz(p, i):
    f = FB.KautzFilter(p, FS)
    f.fit_coefficients_to_ir(i)
    return f.get_ir(32), f.filter_signal(sig("a"))


def parallel(p, i, s):
    f = FB.ParallelFilter(p, 2, FS)
    f.fit_to_ir(i)
    return f.get_ir(32), f.filter_signal(s.get_channels(0))


def codes(a):
    if a[0] == "f":
        return R.seq(16, 2).astype(np.float32 if a == "f32" else np.float64)
    n = int(a[1:])
    lo = 0 if a[0] == "u" else -(2 ** (n - 1))
    x = np.linspace(lo, lo + 2**n - 1, 16).astype(np.int64)
    return x.astype({"u8": np.uint8, "i16": np.int16, "i24": np.int32, "i32": np.int32}[a])


def room(d, a, b, f):
    r = RA.ShoeboxRoom(d, t60_s=0.3)
    r.check_if_in_room(a)
    modes = r.get_room_modes(2)
    out = r.get_analytical_transfer_function(a, b, f, 2, generate_plot=False)
    plt.close("all")
    return modes, out[0] if isinstance(out, tuple) else out


def absorption():
    w = lambda x: np.array([0.1, 0.2, 0.3]) * x
    return {"north": w(1), "south": w(2), "east": w(1), "west": w(1.5), "floor": w(0.5), "ceiling": w(1)}


def micinfo(m):
    return m.aperture, m.min_distance, m.array_center_coordinates, m.array_center_channel_number, m.get_maximum_frequency_range()


def sources():
    s = lambda k: dsp.Signal.from_time_data(R.td(64, 1, k), 8000)
    return [BF.MonopoleSource(s(1), [0.1, 0.2, 1.0]), BF.MonopoleSource(s(2), [0.4, -0.2, 1.1]), BF.MonopoleSource(s(3), [0.0, -0.2, 0.7])]


def distort(s, t, m, o):
    d = EF.Distortion(10.0)
    d.set_advanced_parameters(t, [20.0, 10.0], m, o)
    return d.apply(s)


def other(ctx, name):
    make, fn, repeat = OBJ[name]
    call(fn, make(), ctx, repeat)


def part_objects(ctx, names):
    for n in names:
        ctx.case(f"objects/{n}", other, ctx, n)


def part(ctx, what, *a):
    {"signals": part_signals, "pairs": part_pairs, "objects": part_objects}[what](ctx, *a)


def run(ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    names = list(OBJ)
    parts = [("objects", names[i::16]) for i in range(16)]
    parts += [("signals", i) for i in range(len(K.OPS))]
    for kind in ("sig", "ir", "mb") if ctx.thorough else ("sig", "ir"):
        n = len([o for o in K.OPS if kind in o.kinds.split() and o.pool != "decay" and o.name not in RANDOM])
        parts += [("pairs", kind, i) for i in range(n)]
    ctx.parallel(part, parts)
    ctx.bound(operations=len(K.OPS) + len(names), pair_depth=2)
