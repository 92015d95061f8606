"""Catalogue of the operations of the library that take a signal, with what they
do to channels. Used by the checks that quantify over operations (C04, C26).

An operation is Op(name, kinds, fn(s, aux, ch), sel, cplx): `s` is the signal,
`aux` a second one with the same channels, `ch` the original numbers of its
channels (for options given per channel). `sel` says where the channels of the
result are: "ch" (a library object with channels), an int (axis of an array),
"all" (the same for all channels), None (nothing to compare), or a tuple of
these for a tuple. Operations documented to combine channels have sel None."""

from dataclasses import dataclass, field

import numpy as np

import dsptoolbox as dsp
from . import dsp as R

W, SM, SS = dsp.Window, dsp.SpectrumMethod, dsp.SpectrumScaling
TF, TR, RA, DI = dsp.transfer_functions, dsp.transforms, dsp.room_acoustics, dsp.distances
FB, EF = dsp.filterbanks, dsp.effects
PAR, SEQ, SUM = dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Sequential, dsp.FilterBankMode.Summed
FS = 1000


@dataclass
class Op:
    name: str
    kinds: str
    fn: object
    sel: object = "ch"
    cplx: bool = False
    pool: str = ""  # restrict the channel contents (e.g. no silence)


OPS = []


def op(name, kinds, fn, sel="ch", cplx=False, pool=""):
    OPS.append(Op(name, kinds, fn, sel, cplx, pool))


GAIN = np.array([3.0, -6.0, 0.5, 12.0])


def fir(n=5, fs=FS):
    return dsp.Filter.from_ba(R.seq(n, 7) + 0.1, [1.0], fs)


def iir(fs=FS):
    return dsp.Filter.iir_filter(3, 150.0, dsp.FilterPassType.Lowpass, fs)


def hp(fs=FS):
    return dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 120.0, 5.0, 0.8, fs)


def bank(fs=FS):
    return dsp.FilterBank([fir(fs=fs), iir(fs), hp(fs)])


def welch(s, **kw):
    s = s.copy()
    p = dict(method=SM.WelchPeriodogram, window_length_samples=32, scaling=SS.PowerSpectralDensity)
    s.set_spectrum_parameters(**{**p, **kw})
    return s


def fft(s, sc=SS.FFTBackward, smoothing=0):
    s = s.copy()
    s.spectrum_method, s.spectrum_scaling = SM.FFT, sc
    s.spectrum_smoothing = smoothing
    return s


def stft(s):
    s = s.copy()
    s.set_spectrogram_parameters(window_length_samples=16, overlap_percent=50.0)
    return s


# ------------------------------------------------------------ standard
for n in (40, 64, 90):
    for end in (True, False):
        op(f"pad_trim/{n}/{end}", "sig ir mb", lambda s, a, ch, n=n, e=end: dsp.pad_trim(s, n, e), cplx=True)
for a0, b0 in ((0.01, 0.03), (None, 0.1), (0.02, None), (-0.01, 0.05)):
    op(f"modify_length/{a0}/{b0}", "sig ir mb", lambda s, a, ch, x=a0, y=b0: dsp.modify_signal_length(s, x, y), cplx=True)
for a0, b0, i in ((0.01, 0.03, True), (None, 0.03, False), (0.0101, None, True)):
    op(f"time_selection/{a0}/{b0}/{i}", "sig ir mb", lambda s, a, ch, x=a0, y=b0, i=i: dsp.trim_with_time_selection(s, x, y, i), cplx=True)
op("level_threshold", "sig ir", lambda s, a, ch: dsp.trim_with_level_threshold(s, -20.0), sel=None)
for k in (True, False):
    op(f"fractional_delay/{k}", "sig ir mb", lambda s, a, ch, k=k: dsp.fractional_delay(s, 0.0043, keep_length=k, order=10))
    op(f"delay/{k}", "sig ir mb", lambda s, a, ch, k=k: dsp.delay(s, 7, keep_length=k), cplx=True)
for c in ([0], [1], [2, 0], [1, 2]):
    sub = lambda f: (lambda s, a, ch, c=c: f(s, [i for i, v in enumerate(ch) if v in c] if any(v in c for v in ch) else None))
    op(f"delay/ch{c}", "sig mb", sub(lambda s, k: dsp.pad_trim(s, len_of(s) + 4) if k is None else dsp.delay(s, 4, k)), cplx=True)
    op(
        f"fractional_delay/ch{c}", "sig mb",
        sub(lambda s, k: s.copy() if k is None else dsp.fractional_delay(s, 0.0024, k, True, 10)),
    )
for r in (500, 2000, 1500, 800):
    op(f"resample/{r}", "sig ir", lambda s, a, ch, r=r: dsp.resample(s, r), cplx=True)
    op(f"resample-rescale/{r}", "sig ir", lambda s, a, ch, r=r: dsp.resample(s, r, True), cplx=True)
for p in (0, 1, 3):
    op(f"detrend/{p}", "sig ir mb", lambda s, a, ch, p=p: dsp.detrend(s, p))
op("envelope/analytic", "sig ir mb", lambda s, a, ch: dsp.envelope(s), sel=-1)
op("envelope/rms", "sig ir mb", lambda s, a, ch: dsp.envelope(s, False, 9), sel=-1)
for pk in (True, False):
    op(f"normalize-each/{pk}", "sig ir mb", lambda s, a, ch, pk=pk: dsp.normalize(s, -3.0, pk, True), cplx=True, pool="loud")
    op(f"normalize/{pk}", "sig ir mb", lambda s, a, ch, pk=pk: dsp.normalize(s, -3.0, pk, False), cplx=True, sel=None, pool="loud")
for ft in dsp.FadeType:
    for st, en in ((True, True), (True, False), (False, True)):
        op(f"fade/{ft.name}/{st}{en}", "sig ir", lambda s, a, ch, ft=ft, st=st, en=en: dsp.fade(s, ft, 0.012, st, en), cplx=True)
op("true_peak", "sig ir mb", lambda s, a, ch: dsp.true_peak_level(s), sel=(-1, -1), pool="loud")
for d in (True, False):
    op(f"rms/{d}", "sig ir mb", lambda s, a, ch, d=d: dsp.rms(s, d), sel=-1, pool="loud")
    op(f"crest/{d}", "sig ir mb", lambda s, a, ch, d=d: dsp.crest_factor(s, d), sel=-1, pool="loud")
    op(f"crest-true/{d}", "sig ir mb", lambda s, a, ch, d=d: dsp.crest_factor(s, d, True), sel=-1, pool="loud")
op("apply_gain", "sig ir mb", lambda s, a, ch: dsp.apply_gain(s, -4.0), cplx=True)
op("apply_gain/vec", "sig ir mb", lambda s, a, ch: dsp.apply_gain(s, GAIN[ch]), cplx=True)
op("lufs", "sig", lambda s, a, ch: dsp.lufs_integrated(dsp.pad_trim(s, 2000)), sel=None, pool="loud")
op("dither", "sig ir", lambda s, a, ch: dsp.dither(s), sel=None)
op("dither/truncate", "sig ir", lambda s, a, ch: dsp.dither(s, False, truncate=True, noise_shaping_filterbank=bank()), sel=None)
op("activity", "sig ir", lambda s, a, ch: dsp.activity_detector(s, -20.0, 0, pre_filter=iir()), sel=None)
op("latency", "sig", lambda s, a, ch: dsp.latency(s, a), sel=(-1, -1), pool="loud")
op("latency/frac", "sig", lambda s, a, ch: dsp.latency(s, a, 1), sel=(-1, -1), pool="loud")
op("latency/single", "sig", lambda s, a, ch: dsp.latency(s), sel=None, pool="loud")
op("append_signals", "sig ir mb", lambda s, a, ch: dsp.append_signals([s, a]), sel=None)
op("append_signals/pad", "sig ir mb", lambda s, a, ch: dsp.append_signals([s, dsp.pad_trim(a, 40)], True, False), sel=None)
for cx in (False, True):
    for en in (False, True):
        op(
            f"spectral_difference/{cx}/{en}", "sig ir",
            lambda s, a, ch, cx=cx, en=en: dsp.spectral_difference(fft(s), fft(a), energy_normalization=en, complex=cx), pool="loud",
        )
op("spectral_difference/smooth", "sig", lambda s, a, ch: dsp.spectral_difference(fft(s), fft(a), 3.0), pool="loud")
op("spectral_difference/raw", "sig", lambda s, a, ch: dsp.spectral_difference(s, a), pool="loud")

# ------------------------------------------------------------ classes
for nm, mk in (
    ("welch", welch),
    ("welch-med", lambda s: welch(s, average="median", overlap_percent=25.0, window_type=W.Hamming, scaling=SS.AmplitudeSpectrum)),
    ("fft", fft),
    ("fft-psd", lambda s: fft(s, SS.PowerSpectralDensity)),
    ("fft-smooth", lambda s: fft(s, SS.AmplitudeSpectrum, 3)),
):
    op(f"spectrum/{nm}", "sig ir", lambda s, a, ch, mk=mk: mk(s).get_spectrum(), sel=("all", -1))
    op(f"csm/{nm}", "sig", lambda s, a, ch, mk=mk: csm_diag(mk(s)), sel=("all", -1))
    op(f"Spectrum.from_signal/{nm}", "sig ir", lambda s, a, ch, mk=mk: dsp.Spectrum.from_signal(mk(s)))
op("Spectrum.from_signal/complex", "sig ir", lambda s, a, ch: dsp.Spectrum.from_signal(fft(s), True))
op("spectrogram", "sig ir", lambda s, a, ch: stft(s).get_spectrogram(), sel=("all", "all", -1))
op("istft", "sig ir", lambda s, a, ch: TR.istft(stft(s).get_spectrogram()[2], stft(s)))
op("copy", "sig ir mb", lambda s, a, ch: s.copy(), cplx=True)
op("ir-from-signal", "sig", lambda s, a, ch: dsp.ImpulseResponse.from_signal(s))
op("sum_channels", "sig ir", lambda s, a, ch: s.sum_channels(), sel=None, cplx=True)
op("get_channels", "sig ir", lambda s, a, ch: s.get_channels(0), sel=None, cplx=True)
op("get_all_bands", "mb", lambda s, a, ch: s.get_all_bands(0), sel=None)
op("get_all_time_data", "mb", lambda s, a, ch: s.get_all_time_data(), sel=(-1, "all"))
op("collapse", "mb", lambda s, a, ch: s.collapse(), cplx=True)
for nm, mk in (("fir", fir), ("iir", iir), ("peak", hp), ("long", lambda: fir(20))):
    for z in (False, True):
        op(f"filter/{nm}/{z}", "sig ir", lambda s, a, ch, mk=mk, z=z: mk().filter_signal(s, zero_phase=z), cplx=not z)
    op(f"filter/{nm}/zi", "sig ir", lambda s, a, ch, mk=mk: zi_blocks(mk(), s))
    op(f"filter_multiband/{nm}", "mb", lambda s, a, ch, mk=mk: dsp.FilterBank([mk(), fir(), hp()]).filter_multiband_signal(s))
op("filter/subset", "sig", lambda s, a, ch: fir().filter_signal(s, channels=[i for i, v in enumerate(ch) if v != 1]) if ch != [1] else s.copy())
op("filter/resample", "sig", lambda s, a, ch: fir().filter_and_resample_signal(s, 500))
op("filter/upsample", "sig", lambda s, a, ch: fir(fs=2000).filter_and_resample_signal(s, 2000), sel=None)
for mode in (PAR, SEQ, SUM):
    op(f"bank/{mode.name}", "sig ir", lambda s, a, ch, m=mode: bank().filter_signal(s, m))
    op(f"bank-zp/{mode.name}", "sig ir", lambda s, a, ch, m=mode: bank().filter_signal(s, m, zero_phase=True))
    op(f"bank-zi/{mode.name}", "sig ir", lambda s, a, ch, m=mode: bank().filter_signal(s, m, activate_zi=True))
    for zp in (False, True):
        op(f"LR/{mode.name}/{zp}", "sig ir", lambda s, a, ch, m=mode, z=zp: FB.linkwitz_riley_crossovers([60.0, 200.0], [4, 2], FS).filter_signal(s, m, zero_phase=z) if m != SEQ else s.copy())
op("gammatone", "sig ir", lambda s, a, ch: gamma().filter_signal(s, PAR))
op("gammatone/reconstruct", "sig ir", lambda s, a, ch: gamma().reconstruct(gamma().filter_signal(s, PAR)))
op("qmf", "sig", lambda s, a, ch: qmf().filter_signal(s, PAR))
op("qmf/down", "sig", lambda s, a, ch: qmf().filter_signal(s, PAR, downsample=True))
op("qmf/rec", "sig", lambda s, a, ch: qmf().reconstruct_signal(qmf().filter_signal(s, PAR, downsample=True), upsample=True))
op("lattice", "sig", lambda s, a, ch: FB.LatticeLadderFilter.from_filter(iir()).filter_signal(s))
op("kautz", "sig", lambda s, a, ch: FB.KautzFilter(np.array([0.5, 0.3 + 0.4j, 0.3 - 0.4j]), FS).filter_signal(s), sel=None)

# ------------------------------------------------- transfer functions
for reg in (True, False):
    for pad in (True, False):
        op(f"deconvolve/{reg}/{pad}", "sig", lambda s, a, ch, r=reg, p=pad: TF.spectral_deconvolve(s, a, apply_regularization=r, padding=p), pool="loud")
op("deconvolve/range", "sig", lambda s, a, ch: TF.spectral_deconvolve(s, a, start_stop_hz=[50, 300], padding=True, keep_original_length=True), pool="loud")
op("deconvolve/one", "sig", lambda s, a, ch: TF.spectral_deconvolve(s, ref()), pool="loud")
for ad in (True, False):
    for off in (0, 3):
        op(f"window_ir/{ad}/{off}", "ir", lambda s, a, ch, ad=ad, o=off: TF.window_ir(s, 40, ad, 0.6, offset_samples=o), sel=("ch", -1), pool="loud")
op("window_ir_tukey", "ir", lambda s, a, ch: TF.window_ir_tukey(s, 0.004, 0.02))
op("window_centered", "ir", lambda s, a, ch: TF.window_centered_ir(s, 30), sel=("ch", -1), pool="loud")
for m in TF.TransferFunctionType:
    op(f"tf/{m.name}", "sig", lambda s, a, ch, m=m: TF.compute_transfer_function(s, a, 16, m), pool="loud")
    op(f"tf-one/{m.name}", "sig", lambda s, a, ch, m=m: TF.compute_transfer_function(s, ref(), 16, m), pool="loud")
for t in (True, False):
    op(f"average_irs/{t}", "ir", lambda s, a, ch, t=t: TF.average_irs(s, t), sel=None, pool="loud")
op("min_phase_from_mag", "sig ir", lambda s, a, ch: TF.min_phase_from_mag(dsp.Spectrum.from_signal(fft(s)), FS, 64), pool="loud")
op("lin_phase_from_mag", "sig ir", lambda s, a, ch: TF.lin_phase_from_mag(dsp.Spectrum.from_signal(fft(s)), FS, 40.0, False), pool="loud")
op("lin_phase_from_mag/auto", "sig ir", lambda s, a, ch: TF.lin_phase_from_mag(dsp.Spectrum.from_signal(fft(s)), FS), pool="loud", sel=None)
for c in (True, False):
    op(f"min_phase_ir/{c}", "ir", lambda s, a, ch, c=c: TF.min_phase_ir(s, c), pool="loud")
    op(f"minimum_phase/{c}", "ir", lambda s, a, ch, c=c: TF.minimum_phase(s, c), sel=("all", -1), pool="loud")
    for rl in (True, False):
        op(f"group_delay/{c}/{rl}", "ir", lambda s, a, ch, c=c, rl=rl: TF.group_delay(s, c, 0, rl), sel=("all", -1), pool="loud")
        op(f"excess_gd/{c}/{rl}", "ir", lambda s, a, ch, c=c, rl=rl: TF.excess_group_delay(s, 0, rl, c), sel=("all", -1), pool="loud")
op("min_phase_ir/alpha", "ir", lambda s, a, ch: TF.min_phase_ir(s, alpha=0.9), pool="loud")
op("group_delay/smooth", "sig ir", lambda s, a, ch: TF.group_delay(s, True, 3), sel=("all", -1), pool="loud")
op("minimum_gd", "ir", lambda s, a, ch: TF.minimum_group_delay(s, 3), sel=("all", -1), pool="loud")
for lo in (True, False):
    for no in (None, "energy", "peak", 3.0):
        op(f"ir_dirac/{lo}/{no}", "ir", lambda s, a, ch, lo=lo, no=no: TF.combine_ir_with_dirac(s, 120.0, lo, 4, no), pool="loud", sel=None)
for ph in ("direct", "min"):
    op(f"ir_to_filter/{ph}", "ir", lambda s, a, ch, ph=ph: TF.filter_to_ir(TF.ir_to_filter(s, None, ph)), pool="loud")
op("ir_to_filter/one", "ir", lambda s, a, ch: TF.ir_to_filter(s, 0), pool="loud", sel=None)
op("fdw", "ir", lambda s, a, ch: TF.window_frequency_dependent(s, 5), pool="loud")
for c in (True, False):
    op(f"find_ir_latency/{c}", "ir", lambda s, a, ch, c=c: TF.find_ir_latency(s, c), sel=-1, pool="ir")
op("harmonics", "ir", lambda s, a, ch: TF.harmonics_from_chirp_ir(dsp.pad_trim(s.get_channels(0), 2000), [20, 400], 1.0, 3), sel=None, pool="loud")
op("thd", "ir", lambda s, a, ch: TF.harmonic_distortion_analysis(dsp.pad_trim(s.get_channels(0), 2000), [20, 400], 1.0, 3, generate_plot=False), sel=None, pool="ir")
op("thd/list", "ir", lambda s, a, ch: TF.harmonic_distortion_analysis([s.get_channels(0), a.get_channels(0)], generate_plot=False), sel=None, pool="loud")
op("trim_ir/ch", "ir", lambda s, a, ch: TF.trim_ir(s, 0, 0.01), sel=None, pool="ir")
op("trim_ir", "ir", lambda s, a, ch: TF.trim_ir(s, None, 0.01), sel=None, pool="ir")
for d in TF.SmoothingDomain:
    op(f"complex_smoothing/{d.name}", "ir", lambda s, a, ch, d=d: TF.complex_smoothing(fft(s), 3.0, d), pool="loud")

# ---------------------------------------------------------- transforms
op("cepstrum", "sig ir", lambda s, a, ch: TR.cepstrum(s), sel=-1, pool="loud")
op("cepstrum/real", "sig ir", lambda s, a, ch: TR.cepstrum(s, False), sel=-1, pool="loud")
op("from_cepstrum", "sig ir", lambda s, a, ch: TR.from_complex_cepstrum(TR.cepstrum(s), FS), pool="loud")
op("log_mel", "sig", lambda s, a, ch: TR.log_mel_spectrogram(stft(s), n_bands=4, range_hz=[50, 450], generate_plot=False), sel=("all", "all", -1), pool="loud")
op("log_mel/params", "sig", lambda s, a, ch: TR.log_mel_spectrogram(s, n_bands=4, range_hz=[50, 450], generate_plot=False, stft_parameters=dict(window_length_samples=32)), sel=("all", "all", -1), pool="loud")
op("mfcc", "sig", lambda s, a, ch: TR.mfcc(stft(s), mel_filters=MEL, generate_plot=False), sel=("all", "all", -1), pool="loud")
op("mfcc/params", "sig", lambda s, a, ch: TR.mfcc(s, mel_filters=MEL, generate_plot=False, stft_parameters=dict(window_length_samples=16)), sel=("all", "all", -1), pool="loud")
op("chroma", "sig", lambda s, a, ch: TR.chroma_stft(stft(s)), sel=("all", -1, -1))
for sq in (False, True):
    op(f"cwt/{sq}", "sig", lambda s, a, ch, sq=sq: TR.cwt(s, np.array([60.0, 100.0, 200.0]), TR.MorletWavelet(h=3.0, step=1e-2), synchrosqueezed=sq), sel=-1)
op("cwt/channel", "sig", lambda s, a, ch: TR.cwt(s, np.array([60.0, 100.0]), TR.MorletWavelet(h=3.0, step=1e-2), np.arange(len(ch))), sel=-1)
op("hilbert", "sig ir mb", lambda s, a, ch: TR.hilbert(s))
op("vqt", "sig", lambda s, a, ch: TR.vqt(dsp.pad_trim(s, 300), octaves=[1, 2], bins_per_octave=12), sel=("all", -1))
for f in (True, False):
    op(f"mid_side/{f}", "sig", lambda s, a, ch, f=f: TR.stereo_mid_side(s.get_channels([0, 0]), f), sel=None)
op("laguerre", "sig ir", lambda s, a, ch: TR.laguerre(dsp.pad_trim(s, 24), 0.3))
for sh in (True, False):
    op(f"warp/{sh}", "sig ir", lambda s, a, ch, sh=sh: TR.warp(dsp.pad_trim(s, 24), 0.3, sh), pool="loud")
op("warp/len", "sig ir", lambda s, a, ch: TR.warp(s, -0.3, False, 20), pool="loud")
for b in (True, False):
    op(f"lpc/{b}", "sig", lambda s, a, ch, b=b: TR.lpc(s, 4, 32, False, b, 16), sel=(-1, -1), pool="loud")
op("lpc/synth", "sig", lambda s, a, ch: TR.lpc(s, 4, 32, True), sel=None, pool="loud")
op("dft", "sig ir", lambda s, a, ch: TR.dft(s, np.array([10.0, 33.3, 250.0])), sel=-1)
for z in (True, False):
    op(f"via_filterbank/{z}", "sig", lambda s, a, ch, z=z: TR.spectrum_via_filterbank(s, np.array([60.0, 120.0, 240.0]), 0.5, order=2, zero_phase=z))

# ------------------------------------------------------ room acoustics
for m in RA.ReverbTime:
    op(f"reverb/{m.name}", "ir", lambda s, a, ch, m=m: RA.reverb_time(decay(s, ch), m), sel=(-1, -1), pool="decay")
op("reverb/no-trim", "ir", lambda s, a, ch: RA.reverb_time(decay(s, ch), automatic_trimming=False), sel=(-1, -1), pool="decay")
for d in RA.RoomAcousticsDescriptor:
    if d.name != "BassRatio":
        for t in (True, False):
            op(f"descriptors/{d.name}/{t}", "ir", lambda s, a, ch, d=d, t=t: RA.descriptors(decay(s, ch), d, t), sel=-1, pool="decay")
op("find_modes", "ir", lambda s, a, ch: RA.find_modes(s, [50, 200]), sel=None, pool="loud")
for k in (True, False):
    for le in (True, False):
        op(f"convolve_rir/{k}/{le}", "sig", lambda s, a, ch, k=k, le=le: RA.convolve_rir_on_signal(s, ref(), k, le), pool="loud")
op("convolve_rir/short", "sig", lambda s, a, ch: RA.convolve_rir_on_signal(s, dsp.pad_trim(ref(), 4), False), pool="loud")
op("find_ir_start", "ir", lambda s, a, ch: RA.find_ir_start(s), sel=-1)

# ----------------------------------------------------------- distances
SP = dict(window_length_samples=32)
for e in (True, False):
    op(f"log_spectral/{e}", "sig", lambda s, a, ch, e=e: DI.log_spectral(s, a, f_range_hz=[50, 400], energy_normalization=e, spectrum_parameters=SP), sel=-1, pool="loud")
    op(f"itakura/{e}", "sig", lambda s, a, ch, e=e: DI.itakura_saito(s, a, f_range_hz=[50, 400], energy_normalization=e, spectrum_parameters=SP), sel=-1, pool="loud")
op("snr", "sig", lambda s, a, ch: DI.snr(s, a), sel=-1, pool="loud")
op("si_sdr", "sig", lambda s, a, ch: DI.si_sdr(s, a), sel=-1, pool="loud")
op("si_sdr/one", "sig", lambda s, a, ch: DI.si_sdr(ref(), s), sel=-1, pool="loud")
op("fw_snr_seg", "sig", lambda s, a, ch: DI.fw_snr_seg(s, a, [50, 400]), sel=-1, pool="loud")
op("fw_snr_seg/one", "sig", lambda s, a, ch: DI.fw_snr_seg(ref(), s, [50, 400]), sel=-1, pool="loud")

# ------------------------------------------------------------- effects
def compressor(**kw):
    c = EF.Compressor(-20.0, 2.0, 8.0, 3.0, kw.pop("rel", True))
    c.set_advanced_parameters(**kw)
    return c


for rel in (True, False):
    for down in (True, False):
        op(f"compressor/{rel}/{down}", "sig ir mb", lambda s, a, ch, r=rel, d=down: compressor(rel=r, downward_compression=d, knee_factor_db=3.0).apply(s), pool="loud")
op("compressor/mix", "sig mb", lambda s, a, ch: compressor(mix_percent=40.0, pre_gain_db=3.0, post_gain_db=-2.0, automatic_make_up_gain=False).apply(s), pool="loud")
for d in EF.DistortionType:
    op(f"distortion/{d.name}", "sig ir mb", lambda s, a, ch, d=d: EF.Distortion(10.0, 0.0, d).apply(s), pool="loud")
op("tremolo", "sig ir mb", lambda s, a, ch: EF.Tremolo(0.7, EF.LFO(10.0)).apply(s))
op("chorus", "sig ir mb", lambda s, a, ch: EF.Chorus(2.0, 6.0, EF.LFO(10.0), 60.0).apply(s), pool="loud")
op("delay-effect", "sig ir mb", lambda s, a, ch: EF.DigitalDelay(9.0, 0.4).apply(s), pool="loud")
for ad in (True, False):
    op(f"denoise/{ad}", "sig", lambda s, a, ch, ad=ad: EF.SpectralSubtractor(ad, -12.0, 0.016).apply(s), pool="loud")


def len_of(s):
    return s.length_samples


def csm_diag(s):
    if s.number_of_channels == 1:
        # a matrix needs two channels; the diagonal does not depend on others
        s = dsp.append_signals([s, s])
        f, c = s.get_csm()
        return f, np.einsum("fii->fi", c)[:, :1]
    f, c = s.get_csm()
    return f, np.einsum("fii->fi", c)


def zi_blocks(f, s):
    n = s.length_samples // 2
    f.initialize_zi(s.number_of_channels)
    parts = [f.filter_signal(s.copy_with_new_time_data(s.time_data[a:b]), activate_zi=True).time_data for a, b in ((0, n), (n, None))]
    return s.copy_with_new_time_data(np.concatenate(parts))


def gamma():
    return FB.auditory_filters_gammatone([50, 400], 2.0, FS)


def qmf():
    return FB.qmf_crossover(dsp.Filter.fir_filter(11, FS / 4, dsp.FilterPassType.Lowpass, FS))


def ref():
    return dsp.Signal.from_time_data(R.seq(LEN, 77) * np.exp(-np.arange(LEN) / 20.0), FS, constrain_amplitude=False)


def decay(s, ch):
    """Long decays at 8 kHz built from the contents of the given signal."""
    return dsp.ImpulseResponse.from_time_data(np.stack([_decay(s.time_data[:, i]) for i in range(s.number_of_channels)], 1), 8000)


def _decay(x):
    n = 6000
    t = np.arange(n) / 8000.0
    rt = 0.2 + 0.1 * (abs(x[:8]).sum() % 1.0)
    y = np.tile(x / np.max(np.abs(x)), n // len(x) + 1)[:n] * 10 ** (-3 * t / rt)
    y[:40] = 0.0
    y[40] = 1.3
    return y + 1e-5 * np.tile(R.seq(97, 5), n // 97 + 1)[:n]


LEN = 64
MEL = np.abs(R.td(9, 5, 12)).T

# channel contents: name -> samples
_t = np.arange(LEN)
POOL = {
    "a": R.seq(LEN, 1),
    "b": np.roll(R.seq(LEN, 2) * np.exp(-_t / 9.0), 11) * 0.2,
    "z": np.zeros(LEN),
    "d": np.where(_t == 23, -0.7, 0.0) + 1e-3 * R.seq(LEN, 3),
    "e": np.exp(-_t / 15.0) * np.cos(0.9 * _t) * 0.9,
    "i": np.where(_t == 9, 0.8, 0.0) + np.where(_t > 9, np.exp(-(_t - 9) / 8.0), 0.0) * 0.3 * R.seq(LEN, 6),
}
POOLS = {"": "abz", "loud": "abd", "ir": "bdi", "decay": "ab"}


def make(kind, word, cplx=False, aux=False, n=None):
    x = np.stack([POOL[c] for c in word], axis=1)
    if aux:
        x = np.stack([np.roll(POOL[c], 3) * 0.5 + 0.1 * R.seq(LEN, 20 + ord(c)) for c in word], axis=1)
    if n:
        x = x[:n]
    if cplx:
        x = x + 1j * np.roll(x[::-1], 5, axis=0) * 0.7
    if kind == "sig":
        return dsp.Signal.from_time_data(x, FS, constrain_amplitude=False)
    if kind == "ir":
        return dsp.ImpulseResponse.from_time_data(x, FS, constrain_amplitude=False)
    g = np.linspace(1.0, 0.4, len(x))[:, None]
    return dsp.MultiBandSignal([dsp.Signal.from_time_data(v, FS, constrain_amplitude=False) for v in (x, x[::-1] * g, x * g)])
