T = "dsptoolbox/transforms/"
FB = "dsptoolbox/filterbanks/"
RA = "dsptoolbox/room_acoustics/"
TFN = "dsptoolbox/transfer_functions/"
BF = "dsptoolbox/beamforming/"
EF = "dsptoolbox/effects/"

prop(
    "C04", "API calls do not change or share the data handed to them",
    "No library function, constructor or method that returns a result changes the signals, impulse responses, multiband signals, filters, "
    "filter banks, spectra, arrays, lists or dictionaries it received (data, settings, filter states and order included), unless it is a method documented to "
    "modify its own object. A returned result shares no writable data with the library objects it was computed from: writing into it, or using its modifying methods, leaves them, and what later calls return, as they were. (Containers hold the very filters and signals given to them, and a signal may hold the very array it was built from.)",
    ["inputs", "configurations", "programs"],
    "Every public callable in every mode, on real, complex, multichannel and multiband arguments.",
    "Tests look at return values, never at the arguments after the call.",
    ["dsptoolbox/standard", "dsptoolbox/transforms", "dsptoolbox/effects", "dsptoolbox/room_acoustics", "dsptoolbox/beamforming", "dsptoolbox/filterbanks", "dsptoolbox/classes"],
    [("copy() / copy_with_new_time_data", C + "signal.py")],
    ["digest of the full object graph of all arguments before and after"],
)
prop(
    "C05", "Channel and data operations act like column operations on the samples",
    "Adding, removing, swapping, selecting, summing, merging and appending channels, replacing the time data and copying a Signal or ImpulseResponse do to its "
    "real or complex samples what the same operation does to the columns of a matrix. This holds for every sequence of them and keeps sampling rate, settings and type. "
    "Invalid requests (wrong index, order, rate or shape) are rejected and leave the object unchanged.",
    ["histories", "inputs"],
    "Every sequence of channel operations up to the bound on real and complex signals of several shapes.",
    "Tests try single operations on one real signal and mostly assert the channel count.",
    [C + "signal.py", C + "_multichannel_data.py", C + "impulse_response.py", S + "appending.py"],
    [("MultichannelData operations", C + "_multichannel_data.py"), ("time_data setter", C + "signal.py")],
    ["time_data", "time_data_imaginary", "number_of_channels"],
)
prop(
    "C06", "Multiband signals keep their bands aligned with a list-of-bands model",
    "Adding, removing, swapping, copying, collapsing and selecting bands or channels of a MultiBandSignal does to it what the operation does to the list of its "
    "bands, for every sequence of operations, with same or different sampling rates, on real and complex bands. Sampling rate, length, channel count and the stacked time data always describe the bands held. Mismatching bands are rejected.",
    ["histories"],
    "Every operation sequence up to the bound.",
    "Tests call each method once on one bank output.",
    [C + "multibandsignal.py"],
    [("bands list and its checks", C + "multibandsignal.py")],
    ["MultiBandSignal.*"],
)
prop(
    "C07", "Filter banks apply exactly the filters they hold, in every mode",
    "For any list of filters, a FilterBank outputs per band each filter's response in parallel mode, their cascade in sequential mode and their sum in summed mode, and keeps doing so after any sequence of adding, "
    "removing and swapping filters. Impulse responses and transfer functions of a filter, a bank or a crossover are those of the filtering they perform.",
    ["histories", "configurations"],
    "Every sequence of list operations, every mode, every filter representation, downsampled or not.",
    "Tests use one or two filters and do not compare modes, transfer functions and impulse responses with each other.",
    [C + "filterbank.py", C + "filter.py", C + "filter_helpers.py"],
    [("mode dispatch", C + "filter_helpers.py"), ("get_transfer_function / get_ir", C + "filterbank.py")],
    ["FilterBank.filter_signal", "FilterBank.get_ir", "FilterBank.get_transfer_function"],
)
prop(
    "C08", "Time-structure operations move samples and change nothing else",
    "Padding, trimming, changing length, trimming to a time selection, delaying by integer samples, appending, merging, fading, trimming with a level threshold and "
    "normalising produce the samples that exact index arithmetic and the stated gain prescribe, on real and complex, single- and multichannel, multiband signals, for every length and amount. "
    "Everything outside the affected range is unchanged.",
    ["inputs", "configurations"],
    "Every length, amount and option in a range that includes zero, the exact length and beyond.",
    "Tests use one length and compare only the resulting length.",
    [S + "pad_trim_methods.py", S + "latency_delay.py", S + "gain_and_level.py", S + "appending.py", S + "other.py"],
    [("_pad_trim", H + "other.py"), ("_fade", S + "_standard_backend.py")],
    ["pad_trim", "trim_with_time_selection", "trim_with_level_threshold", "delay", "append_signals", "fade", "normalize"],
)
prop(
    "C09", "Framing and STFT followed by reconstruction return the signal",
    "Splitting a signal into frames places every sample at the frames its index prescribes and overlap-add reconstruction with any window and step returns the original samples. "
    "The spectrogram of each frame is the scaled DFT of the windowed frame and istft of a spectrogram returns the original signal, for every length, window, overlap, padding and scaling whose frames cover the signal.",
    ["inputs", "configurations"],
    "Every (length, window length, step, padding, window, scaling) in the bound, on a basis of inputs.",
    "Tests invert one STFT with default settings.",
    [S + "_framed_signal_representation.py", S + "_spectral_methods.py", T + "transforms.py", H + "other.py"],
    [("_get_framed_signal / _reconstruct_framed_signal", S + "_framed_signal_representation.py"), ("istft", T + "transforms.py")],
    ["get_spectrogram", "transforms.istft"],
)
prop(
    "C10", "Polyphase filtering and resampling equal filter-then-decimate",
    "Filtering with downsampling (or upsampling) in a Filter, FIR in polyphase form or IIR, returns the samples of filtering at full rate and keeping every n-th sample (or of zero-stuffing and filtering). "
    "This holds for every signal length, filter length and factor (FIR polyphase output is the delay-compensated one). Resampling keeps duration and channel structure, and matched up- and downsampling returns band-limited signals.",
    ["inputs", "configurations"],
    "Every (signal length, filter length, factor, channel count) in the bound on a complete basis of inputs.",
    "Tests run one even length and only check that nothing raises.",
    [H + "polyphase.py", C + "filter_helpers.py", S + "resampling.py"],
    [("_polyphase_decomposition / _filter_and_downsample / _filter_and_upsample", C + "filter_helpers.py")],
    ["Filter.filter_and_resample_signal", "resample"],
)
prop(
    "C11", "Crossovers and filter banks split signals without losing any of it",
    "Summing the bands of a Linkwitz-Riley bank returns an allpass-filtered copy of the input, complementary FIR banks and QMF crossovers reconstruct a delayed copy of it, and a gammatone bank its own approximation, for every valid "
    "set of crossover frequencies, orders and channel counts. Bands stay aligned in the order of their frequencies.",
    ["configurations", "inputs"],
    "Every crossover set, order and length in the bound.",
    "Tests build one bank and do not compare the sum with the input.",
    [FB + "_filterbank.py", FB + "filterbanks.py"],
    [("allpass compensation of lower bands", FB + "_filterbank.py")],
    ["LRFilterBank", "complementary_fir_filter", "QMFCrossover", "GammaToneFilterBank"],
)
prop(
    "C12", "Saving and loading returns what was saved",
    "Saving a Signal, ImpulseResponse, MultiBandSignal, Filter, FilterBank or Spectrum and loading it again gives an object with the same type, samples, settings and behaviour. Audio files return the "
    "samples within the resolution of the bit depth, for every channel count, length and depth. Saving changes neither the object nor files other than the named one.",
    ["histories", "configurations"],
    "Every class, format, bit depth and path form; save/load/modify sequences.",
    "Tests save one object per class and seldom compare the loaded content.",
    ["dsptoolbox/audio_io/audio_io.py", C + "signal.py", C + "filter.py", C + "filterbank.py", C + "multibandsignal.py", C + "spectrum.py"],
    [("save_* methods and load_pkl_object", "dsptoolbox/audio_io/audio_io.py"), ("_check_format_in_path", H + "other.py")],
    ["save_signal", "save_filter", "save_filterbank", "load_pkl_object", "Signal.from_file"],
)
prop(
    "C13", "Spectrum objects behave like a table over frequency",
    "A Spectrum keeps its data, frequency vector and coherence aligned through every sequence of channel operations, trimming, resampling and arithmetic, and its magnitude, power and channel accessors agree. "
    "Interpolated values lie on the interpolant of the selected domain, reproduce the stored values at the stored frequencies and follow the selected edge rule outside. Conversion to and from signals is lossless up to zero-padding and the reported amplitude factor.",
    ["histories", "configurations"],
    "Every operation sequence and every combination of domain, scheme, edge handling and output.",
    "Tests sample one combination per option.",
    [C + "spectrum.py"],
    [("get_interpolated_spectrum", C + "spectrum.py")],
    ["Spectrum.*"],
)
prop(
    "C14", "Amplitude constraint: peak at most 1 and the applied factor is reported",
    "Whenever constrain_amplitude is set, the peak of the real and imaginary time data is at most 1 after construction, replacement of data, channel operations and activation of the option. The samples are the given ones times one common, reported factor, "
    "which is 1 when no scaling was needed; without the option samples are never scaled and no given array is modified.",
    ["histories", "inputs"],
    "Every history of constraint toggles and data changes over data around the limit, real, complex and integer.",
    "Tests check one clipped signal.",
    [C + "signal.py", C + "impulse_response.py"],
    [("time_data setter", C + "signal.py")],
    ["time_data", "amplitude_scale_factor"],
)
prop(
    "C15", "Spectra and cross-spectra follow their stated estimator and scaling",
    "For each method, window, overlap, averaging and scaling, the spectrum is the stated estimate (FFT, or averaged periodograms): density scalings integrate to the mean square of the (windowed) signal, spectrum scalings show the RMS of a sinusoid, "
    "amplitude scalings are the square roots of power scalings. Cross-spectral matrices are hermitian, have those spectra on their diagonal and the averaged cross-products elsewhere.",
    ["configurations", "inputs"],
    "Every (method, scaling, window, overlap, average, length parity, channel count).",
    "Tests compare two Welch settings with SciPy.",
    [S + "_spectral_methods.py", H + "spectrum_utilities.py", S + "enums.py", C + "signal.py"],
    [("_welch / _csm_welch / _csm_fft", S + "_spectral_methods.py"), ("SpectrumScaling", S + "enums.py")],
    ["get_spectrum", "get_csm", "tools.scale_spectrum"],
)
prop(
    "C16", "All representations of a filter describe the same system",
    "Conversions between b/a, second-order-section and zero-pole-gain forms, combined filters, designed biquads and FIR/IIR designs, and derived lattice, state-space, Kautz and parallel forms keep the transfer function. Order, stability flags, group delay and responses of a Filter are those of that transfer function.",
    ["configurations", "programs"],
    "Every representation chain and filter design in the bound.",
    "Tests check single conversions of one filter.",
    [C + "filter.py", C + "filter_helpers.py"],
    [("setters of ba, sos, zpk", C + "filter.py")],
    ["Filter.get_coefficients", "Filter.get_transfer_function", "Filter.get_group_delay"],
)
prop(
    "C17", "Measured latency is the delay that was applied",
    "For a signal delayed by any integer (or fractional) amount against its reference, per channel, positive or negative, the latency estimators return that amount for that channel. Fractional delays keep the band-limited signal and shift every channel by the requested time.",
    ["inputs", "configurations"],
    "Every delay in range for every channel, order and estimator.",
    "Tests check one delay on one or two channels.",
    [S + "latency_delay.py", H + "latency.py"],
    [("_fractional_latency / _latency", H + "latency.py")],
    ["latency", "fractional_delay", "delay"],
)
prop(
    "C18", "Effects keep their contract on every input",
    "Every effect returns a signal of the input's structure with finite samples for any finite input including silence, and gives the same output on each call. It keeps channels and bands independent and is transparent where its parameters are neutral. "
    "Distortion, compressor, tremolo, chorus, delay and spectral subtraction do to every sample what their parameters state: stated curve, level, mix, attack and release, causal delays, kept peak or RMS. LFO waveforms and musical rhythms follow their formula. "
    "After any sequence of parameter changes an effect behaves like one built with the resulting parameters, those not named being unchanged.",
    ["inputs", "configurations", "histories"],
    "Every effect and parameter combination on inputs including silence and extremes.",
    "Tests only run each effect once.",
    [EF + "effects.py", EF + "_effects.py"],
    [("AudioEffect.apply", EF + "effects.py")],
    ["AudioEffect.apply"],
)
prop(
    "C19", "Generated test signals have the requested shape, level and timing",
    "Each generator returns exactly the requested length, rate and channel count with padding as silence, fades only inside the active part and the stated peak; sinusoids, sweeps, dirac and oscillators follow their defining formula sample by sample.",
    ["configurations"],
    "Every combination of length, padding, fade, channels and type in the bound.",
    "Tests check one setting each.",
    ["dsptoolbox/generators/generators.py"],
    [("generators", "dsptoolbox/generators/generators.py")],
    ["generators.*"],
)
prop(
    "C20", "Sample-format conversion is exact on every code",
    "Converting samples between integer and floating formats maps every code to the value the two formats define: lossless conversions return every original code, narrowing ones round to a neighbouring code, and full scale and zero map to full scale and zero.",
    ["inputs"],
    "All codes of 8 and 16 bit formats and the boundary codes of the others, for every pair of formats.",
    "Tests convert one vector.",
    ["dsptoolbox/tools.py"],
    [("convert_sample_representation", "dsptoolbox/tools.py")],
    ["tools.convert_sample_representation"],
)
prop(
    "C21", "Deconvolution and transfer-function estimates recover the system",
    "Spectral deconvolution, H1/H2/H3 estimation and related operations applied to a signal and its response through a known system return that system's response on the excited band, for every channel, "
    "method and length; windowing, averaging, complex smoothing, minimum-phase and trimming of impulse responses follow their stated formula per channel, whether or not the optional Numba is installed.",
    ["configurations", "inputs"],
    "Every method and option in the bound on known systems.",
    "Tests check shapes or single examples.",
    [TFN + "transfer_functions.py", TFN + "_transfer_functions.py"],
    [("spectral_deconvolve, compute_transfer_function", TFN + "transfer_functions.py")],
    ["transfer_functions.*"],
)
prop(
    "C22", "Room-acoustic descriptors follow the decay they are given",
    "For exponentially decaying impulse responses, reverberation times of every mode are the decay's (also per channel, per band and for given starts), D50, C80 and centre time are the energy ratios of their definitions from the start of the response on, and the bass ratio is that of the T20 of the octave bands; the start of a response is the last sample below the threshold; convolve_rir_on_signal is convolution with the requested level and length; find_modes finds the resonances of well separated decaying modes. Shoebox simulations sum every image source at its geometric delay and level, with each wall's own absorption, also reciprocally; the optional bandpass keeps 20 Hz to 90 % of the Nyquist frequency and the optional noise tail leaves reflections in place; room volumes, Sabine relations, modes, densities, mixing times, detailed absorption and analytic transfer function follow their formulas.",
    ["inputs", "configurations"],
    "Every decay, mode and room geometry in the bound.",
    "Tests run on one measured impulse response.",
    [RA + "room_acoustics.py", RA + "_room_acoustics.py"],
    [("reverb_time / descriptors / ShoeboxRoom", RA + "room_acoustics.py")],
    ["reverb_time", "descriptors", "generate_synthetic_rir"],
)
prop(
    "C23", "Distance measures are zero on equals and follow their definition",
    "Log-spectral and Itakura-Saito distance, SNR, scale-invariant SDR and frequency-weighted segmental SNR equal their defining formula for every pair of channels, spectrum method, scaling, range and option, in channel order. Equal signals have the ideal value, distances are never negative, normalised and scale-invariant measures do not react to gain, and the settings of the signals do not take part. Silent frames do not spoil the segmental SNR.",
    ["inputs", "configurations"],
    "Every measure and option on several pairs.",
    "Tests compare single values.",
    ["dsptoolbox/distances/distances.py", "dsptoolbox/distances/_distances.py"],
    [("distances", "dsptoolbox/distances/distances.py")],
    ["distances.*"],
)
prop(
    "C24", "Beamforming steers to, and maps peak at, the simulated sources",
    "Grids and arrays (also of a single point) enumerate, measure and reshape their points consistently with their coordinates, also after new coordinates; the four steering formulations are those of the reference paper; for a source at any grid point, every beamformer's map is its defining expression of the cross-spectral matrix in the frequency band, peaks at the source (true location) and shows its level (inverse, true power); a band's map is the integral of its bins' maps and does not depend on the signal's spectrum scaling but for a factor; delay-and-sum in time refocuses every point; sources are delayed by their distance, divided by one plus it, and mixed with their relative levels (normalising, if at all, only the result).",
    ["configurations", "inputs"],
    "Every grid point, formulation and algorithm in the bound.",
    "Tests run one source.",
    [BF + "beamforming.py", BF + "_beamforming.py"],
    [("steering vectors", BF + "_beamforming.py"), ("mix_sources_on_array", BF + "beamforming.py")],
    ["Grid.*", "BeamformerDASFrequency"],
)
prop(
    "C25", "Level, gain and index helpers are exact inverses and closed forms",
    "Decibel, gain, normalisation, RMS, crest factor, frequency-scale and musical conversions, interpolation, index and fractional-octave helpers agree with their closed forms, invert each other and keep shapes for every scalar, vector or matrix input.",
    ["inputs"],
    "Every helper over a grid of inputs including edges.",
    "Tests compare one value each.",
    ["dsptoolbox/tools.py", H + "gain_and_level.py", H + "frequency_conversion.py", H + "other.py", H + "smoothing.py", S + "gain_and_level.py"],
    [("to_db / from_db, mapping functions", H + "gain_and_level.py")],
    ["tools.*", "normalize", "rms", "apply_gain"],
)
prop(
    "C26", "Multichannel and multiband processing equals channel-by-channel processing",
    "Every operation that accepts several channels or bands gives each channel (or band) the result it would give that channel (or band) alone, in the same order, unless documented to combine channels (or, for imaginary parts, to ignore them); permuting the input channels permutes the results.",
    ["inputs", "configurations", "programs"],
    "Every public operation on every channel count, order and band structure in the bound.",
    "Tests use single-channel signals or compare nothing across channels.",
    ["dsptoolbox/standard", "dsptoolbox/transforms", "dsptoolbox/transfer_functions", "dsptoolbox/room_acoustics", "dsptoolbox/effects"],
    [("vectorised processing over axis 1", "dsptoolbox/standard")],
    ["all functions taking Signal or MultiBandSignal"],
)
prop(
    "C27", "Transforms equal their defining sums and invert where promised",
    "The DFT at arbitrary frequencies, cepstra, Hilbert transform, mid-side, linear prediction (Yule-Walker and Burg), warping and Laguerre transforms (also with Bark and ERB factors and of filters), mel filters, mel spectrogram, MFCC, chroma, wavelet and synchrosqueezed scalograms and spectra by filter banks equal their defining formula for every input length, parameter and scaling in use, with or without Numba. Constant-Q coefficients show a tone at its bin, with its level and the stated bandwidth. Each offered inverse returns the input. Waterfall plots draw the levels of the selected channel.",
    ["inputs", "configurations"],
    "Every transform, length parity and parameter in the bound on a basis of inputs.",
    "Tests run each transform once.",
    [T + "transforms.py", T + "_transforms.py"],
    [("transforms", T + "transforms.py")],
    ["transforms.*"],
)
prop(
    "C28", "Calibration gives every channel the sound pressure of its calibration recording",
    "For every calibration recording (file, tuple or signal; one or several channels; time-domain or 1-kHz spectral evaluation) and every history of added channels, changed parameters and uses, each channel or band is multiplied by the pressure of the given level over the RMS value of its own recording, is marked as calibrated and not constrained, and neither the recording nor the input changes.",
    ["histories", "inputs"],
    "Every sequence of uses and changes up to a depth against closed-form factors.",
    "Tests only run it.",
    ["dsptoolbox/classes/calibration_data.py"],
    [("CalibrationData.calibrate_signal", "dsptoolbox/classes/calibration_data.py")],
    ["CalibrationData"],
)
prop(
    "C29", "Audio I/O plays and records the requested samples on the requested channels",
    "For every assignment of signal channels to outputs (in the given order), duration, normalisation and device, playing hands exactly the trimmed and (jointly, to the given peak) normalised samples to those outputs at the signal's rate; recording returns the samples of the given inputs with the right length and rate; device, rate, latency and block-size defaults are those last set, and rejected requests play and change nothing.",
    ["inputs", "histories"],
    "Every channel assignment and every sequence of settings on a simulated sound card.",
    "Tests need hardware and are manual.",
    ["dsptoolbox/audio_io/audio_io.py"],
    [("play, record, play_and_record, set_device", "dsptoolbox/audio_io/audio_io.py")],
    ["what reaches the physical channels of a simulated card"],
)
prop(
    "C30", "FIR designers realise the magnitude, group delay or linear phase asked for",
    "For every target, length and parameter set, the designed FIR filter (as a filter and as an impulse response) has the target magnitude and the phase that integrates the target group delay (plus the delay increase): constant whole-sample delays give pure delays, linearizers in series with their system give a linear phase with the announced delay, trimming keeps the first part, and the result depends only on the last parameters set.",
    ["inputs", "configurations", "histories"],
    "Every combination of parameters and every sequence of settings in the bound.",
    "Tests look at a single design without judging it.",
    ["dsptoolbox/classes/group_delay_designer_phase_linearizer.py", H + "spectrum_utilities.py"],
    [("FirDesigner, GroupDelayDesigner, PhaseLinearizer", "dsptoolbox/classes/group_delay_designer_phase_linearizer.py")],
    ["get_filter", "get_filter_as_ir"],
)
prop(
    "C31", "Plots show the data of the object in the stated units",
    "For every plotting method and combination of its options (range, normalisation, smoothing, unwrapping, latency removal, dynamic range, channel, mode) and every spectrum method and scaling, the lines and images drawn are the reported data on the reported axis: levels in dB with 20 log for amplitudes and 10 log for powers (re 20 µPa when calibrated), normalised to the stated value of the stated channel, one line per channel or band, limited to the range; plotting changes no object.",
    ["inputs", "configurations"],
    "Every combination of options; matplotlib's artists are read back and compared with the data.",
    "Tests only call the plots without looking at them.",
    ["dsptoolbox/plots/plots.py", "dsptoolbox/classes/plots.py", "dsptoolbox/classes/signal.py", "dsptoolbox/classes/impulse_response.py", "dsptoolbox/classes/filterbank.py", H + "spectrum_utilities.py"],
    [("plot_* methods", "dsptoolbox/classes/signal.py"), ("general_plot and others", "dsptoolbox/plots/plots.py"), ("_get_normalized_spectrum", H + "spectrum_utilities.py")],
    ["lines, images and limits of the returned axes"],
)
