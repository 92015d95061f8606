"""C11 crossovers and filter banks: every assignment of orders and
frequencies within the bounds, on impulses and generic multichannel inputs,
against textbook transfer functions built here, plus reconstruction."""

import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc import dsp as R
from mc.snap import pure

F = dsp.Filter
fb = dsp.filterbanks
P, S = dsp.FilterBankMode.Parallel, dsp.FilterBankMode.Summed
FS = 1000


def sig(x, fs=FS):
    return dsp.Signal.from_time_data(np.array(x), fs, constrain_amplitude=False)


def cx(s):
    d = s.time_data
    return d + 1j * s.time_data_imaginary if s.time_data_imaginary is not None else d


# ------------------------------------------------------------ LR reference
def butter_sections(order, f, fs):
    """Textbook Butterworth low- and highpass, bilinear transform with
    prewarping: list of (lp, hp, den) polynomials in z^-1."""
    g = np.tan(np.pi * f / fs)
    out = []
    if order % 2:
        m, p = np.array([1.0, -1.0]), np.array([1.0, 1.0]) * g
        out.append((p, m, m + p))
    for k in range(order // 2):
        r = 2 * np.cos(np.pi * (2 * k + (1 if order % 2 == 0 else 2)) / (2 * order))
        lp, hp, _, _, den = R.bilinear_svf(g, r)
        out.append((lp, hp, den))
    return out


def lr_sections(order, f, fs):
    order = int(order)
    if order % 2:
        return butter_sections(order, f, fs)
    sec = butter_sections(order // 2, f, fs) * 2
    if (order // 2) % 2:  # the highpass is inverted so that the sum is allpass
        lp, hp, den = sec[0]
        sec[0] = (lp, -hp, den)
    return sec


_IR = {}


def ir(order, f, fs, which, n, half=False):
    key = (order, f, fs, which, n, half)
    if key not in _IR:
        x = np.zeros(n)
        x[0] = 1.0
        sec = butter_sections(int(order) // (1 if order % 2 else 2), f, fs) if half else lr_sections(order, f, fs)
        for s in sec:
            x = R.lfilter_ref(s[which], s[2], x)
        _IR[key] = x
    return _IR[key]


def conv(h, x):
    return np.stack([np.convolve(h, x[:, c])[: len(x)] for c in range(x.shape[1])], axis=1)


def lr_ref(freqs, orders, x, fs=FS):
    pairs = sorted(zip(freqs, orders))
    n = len(x)
    bands = []
    for i, (f, o) in enumerate(pairs):
        b = conv(ir(o, f, fs, 0, n), x)
        x = conv(ir(o, f, fs, 1, n), x)
        for f2, o2 in pairs[i + 1 :]:
            b = conv(ir(o2, f2, fs, 0, n), b) + conv(ir(o2, f2, fs, 1, n), b)
        bands.append(b)
    return bands + [x]


def bands_of(mb):
    return [b.time_data for b in mb.bands]


def lr(ctx, freqs, orders, n, ch):
    bank = fb.linkwitz_riley_crossovers(list(freqs), list(orders), FS)
    true(bank.number_of_bands == len(freqs) + 1, "number of bands")
    eq(np.asarray(bank.freqs, float), np.sort(np.asarray(freqs, float)), "crossover frequencies sorted")
    edges = [0.0] + sorted(freqs) + [FS // 2]
    eq(bank.center_frequencies, [(a + b) / 2 for a, b in zip(edges[:-1], edges[1:])], "centre frequencies")
    x = R.td(n, ch, 2)
    s = sig(x)
    mb = pure(lambda s: bank.filter_signal(s, P), s)
    ref = lr_ref(freqs, orders, x)
    true(mb.number_of_bands == len(ref), "bands of the output")
    true(mb.sampling_rate_hz == FS and mb.number_of_channels == ch, "rate and channels")
    for i, (a, b) in enumerate(zip(bands_of(mb), ref)):
        eq(a, b, f"band {i}", rtol=1e-7, atol=1e-9)
    su = pure(lambda s: bank.filter_signal(s, S), s)
    eq(su.time_data, sum(ref), "sum of the bands", rtol=1e-7, atol=1e-9)
    eq(mb.collapse().time_data, sum(ref), "collapsed bands", rtol=1e-7, atol=1e-9)
    ctx.step()


def allpass(ctx, freqs, orders):
    """Nothing is lost: the summed impulse response has a white
    autocorrelation, i.e. unit magnitude at every frequency."""
    bank = fb.linkwitz_riley_crossovers(list(freqs), list(orders), FS)
    n = 2048
    h = bank.get_ir(n, S).time_data[:, 0]
    eq(np.abs(np.fft.rfft(h)), np.ones(n // 2 + 1), "magnitude of the sum", rtol=1e-7, atol=1e-7)
    mb = bank.get_ir(n, P)
    eq(sum(bands_of(mb))[:, 0], h, "bands sum up", atol=1e-12)
    H = np.array([np.abs(np.fft.rfft(b[:, 0])) for b in bands_of(mb)])
    f = np.fft.rfftfreq(n, 1 / FS)
    e = [0.0] + sorted(freqs) + [FS / 2]
    for i in range(len(H)):
        lo = f[(f >= e[i]) & (f <= e[i + 1])]
        if min(orders) < 4 or e[i + 1] - e[i] < 40:
            continue
        mid = lo[len(lo) // 2]
        k = int(np.argmin(np.abs(f - mid)))
        true(np.argmax(H[:, k]) == i, f"band {i} dominates its own range")
    ctx.step()


def zero_phase(ctx, freqs, orders, ch):
    bank = fb.linkwitz_riley_crossovers(list(freqs), list(orders), FS)
    n, m = 1024, 8
    x = np.zeros((n, ch))
    x[n // 2 : n // 2 + m] = R.td(m, ch, 4)
    s = sig(x)
    mb = pure(lambda s: bank.filter_signal(s, P, zero_phase=True), s)
    su = pure(lambda s: bank.filter_signal(s, S, zero_phase=True), s)
    eq(su.time_data, x, "zero-phase sum is the input", atol=1e-6)
    eq(sum(bands_of(mb)), x, "zero-phase bands sum to the input", atol=1e-6)
    # every band is its squared magnitude response
    f = np.fft.rfftfreq(n, 1 / FS)
    z = np.exp(-2j * np.pi * f / FS)
    rest = np.ones(len(f))
    pairs = sorted(zip(freqs, orders))
    X = np.fft.rfft(x, axis=0)
    for i in range(len(pairs) + 1):
        if i < len(pairs):
            fr, o = pairs[i]
            sec = butter_sections(int(o) // (1 if o % 2 else 2), fr, FS)
            lo, hi = np.ones(len(f)), np.ones(len(f))
            for lp, hp, den in sec:
                d = np.abs(np.polyval(den[::-1], z)) ** 2
                lo = lo * np.abs(np.polyval(lp[::-1], z)) ** 2 / d
                hi = hi * np.abs(np.polyval(hp[::-1], z)) ** 2 / d
        else:
            lo, hi = np.ones(len(f)), 0
        eq(np.fft.rfft(mb.bands[i].time_data, axis=0), X * (rest * lo)[:, None], f"zero-phase band {i}", atol=1e-5)
        rest = rest * hi
    ctx.step()


def lr_zi(ctx, freqs, orders, parts):
    """With kept states, what a block adds is the response of the bank to it:
    two streams that differ by d give outputs that differ by bank(d)."""
    n = sum(parts)
    x, d = R.td(n, 2, 1), R.td(n, 2, 6)

    def stream(v):
        bank = fb.linkwitz_riley_crossovers(list(freqs), list(orders), FS)
        out, i = [], 0
        for p in parts:
            mb = bank.filter_signal(sig(v[i : i + p]), P, activate_zi=True)
            out.append(np.stack(bands_of(mb), axis=-1))
            i += p
        return np.concatenate(out, axis=0)

    eq(stream(x + d) - stream(x), np.stack(lr_ref(freqs, orders, d), axis=-1), "difference of streams", rtol=1e-7, atol=1e-9)
    ctx.step()


def lr_reject(ctx):
    must_raise(lambda: fb.linkwitz_riley_crossovers([100.0, 600.0], [4, 4], FS), "above Nyquist")
    must_raise(lambda: fb.linkwitz_riley_crossovers([100.0, 200.0, 300.0], [4, 4], FS), "orders do not match")
    must_raise(lambda: fb.linkwitz_riley_crossovers([100.0], [6], FS), "unsupported order")
    b = fb.linkwitz_riley_crossovers([100.0], 4, FS)
    must_raise(lambda: b.filter_signal(sig(R.td(9, 1), 2000), P), "other rate")
    must_raise(lambda: b.filter_signal(sig(R.td(99, 1)), P, activate_zi=True, zero_phase=True), "zi and zero phase")
    ctx.step()


# -------------------------------------------------------- complementary FIR
def comp(ctx, L, base):
    if base == "gen":
        b = R.seq(L, 3)
    elif base == "neg":
        b = -np.abs(R.seq(L, 8)) - 0.01
    else:
        b = np.zeros(L)
        b[base] = 1.0
    f = F.from_ba(b.copy(), [1.0], FS)
    c = pure(lambda f: fb.complementary_fir_filter(f), f)
    got = np.asarray(c.ba[0]) + b
    true(c.sampling_rate_hz == FS, "rate")
    if L % 2:
        want = np.zeros(L)
        want[int(np.argmax(np.abs(b)))] = 1.0
        eq(got, want, "sum with the prototype")
    else:
        zero = np.zeros(L)
        zero[0] = 1.0
        other = fb.complementary_fir_filter(F.from_ba(zero, [1.0], FS))
        eq(got, np.asarray(other.ba[0]) + zero, "sum depends on the length alone")
        eq(got, got[::-1], "sum has linear phase", atol=1e-9)
        w = np.linspace(0, np.pi * max(0.0, 1 - 8.0 / L), 50)
        H = np.abs(np.exp(-1j * np.outer(w, np.arange(L))) @ got)
        if L >= 16:
            true(np.all(np.abs(H - 1) < 0.05), "sum is flat away from Nyquist")
    x = R.td(3 * L, 2, 1)
    y = f.filter_signal(sig(x)).time_data + c.filter_signal(sig(x)).time_data
    eq(y, conv(got, x), "signals of both add up")
    ctx.step()


# --------------------------------------------------------------------- QMF
def fir_proto(L, kind):
    if kind == "haar" or L == 1:
        return np.array([0.5, 0.5]) if L > 1 else np.array([0.7])
    b = R.seq(L, 2)
    if kind == "sym":
        b = b + b[::-1]
    return b


def qmf_fir(ctx, L, kind, down, n, ch):
    b = fir_proto(L, kind)
    L = len(b)
    q = pure(lambda f: fb.qmf_crossover(f), F.from_ba(b.copy(), [1.0], FS))
    h = (L - 1) // 2
    pad = 2 * L + 2
    x = np.zeros((n + 2 * pad + (n % 2), ch))
    x[pad : pad + n] = R.td(n, ch, 3)
    s = sig(x)
    mb = pure(lambda s: q.filter_signal(s, P, downsample=down), s)
    true(mb.sampling_rate_hz == (FS // 2 if down else FS), "rate of the bands")
    alt = b * (-1.0) ** np.arange(L)
    for i, hh in enumerate((b, alt)):
        full = np.stack([np.convolve(hh, x[:, c]) for c in range(ch)], axis=1)
        want = full[h :: 2][: -(-len(x) // 2)] if down else full[: len(x)]
        eq(mb.bands[i].time_data, want, f"band {i}")
    if down:
        r = pure(lambda m: q.reconstruct_signal(m, upsample=True), mb)
        shift = 2 * h
    else:
        r = pure(lambda m: q.reconstruct_signal(m, upsample=False), mb)
        shift = h  # a FIR filter used for resampling is delay-compensated
    T = np.convolve(b, b) - np.convolve(alt, alt)
    full = np.stack([np.convolve(T, x[:, c]) for c in range(ch)], axis=1)[shift : shift + len(x)]
    true(r.sampling_rate_hz == FS, "rate of the reconstruction")
    got = r.time_data[: len(x)]
    eq(got, full[: len(got)], "reconstruction", atol=1e-10)
    true(len(got) == len(x), "length of the reconstruction")
    if kind == "haar" and L > 1:
        d = 1
        want = np.zeros_like(x)
        want[d:] = x[:-d]
        eq(got, want, "perfect reconstruction with one sample of delay")
    ctx.step()


def qmf_iir(ctx, order, n, ch):
    """Half-band lowpass of odd order: the pair is power complementary and
    the reconstruction an allpass."""
    lp = F.iir_filter(order, FS / 4, dsp.FilterPassType.Lowpass, FS)
    q = pure(lambda f: fb.qmf_crossover(f), lp)
    x = R.td(n, ch, 3)
    sec = butter_sections(order, FS / 4, FS)
    low, high = x, x
    for a, b, d in sec:
        low = np.stack([R.lfilter_ref(a, d, low[:, c]) for c in range(ch)], axis=1)
        high = np.stack([R.lfilter_ref(b, d, high[:, c]) for c in range(ch)], axis=1)
    mb = pure(lambda s: q.filter_signal(s, P), sig(x))
    eq(mb.bands[0].time_data, low, "lowpass band", atol=1e-9)
    sgn = 1.0
    eq(mb.bands[1].time_data, sgn * high, "highpass band", atol=1e-9)
    r = q.reconstruct_signal(mb).time_data
    l2, h2 = low, high
    for a, b, d in sec:
        l2 = np.stack([R.lfilter_ref(a, d, l2[:, c]) for c in range(ch)], axis=1)
        h2 = np.stack([R.lfilter_ref(b, d, h2[:, c]) for c in range(ch)], axis=1)
    eq(r, l2 - h2, "reconstruction", atol=1e-9)
    N = 1024
    d = np.zeros((N, 1))
    d[0] = 1
    h = q.reconstruct_signal(q.filter_signal(sig(d), P)).time_data[:, 0]
    if order % 2:
        eq(np.abs(np.fft.rfft(h)), np.ones(N // 2 + 1), "allpass reconstruction", atol=1e-7)
    ctx.step()


def qmf_reject(ctx):
    q = fb.qmf_crossover(F.from_ba([0.5, 0.5], [1.0], FS))
    s3 = dsp.MultiBandSignal([sig(R.td(8, 1, k)) for k in range(3)])
    must_raise(lambda: q.reconstruct_signal(s3), "three bands")
    must_raise(lambda: q.filter_signal(sig(R.td(8, 1), 2000), P, downsample=True), "other rate")
    must_raise(lambda: q.filter_signal(sig(R.td(8, 1)), P, downsample=True, zero_phase=True), "zero phase with downsampling")
    ctx.step()


# ------------------------------------------------ fractional octave banks
def recon(ctx, rng, frac, overlap, slope, n, fs):
    bank = fb.reconstructing_fractional_octave_bands(list(rng), frac, overlap, slope, n, fs)
    f_m = dsp.tools.fractional_octave_frequencies(frac, list(rng))[1]
    true(bank.number_of_filters == int(np.sum(np.asarray(f_m) < fs / 2)), "one filter per band below Nyquist")
    h = np.array([np.asarray(f.ba[0]) for f in bank.filters])
    true(h.shape[1] == n, "length of the filters")
    tot = h.sum(axis=0)
    want = np.zeros(n)
    want[n // 2] = 0.5 * (1 - np.cos(2 * np.pi * (n // 2) / (n - 1)))
    eq(tot, want, "sum is a delayed impulse", atol=1e-9)
    for i, f in enumerate(np.asarray(f_m)[np.asarray(f_m) < fs / 2]):
        g = np.abs(np.exp(-2j * np.pi * np.arange(n) * f / fs) @ h.T)
        true(int(np.argmax(g)) == i, f"band {i} dominates at its centre frequency")
    x = R.td(40, 2, 1)
    xs = np.concatenate([x, np.zeros((n, 2))])
    out = bank.filter_signal(sig(xs, fs), S).time_data
    ex = np.zeros_like(xs)
    ex[n // 2 : n // 2 + 40] = x * want[n // 2]
    eq(out, ex, "summed output is the delayed input", atol=1e-9)
    ctx.step()


def resolved(rng, frac, overlap, n, fs):
    _, fm, (lo, hi) = dsp.tools.fractional_octave_frequencies(frac, list(rng), return_cutoff=True)
    m = fm < fs / 2
    k1, km, k2 = (np.round(n * np.asarray(v)[m] / fs).astype(int) for v in (lo, fm, hi))
    Pw = np.round(overlap / 2 * (k2 - km)).astype(int)
    lo_, hi_ = k1 - Pw, k1 + Pw
    if len(k1) < 2:
        return False
    if np.any(lo_[1:] < 0) or np.any(hi_[1:] > n // 2):
        return False
    if np.any(km[1:] <= km[:-1]) or np.any(lo_[2:] <= hi_[1:-1]):
        return False
    return bool(np.all(km > 0) and np.all(lo_[1:] > km[:-1]) and np.all(hi_[1:] < km[1:]))


def octaves(ctx, rng, frac, order, fs, rev):
    r = list(rng)[::-1] if rev else list(rng)
    keep = list(r)
    bank, fm, (lo, hi) = fb.fractional_octave_bands(r, frac, order, fs)
    true(r == keep, "range argument not modified")
    true(bank.number_of_filters == len(fm) == len(lo) == len(hi), "counts")
    true(np.all(np.diff(fm) > 0), "bands ascend")
    G = 10**0.3 if frac in (1, 3) else 2.0  # base ten for octaves and thirds
    eq(np.asarray(fm)[1:] / np.asarray(fm)[:-1], np.full(len(fm) - 1, G ** (1 / frac)), "ratio of centre frequencies", rtol=1e-6)
    eq(lo, np.asarray(fm) * G ** (-1 / 2 / frac), "lower edges", rtol=2e-3)
    eq(hi, np.asarray(fm) * G ** (1 / 2 / frac), "upper edges", rtol=2e-3)
    for i, f in enumerate(bank.filters):
        ed = [lo[i], hi[i]] if hi[i] <= fs // 2 else [lo[i]]
        ed = [e for e in ed if e < fs / 2]
        H = np.abs(f.get_transfer_function(np.array(ed + [min(fm[i], 0.45 * fs)])))
        eq(H[: len(ed)], np.full(len(ed), 0.5**0.5), f"-3 dB at the edges of band {i}", rtol=1e-4)
        if fm[i] < 0.2 * fs and len(ed) == 2:
            eq(H[-1], 1.0, f"0 dB at the centre of band {i}", atol=1e-2)
    ctx.step()


# ------------------------------------------------------------- gammatone
def gammatone(ctx, rng, res, fs, ch):
    bank = fb.auditory_filters_gammatone(list(rng), res, fs)
    fc = np.asarray(dsp.tools.erb_frequencies(list(rng), res))
    true(bank.number_of_filters == len(fc), "one filter per ERB frequency")
    n = 1500
    erb = 24.7 + fc / 9.265
    b = erb / (np.pi * 720 * 2**-6 / 36)
    k = np.arange(n)
    coef = np.exp(-2 * np.pi * b / fs + 2j * np.pi * fc / fs)
    irs = np.array([2 * (1 - abs(c)) ** 4 * (k + 1) * (k + 2) * (k + 3) / 6 * c**k for c in coef])
    m = 40
    x = np.zeros((n, ch))
    x[5 : 5 + m] = R.td(m, ch, 2)
    s = sig(x, fs)
    mb = pure(lambda s: bank.filter_signal(s, P), s)
    true(mb.number_of_bands == len(fc), "bands")
    ref = [np.stack([np.convolve(h, x[:, c])[:n] for c in range(ch)], axis=1) for h in irs]
    for i in range(len(fc)):
        eq(cx(mb.bands[i]), ref[i], f"band {i}", rtol=1e-6, atol=1e-8)
    rec = pure(lambda m: bank.reconstruct(m), mb)
    true(rec.time_data.shape == x.shape and rec.sampling_rate_hz == fs, "shape of the reconstruction")
    # delays, phases and gains of the inverse bank, from their definition
    D = int(np.round(0.004 * fs))
    peak = np.argmax(np.abs(irs[:, : D + 1]), axis=1)
    slope = np.array([h[i + 1] - h[i - 1] for h, i in zip(irs, peak)])
    ph = 1j * np.abs(slope) / slope
    w = 2 * np.pi * fc / fs

    def resp(sign):
        z = np.exp(sign * 1j * w)[:, None]
        return (1 - coef[None, :] / z) ** -4 * (2 * (1 - np.abs(coef)) ** 4) * ph * z ** -(D - peak)

    Hm = (resp(1) + np.conj(resp(-1))) / 2
    g = np.ones(len(fc))
    for _ in range(100):
        g = g / np.abs(Hm @ g)
    want = sum(np.roll(np.real(np.roll(r, D - q, axis=0) * p) * gg, 0, axis=0) for r, q, p, gg in zip(ref, peak, ph, g))
    eq(rec.time_data, want, "reconstruction", rtol=1e-5, atol=1e-6)
    if res <= 1 and len(fc) > 4:
        # an impulse comes back as an impulse, 4 ms later
        imp = np.zeros((n, 1))
        imp[0] = 1
        h = bank.reconstruct(bank.filter_signal(sig(imp, fs), P)).time_data[:, 0]
        true(abs(int(np.argmax(np.abs(h))) - D) <= 1, "impulse comes back 4 ms later")
        at = np.abs(np.exp(-2j * np.pi * np.outer(fc, np.arange(n)) / fs) @ h)
        eq(at, np.ones(len(fc)), "unit gain at the centre frequencies", atol=2e-2)
    ctx.step()


# ------------------------------------------------------------------ parts
FREQS = [[120.0], [90.0, 250.0], [60.0, 180.0, 330.0], [250.0], [80.0, 100.0], [50.0, 140.0, 390.0, 450.0]]


def part_lr(ctx, k):
    orders = (1, 2, 3, 4, 5, 8, 12) if ctx.thorough else (1, 2, 3, 4, 8)
    fs = FREQS[k]
    if len(fs) > 3:
        orders = (1, 2, 4) if not ctx.thorough else (1, 2, 3, 4)
    n = 24
    for o in itertools.product(orders, repeat=len(fs)):
        ctx.case(f"lr/{fs}/{o}", lr, ctx, fs, o, n, 2)
        ctx.case(f"allpass/{fs}/{o}", allpass, ctx, fs, o)
        if len(fs) < 3 or ctx.thorough:
            ctx.case(f"zero/{fs}/{o}", zero_phase, ctx, fs, o, 2)
            for parts in ((7, 6), (2, 5, 3)):
                ctx.case(f"zi/{fs}/{o}/{parts}", lr_zi, ctx, fs, o, parts)
    # order of the arguments does not matter, orders follow their frequency
    o = tuple(orders[i % len(orders)] for i in range(len(fs)))
    for p in itertools.permutations(range(len(fs))):
        ctx.case(f"perm/{fs}/{p}", lr, ctx, [fs[i] for i in p], [o[i] for i in p], n, 1)
    for ch in (1, 2, 3):
        for m in (3, 4, 5, 17):
            ctx.case(f"shape/{fs}/{m}x{ch}", lr, ctx, fs, [4] * len(fs), m, ch)


def part_fir(ctx):
    ctx.case("lr-reject", lr_reject, ctx)
    ctx.case("qmf-reject", qmf_reject, ctx)
    for L in range(1, 41 if ctx.thorough else 22):
        for base in ["gen", "neg"] + list(range(L)):
            ctx.case(f"comp/{L}/{base}", comp, ctx, L, base)
    for L in range(1, 13 if ctx.thorough else 9):
        for kind in ("gen", "sym", "haar"):
            for down in (True, False):
                for n in (4, 5, 6, 9):
                    for ch in (1, 2):
                        ctx.case(f"qmf/{L}/{kind}/{down}/{n}x{ch}", qmf_fir, ctx, L, kind, down, n, ch)
    for order in range(1, 8):
        for n, ch in ((20, 1), (13, 2)):
            ctx.case(f"qmf-iir/{order}/{n}x{ch}", qmf_iir, ctx, order, n, ch)


def part_oct(ctx):
    for rng in ((63, 16000), (125, 4000), (250, 2000)):
        for frac in (1, 3, 6) if ctx.thorough else (1, 3):
            for ov in (0.0, 0.3, 0.5, 1.0):
                for slope in (0, 1, 2, 3):
                    for n in (256, 512, 1024, 2048, 4096, 8192) if ctx.thorough else (256, 1024, 4096):
                        for fs in (44100, 48000):
                            if resolved(rng, frac, ov, n, fs):
                                ctx.case(f"recon/{rng}/{frac}/{ov}/{slope}/{n}/{fs}", recon, ctx, rng, frac, ov, slope, n, fs)
    for rng in ((31.5, 16000.0), (125.0, 4000.0), (500.0, 20000.0), (1000.0, 1000.0)):
        for frac in (1, 2, 3, 6):
            for order in (1, 2, 3, 4, 6):
                for fs in (44100, 48000):
                    for rev in (False, True):
                        if order > 4 and frac > 3:
                            continue
                        ctx.case(f"oct/{rng}/{frac}/{order}/{fs}/{rev}", octaves, ctx, rng, frac, order, fs, rev)


def part_gamma(ctx, rng, res):
    for fs in (8000, 16000) if ctx.thorough else (8000,):
        for ch in (1, 2, 3) if ctx.thorough or res == 1 else (2,):
            ctx.case(f"gamma/{rng}/{res}/{fs}/{ch}", gammatone, ctx, rng, res, fs, ch)


def _dispatch(ctx, kind, *a):
    dict(l=part_lr, f=part_fir, o=part_oct, g=part_gamma)[kind](ctx, *a)


def run(ctx):
    ctx.bound(
        linkwitz_riley="1-4 crossovers, every assignment of orders 1,2,3,4,8 (thorough: also 5,12), every permutation of the arguments, 1-3 channels",
        zero_phase="1-2 crossovers (thorough: up to 4)",
        states="2 block sequences per assignment of 1-2 crossovers",
        complementary=f"FIR lengths 1-{40 if ctx.thorough else 21}, every unit impulse and two generic prototypes",
        qmf="FIR lengths 1-8 (thorough 12), generic, symmetric and Haar, with and without downsampling; IIR half-bands of order 1-7",
        octave="3 ranges x fractions x overlaps x slopes x lengths x rates with resolved bands; Butterworth banks of 4 ranges, fractions 1-6, orders 1-6",
        gammatone="3 ranges, 3 resolutions, 1-3 channels, 8 kHz (thorough: also 16 kHz)",
    )
    ctx.assume("reconstructing banks are decided where the FFT length resolves every band edge")
    ctx.parallel(_dispatch, [("l", k) for k in (5, 2, 1, 4, 0, 3)]
        + [("f",), ("o",)] + [("g", r, q) for r in ((100, 1000), (200, 3000), (20, 3900)) for q in (0.5, 1, 2)])
