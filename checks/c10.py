"""C10 filtering with a change of sampling rate: every signal length, filter
length and factor on a complete basis of inputs, against convolution at the
higher rate; resampling against an own anti-aliasing interpolator."""

import itertools
from fractions import Fraction

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc import dsp as R
from mc.snap import pure

F = dsp.Filter
SOS = np.array([[0.3, -0.2, 0.45, 1.0, -0.3, 0.35], [0.5, 0.25, 0.1, 1.0, 0.2, -0.15]])
ZPK = ([0.5 + 0.2j, 0.5 - 0.2j, -0.7], [0.3 + 0.4j, 0.3 - 0.4j, 0.2], 0.6)


def sig(x, fs, cls=dsp.Signal):
    return cls.from_time_data(np.array(x), fs, constrain_amplitude=False)


def cx(s):
    d = s.time_data
    return d + 1j * s.time_data_imaginary if s.time_data_imaginary is not None else d


def lf(b, a, x):
    if np.iscomplexobj(x):
        return R.lfilter_ref(b, a, x.real) + 1j * R.lfilter_ref(b, a, x.imag)
    return R.lfilter_ref(b, a, x)


def at(full, k):
    return full[k] if 0 <= k < len(full) else 0.0


def stuff(x, u):
    y = np.zeros(len(x) * u, dtype=x.dtype)
    y[::u] = x * u
    return y


def full_conv(x, b):
    return lf(b, [1.0], np.concatenate([x, np.zeros(len(b) - 1, x.dtype)]))


def fir_down(x, b, d):
    f = full_conv(x, b)
    h = (len(b) - 1) // 2
    return np.array([at(f, k * d + h) for k in range(-(-len(x) // d))])


def fir_up(x, b, u):
    f = full_conv(stuff(x, u), b)
    h = (len(b) - 1) // 2
    return np.array([at(f, k + h) for k in range(len(x) * u)])


def basis(n, ch):
    yield "gen", R.td(n, ch, 1)
    for i in range(n):
        for c in range(ch):
            d = np.zeros((n, ch))
            d[i, c] = 1.0
            yield f"d{i}.{c}", d
    yield "cplx", R.td(n, ch, 3, True)


def cols(fn, x):
    return np.stack([fn(x[:, c]) for c in range(x.shape[1])], axis=1)


def convert(ctx, f, x, fs, new, want, cls=dsp.Signal):
    s = sig(x, fs, cls)
    y = pure(lambda f, s: f.filter_and_resample_signal(s, new), f, s)
    if want.shape[0] < want.shape[1]:
        return
    eq(cx(y), want, "output")
    same(y.sampling_rate_hz, new, "sampling rate")
    same(type(y), cls, "type")
    ctx.step()
    ctx.outcome(cx(y).tobytes())


def fir(ctx, lb, fac, n, ch):
    b = R.seq(lb, 7) + 0.5
    for name, x in basis(n, ch):
        f = F.from_ba(b.copy(), [1.0], 1200 * fac)
        convert(ctx, f, x, 1200 * fac, 1200, cols(lambda v: fir_down(v, b, fac), x))
        f = F.from_ba(b.copy(), [1.0], 1200 * fac)
        convert(ctx, f, x, 1200, 1200 * fac, cols(lambda v: fir_up(v, b, fac), x))


def iirs():
    yield "ba2", [([0.3, -0.2, 0.45], [1.0, -0.3, 0.35])], lambda fs: F.from_ba([0.3, -0.2, 0.45], [1.0, -0.3, 0.35], fs)
    yield "ba1", [([0.3, -0.2, 0.45], [2.0, -0.6])], lambda fs: F.from_ba([0.3, -0.2, 0.45], [2.0, -0.6], fs)
    yield "sos2", [(s[:3], s[3:]) for s in SOS], lambda fs: F.from_sos(SOS.copy(), fs)
    yield "zpk3", [(np.real(np.poly(ZPK[0])) * ZPK[2], np.real(np.poly(ZPK[1])))], lambda fs: F.from_zpk(
        np.array(ZPK[0]), np.array(ZPK[1]), ZPK[2], fs
    )


def iir(ctx, name, sections, make, fac, n, ch):
    def run(v):
        for b, a in sections:
            v = lf(b, a, v)
        return v

    for bn, x in basis(n, ch):
        convert(ctx, make(1200 * fac), x, 1200 * fac, 1200, cols(lambda v: run(v)[::fac], x))
        if fac > 1:
            convert(ctx, make(1200 * fac), x, 1200, 1200 * fac, cols(lambda v: run(stuff(v, fac)), x))
    # the same object filters both ways and at full rate afterwards
    f = make(1200 * fac)
    x = R.td(n, ch, 9)
    f.filter_and_resample_signal(sig(x, 1200 * fac), 1200)
    if fac > 1:
        f.filter_and_resample_signal(sig(x, 1200), 1200 * fac)
    eq(cx(f.filter_signal(sig(x, 1200 * fac))), cols(run, x), "full rate afterwards")


def rejects(ctx):
    f = F.from_ba([1.0, 0.5], [1.0], 1200)
    x = R.td(9, 1)
    for fs, new in ((1200, 800), (1200, 1800), (1200, 900), (1000, 1500)):
        must_raise(lambda: f.filter_and_resample_signal(sig(x, fs), new), f"{fs}->{new}")
    for fs, new in ((2400, 1200), (800, 400), (600, 2400), (300, 600)):
        must_raise(lambda: f.filter_and_resample_signal(sig(x, fs), new), f"{fs}->{new} with filter at 1200")


# ---------------------------------------------------------------- resample
def kaiser_fir(u, d):
    m = max(u, d)
    h = 10 * m
    k = np.arange(-h, h + 1)
    w = np.i0(5.0 * np.sqrt(1 - (k / h) ** 2)) / np.i0(5.0)
    c = np.sinc(k / m) * w
    return c / np.sum(c)


def resample_ref(x, u, d):
    b = kaiser_fir(u, d)
    h = (len(b) - 1) // 2
    n = len(x)
    out = []
    for k in range(-(-n * u // d)):
        j = np.arange(n)
        t = k * d + h - j * u
        ok = (t >= 0) & (t < len(b))
        out.append(u * np.sum(x[ok] * b[t[ok]]))
    return np.array(out)


def resample(ctx, u, d, n, ch):
    fs, new = 100 * d, 100 * u
    for bn, x in basis(n, ch) if n <= 6 else list(basis(n, ch))[:: max(1, n // 3)]:
        want = cols(lambda v: resample_ref(v, u, d), x)
        if want.shape[0] < ch:
            continue
        for resc, cls in ((False, dsp.Signal), (True, dsp.ImpulseResponse)):
            s = sig(x, fs, cls)
            y = pure(lambda s: dsp.resample(s, new, resc), s)
            eq(cx(y), want * (d / u if resc and u != d else 1.0) if u != d else x, "resampled", rtol=1e-7)
            same(y.sampling_rate_hz, new, "rate")
            same(type(y), cls, "type")
            ctx.step()
            ctx.outcome(cx(y).tobytes())


def roundtrip(ctx, u, n, f0):
    t = np.arange(n) / 1000.0
    x = np.stack([np.cos(2 * np.pi * f0 * t), np.sin(2 * np.pi * f0 * t + 0.3)], axis=1)
    s = sig(x, 1000)
    y = dsp.resample(dsp.resample(s, 1000 * u), 1000)
    same(y.length_samples, n, "length")
    k = slice(25, n - 25)
    eq(y.time_data[k], x[k], "interior after up- and downsampling", rtol=0, atol=5e-3)
    z = dsp.resample(s, 1000 * u)
    tt = np.arange(n * u) / (1000.0 * u)
    w = np.cos(2 * np.pi * f0 * tt)
    k = slice(25 * u, (n - 25) * u)
    eq(z.time_data[k, 0], w[k], "interior after upsampling", rtol=0, atol=5e-3)
    ctx.step(2)


# --------------------------------------------------------- resample_filter
def rfilter(ctx, name, make, fs, new):
    f = make(fs)
    g = pure(lambda f: dsp.resample_filter(f, new), f)
    same(g.sampling_rate_hz, new, "rate")
    w1 = np.linspace(0.0, 0.98 * np.pi, 40)
    ana = 2 * fs * np.tan(w1 / 2)
    w2 = 2 * np.arctan(ana / (2 * new))
    eq(
        g.get_transfer_function(w2 / 2 / np.pi * new),
        f.get_transfer_function(w1 / 2 / np.pi * fs),
        "response on the warped axis",
        rtol=1e-6,
        atol=1e-8,
    )
    ctx.step()


def filters_for_resampling():
    for order in (1, 2, 3, 4):
        for tp in ("Lowpass", "Highpass"):
            yield f"butter{order}{tp}", lambda fs, o=order, tp=tp: F.iir_filter(o, 100.0, getattr(dsp.FilterPassType, tp), fs)
    yield "bandpass", lambda fs: F.iir_filter(2, [60.0, 200.0], dsp.FilterPassType.Bandpass, fs)
    for e in ("Peaking", "Lowpass", "Highpass", "Lowshelf", "Highshelf", "Notch", "Allpass"):
        yield e, lambda fs, e=e: F.biquad(getattr(dsp.BiquadEqType, e), 120.0, 4.0, 0.8, fs)
    yield "fir2", lambda fs: F.from_ba([0.5, 0.5], [1.0], fs)
    yield "fir3", lambda fs: F.from_ba([0.4, 0.2, 0.3], [1.0], fs)
    yield "fir3n", lambda fs: F.from_ba(np.convolve([1.0, 1.0], [0.6, -0.2]), [1.0], fs)
    yield "allpole2", lambda fs: F.from_ba([0.5], [1.0, -0.3, 0.2], fs)
    yield "mixed", lambda fs: F.from_ba([0.5, 0.5], [1.0, -0.3, 0.2, 0.1], fs)
    yield "sos2", lambda fs: F.from_sos(SOS.copy(), fs)
    yield "zpk3", lambda fs: F.from_zpk(np.array(ZPK[0]), np.array(ZPK[1]), ZPK[2], fs)


def part_fir(ctx, fac, ch):
    LB, N = (14, 16) if ctx.thorough else (10, 11)
    for lb in range(1, LB + 1):
        for n in range(ch, N + 1):
            ctx.case(f"fir/{fac}/{lb}/{n}x{ch}", fir, ctx, lb, fac, n, ch)


def part_iir(ctx, fac):
    N = 14 if ctx.thorough else 10
    for name, sec, make in iirs():
        for n in range(1, N + 1):
            for ch in (1, 2):
                if n >= ch:
                    ctx.case(f"iir/{name}/{fac}/{n}x{ch}", iir, ctx, name, sec, make, fac, n, ch)


def part_resample(ctx, u, d):
    N = 30 if ctx.thorough else 14
    for n in range(1, N + 1):
        for ch in (1, 2):
            if n >= ch:
                ctx.case(f"resample/{u}:{d}/{n}x{ch}", resample, ctx, u, d, n, ch)


def part_misc(ctx):
    ctx.case("reject", rejects, ctx)
    for u in (2, 3, 4, 5):
        for n in (90, 101):
            for f0 in (0.0, 50.0, 200.0, 350.0):
                ctx.case(f"roundtrip/{u}/{n}/{f0}", roundtrip, ctx, u, n, f0)
    for name, make in filters_for_resampling():
        for fs, new in ((1000, 1500), (2000, 1000), (1000, 1000), (1000, 4000)):
            ctx.case(f"resample-filter/{name}/{fs}->{new}", rfilter, ctx, name, make, fs, new)


def _dispatch(ctx, kind, *a):
    dict(f=part_fir, i=part_iir, r=part_resample, m=part_misc)[kind](ctx, *a)


def run(ctx):
    K = 7 if ctx.thorough else 5
    ctx.bound(
        fir=f"factors 1-{K}, filter lengths 1-{14 if ctx.thorough else 10}, signal lengths 1-{16 if ctx.thorough else 11}, 1-2 channels, full basis, both directions",
        iir="b/a, second-order sections, zpk; same factors",
        resample=f"ratios u/d with u, d in 1-{K}, lengths 1-{30 if ctx.thorough else 14}",
        resample_filter="19 filters, 4 rate pairs, 40 frequencies",
    )
    ctx.assume("signals with fewer samples than channels are excluded: the library reads them transposed")
    parts = [("f", k, ch) for k in range(K, 0, -1) for ch in (1, 2)]
    parts += [("i", k) for k in range(1, K + 1)]
    parts += [("r", u, d) for u in range(1, K + 1) for d in range(1, K + 1) if Fraction(u, d).denominator == d]
    parts += [("m",)]
    ctx.parallel(_dispatch, parts)
