"""C16 representations of a filter: breadth-first exploration of every chain of
coefficient conversions, for every filter of an enumerated family, against the
difference equation and the rational function of the original coefficients;
every design function against the closed form of its analog prototype."""

import itertools as it
from math import factorial
import warnings

import numpy as np
from scipy.signal import get_window

import dsptoolbox as dsp
from dsptoolbox import filterbanks as fb
from dsptoolbox.filterbanks import (
    FIRFilter,
    IIRFilter,
    KautzFilter,
    LatticeLadderFilter,
    ParallelFilter,
    StateSpaceFilter,
)
from mc.core import eq, must_raise, true
from mc import dsp as R
from mc.snap import pure

FS = 1000
F = dsp.Filter
CT, PT, DM, BQ = dsp.FilterCoefficientsType, dsp.FilterPassType, dsp.IirDesignMethod, dsp.BiquadEqType
GRID = np.array([0.0, 0.7, 3, 11, 40, 77, 123, 180, 250, 261, 333, 400, 451, 490, 499.5, 500])
X = R.td(11, 2, 3)


def arr(*x):
    return np.array(x, float)


def H_ba(b, a, f=GRID, fs=FS):
    return R.filter_response(b, a, f, fs)


def gd_ba(b, a, f, fs=FS):
    """Group delay in samples from its definition -d(phase)/dw."""
    def one(c):
        n = np.arange(len(c))
        E = np.exp(-2j * np.pi * np.outer(f, n) / fs)
        return E @ (n * c), E @ c
    (nb, db), (na, da) = one(np.asarray(b, float)), one(np.asarray(a, float))
    ok = (np.abs(db) > 1e-3 * np.sum(np.abs(b))) & (np.abs(da) > 1e-3 * np.sum(np.abs(a)))
    with np.errstate(all="ignore"):
        return np.real(nb / db) - np.real(na / da), ok


def degree(c):
    nz = np.nonzero(np.abs(c) > 1e-12 * np.max(np.abs(c)))[0]
    return int(nz[-1])


def describe(f, b, a, tol=1e-6, fs=FS):
    """All views a Filter gives of itself against b/a."""
    b, a = np.asarray(b, float), np.asarray(a, float)
    sc = max(1e-9, float(np.max(np.abs(H_ba(b, a)))))
    f = pure(lambda f: [f][0], f)
    H = pure(lambda f: f.get_transfer_function(GRID), f)
    eq(H, H_ba(b, a), "transfer function", rtol=tol, atol=tol * sc)
    h = R.lfilter_ref(b, a, np.eye(1, 24)[0])
    hs = max(1e-9, float(np.max(np.abs(h))))
    ir = pure(lambda f: f.get_ir(24), f)
    eq(ir.time_data[:, 0], h, "impulse response", rtol=tol, atol=tol * hs)
    true(isinstance(ir, dsp.ImpulseResponse) and ir.sampling_rate_hz == fs, "type of the impulse response")
    s = dsp.Signal.from_time_data(X.copy(), fs, False)
    y = pure(lambda f, s: f.filter_signal(s), f, s)
    for c in range(2):
        eq(y.time_data[:, c], R.lfilter_ref(b, a, X[:, c]), "filtered signal", rtol=tol, atol=tol * hs)
    fr = GRID[1:-1]
    g, ok = gd_ba(b, a, fr)
    got = pure(lambda f: f.get_group_delay(fr, False), f)
    eq(got[ok], g[ok], "group delay", rtol=1e-3, atol=1e-3)
    eq(pure(lambda f: f.get_group_delay(fr, True), f) * fs, got, "group delay in seconds", rtol=1e-9, atol=1e-9)
    true(f.is_fir != f.is_iir, "either FIR or IIR")
    true(not (f.is_fir and degree(a) > 0), "an IIR filter is not called FIR")
    true(f.order >= max(degree(b), degree(a)), "order covers the degree")
    true(len(f) == f.order + 1, "length")
    m = f.metadata
    true(m["order"] == f.order and m["sampling_rate_hz"] == fs, "metadata")
    true(m["filter_type"] == ("iir" if f.is_iir else "fir"), "filter type in the metadata")
    true(m["has_sos"] == f.has_sos and m["has_zpk"] == f.has_zpk, "available forms in the metadata")


def convert(f, how):
    c = f.get_coefficients(how)
    if how == CT.Ba:
        return F.from_ba(*c, f.sampling_rate_hz)
    if how == CT.Sos:
        return F.from_sos(c, f.sampling_rate_hz)
    return F.from_zpk(*c, f.sampling_rate_hz)


def chains(ctx, mk, b, a, depth, tol=1e-6):
    """Every word of conversions."""
    lead = np.nonzero(np.asarray(b))[0][0] > 0
    level = [("", mk())]
    describe(level[0][1], b, a, tol)
    for _ in range(depth):
        nxt = []
        for w, f in level:
            for how in (CT.Ba, CT.Sos, CT.Zpk):
                if how == CT.Zpk and lead:
                    continue
                g = pure(lambda f: convert(f, how), f)
                describe(g, b, a, tol)
                ctx.state(("chain", w + how.name[0], tuple(b), tuple(a)))
                ctx.step()
                nxt.append((w + how.name[0], g))
        level = nxt


AS = [(1,), (2,), (1, 0, 0), (1, -0.5), (2, 0.6, 0.25), (1, 0, 0.49), (1, -0.9, 0.2, 0.1), (1, 0, 0.3, -0.2, 0.1)]
VALS = (0, 0.5, -1)


def family(thorough):
    for n in (1, 2, 3):
        for b in it.product(VALS, repeat=n):
            if any(b):
                yield from ((b, a) for a in AS)
    if thorough:
        for b in it.product(VALS, repeat=4):
            if any(b):
                yield from ((b, a) for a in AS)


def derived(ctx, b, a):
    """Lattice-ladder, state-space, direct-form and section lists."""
    b, a = arr(*b), arr(*a)
    n = 14
    x = R.td(n, 2, 6)
    ref = np.stack([R.lfilter_ref(b, a, x[:, c]) for c in range(2)], axis=1)
    f = F.from_ba(b, a, FS)

    def drive(filters, name):
        for q in filters:
            q.set_n_channels(2)
        y = np.zeros((n, 2))
        for i in range(n):
            for c in range(2):
                v = x[i, c]
                for q in filters:
                    v = q.process_sample(v, c)
                y[i, c] = v
        eq(y, ref, name, rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(ref))))
        ctx.step()

    drive([StateSpaceFilter.from_filter(f)], "state-space form")
    drive(StateSpaceFilter.from_filter_as_sos_list(f), "list of state-space sections")
    sosf = F.from_sos(f.get_coefficients(CT.Sos), FS)
    drive([StateSpaceFilter.from_filter(sosf)], "state-space form of the sections")
    drive([LatticeLadderFilter.from_filter(sosf)], "lattice form of the sections")
    drive([IIRFilter.from_filter(sosf)], "direct form of the sections")
    if f.is_iir:
        drive([IIRFilter.from_filter(f)], "direct form")
        lat = LatticeLadderFilter.from_filter(f)
        drive([lat], "lattice-ladder form")
    else:
        drive([FIRFilter.from_filter(f)], "FIR form")
        ks, c = [], b / b[0] if b[0] else None
        if c is None:
            return
        while len(c) > 1:
            ks.append(c[-1])
            if abs(ks[-1]) >= 1 - 1e-9:
                break
            c = ((c - ks[-1] * c[::-1]) / (1 - ks[-1] ** 2))[:-1]
        if ks and max(abs(k) for k in ks) >= 1 - 1e-9:
            return
        lat = LatticeLadderFilter.from_filter(f)
        drive([lat], "lattice form")
    s = dsp.Signal.from_time_data(x.copy(), FS, False)
    lat.set_n_channels(2)
    eq(lat.filter_signal(s).time_data, ref, "lattice form on a signal", rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(ref))))
    ctx.step()


def rep_part(ctx, k, n):
    depth = 3
    for i, (b, a) in enumerate(family(ctx.thorough)):
        if i % n != k:
            continue
        d = depth if len(b) <= 2 or ctx.thorough else 2
        nm = f"b={b} a={a}"
        ctx.case("chain/" + nm, lambda b=b, a=a, d=d: chains(ctx, lambda: F.from_ba(arr(*b), arr(*a), FS), b, a, d))
        ctx.case("derived/" + nm, lambda b=b, a=a: derived(ctx, b, a))


# ------------------------------------------------------ sections and zpk input
SECS = [
    (1, 0.5, 0.25, 1, -0.3, 0.4),
    (0.5, -1, 0.2, 1, 0.5, 0),
    (2, 0, 0, 1, 0, 0),
    (0.7, 0.7, 0, 1, -0.6, 0),
    (0, 0.4, 0.1, 1, 0.2, 0.1),
    (0, 0, 1, 1, 0, 0),
]
ZPKS = [
    ([], [0.5], 2.0),
    ([0.3], [0.5], -1.0),
    ([0.3, -0.4], [], 0.5),
    ([1j, -1j], [0.5 + 0.3j, 0.5 - 0.3j], 0.7),
    ([], [0.5 + 0.3j, 0.5 - 0.3j, 0.2], 0.7),
    ([-1, -1, -1], [0.1, 0.6 + 0.2j, 0.6 - 0.2j], 0.3),
    ([1, -1, 0.5], [0.9], 1.5),
]


def others_part(ctx):
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for secs in it.product(SECS, repeat=n):
            sos = arr(*secs)
            b, a = R.polymul(*[s[:3] for s in sos]), R.polymul(*[s[3:] for s in sos])
            ctx.case(f"sos/{secs}", lambda sos=sos, b=b, a=a, n=n: chains(ctx, lambda: F.from_sos(sos.copy(), FS), b, a, 3 if n == 1 else 2))
    for z, p, k in ZPKS:
        b, a = np.atleast_1d(np.real(k * np.poly(z))), np.atleast_1d(np.real(np.poly(p)))
        ctx.case(f"zpk/{z}{p}{k}", lambda z=z, p=p, k=k, b=b, a=a: chains(ctx, lambda: F.from_zpk(np.array(z), np.array(p), k, FS), b, a, 3))

    def zdelay():
        f = F.from_ba([0, 0, 1.0], [1.0, -0.5], FS)
        describe(convert(f, CT.Zpk), [0, 0, 1.0], [1.0, -0.5])

    ctx.case("zpk of a delayed filter", zdelay)

    # mixed kinds are rejected
    def rejects():
        must_raise(lambda: F({CT.Ba: [[1], [1]], CT.Sos: arr(SECS[0])}, FS), "two kinds of coefficients")
        must_raise(lambda: F({}, FS), "no coefficients")
        must_raise(lambda: F.from_ba([1], [1], 44.1), "non-integer rate")
        must_raise(lambda: F.from_sos(np.ones((2, 5)), FS), "malformed sections")
        must_raise(lambda: F.from_ba([1], [1, 0.5], FS).get_coefficients("ba"), "unknown form")
        must_raise(lambda: F.from_ba([1], [1], FS).get_transfer_function(arr(10, 501)), "above nyquist")
        must_raise(lambda: F.from_ba([1], [1], FS).get_transfer_function(np.ones((2, 2))), "matrix of frequencies")
        ctx.step()

    ctx.case("rejected", rejects)


# ------------------------------------------------------------------- merging
MERGE = {
    "fir1": ((0.5,), (1,)),
    "fir3": ((0.5, -0.3, 0.2), (1,)),
    "fir2": ((0, 1.0), (1,)),
    "iir1": ((0.5, 0.2), (1, -0.5)),
    "iir2": ((1, 0.3, -0.4), (1, 0.2, 0.3)),
    "iir4": ((1, 0.3, -0.4, 0.2, 0.1), (1, 0.2, 0.3, 0.05, 0.1)),
}


def merge_part(ctx):
    def go(names, form):
        fs = []
        for n in names:
            f = F.from_ba(*[arr(*v) for v in MERGE[n]], FS)
            if form == "sos" and f.is_iir:
                f = convert(f, CT.Sos)
            fs.append(f)
        kinds = {f.is_iir for f in fs}
        for v in (list(fs), dsp.FilterBank(list(fs))):
            if len(kinds) > 1:
                must_raise(lambda: dsp.merge_filters(v), "mixed kinds")
                continue
            m = pure(lambda v: dsp.merge_filters(v), v)
            describe(m, R.polymul(*[MERGE[n][0] for n in names]), R.polymul(*[MERGE[n][1] for n in names]))
            true(m.is_iir == kinds.copy().pop(), "kind of the merged filter")
            ctx.step()

    for n in (2, 3, 4) if ctx.thorough else (2, 3):
        for names in it.product(MERGE, repeat=n):
            if n > 2 and len({x[:3] for x in names}) > 1:
                continue
            for form in ("ba", "sos"):
                ctx.case(f"merge/{'-'.join(names)}/{form}", go, names, form)

    def rej():
        f = F.from_ba([1], [1], FS)
        must_raise(lambda: dsp.merge_filters([f]), "a single filter")
        must_raise(lambda: dsp.merge_filters([f, F.from_ba([1], [1], 2 * FS)]), "rates")
        ctx.step()

    ctx.case("merge/rejected", rej)


# ------------------------------------------------------------------- biquads
def analog(t, A, Q):
    """Numerator and denominator of the analog prototype, descending powers."""
    G = A * A  # amplitude gain of the non-shelving types
    r = np.sqrt(A)
    d = arr(1, 1 / Q, 1)
    return {
        "Lowpass": (G * arr(0, 0, 1), d),
        "Highpass": (G * arr(1, 0, 0), d),
        "BandpassSkirt": (G * arr(0, 1, 0), d),
        "BandpassPeak": (G * arr(0, 1 / Q, 0), d),
        "Notch": (G * arr(1, 0, 1), d),
        "Allpass": (G * arr(1, -1 / Q, 1), d),
        "Peaking": (arr(1, A / Q, 1), arr(1, 1 / (A * Q), 1)),
        "Lowshelf": (A * arr(1, r / Q, A), arr(A, r / Q, 1)),
        "Highshelf": (A * arr(A, r / Q, 1), arr(1, r / Q, A)),
        "LowpassFirstOrder": (G * arr(0, 0, 1), arr(0, 1, 1)),
        "HighpassFirstOrder": (G * arr(0, 1, 0), arr(0, 1, 1)),
        "AllpassFirstOrder": (G * arr(0, -1, 1), arr(0, 1, 1)),
        "Inverter": (-G * arr(0, 0, 1), arr(0, 0, 1)),
    }[t]


def biquads_part(ctx):
    gains = (-24, -6, 0, 3, 12)
    qs = (0.2, 0.5, 1 / np.sqrt(2), 1, 5)
    fc = (1, 20, 100, 250, 400, 490)
    if ctx.thorough:
        gains, qs, fc = (-40, -24, -12, -6, -1, 0, 1, 3, 12, 20, 40), (0.1, 0.2, 0.5, 1 / np.sqrt(2), 1, 2, 5, 20), (1, 5, 20, 50, 100, 200, 250, 300, 400, 450, 490, 499)

    def go(t, f0, q):
        for g in gains:
            A = 10 ** (g / 40)
            f = F.biquad(t, f0, g, q, FS)
            num, den = analog(t.name, A, q)
            w = GRID[:-1]
            s = 1j * np.tan(np.pi * w / FS) / np.tan(np.pi * f0 / FS)
            ref = np.polyval(num, s) / np.polyval(den, s)
            sc = max(1, float(np.max(np.abs(ref))))
            got = f.get_transfer_function(w)
            eq(got, ref, f"response of {t.name} gain {g}", rtol=1e-7, atol=1e-9 * sc)
            true(f.sampling_rate_hz == FS and f.is_iir == (t.name != "Inverter"), "rate and kind")
            z, p, k = f.get_coefficients(CT.Zpk)
            true(np.all(np.abs(p) < 1), "stable")
            ctx.step()
        describe(f, *f.get_coefficients(CT.Ba), tol=1e-5)

    for t in BQ:
        for f0 in fc:
            for q in qs:
                ctx.case(f"biquad/{t.name} f={f0} q={q:.2f}", go, t, f0, q)


# --------------------------------------------------------------- IIR designs
def proto_mag2(method, N, x, rp, rs):
    """Squared magnitude of the lowpass prototype at normalised frequency x."""
    def cheb(N, x):
        x = np.asarray(x, float)
        with np.errstate(all="ignore"):
            return np.where(np.abs(x) <= 1, np.cos(N * np.arccos(np.clip(x, -1, 1))), np.cosh(N * np.arccosh(np.maximum(np.abs(x), 1))))
    with np.errstate(all="ignore"):
        if method == DM.Butterworth:
            return 1 / (1 + x ** (2 * N))
        if method == DM.Chebyshev1:
            e2 = 10 ** (rp / 10) - 1
            return 1 / (1 + e2 * cheb(N, x) ** 2)
        e2 = 1 / (10 ** (rs / 10) - 1)
        t = cheb(N, 1 / x) ** 2
        return np.where(x == 0, 1.0, e2 * t / (1 + e2 * t))


def iir_part(ctx, method):
    orders = range(1, 13) if ctx.thorough else range(1, 8)

    def go(N, pt, fr):
        rp, rs = 1.5, 35.0
        f = F.iir_filter(N, fr if np.ndim(fr) == 0 else list(fr), pt, FS, method, rp, rs)
        order = N * (2 if pt in (PT.Bandpass, PT.Bandstop) else 1)
        true(f.order == order, f"order {f.order} instead of {order}")
        z, p, k = f.get_coefficients(CT.Zpk)
        true(np.all(np.abs(p) < 1) and len(p) == order, "poles inside the unit circle")
        true(f.is_iir and f.sampling_rate_hz == FS, "kind")
        w = np.arange(1.0, 500.0, 3.5)
        om = np.tan(np.pi * w / FS)
        if pt == PT.Lowpass:
            x = om / np.tan(np.pi * fr / FS)
        elif pt == PT.Highpass:
            x = np.tan(np.pi * fr / FS) / om
        else:
            a, b = np.tan(np.pi * np.asarray(fr) / FS)
            x = np.abs((om**2 - a * b) / (om * (b - a)))
            if pt == PT.Bandstop:
                with np.errstate(all="ignore"):
                    x = 1 / x
        H = f.get_transfer_function(w)
        m2 = np.abs(H) ** 2
        if method in (DM.Butterworth, DM.Chebyshev1, DM.Chebyshev2):
            ok = np.isfinite(x)
            eq(m2[ok], proto_mag2(method, N, x[ok], rp, rs), "squared magnitude", rtol=1e-4, atol=1e-7)
        db = 10 * np.log10(m2 + 1e-30)
        if method == DM.Elliptic:
            true(np.all(db[x <= 1] > -rp - 1e-3) and np.all(db <= 1e-3), "passband ripple")
            edge = np.abs(f.get_transfer_function(np.atleast_1d(np.asarray(fr, float))))
            eq(20 * np.log10(edge), np.full(len(edge), -rp), "gain at the edge", atol=1e-3)
            if N > 1:
                true(np.all(db[x > 60 ** (1 / 1)] < -rs + 1e-2), "stopband attenuation")
        if method == DM.Bessel and pt in (PT.Lowpass, PT.Highpass):
            # reverse Bessel polynomial with the asymptotes of a Butterworth filter
            c = np.array([factorial(2 * N - k) / (2 ** (N - k) * factorial(k) * factorial(N - k)) for k in range(N + 1)])
            s_ = 1j * (x if pt == PT.Lowpass else -x) * c[0] ** (1 / N)
            eq(H, c[0] / np.polyval(c[::-1], s_), "response of the Bessel prototype", rtol=1e-5, atol=1e-7)
        # the sections filter like the closed form: one impulse response
        n = 256
        h = f.get_ir(n)
        x0 = np.zeros(n)
        x0[0] = 1
        y = f.filter_signal(dsp.Signal.from_time_data(x0, FS, False))
        eq(h.time_data, y.time_data, "impulse response is the response to an impulse", atol=1e-12)
        # the conversion to b/a carries the same response for benign orders
        if order <= 4:
            b, a = f.get_coefficients(CT.Ba)
            eq(H_ba(b, a, w), H, "b/a form", rtol=1e-4, atol=1e-5)
        ctx.step()

    freqs = {PT.Lowpass: (20.0, 100.0, 300.0, 450.0), PT.Highpass: (20.0, 100.0, 300.0, 450.0),
             PT.Bandpass: ((50.0, 120.0), (200.0, 400.0)), PT.Bandstop: ((50.0, 120.0), (200.0, 400.0))}
    for pt in PT:
        for N in orders:
            for fr in freqs[pt]:
                if N > 8 and (np.min(fr) < 30):
                    continue
                ctx.case(f"iir/{method.name} {pt.name} N={N} f={fr}", go, N, pt, fr)


# --------------------------------------------------------------- FIR designs
def fir_ref(n, fr, pt, win):
    t = np.arange(n) - (n - 1) / 2
    ed = np.atleast_1d(np.asarray(fr, float)) / (FS / 2)
    lp = lambda c: c * np.sinc(c * t)
    if pt == PT.Lowpass:
        h, ref = lp(ed[0]), 0.0
    elif pt == PT.Highpass:
        h, ref = lp(1.0) - lp(ed[0]), 1.0
    elif pt == PT.Bandpass:
        h, ref = lp(ed[1]) - lp(ed[0]), (ed[0] + ed[1]) / 2
    else:
        h, ref = lp(1.0) - lp(ed[1]) + lp(ed[0]), 0.0
    h = h * get_window(win, n, fftbins=False)
    return h / np.sum(h * np.cos(np.pi * ref * t))


def fir_part(ctx):
    W = dsp.Window
    wins = (None, W.Hamming, W.Hann, W.Blackman, W.Boxcar)

    def go(pt, fr, order, w):
        f = F.fir_filter(order, fr if np.ndim(fr) == 0 else list(fr), pt, FS, w)
        b, a = f.get_coefficients(CT.Ba)
        true(f.is_fir and f.order == order and len(b) == order + 1, "order")
        name = "hamming" if w is None else w.to_scipy_format()
        eq(b, fir_ref(order + 1, fr, pt, name), "taps", rtol=1e-7, atol=1e-9)
        describe(f, b, a, tol=1e-6) if order <= 12 else None
        ctx.step()

    for pt, frs in ((PT.Lowpass, (60.0, 200.0)), (PT.Highpass, (60.0, 200.0)), (PT.Bandpass, ((60.0, 200.0),)), (PT.Bandstop, ((60.0, 200.0),))):
        for fr in frs:
            for order in range(2, 41 if ctx.thorough else 24):
                for w in wins:
                    if pt in (PT.Highpass, PT.Bandstop) and order % 2:
                        continue
                    ctx.case(f"fir/{pt.name} {fr} {order} {w.name if w else None}", go, pt, fr, order, w)


# ------------------------------------------------------------ special filters
def burg_ref(x, order):
    """Reflection coefficients minimising forward plus backward error."""
    f, b, a = x[1:], x[:-1], arr(1.0)
    for _ in range(order):
        k = -2 * np.dot(f, b) / (np.dot(f, f) + np.dot(b, b))
        a = np.r_[a, 0] + k * np.r_[a, 0][::-1]
        f, b = (f + k * b)[1:], (b + k * f)[:-1]
    return a


def special_part(ctx):
    def thiran(N, d):
        f = fb.fractional_delay(d, N, FS)
        w = np.arange(0.0, 500, 2.5)
        H = f.get_transfer_function(w)
        eq(np.abs(H), np.ones(len(w)), "allpass", atol=1e-9)
        gd = f.get_group_delay(arr(0.01, 5.0), False)
        eq(gd, [N + d] * 2, "delay at low frequencies", atol=3e-3)
        # maximally flat delay: 2N derivative conditions; the delay error grows slower with the order
        b, a = f.get_coefficients(CT.Ba)
        true(np.all(np.abs(np.roots(a)) < 1) and f.order == N, "stable, of the given order")
        eq(b, a[::-1], "mirrored numerator", atol=1e-12)
        describe(f, b, a)
        ctx.step()

    for N in range(1, 9 if ctx.thorough else 6):
        for d in (0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99):
            ctx.case(f"fractional delay {N} {d}", thiran, N, d)

    def weight(a_w, fs):
        f = fb.weighting_filter(a_w, fs)
        w = fs / 2 * np.array([0.001, 0.01, 0.05, 0.1, 0.3, 0.6, 0.9])
        s = 2j * fs * np.tan(np.pi * w / fs)
        p1, p2, p3, p4 = 129.4, 676.7, 4636.0, 76655.0
        ref = 7.39705e9 * s**4 / ((s + p1) ** 2 * (s + p2) * (s + p3) * (s + p4) ** 2) if a_w else 5.91797e9 * s**2 / ((s + p1) ** 2 * (s + p4) ** 2)
        eq(f.get_transfer_function(w), ref, "weighting", rtol=1e-5, atol=1e-7)
        if fs >= 96000:
            table = {63: (-26.2, -0.8), 125: (-16.1, -0.2), 250: (-8.6, 0.0), 500: (-3.2, 0.0), 1000: (0, 0), 2000: (1.2, -0.2), 4000: (1.0, -0.8)}
            H = 20 * np.log10(np.abs(f.get_transfer_function(arr(*table))))
            eq(H, [v[0 if a_w else 1] for v in table.values()], "IEC 61672 table", atol=0.15)
        true(f.sampling_rate_hz == fs, "rate")
        ctx.step()

    for fs in (8000, 44100, 48000, 96000, 192000):
        for a_w in (True, False):
            ctx.case(f"weighting {'A' if a_w else 'C'} {fs}", weight, a_w, fs)

    def pink(fs, f0):
        f = fb.pinking_filter(f0, fs)
        eq(np.abs(f.get_transfer_function(arr(f0))), [1.0], "0 dB at the given frequency", rtol=1e-6)
        w = fs * 2.0 ** np.arange(-10, -2)
        db = 20 * np.log10(np.abs(f.get_transfer_function(w)))
        eq(np.diff(db), np.full(len(w) - 1, -3.01), "decay per octave", atol=0.9)
        for how in (CT.Ba, CT.Sos, CT.Zpk):
            g = convert(f, how)
            eq(g.get_transfer_function(w), f.get_transfer_function(w), "conversions", rtol=1e-5)
        ctx.step()

    for fs in (8000, 44100, 48000):
        for f0 in (20.0, 100.0, 1000.0, 3900.0):
            ctx.case(f"pinking {fs} {f0}", pink, fs, f0)

    def gauss(length, bv, order):
        f = fb.gaussian_kernel(length, bv, order, FS)
        n = 801
        x = np.zeros(n)
        x[400] = 1
        h = f.filter_signal(dsp.Signal.from_time_data(x, FS, False), zero_phase=True).time_data[:, 0]
        t = np.arange(n) - 400
        sigma2 = (length * FS) ** 2 / (2 * np.log(1 / bv))
        eq(np.sum(h), 1.0, "unit sum", atol=1e-4)
        eq(h, h[::-1], "symmetric", atol=1e-6)
        eq(np.sum(h * t**2), sigma2, "variance of the kernel", rtol=2e-2)
        # order/2 two-sided exponentials of variance sigma2 / (order / 2) each
        v = sigma2 / order
        mu = (1 + 2 * v - np.sqrt(1 + 4 * v)) / (2 * v)
        e, g = (1 - mu) / (1 + mu) * mu ** np.abs(t), np.eye(1, n, 400)[0]
        for _ in range(order // 2):
            g = np.convolve(g, e, "same")
        eq(h, g, "shape of the kernel", atol=1e-4 * np.max(g))
        ctx.step()

    for length in (0.005, 0.02, 0.06):
        for bv in (1e-1, 1e-2, 1e-3):
            for order in (2, 4, 8, 12, 20):
                ctx.case(f"gaussian {length} {bv} {order}", gauss, length, bv, order)
    ctx.case("gaussian odd", lambda: must_raise(lambda: fb.gaussian_kernel(0.01, 1e-2, 3, FS), "odd order"))

    def matched(t, f0, g, q):
        f = fb.matched_biquad(t, f0, g, q, FS, 1.0) if t == BQ.Peaking else fb.matched_biquad(t, f0, g, q, FS)
        G = 10 ** (g / 20)
        m = np.abs(f.get_transfer_function(arr(0.0, f0, 500.0)))
        z, p, k = f.get_coefficients(CT.Zpk)
        true(np.all(np.abs(p) < 1) and f.order <= 2, "stable")
        fc = f0 / 500
        if t == BQ.Lowpass:
            eq(m[:2], [G, G * q], "gain at 0 and at the frequency", rtol=1e-5)
        elif t == BQ.Highpass:
            eq(m[:2], [0, G * q], "gain at 0 and at the frequency", rtol=1e-5, atol=1e-9)
        elif t in (BQ.BandpassPeak, BQ.BandpassSkirt):
            eq(m[:2], [0, G], "gain at 0 and at the frequency", rtol=1e-5, atol=1e-9)
        elif t == BQ.Peaking:
            eq(m[:2], [1, G], "gain at 0 and at the frequency", rtol=1e-5)
            near = np.abs(f.get_transfer_function(f0 + arr(-1.0, 1.0) * 0.01))
            if abs(g) >= 1:
                true(np.all((near <= m[1] + 1e-9) if g > 0 else (near >= m[1] - 1e-9)), "extremum at the frequency")
        else:
            low = t == BQ.Lowshelf
            w = f0 * np.array([0.25, 0.5, 1.0]) if f0 < 250 else arr(f0)
            x = w / f0
            gg = 1 / G if low else G
            ref = np.sqrt((1 + x**4 * gg) / (1 + x**4 / gg)) / (gg if low else 1)
            # the analog prototype |H|^2 = (fc^4 + f^4 G)/(fc^4 + f^4/G)
            got = np.abs(f.get_transfer_function(w))
            eq(20 * np.log10(got), 20 * np.log10(ref), "analog magnitude", atol=max(0.1, 0.03 * abs(g)))
            hny = (fc**4 + gg) / (fc**4 + 1 / gg)
            eq(m[2], np.sqrt(hny) / (gg if low else 1), "gain at nyquist", rtol=1e-4)
            eq(m[0], G if low else 1.0, "gain at 0", rtol=1e-4)
        describe(f, *f.get_coefficients(CT.Ba), tol=1e-5)
        ctx.step()

    for t in (BQ.Peaking, BQ.Lowpass, BQ.Highpass, BQ.BandpassPeak, BQ.BandpassSkirt, BQ.Lowshelf, BQ.Highshelf):
        for f0 in (10.0, 60.0, 150.0, 250.0) + ((20.0, 100.0, 200.0, 300.0) if ctx.thorough else ()):
            for g in (-12, -3, 0, 6, 15):
                for q in (0.3, 1 / np.sqrt(2), 2, 8):
                    ctx.case(f"matched/{t.name} {f0} {g} {q:.1f}", matched, t, f0, g, q)
    ctx.case("matched/unsupported", lambda: must_raise(lambda: fb.matched_biquad(BQ.Notch, 100, 0, 1, FS), "unsupported type"))

    def arma(a, g, method, ob):
        n = 600
        h = g * R.lfilter_ref([1.0], a, np.eye(1, n)[0])
        ir = dsp.ImpulseResponse(None, h, FS, constrain_amplitude=False)
        f = pure(lambda i: fb.arma(i, len(a) - 1, ob, method), ir)
        b, aa = f.get_coefficients(CT.Ba)
        eq(aa / aa[0], a if method == "yule-walker" else burg_ref(h, len(a) - 1), "denominator", atol=1e-6)
        if ob and method == "yule-walker":
            eq(b, np.r_[g, np.zeros(ob)], "numerator", atol=1e-5)
        ctx.step()

    for a in ((1, -0.5), (1, -0.6, 0.25), (1, 0.3, 0.2, -0.1), (1, 0, 0.5), (1, 0, 0, 0, 0.3)):
        for g in (1.0, -0.5, 0.25):
            for method in ("yule-walker", "burg"):
                for ob in (0, 1, 3):
                    ctx.case(f"arma/{a} {g} {method} {ob}", arma, arr(*a), g, method, ob)


# ------------------------------------------------------ fits on known systems
def fit_part(ctx):
    n = 512
    imp = np.eye(1, n)[0]
    POLES = {"re": [0.5], "re2": [0.7, -0.4], "c": [0.5 + 0.4j], "cre": [0.3, 0.6 + 0.3j], "cc": [0.5 + 0.4j, -0.3 + 0.6j], "crr": [-0.5, 0.8, 0.2 + 0.7j]}

    def den(ps):
        return R.polymul(*[arr(1, -np.real(p)) if np.imag(p) == 0 else arr(1, -2 * np.real(p), abs(p) ** 2) for p in ps])

    def parallel(ps, n_fir, delay):
        b = R.seq(len(den(ps)) - 1, 3)
        h = R.lfilter_ref(np.r_[np.zeros(delay), b], den(ps), imp)
        h[: n_fir] += R.seq(n_fir, 8)
        ir = dsp.ImpulseResponse(None, h, FS, constrain_amplitude=False)
        f = ParallelFilter(np.array(ps, complex), n_fir, FS)
        f.set_parameters(delay)
        pure(lambda i: f.fit_to_ir(i), ir)
        eq(f.get_ir(64).time_data[:, 0], h[:64], "fitted response", atol=1e-6)
        x = R.td(30, 2, 4)
        y = f.filter_signal(dsp.Signal.from_time_data(x.copy(), FS, False)).time_data
        f.set_n_channels(2)
        z = np.array([[f.process_sample(x[i, c], c) for c in range(2)] for i in range(30)])
        for c in range(2):
            eq(y[:, c], np.convolve(h, x[:, c])[:30], "filtered signal", atol=1e-5)
        eq(z, y, "sample by sample", atol=1e-9)
        ctx.step()

    for k, ps in POLES.items():
        for n_fir in (0, 1, 2, 5):
            for delay in (0, 1, 3):
                ctx.case(f"parallel/{k} fir={n_fir} delay={delay}", parallel, ps, n_fir, delay)

    def kautz(ps):
        b = R.seq(len(den(ps)) - 1, 3)
        # strictly proper in z: numerator of degree below the denominator's
        h = R.lfilter_ref(b, den(ps), imp)
        ir = dsp.ImpulseResponse(None, h, FS, constrain_amplitude=False)
        f = KautzFilter(np.array(ps, complex), FS)
        pure(lambda i: f.fit_coefficients_to_ir(i), ir)
        eq(f.get_ir(n).time_data[:, 0], h, "fitted response", atol=1e-8)
        ctx.step()

    for k, ps in POLES.items():
        ctx.case(f"kautz/{k}", kautz, ps)

    def kautz_poles(ps):
        h = R.lfilter_ref(R.seq(len(den(ps)) - 1, 3), den(ps), imp)
        ir = dsp.ImpulseResponse(None, h, FS, constrain_amplitude=False)
        f = pure(lambda i: KautzFilter.from_ir(i, len(den(ps)) - 1, 5), ir)
        got = np.sort_complex(np.r_[f.poles_real, f.poles_complex])
        eq(got, np.sort_complex(np.array(ps, complex)), "poles found", atol=1e-4)
        eq(f.get_ir(n).time_data[:, 0], h, "fitted response", atol=1e-4)
        ctx.step()

    for k, ps in POLES.items():
        ctx.case(f"kautz poles/{k}", kautz_poles, ps)


def _dispatch(ctx, what, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"rep": rep_part, "other": others_part, "merge": merge_part, "biquad": biquads_part, "iir": iir_part, "fir": fir_part, "special": special_part, "fit": fit_part}[what](ctx, *a)


def run(ctx):
    ctx.bound(
        chains="every word of Ba/Sos/Zpk conversions up to depth 3 (2 for 3-tap numerators in the quick run)",
        coefficients=f"all b over {{0, 0.5, -1}} up to length {4 if ctx.thorough else 3} x 8 denominators; all products of 1-{3 if ctx.thorough else 2} of 6 sections; 7 zpk sets",
        merge="all pairs and same-kind triples of 6 filters as list and bank",
        designs="13 biquad types x frequencies x Q x gains; 5 IIR methods x 4 types x orders; FIR windows x orders; matched, weighting, pinking, Thiran, gaussian, ARMA",
        fits="6 pole sets x FIR lengths x delays",
    )
    ctx.assume("zeros and poles are compared through responses (multiple roots are only accurate to about 1e-7)")
    n = 6
    ctx.parallel(_dispatch, [("rep", k, n) for k in range(n)] + [("iir", m) for m in DM] + [("other",), ("merge",), ("biquad",), ("fir",), ("special",), ("fit",)])
