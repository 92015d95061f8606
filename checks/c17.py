"""C17 latency: every assignment of delays to channels within the bound is
applied and measured again by every estimator; fractional delays are compared
with the exactly shifted band-limited signal."""

import contextlib
import io
import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, true
from mc.snap import pure

FS = 1000


def S(x, cls=dsp.Signal):
    x = np.asarray(x, dtype=float)
    return cls(None, x.reshape(len(x), -1), FS, constrain_amplitude=False)


def seq(l, k=0):
    """Aperiodic ±1-like sequence with a sharp autocorrelation."""
    r = np.random.RandomState(100 + k)
    return r.choice([-1.0, 1.0], l) * (1 + 0.1 * r.rand(l))


def place(x, d, n):
    y = np.zeros(n)
    y[d : d + len(x)] = x
    return y


def pulse(kind, n=256):
    """Functions of time whose fractional shift is exact."""
    t = np.arange(n)
    if kind == "burst":
        return lambda d: np.exp(-(((t - 110 - d) / 6.0) ** 2)) * np.cos(2 * np.pi * 0.15 * (t - 110 - d))
    if kind == "gauss":
        return lambda d: np.exp(-(((t - 110 - d) / 3.0) ** 2))
    r = np.random.RandomState(5)
    a, p = r.randn(39), r.uniform(0, 6, 39)
    f = np.arange(1, 40) / n
    return lambda d: np.exp(-(((t - 120 - d) / 30.0) ** 2)) * sum(a[i] * np.cos(2 * np.pi * f[i] * (t - d) + p[i]) for i in range(39))


TOL = {1: 0.06, 2: 0.02, 3: 0.01, 5: 0.01}


def check(lat, corr, want, p, sign=None):
    lat, corr = np.asarray(lat), np.asarray(corr)
    true(lat.shape == np.shape(want) and corr.shape == lat.shape, f"shape {lat.shape} {corr.shape} for {np.shape(want)}")
    eq(lat, np.asarray(want, float), "latency", atol=1e-6 if p == 0 else TOL[p], rtol=0)
    if p == 0:
        true(np.issubdtype(lat.dtype, np.integer), f"data type {lat.dtype}")
    if sign is not None:
        eq(corr, np.asarray(sign, float), "correlation", atol=1e-9)


def integer(ctx, ch, p):
    x = [seq(17, k) for k in range(3)]
    r = 4 if ctx.thorough or ch < 3 else 3
    rng = range(-r, r + 1)

    def pair(ds, flip, extra):
        n = 40
        a = np.stack([place(x[c % 3] * flip[c], 10 + d, n + extra) for c, d in enumerate(ds)], axis=1)
        b = np.stack([place(x[c % 3], 10, n) for c in range(len(ds))], axis=1)
        (lat, corr), _ = pure(lambda s, t: (dsp.latency(s, t, p), 0), S(a), S(b))
        check(lat, corr, ds, p, flip if p == 0 else None)
        (lat, corr), _ = pure(lambda s, t: (dsp.latency(s, t, p), 0), S(b), S(a))
        check(lat, corr, [-d for d in ds], p, flip if p == 0 else None)
        ctx.step(2)

    def own(ds, flip):
        n = 40
        a = np.stack([place(x[0], 12, n)] + [place(x[0] * flip[c], 12 + d, n) for c, d in enumerate(ds)], axis=1)
        (lat, corr), _ = pure(lambda s: (dsp.latency(s, None, p), 0), S(a))
        check(lat, corr, ds, p, flip if p == 0 else None)
        if len(ds) > 1:
            m = dsp.MultiBandSignal([S(a), S(a[:, [0] + list(range(len(ds), 0, -1))])])
            lat, corr = dsp.latency(m, None, p)
            check(lat, corr, [ds, ds[::-1]], p)
        ctx.step(2)

    for ds in itertools.product(rng, repeat=ch):
        flips = itertools.product((1, -1), repeat=ch) if ch < 3 else [(1,) * ch, (-1, 1, 1, -1)[:ch], (1, -1, -1, 1)[:ch]]
        for flip in flips:
            for extra in (0, 7) if ch < 3 else (0,):
                ctx.case(f"pair/{p} {ds} {flip} {extra}", pair, ds, flip, extra)
            ctx.case(f"own channels/{p} {ds} {flip}", own, ds, flip)

    def bands(d1, d2):
        a = [np.stack([place(x[c], 10 + d, 40) for c, d in enumerate(ds)], axis=1) for ds in (d1, d2)]
        b = np.stack([place(x[c], 10, 40) for c in range(2)], axis=1)
        m, q = dsp.MultiBandSignal([S(v) for v in a]), dsp.MultiBandSignal([S(b), S(b)])
        (lat, corr), _ = pure(lambda s, t: (dsp.latency(s, t, p), 0), m, q)
        check(lat, corr, [d1, d2], p)
        ctx.step()

    if ch == 2:
        small = list(itertools.product((-3, 0, 2), repeat=2))
        for d1 in small:
            for d2 in small:
                ctx.case(f"bands/{p} {d1} {d2}", bands, d1, d2)


def edges(ctx, n):
    """Latencies up to the length of the signals."""

    def go(d, l, p):
        x = seq(l, 1)
        a, b = place(x, max(d, 0), n), place(x, max(-d, 0), n)
        check(dsp.latency(S(a), S(b), p)[0], [0.0], [d], p)
        ctx.step()

    for l in (1, 2, 5):
        for d in range(-(n - l), n - l + 1):
            for p in (0, 1, 2, 3):
                if p and l == 2:
                    continue  # two equal samples have no single maximum between samples
                ctx.case(f"edge/{n} {l} {d} {p}", go, d, l, p)


def far(ctx, p):
    """Delays of the channels hundreds of samples apart"""
    D = (0, 3, 150, 199, 200, 201, 215, 420, -190, -205, -433)
    x = seq(40, 1)
    n = 1000

    def go(ds):
        a = np.stack([place(x, 450 + d, n) for d in ds], axis=1)
        b = np.stack([place(x, 450, n) for _ in ds], axis=1)
        check(*dsp.latency(S(a), S(b), p), ds, p)
        check(*dsp.latency(S(b), S(a), p), [-d for d in ds], p)
        own = np.concatenate([b[:, :1], a], axis=1)
        check(*dsp.latency(S(own), None, p), ds, p)
        if p:
            h = np.stack([place(np.array([0.05, 0.3, 1.0, 0.3, 0.05]), 448 + d, n) for d in ds], axis=1)
            r = quiet_ir_latency(S(h, dsp.ImpulseResponse))
            eq(r, [450.0 + d for d in ds], "impulse responses", atol=0.06, rtol=0)
        ctx.step(3)

    for ds in itertools.chain(itertools.product(D, repeat=2), itertools.permutations((0, 201, -205, 420), 3)):
        ctx.case(f"far/{p} {ds}", go, ds)


def quiet_ir_latency(ir):
    with contextlib.redirect_stdout(io.StringIO()):
        return dsp.transfer_functions.find_ir_latency(ir, compare_to_min_phase_ir=False)


def fractional(ctx, kind, p):
    g = pulse(kind)
    step = 0.05 if ctx.thorough else 0.1
    grid = np.round(np.arange(-20, 20 + step / 2, step), 3)

    def go(d):
        e = [d, -d / 2, d + 3.25]
        a = np.stack([g(0)] + [g(v) for v in e], axis=1)
        lat, _ = dsp.latency(S(a), None, p)
        eq(lat, e, "latency of the channels", atol=TOL[p], rtol=0)
        lat, _ = dsp.latency(S(a[:, 1:]), S(np.repeat(a[:, :1], 3, axis=1)), p)
        eq(lat, e, "latency of two signals", atol=TOL[p], rtol=0)
        lat, _ = dsp.latency(S(np.repeat(a[:, :1], 3, axis=1)), S(-2 * a[:, 1:]), p)
        eq(lat, [-v for v in e], "latency of an inverted reference", atol=TOL[p], rtol=0)
        li, _ = dsp.latency(S(a), None)
        true(np.all(np.abs(li - np.array(e)) <= 0.5 + 1e-6), f"integer latency {li} of {e}")
        ctx.step(4)

    for d in grid:
        ctx.case(f"fractional/{kind} {p} {d}", go, float(d))


def delays(ctx, order, sl):
    """fractional_delay against the exact shift."""
    g = pulse("gauss" if order < 12 else "burst", 200)
    h = pulse("noise", 200)
    base = np.stack([g(0), h(0), g(5.3)], axis=1)

    def exact(d, n):
        big = [pulse("gauss" if order < 12 else "burst", n), pulse("noise", 200)]
        t = np.zeros((n, 3))
        t[:, 0], t[:, 2] = big[0](d), big[0](5.3 + d)
        return t

    tol = {6: 0.03, 7: 0.03, 10: 0.01, 11: 0.01}.get(order, 2e-3) * (3 if sl is not None and sl > 80 else 1)

    def go(d, channels, keep, cls):
        s = S(base, cls)
        out = pure(lambda s: dsp.fractional_delay(s, d / FS, channels, keep, order, sl), s)
        true(type(out) is cls and out.sampling_rate_hz == FS, "type")
        y = out.time_data
        sel = list(range(3)) if channels is None else list(np.atleast_1d(channels))
        true(y.shape[1] == 3, "channels")
        if keep:
            true(len(y) == 200, f"length {len(y)}")
            full = dsp.fractional_delay(s, d / FS, channels, False, order, sl).time_data
            eq(y, full[:200], "kept length")
        else:
            true(len(y) >= 200 + int(d), f"length {len(y)}")
        ref = exact(d, len(y))
        for c in (0, 2):
            if c in sel:
                eq(y[:, c], ref[:, c], f"channel {c} delayed by {d}", atol=tol, rtol=0)
        for c in range(3):
            if c not in sel:
                z = np.zeros(len(y))
                z[:200] = base[: len(y), c]
                eq(y[:, c], z, f"channel {c} is not to be delayed")
        # linear and channel-independent
        for c in sel:
            one = dsp.fractional_delay(S(base[:, c]), d / FS, None, keep, order, sl).time_data[:, 0]
            eq(y[:, c], one, "channel on its own", atol=1e-12)
        if abs(d - round(d)) < 1e-12:
            for c in sel:
                z = np.zeros(len(y) + 400)
                z[int(round(d)) : int(round(d)) + 200] = base[:, c]
                eq(y[:, c], z[: len(y)], "integer delay", atol=1e-9)
        m = dsp.fractional_delay(dsp.MultiBandSignal([s, S(base[:, ::-1], cls)]), d / FS, channels, keep, order, sl)
        eq(m.bands[0].time_data, y, "first band")
        eq(m.bands[1].time_data, dsp.fractional_delay(S(base[:, ::-1], cls), d / FS, channels, keep, order, sl).time_data, "second band")
        ctx.step(3)

    def impulse(d):
        """Response to an impulse: a windowed sinc around the delay."""
        n = 150
        x = np.zeros(n)
        x[60] = 1
        y = dsp.fractional_delay(S(x), d / FS, None, False, order, sl).time_data[:, 0]
        k = np.arange(len(y)) - 60 - d
        # at least the lobes next to the delay, of the right sign, below the sinc
        true(np.all(np.abs(y) <= np.abs(np.sinc(k)) + 1e-9), "impulse above the sinc")
        near = np.abs(k) <= 1
        eq(y[near], np.sinc(k[near]), "main lobe", atol=0.08 if order >= 10 else 0.25, rtol=0)
        true(np.all(np.abs(y[np.abs(k) > order / 2 + 1.5]) < 1e-12), "impulse longer than the order")
        ctx.step()

    def measured(d, p):
        s = S(base[:, [0, 2]])
        y = dsp.fractional_delay(s, d / FS, None, False, order, sl)
        eq(dsp.latency(y, s, p)[0], [d, d], "measured latency", atol=0.08, rtol=0)
        y = dsp.fractional_delay(s, d / FS, 1, True, order, sl)
        eq(dsp.latency(y, s, p)[0], [0, d], "measured latency of one channel", atol=0.08, rtol=0)
        two = dsp.fractional_delay(dsp.fractional_delay(s, d / FS, None, False, order, sl), 2.4 / FS, None, False, order, sl)
        eq(dsp.latency(two, s, p)[0], [d + 2.4, d + 2.4], "delays add up", atol=0.1, rtol=0)
        ctx.step(3)

    step = 0.1 if ctx.thorough else 0.25
    ds = sorted({round(float(v), 3) for v in np.concatenate([np.arange(0, 4.01, step), np.arange(13.5, 17.01, step), [0.01, 0.49, 0.51, 0.99, 30.3, 44.7]])})
    for d in ds:
        chs = [None, 0, [2], [1, 0], [0, 1, 2], [2, 0]] if ctx.thorough else [None, [2, 0], 0]
        for c in chs:
            for keep in (False, True):
                cls = dsp.ImpulseResponse if keep and c is None else dsp.Signal
                ctx.case(f"fractional delay/{order} {sl} {d} {c} {keep}", go, d, c, keep, cls)
        if d > 0:
            ctx.case(f"impulse/{order} {sl} {d}", impulse, d)
        if order >= 10:
            for p in (1, 2, 3):
                ctx.case(f"measured/{order} {sl} {d} {p}", measured, d, p)
    s = S(base)
    for nm, f in (
        ("negative", lambda: dsp.fractional_delay(s, -0.001)),
        ("channel", lambda: dsp.fractional_delay(s, 0.001, [3])),
        ("repeated", lambda: dsp.fractional_delay(s, 0.001, [0, 0])),
        ("long", lambda: dsp.fractional_delay(s, 0.2, None, True)),
    ):
        ctx.case(f"refuses/{order} {sl} {nm}", lambda f=f: must_raise(f, "invalid delay"))


def ir(ctx, n):
    find = dsp.transfer_functions.find_ir_latency

    def dirac(ks, gains):
        x = np.zeros((n, len(ks)))
        for c, k in enumerate(ks):
            x[k, c] = gains[c]
        lat = pure(lambda s: find(s, False), S(x, dsp.ImpulseResponse))
        eq(lat, np.array(ks, float), "position of the impulse", atol=1e-6, rtol=0)
        ctx.step()

    for k in range(n):
        for gain in (1.0, -0.5):
            ctx.case(f"impulse position/{n} {k} {gain}", dirac, (k,), (gain,))
        for j in range(n) if ctx.thorough or n < 20 else (0, n // 2, n - 1):
            ctx.case(f"impulse position/{n} {k} {j}", dirac, (k, j), (1.0, -2.0))

    def peak(d, e):
        g = pulse("burst")
        s = S(np.stack([g(d), -0.5 * g(e)], axis=1), dsp.ImpulseResponse)
        eq(find(s, False), [110 + d, 110 + e], "maximum", atol=0.08, rtol=0)
        ctx.step()

    for d in np.arange(-9, 9.01, 0.25):
        for e in (0.0, 3.4, -7.7) if ctx.thorough else (3.4,):
            ctx.case(f"peak/{n} {d} {e}", peak, float(d), e)

    def minimum(k, a):
        """A minimum-phase response delayed by k."""
        m = 512
        x = np.zeros((m, 2))
        x[k:, 0] = a ** np.arange(m - k)
        x[2 * k :, 1] = -0.5 * (-a) ** np.arange(m - 2 * k)
        eq(find(S(x, dsp.ImpulseResponse), True), [k, 2 * k], "latency against the minimum phase", atol=0.06, rtol=0)
        ctx.step()

    for k in range(0, 60, 1 if ctx.thorough else 3):
        for a in (0.3, 0.6, -0.5):
            ctx.case(f"minimum phase/{n} {k} {a}", minimum, k, a)


def run(ctx):
    points = (0, 1, 2, 3)
    ctx.parallel(integer, [(ch, p) for ch in (1, 2, 3) for p in points])
    ctx.parallel(edges, [(n,) for n in ((9, 24) if not ctx.thorough else (9, 16, 24, 33))])
    ctx.parallel(far, [(p,) for p in points])
    ctx.parallel(fractional, [(k, p) for k in ("burst", "gauss", "noise") for p in (1, 2, 3, 5)])
    ctx.parallel(delays, [(o, sl) for o in ((6, 7, 10, 30, 31) if not ctx.thorough else (6, 7, 10, 11, 20, 21, 30, 31, 44)) for sl in (60, 40)])
    ctx.parallel(ir, [(n,) for n in ((8, 17) if not ctx.thorough else (8, 12, 17, 24, 31))])
    ctx.bound(channels=3, integer_delays=9, far_delays="every pair of 11 delays up to 433 samples", polynomial_points=5, fractional_step=0.05 if ctx.thorough else 0.1)
    ctx.assume("subsample latencies are compared to within 0.06 samples (one polynomial point) or less")
