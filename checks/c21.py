"""C21 transfer functions: known systems are recovered by every estimator and
option; windows, averages, phase operations and smoothing of impulse responses
are compared with their formulas for every length, position and channel."""

import itertools

import numpy as np
from scipy.signal.windows import get_window

import dsptoolbox as dsp
from checks.c15 import average, welch_ref
from mc import optional
from mc.core import eq, must_raise, same, true
from mc.snap import pure

TF = dsp.transfer_functions
FS = 1000
W = dsp.Window
SC = dsp.SpectrumScaling
ME = dsp.SpectrumMethod


def S(x, cls=dsp.Signal, fs=FS):
    x = np.asarray(x, dtype=float)
    return cls(None, x.reshape(len(x), -1), fs, constrain_amplitude=False)


def IR(x, fs=FS):
    return S(x, dsp.ImpulseResponse, fs)


def noise(n, k=0, ch=1):
    r = np.random.RandomState(10 + k)
    return r.randn(n, ch)


def dft_at(x, f, fs=FS):
    x = np.asarray(x)
    return np.exp(-2j * np.pi * np.outer(f, np.arange(len(x))) / fs) @ x


SYS = [np.array([1.0, 0.5, -0.2]), np.array([0.0, -2.0, 0.3]), np.array([0.3, 0.0, 1.0])]


def params(i):
    """Settings that must not have any influence on a deconvolution."""
    return (
        None,
        dict(method=ME.FFT, smoothing=3, pad_to_fast_length=True, scaling=SC.PowerSpectrum),
        dict(method=ME.WelchPeriodogram, window_length_samples=16, scaling=SC.AmplitudeSpectralDensity),
    )[i]


def system(n, k, ch, linear, cyc=0):
    """Input with full-band spectrum and its response through a known system."""
    x = np.zeros((n, ch))
    m = max(n - 2, 1) if linear else n
    x[:m] = noise(m, k, ch) * 0.1
    x[0] += 1.5
    h = np.stack([SYS[(c + cyc) % 3] for c in range(ch)], axis=1)
    return x, h


def deconvolution(ctx, n, ch):
    def one(multi, padding, keep, pset, scale):
        x, h = system(n, n, ch, padding)
        if not multi:
            x = np.repeat(x[:, :1], ch, axis=1)
        N = 2 * n if padding else n
        H = np.fft.rfft(h, N, axis=0) if N >= 3 else None
        y = np.fft.irfft(np.fft.rfft(x, N, axis=0) * H, N, axis=0)[:n] * scale
        a, b = S(y), S(x if multi else x[:, :1])
        if pset:
            a.set_spectrum_parameters(**params(pset))
            b.set_spectrum_parameters(**params(pset))
        out = pure(lambda o, i: TF.spectral_deconvolve(o, i, False, None, -30.0, padding, keep), a, b)
        true(type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == FS and not out.constrain_amplitude, "type of the result")
        L = n if (not padding or keep) else N
        want = np.zeros((L, ch))
        hh = np.zeros((N, ch))
        hh[:3] = h * scale
        want = hh[:L]
        eq(out.time_data, want, "system", rtol=1e-7, atol=1e-8 * scale)
        ctx.step()

    for multi, (padding, keep), pset, scale in itertools.product((True, False), ((False, False), (True, False), (True, True)), (0, 1, 2), (1.0, 40.0)):
        if ch == 1 and not multi:
            continue
        ctx.case(f"deconvolution/{n} {ch} {multi} {padding} {keep} {pset} {scale}", one, multi, padding, keep, pset, scale)

    def regular(multi, padding, rng):
        x, h = system(n, n, ch, padding)
        if not multi:
            x = np.repeat(x[:, :1], ch, axis=1)
        N = 2 * n if padding else n
        H = np.fft.rfft(h, N, axis=0)
        y = np.fft.irfft(np.fft.rfft(x, N, axis=0) * H, N, axis=0)[:n]
        f = np.fft.rfftfreq(N, 1 / FS)
        X = np.fft.rfft(x, N, axis=0)
        out = pure(lambda o, i: TF.spectral_deconvolve(o, i, True, rng, -30.0, padding), S(y), S(x if multi else x[:, :1]))
        G = np.fft.rfft(out.time_data, axis=0)
        true(len(out) == N, f"length {len(out)} for {N}")
        true(np.all(np.isfinite(G)), "not finite")
        lo, hi = (rng[0], rng[1]) if len(rng) == 2 else (rng[1], rng[2])
        inner = (f > lo + FS / N) & (f < hi - FS / N)
        if N % 2 == 0:
            inner[-1] = False
        eq(G[inner], H[inner], "response in the excited band", rtol=1e-7, atol=1e-8)
        true(np.all(np.abs(G) <= np.abs(H) * (1 + 1e-6) + 1e-8), "regularisation amplifies")
        first, last = (rng[0] / 2**0.5, min(rng[1] * 2**0.5, FS / 2)) if len(rng) == 2 else (rng[0], rng[3])
        outer = (f < first - FS / N) | (f > last + FS / N)
        true(np.all(np.abs(G[outer]) < 0.6 * np.abs(H[outer]) + 1e-9), "no regularisation outside the band")
        full = H * np.abs(X) ** 2 / (np.abs(X) ** 2 + 10**1.5)
        eq(G[outer], full[outer], "regularised response", rtol=1e-6, atol=1e-8)
        ctx.step()

    if n >= 12:
        for multi, padding in itertools.product((True, False), (False, True)):
            for rng in ([100, 300], [60, 400], [50, 100, 300, 400], [150, 200, 250, 480]):
                ctx.case(f"regularised/{n} {ch} {multi} {padding} {rng}", regular, multi, padding, rng)

    def automatic(padding, swap):
        """Different excited bands in the channels."""
        if ch == 1:
            return
        N = 2 * n if padding else n
        f = np.fft.rfftfreq(n, 1 / FS)
        X = np.full((len(f), ch), 1e-3 + 0j) * n
        bands = [(100, 260), (240, 420), (60, 150)]
        for c in range(ch):
            lo, hi = bands[(c + swap) % 3]
            X[(f >= lo) & (f <= hi), c] = n
        x = np.fft.irfft(X * np.exp(-1j * 0.7 * np.arange(len(f)) ** 2)[:, None], n, axis=0)
        H = np.fft.rfft(np.stack([SYS[c % 3] for c in range(ch)], 1), n, axis=0)
        y = np.fft.irfft(np.fft.rfft(x, axis=0) * H, n, axis=0)
        out = pure(lambda o, i: TF.spectral_deconvolve(o, i, True, None, -30.0, False), S(y), S(x))
        G = np.fft.rfft(out.time_data, axis=0)
        for c in range(ch):
            lo, hi = bands[(c + swap) % 3]
            ins = (f >= lo) & (f <= hi) & (f < FS / 2)
            eq(G[ins, c], H[ins, c], f"excited band of channel {c}", rtol=1e-6, atol=1e-6)
            away = (f > hi * 1.6) & (f < FS / 2)
            true(np.all(np.abs(G[away, c]) < 0.05), f"channel {c} amplified outside of its band")
        ctx.step()

    def threshold(db, padding, k):
        """Automatic range: first and last bin of the denominator above the threshold"""
        x, y = noise(n, k, ch), noise(n, k + 3, ch)
        N = 2 * n if padding else n
        f = np.fft.rfftfreq(N, 1 / FS)
        X = np.abs(np.fft.rfft(x, N, axis=0))
        got = pure(lambda o, i: TF.spectral_deconvolve(o, i, True, None, db, padding), S(y), S(x)).time_data
        for c in range(ch):
            lev = 20 * np.log10(X[:, c] / X[:, c].max())
            if np.any(np.abs(lev - db) < 1e-6):
                return
            u = f[lev > db]
            if u[0] <= 0 or u[-1] <= u[0]:
                return
            want = TF.spectral_deconvolve(S(y[:, [c]]), S(x[:, [c]]), True, [u[0], u[-1]], -30.0, padding).time_data[:, 0]
            eq(got[:, c], want, f"range above {db} dB of channel {c}", rtol=1e-9, atol=1e-12)
        ctx.step()

    if n >= 12:
        for db, padding, k in itertools.product((-40.0, -12.0, -6.0, -3.0), (False, True), range(3)):
            ctx.case(f"threshold/{n} {ch} {db} {padding} {k}", threshold, db, padding, k)

    if n >= 24:
        for swap in range(3):
            ctx.case(f"automatic range/{n} {ch} {swap}", automatic, False, swap)

    x, h = system(n, n, ch, False)
    a = S(x)
    for nm, f in (
        ("rates", lambda: TF.spectral_deconvolve(a, S(x, fs=500))),
        ("lengths", lambda: TF.spectral_deconvolve(a, S(np.vstack([x, x])))),
        ("range", lambda: TF.spectral_deconvolve(a, a, False, [10, 20])),
        ("three", lambda: TF.spectral_deconvolve(a, a, True, [10, 20, 30])),
        ("channels", lambda: TF.spectral_deconvolve(a, S(noise(n, 0, ch + 1)))),
    ):
        if nm == "channels" and ch + 1 > n:
            continue
        ctx.case(f"refuses/{n} {ch} {nm}", lambda f=f: must_raise(f, "invalid deconvolution"))


def estimates(ctx, win, ch):
    """H1, H2, H3 and coherence from averaged periodograms."""
    M = TF.TransferFunctionType

    def one(L, Wn, ov, det, how, sc, multi, mode):
        x = noise(L, 3, ch if multi else 1)
        y = np.stack([np.convolve(x[:, c if multi else 0], SYS[c % 3])[:L] for c in range(ch)], 1) + 0.2 * noise(L, 4, ch)
        a, b = S(y), S(x)
        for s in (a, b):
            s.set_spectrum_parameters(ME.WelchPeriodogram, window_length_samples=32, window_type=win, overlap_percent=ov, detrend=det, average=how, scaling=sc)
        out = pure(lambda o, i: TF.compute_transfer_function(o, i, Wn, mode), a, b)
        w = get_window(win.to_scipy_format(), Wn, True)
        X = welch_ref(x, Wn, w, ov, det)[1]
        Y = welch_ref(y, Wn, w, ov, det)[1]
        eq(out.frequency_vector_hz, np.arange(Wn // 2 + 1) * FS / Wn, "frequencies")
        for c in range(ch):
            p, q = X[:, :, c if multi else 0], Y[:, :, c]
            xx, yy = average(np.abs(p) ** 2, how).real, average(np.abs(q) ** 2, how).real
            xy, yx = average(p.conj() * q, how), average(q.conj() * p, how)
            want = {M.H1: xy / xx, M.H2: yy / yx, M.H3: xy / np.abs(xy) * np.sqrt(yy / xx)}[mode]
            # bins without any common part (exact zeros of a median) are undefined
            ok = (np.abs(xy) > 1e-9 * np.max(np.abs(xy))) & (np.arange(Wn // 2 + 1) >= int(det))
            true(ok.sum() > Wn // 2 - 3, "no common part")
            eq(out.spectral_data[ok, c], want[ok], f"{mode.name} of channel {c}", rtol=1e-7, atol=1e-9)
            eq(out.coherence[ok, c], (np.abs(xy) ** 2 / xx / yy)[ok], f"coherence of channel {c}", rtol=1e-7, atol=1e-9)
            if how == "mean":
                true(np.all((out.coherence[ok, c] >= -1e-9) & (out.coherence[ok, c] <= 1 + 1e-9)), "coherence outside 0..1")
        ctx.step()

    scs = (SC.PowerSpectralDensity, SC.FFTBackward, SC.AmplitudeSpectrum) if not ctx.thorough else tuple(SC)
    for L, Wn in ((80, 16), (97, 32)) if not ctx.thorough else ((80, 16), (97, 32), (65, 16), (128, 32), (200, 64)):
        for ov, det, how in itertools.product((0.0, 50.0), (False, True), ("mean", "median")):
            for sc, multi, mode in itertools.product(scs, (True, False), M):
                ctx.case(f"estimate/{win.name} {ch} {L} {Wn} {ov} {det} {how} {sc.name} {multi} {mode.name}", one, L, Wn, ov, det, how, sc, multi, mode)

    def known(mode, gain, d):
        """Memoryless systems are recovered exactly, delays up to the window."""
        x = noise(256, 5, ch)
        g = np.array([gain, -0.5, 3.0])[:ch]
        out = TF.compute_transfer_function(S(x * g), S(x), 32, mode)
        eq(out.spectral_data[1:], np.ones((16, 1)) * g, "gain", rtol=1e-9)
        eq(out.coherence[1:], np.ones((16, ch)), "coherence")
        ctx.step()

    for mode, gain in itertools.product(M, (2.0, 0.01, -7.0)):
        ctx.case(f"gain/{win.name} {ch} {mode.name} {gain}", known, mode, gain, 0)


# ------------------------------------------------------------------ windows
def flank(win, n, left):
    w = get_window(win.to_scipy_format(), 2 * n, True) if n else np.ones(0)
    return w[:n] if left else w[n:]


def tukey(ctx, n, win):
    def one(l, r, ch):
        x = noise(n, 1, ch) + 3
        out = pure(lambda s: TF.window_ir_tukey(s, None if l is None else l / FS, None if r is None else r / FS, win), IR(x))
        w = np.ones(n)
        if l:
            w[:l] = flank(win, l, True)
        if r:
            w[n - r :] = flank(win, r, False)
        eq(out.time_data, x * w[:, None], "windowed")
        eq(out.window, np.repeat(w[:, None], ch, 1), "window")
        true(type(out) is dsp.ImpulseResponse, "type")
        ctx.step()

    for l, r in itertools.product([None] + list(range(n + 1)), repeat=2):
        for ch in (1, 2, 3):
            if ch > n:
                continue
            key = f"tukey/{n} {win.name} {l} {r} {ch}"
            if (l is None and r is None) or (l or 0) + (r or 0) > n:
                ctx.case(key, lambda l=l, r=r, ch=ch: must_raise(lambda: one(l, r, ch), "overlapping flanks"))
            else:
                ctx.case(key, one, l, r, ch)


def peaky(n, p, k=0):
    """Peak at p, every other sample different and nonzero."""
    x = (0.1 + 0.6 * (np.arange(n) + 1) / (n + 1)) * (-1.0) ** (np.arange(n) * k)
    x[p] = 1.0 if k == 0 else -1.0
    return x


def shifted(x, d, L):
    y = np.zeros(L)
    for i in range(L):
        if 0 <= i + d < len(x):
            y[i] = x[i + d]
    return y


def fixed(ctx, n, win):
    def one(L, ps, const, ratio, off, start):
        x = np.stack([peaky(n, p, c) for c, p in enumerate(ps)], 1)
        wl = win if isinstance(win, W) else list(win)
        left, right = (win, win) if isinstance(win, W) else win
        out, pos = pure(lambda s: TF.window_ir(s, L, False, const, wl, start, off, ratio), IR(x))
        total = int((1 - const) * L)
        nl = int(total * ratio / (1 + ratio))
        nr = total - nl
        for c, p in enumerate(ps):
            d = p - off - nl
            w = np.ones(L)
            if start:
                w[:nl] = flank(left, nl, True)
            if nr > 1:
                w[L - nr :] = flank(right, nr, False)
            w *= shifted(np.ones(n), d, L)
            eq(out.window[:, c], w, f"window of channel {c}")
            eq(out.time_data[:, c], shifted(x[:, c], d, L) * w, f"channel {c}")
            same(abs(int(pos[c])), abs(d), f"start of channel {c}")
        ctx.step()

    Ls = range(2, 2 * n + 1) if ctx.thorough else (n // 2, n - 1, n, n + 1, 2 * n)
    for L in Ls:
        for const, ratio, start in itertools.product((0.0, 0.5, 0.75), (0.0, 1.0, 3.0), (True, False)):
            for off in {0, 1, 3, int(const * L)}:
                if off > const * L:
                    continue
                for p in range(n):
                    ps = (p, (p + 3) % n)
                    ctx.case(f"fixed window/{n} {win} {L} {const} {ratio} {start} {off} {p}", one, L, ps, const, ratio, off, start)


def adaptive(ctx, n, win):
    def one(L, ps, const, ratio, off, start):
        x = np.stack([peaky(n, p, c) for c, p in enumerate(ps)], 1)
        total = int((1 - const) * L)
        nl0 = int(total * ratio / (1 + ratio))
        nr0 = total - nl0
        feasible = True
        plan = []
        for p in ps:
            nl = max(0, min(nl0, p - off))
            d = max(0, p - off - nl)
            T = min(L, n - d)
            nr = nr0
            if nl + off > T - nr:
                nr = T - nl - off - 1
            feasible = feasible and 0 <= nr and nl <= T - nr
            plan.append((p, nl, d, T, nr))
        try:
            out, pos = pure(lambda s: TF.window_ir(s, L, True, const, win, start, off, ratio), IR(x))
        except AssertionError:
            true(not feasible, "refused a possible window")
            return
        for c, (p, nl, d, T, nr) in enumerate(plan):
            w, y = out.window[:, c], out.time_data[:, c]
            same(int(pos[c]), d, f"start of channel {c}")
            eq(y, shifted(x[:, c], d, L) * w, f"channel {c}")
            true(np.all(w[T:] == 0) and np.all((w >= -1e-12) & (w <= 1 + 1e-12)), "window values")
            if not feasible:
                continue
            want = np.zeros(L)
            want[:T] = 1
            if start:
                want[:nl] = flank(win, nl, True)
            if nr > 1:
                want[T - nr : T] = flank(win, nr, False)
            eq(w, want, f"window of channel {c}")
            if p - d < T and p >= off:
                true(abs(w[p - d] - 1) < 1e-12, "peak is not kept")
        ctx.step()

    Ls = range(2, 2 * n + 1) if ctx.thorough else (n // 2, n - 1, n, n + 1, 2 * n)
    for L in Ls:
        for const, ratio, start in itertools.product((0.0, 0.5, 0.75), (0.0, 1.0, 3.0), (True, False)):
            for off in {0, 1, 3, int(const * L)}:
                if off > const * L:
                    continue
                for p in range(n):
                    ctx.case(f"adaptive window/{n} {win.name} {L} {const} {ratio} {start} {off} {p}", one, L, (p, (p + 2) % n), const, ratio, off, start)


def centered(ctx, n, win):
    def one(L, ps):
        x = np.stack([peaky(n, p, c) for c, p in enumerate(ps)], 1)
        out, pos = pure(lambda s: TF.window_centered_ir(s, L, win), IR(x))
        half = L // 2
        full = get_window(win.to_scipy_format(), 2 * half + 1, False)
        for c, p in enumerate(ps):
            d = int(pos[c])
            if p >= half and p - half + L <= n:
                same(d, p - half, "peak not in the middle")
            true(0 <= d <= max(n - L, 0) and d <= p < d + L, f"start {d} for peak {p}")
            w = np.zeros(L)
            for i in range(L):
                k = i + d - p + half
                if 0 <= k < len(full) and i + d < n:
                    w[i] = full[k]
            eq(out.window[:, c], w, f"window of channel {c}")
            eq(out.time_data[:, c], shifted(x[:, c], d, L) * w, f"channel {c}")
        ctx.step()

    for L in range(2, 2 * n + 2):
        for p in range(n):
            ctx.case(f"centered window/{n} {win.name} {L} {p}", one, L, (p, (p + 3) % n))


# ------------------------------------------------------------ phase and mean
ZEROS = [0.5, -0.7, 0.3 + 0.6j, -0.4 + 0.5j]


def from_zeros(inside):
    h = np.ones(1)
    ref = np.ones(1)
    for z, i in zip(ZEROS, inside):
        q = np.array([1, -z]) if np.isreal(z) else np.array([1, -2 * z.real, abs(z) ** 2])
        ref = np.convolve(ref, q)
        h = np.convolve(h, q if i else q[::-1])
    return h.real, ref.real


def phases(ctx, n):
    def one(conf, neg, d):
        hs, refs = zip(*[from_zeros(c) for c in conf])
        x = np.zeros((n, len(hs)))
        for c, h in enumerate(hs):
            x[d : d + len(h), c] = h * (-1 if neg else 1) * (c + 1)
        want = np.zeros_like(x)
        for c, r in enumerate(refs):
            want[: len(r), c] = r * (c + 1)
        ir = IR(x)
        for cep in (True, False):
            out = pure(lambda s: TF.min_phase_ir(s, cep, 8), ir)
            eq(out.time_data, want, f"minimum-phase response ({cep})", rtol=1e-5, atol=1e-5)
            true(type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == FS, "type")
            f, ph = pure(lambda s: TF.minimum_phase(s, cep, 8), ir)
            ref = np.angle(dft_at(want, f))
            eq(np.exp(1j * ph), np.exp(1j * ref), f"minimum phase ({cep})", rtol=1e-5, atol=1e-5)
        # group delays in seconds
        f, gd = pure(lambda s: TF.group_delay(s), ir)
        k = np.arange(n)[:, None]
        ref = np.real(dft_at(k * x, f) / dft_at(x, f)) / FS
        eq(f, np.fft.rfftfreq(n, 1 / FS), "frequencies")
        eq(gd, ref, "analytic group delay", rtol=1e-8, atol=1e-10)
        f, gm = pure(lambda s: TF.minimum_group_delay(s, 0, 64), ir)
        refm = np.real(dft_at(k * want, f) / dft_at(want, f)) / FS
        eq(gm[2:-2], refm[2:-2], "minimum group delay", rtol=1e-2, atol=1e-4)
        f, ge = pure(lambda s: TF.excess_group_delay(s, 0, False, True), IR(np.vstack([x, np.zeros((15 * n, len(hs)))])))
        refe = np.real(dft_at(k * x, f) / dft_at(x, f)) / FS - np.real(dft_at(k * want, f) / dft_at(want, f)) / FS
        eq(ge[2:-2], refe[2:-2], "excess group delay", rtol=2e-2, atol=4e-4)
        ctx.step()

    def options(conf, frac, alpha):
        """Smoothed delays are the smoothed curves; the scaling of the zeros"""
        hs, _ = zip(*[from_zeros(c) for c in conf])
        x = np.zeros((n, len(hs)))
        for c, h in enumerate(hs):
            x[1 : 1 + len(h), c] = h * (c + 1)
        ir = IR(x)
        fos = lambda v: dsp.tools.fractional_octave_smoothing(v, None, frac)
        for what, fn in (
            ("group delay", lambda s, k: TF.group_delay(s, True, k)),
            ("numeric group delay", lambda s, k: TF.group_delay(s, False, k)),
            ("group delay without latency", lambda s, k: TF.group_delay(s, True, k, True)),
            ("minimum group delay", lambda s, k: TF.minimum_group_delay(s, k)),
            ("excess group delay", lambda s, k: TF.excess_group_delay(s, k)),
            ("analytic excess group delay", lambda s, k: TF.excess_group_delay(s, k, False, True)),
        ):
            f0, g0 = fn(ir, 0)
            f1, g1 = pure(lambda s: fn(s, frac), ir)
            eq(f1, f0, f"{what}: frequencies")
            eq(g1, fos(g0), f"{what}: smoothed", rtol=1e-9, atol=1e-12)
        w = (alpha ** np.arange(n))[:, None]
        for cep in (True, False):
            got = pure(lambda s: TF.min_phase_ir(s, cep, 8, alpha), ir).time_data
            eq(got * w, TF.min_phase_ir(IR(x * w), cep, 8).time_data, f"scaled zeros ({cep})", rtol=1e-9, atol=1e-11)
        ctx.step()

    for i, c in enumerate(itertools.product((True, False), repeat=4)):
        for frac, alpha in ((1, 0.9), (3, 0.99), (12, 1 - 1e-4)):
            ctx.case(f"options/{n} {c} {frac} {alpha}", options, (c, c[::-1]), frac, alpha)

    confs = list(itertools.product((True, False), repeat=4))
    for i, c in enumerate(confs):
        for neg, d in itertools.product((False, True), (0, 1, 4)):
            ctx.case(f"phase/{n} {c} {neg} {d}", one, (c, confs[(i + 5) % 16]), neg, d)

    def zeros_at_bins(h):
        x = np.zeros(n)
        x[: len(h)] = h
        for cep in (True, False):
            out = TF.min_phase_ir(IR(np.stack([x, -2 * x], 1)), cep).time_data
            true(np.all(np.isfinite(out)), "response is not finite")
            eq(out[:, 1], 2 * out[:, 0], "channels", rtol=1e-5, atol=1e-6)
        true(np.all(np.isfinite(TF.minimum_phase(IR(x))[1])), "phase is not finite")

    for h in ([1, -1], [1, 1], [1, 0, -1], [-1, 2, -1]):
        ctx.case(f"spectral zeros/{n} {h}", zeros_at_bins, h)

    def numeric(m, r):
        """Direct group delay of a smooth phase and the removal of a latency."""
        x = np.zeros((n * 8, 2))
        x[m:, 0] = 0.5 ** np.arange(n * 8 - m)
        x[m + r :, 1] = (-0.4) ** np.arange(n * 8 - m - r)
        k = np.arange(n * 8)[:, None]
        f, gd = pure(lambda s: TF.group_delay(s, False), IR(x))
        ref = np.real(dft_at(k * x, f) / dft_at(x, f)) / FS
        eq(gd[1:-1], ref[1:-1], "group delay", rtol=2e-2, atol=1e-3 * 0.1)
        f, gd = pure(lambda s: TF.group_delay(s, True, 0, True), IR(x))
        z = np.zeros_like(x)
        z[:, 0], z[:, 1] = shifted(x[:, 0], max(m - 1, 0), len(x)), shifted(x[:, 1], max(m + r - 1, 0), len(x))
        ref = np.real(dft_at(k * z, f) / dft_at(z, f)) / FS
        eq(gd, ref, "group delay without latency", rtol=1e-6, atol=1e-8)
        f, gd = pure(lambda s: TF.group_delay(s, False, 0, True), IR(x))
        base = np.zeros_like(x)
        base[:, 0], base[:, 1] = 0.5 ** k[:, 0], (-0.4) ** k[:, 0]
        ref = np.real(dft_at(k * base, f) / dft_at(base, f)) / FS
        eq(gd[1:-1], ref[1:-1], "group delay without latency (numeric)", rtol=3e-2, atol=1.5e-4)
        ctx.step()

    for m in range(0, 6):
        for r in (0, 1, 5):
            ctx.case(f"latency removed/{n} {m} {r}", numeric, m, r)


def symmetric(h, zero, d):
    """h is the zero-phase response delayed by d samples."""
    k = int(np.argmax(np.abs(h)))
    if d is not None:
        true(abs(k - d) <= 0.5 + 1e-9, f"delay {k}, expected {d}")
    true(k <= len(h) / 2 + 1, f"length {len(h)} for a delay of {k}")
    want = zero[(np.arange(len(h)) - k) % len(zero)]
    eq(h, want, "linear-phase response", rtol=0, atol=(5e-3 if d is not None else 0.06) * np.max(np.abs(zero)))


def magnitudes(ctx, fs):
    def grid(n):
        return np.fft.rfftfreq(n, 1 / fs)

    def mags(f):
        return np.stack([np.abs(dft_at([1, 0.5, -0.2], f, fs)), 2.0 * np.abs(dft_at([0.3, -0.1], f, fs))], 1)

    def minimum(n, cplx):
        f = grid(4096)
        sp = mags(f) * (np.exp(1j * f) [:, None] if cplx else 1)
        out = pure(lambda s: TF.min_phase_from_mag(s, fs, n), dsp.Spectrum(f, sp))
        N = len(out)
        true(type(out) is dsp.ImpulseResponse and out.sampling_rate_hz == fs, "type")
        if n is not None:
            same(N, n, "length")
        want = np.zeros((N, 2))
        want[:3, 0], want[:2, 1] = [1, 0.5, -0.2], [0.6, -0.2]
        eq(out.time_data, want, "minimum-phase response", rtol=2e-3, atol=2e-3)
        ctx.step()

    for n in [None] + list(range(24, 60 if ctx.thorough else 40)):
        for cplx in (False, True):
            ctx.case(f"minimum phase from magnitude/{fs} {n} {cplx}", minimum, n, cplx)

    def linear(gd, check, factor):
        f = grid(4096)
        out = pure(lambda s: TF.lin_phase_from_mag(s, fs, gd, check, factor), dsp.Spectrum(f, mags(f)))
        zero = np.fft.irfft(mags(f), axis=0)
        for c in range(2):
            symmetric(out.time_data[:, c], zero[:, c], None if gd is None else gd / 1000 * fs)
        if gd is not None:
            same(len(out), int(2 * gd / 1000 * fs + 0.5), "length")
        ctx.step()

    for gd, check, factor in ((20.0, True, 1.0), (20.0, False, 1.0), (35.0, True, 2.0), (None, True, 1.0), (None, True, 3.0), (None, False, 1.0), (8.0, False, 1.0)):
        ctx.case(f"linear phase from magnitude/{fs} {gd} {check} {factor}", linear, gd, check, factor)
    f = grid(4096)
    ctx.case(f"linear phase not causal/{fs}", lambda: must_raise(lambda: TF.lin_phase_from_mag(dsp.Spectrum(f, mags(f)), fs, 0.01, True), "group delay too short"))


def filters(ctx, n):
    def one(ch, mode):
        hs = [from_zeros((True, False, c % 2 == 0, True))[0] for c in range(ch)]
        x = np.zeros((n if mode != "lin" else 40 * n, ch))
        for c, h in enumerate(hs):
            x[: len(h), c] = h * (c + 1)
        ir = IR(x)
        for sc in (None, dict(method=ME.FFT, scaling=SC.PowerSpectralDensity), dict(method=ME.FFT, smoothing=1)):
            if sc:
                ir.set_spectrum_parameters(**sc)
            fb = pure(lambda s: TF.ir_to_filter(s, None, mode), ir)
            true(type(fb) is dsp.FilterBank and len(fb) == ch and fb.sampling_rate_hz == FS, "bank")
            for c in range(ch):
                f1 = pure(lambda s: TF.ir_to_filter(s, c, mode), ir)
                true(type(f1) is dsp.Filter and f1.sampling_rate_hz == FS and f1.is_fir, "filter")
                b, a = f1.get_coefficients(dsp.FilterCoefficientsType.Ba)
                eq(np.asarray(a), [1.0], "denominator")
                if mode == "direct":
                    eq(np.asarray(b), x[:, c], "coefficients")
                if mode == "lin":
                    symmetric(np.asarray(b), np.fft.irfft(np.abs(np.fft.rfft(x[:, c])), len(x)), None)
                    continue
                F = np.fft.rfftfreq(n, 1 / FS)[1:-1]
                eq(np.abs(dft_at(np.asarray(b), F)), np.abs(dft_at(x[:, c], F)), "magnitude", rtol=1e-5, atol=1e-5)
                bb = np.asarray(fb.filters[c].get_coefficients(dsp.FilterCoefficientsType.Ba)[0])
                eq(bb, np.asarray(b), "filter of the bank")
            if mode == "direct":
                back = pure(TF.filter_to_ir, fb)
                eq(back.time_data, x, "impulse responses of the bank")
                eq(TF.filter_to_ir(f1).time_data[:, 0], x[:, ch - 1], "impulse response")
                true(back.sampling_rate_hz == FS and type(back) is dsp.ImpulseResponse, "type")
        ctx.step()

    for ch, mode in itertools.product((1, 2, 3), ("direct", "min", "lin")):
        ctx.case(f"filters/{n} {ch} {mode}", one, ch, mode)

    def lengths(ls):
        fb = dsp.FilterBank([dsp.Filter.from_ba(noise(l, i)[:, 0] + 3, [1.0], FS) for i, l in enumerate(ls)])
        out = pure(TF.filter_to_ir, fb)
        want = np.zeros((max(ls), len(ls)))
        for i, l in enumerate(ls):
            want[:l, i] = noise(l, i)[:, 0] + 3
        eq(out.time_data, want, "impulse responses")
        ctx.step()

    for ls in itertools.product((4, 5, 9), repeat=3):
        ctx.case(f"bank to responses/{n} {ls}", lengths, ls)
    iir = dsp.Filter.from_ba([1.0], [1.0, -0.5], FS)
    ctx.case(f"refuses iir/{n}", lambda: must_raise(lambda: TF.filter_to_ir(iir), "IIR filter"))
    ctx.case(f"refuses iir bank/{n}", lambda: must_raise(lambda: TF.filter_to_ir(dsp.FilterBank([iir])), "IIR filter"))


def averages(ctx, ch, base):
    t = np.arange(256)
    shapes = {
        "burst": lambda d: np.exp(-(((t - 90 - d) / 5.0) ** 2)) * np.cos(2 * np.pi * 0.12 * (t - 90 - d)),
        "decay": lambda d: np.where(t >= 60 + d, 0.6 ** np.clip(t - 60 - d, 0, None), 0.0),
    }
    g = shapes[base]

    def timed(ds, gains, norm):
        x = np.stack([a * g(d) for a, d in zip(gains, ds)], 1)
        out = pure(lambda s: TF.average_irs(s, True, norm), IR(x))
        latest = max(ds)
        scale = gains[0] if norm else np.mean(gains)
        true(type(out) is dsp.ImpulseResponse and out.number_of_channels == 1 and len(out) == 256, "type")
        eq(out.time_data[:, 0], g(latest) * scale, "average of aligned responses", rtol=0, atol=0.03 * abs(scale))
        ctx.step()

    for ds in itertools.product((0, 3, 11), repeat=ch - 1):
        for gains, norm in (((1.0, 1.0, 1.0), False), ((2.0, 1.0, 0.5), True), ((0.5, 1.0, 4.0), True), ((1.0, 2.0, 3.0), False)):
            for order in (0, 1):
                d = (0,) + ds if order == 0 else ds[::-1] + (5,)
                ctx.case(f"average in time/{base} {d} {gains[:ch]} {norm}", timed, d, gains[:ch], norm)

    def spectral(n, norm, k):
        x = np.zeros((n, ch))
        for c in range(ch):
            h = from_zeros((True, c % 2 == 1, True, c == 0))[0]
            x[k : k + len(h), c] = h * (c + 1)
        out = pure(lambda s: TF.average_irs(s, False, norm), IR(x))
        y = x * (np.sqrt(np.sum(x[:, :1] ** 2, axis=0) / np.sum(x**2, axis=0)) if norm else 1)
        Y = np.fft.rfft(y, axis=0)
        want = np.fft.irfft(np.mean(np.abs(Y), 1) * np.exp(1j * np.mean(np.unwrap(np.angle(Y), axis=0), 1)), n)
        eq(out.time_data[:, 0], want, "average of magnitudes and phases", rtol=1e-8, atol=1e-9)
        ctx.step()

    for n, norm, k in itertools.product((16, 17, 24, 31), (True, False), (0, 2)):
        ctx.case(f"average in frequency/{base} {ch} {n} {norm} {k}", spectral, n, norm, k)


def frequency_windows(ctx, n):
    def one(p, cyc, end):
        x = np.stack([peaky(n, p, 0), 0.7 * peaky(n, (p + 2) % n, 1)], 1)
        out = pure(lambda s: TF.window_frequency_dependent(s, cyc, end), IR(x))
        f = np.fft.rfftfreq(n, 1 / FS)
        eq(out.frequency_vector_hz, f, "frequencies")
        k = np.arange(n)
        for i, ff in enumerate(f):
            for c in range(2):
                if i == 0:
                    true(out.spectral_data[0, c] == 0, "DC")
                    continue
                q = np.argmax(np.abs(x[:, c]))
                half = np.round(FS / ff * cyc)
                w = 10 ** (end / 20 * ((k - q) / half) ** 2)
                eq(out.spectral_data[i, c], np.sum(x[:, c] * w * np.exp(-2j * np.pi * k * i / n)), f"bin {i}", rtol=1e-7, atol=1e-9)
        ctx.step()

    for p, cyc, end in itertools.product(range(n), (1, 3, 10), (-50.0, -10.0)):
        ctx.case(f"frequency dependent/{n} {p} {cyc} {end}", one, p, cyc, end)
    D = TF.SmoothingDomain

    def constant(dom, frac):
        """A spectrum without variation stays as it is in every domain."""
        x = np.zeros((n, 2))
        x[0] = [1.0, -0.5]
        s = IR(x)
        s.set_spectrum_parameters(ME.FFT, pad_to_fast_length=False)
        out = pure(lambda q: TF.complex_smoothing(q, frac, dom), s)
        eq(np.abs(out.spectral_data), np.ones((n // 2 + 1, 1)) * [1.0, 0.5], "magnitude", rtol=1e-9)
        eq(out.spectral_data, np.ones((n // 2 + 1, 1)) * [1.0, -0.5], "spectrum", rtol=1e-9)
        ctx.step()

    def formula(dom, frac):
        x = noise(n, 7, 2) * 0.8 ** np.arange(n)[:, None]
        s = IR(x)
        s.set_spectrum_parameters(ME.FFT, pad_to_fast_length=False)
        f, sp = s.get_spectrum()

        def sm(v):
            return TF.complex_smoothing(_As(s, f, v), frac, D.RealImaginary).spectral_data

        out = TF.complex_smoothing(s, frac, dom).spectral_data
        mag, ph = np.abs(sp), np.unwrap(np.angle(sp), axis=0)
        want = {
            D.RealImaginary: lambda: sm(sp),
            D.MagnitudePhase: lambda: sm(mag).real * np.exp(1j * sm(ph).real),
            D.PowerPhase: lambda: np.sqrt(sm(mag**2).real) * np.exp(1j * sm(ph).real),
            D.Power: lambda: np.sqrt(sm(mag**2).real) * np.exp(1j * np.angle(sp)),
            D.Magnitude: lambda: sm(mag).real * np.exp(1j * np.angle(sp)),
            D.EquivalentComplex: lambda: np.sqrt(sm(mag**2).real) * np.exp(1j * np.angle(sm(sp))),
        }[dom]()
        eq(out, want, dom.name, rtol=1e-8, atol=1e-10)
        # Smoothing is an average: it stays within the values of its octave
        lo, hi = 2 ** (-0.5 / frac), 2 ** (0.5 / frac)
        if dom in (D.Power, D.Magnitude, D.MagnitudePhase):
            for i, ff in enumerate(f):
                ins = (f >= ff * lo - 1.01 * f[1]) & (f <= ff * hi + 1.01 * f[1])
                true(np.all(np.abs(out[i]) <= mag[ins].max(0) * (1 + 1e-9)) and np.all(np.abs(out[i]) >= mag[ins].min(0) * (1 - 1e-9)), f"bin {i} is no average of its octave band")
        ctx.step()

    for dom, frac in itertools.product(D, (0.5, 1.0, 3.0, 12.0)):
        ctx.case(f"smoothing constant/{n} {dom.name} {frac}", constant, dom, frac)
        ctx.case(f"smoothing/{n} {dom.name} {frac}", formula, dom, frac)


class _As:
    """An impulse response whose spectrum is the given real or complex data."""

    def __init__(self, s, f, v):
        self.s, self.f, self.v = s, f, v

    def get_spectrum(self):
        return self.f, np.asarray(self.v).astype(complex)


def smoothing_weights(ctx, n):
    """Response to each single bin: weights of a boxcar are those of an
    average over the octave band, the ones of a window have one maximum"""

    def one(frac, win):
        f = np.fft.rfftfreq(n, 1 / FS)
        m = len(f)
        df = f[1]
        s = IR(np.eye(1, n)[0][:, None])
        Wt = np.zeros((m, m))
        for j in range(m):
            v = np.zeros((m, 1))
            v[j] = 1.0
            Wt[:, j] = TF.complex_smoothing(_As(s, f, v), frac, TF.SmoothingDomain.RealImaginary, win).spectral_data[:, 0].real
        eq(Wt.sum(axis=1), np.ones(m), "weights", 1e-9)
        true(Wt.min() > -1e-12, "negative weight")
        for i in range(m):
            lo, hi = f[i] * 2 ** (-0.5 / frac), f[i] * 2 ** (0.5 / frac)
            used = np.flatnonzero(Wt[i] > 1e-12)
            true(i in used, f"bin {i} itself")
            true(np.all((f[used] > lo - 0.51 * df) & (f[used] < hi + 0.51 * df)), f"bin {i} is averaged outside its band")
            inside = np.flatnonzero((f > lo + 0.51 * df) & (f < hi - 0.51 * df))
            if win == W.Boxcar:
                if len(inside) >= 3:
                    true(set(inside) <= set(used), f"bin {i} misses bins of its band: {used}, {inside}")
                eq(Wt[i, used], np.full(len(used), 1 / len(used)), "average", 1e-9)
            else:
                d = np.diff(Wt[i, used])
                q = int(np.argmax(Wt[i, used]))
                true(np.all(d[:q] >= -1e-12) and np.all(d[q:] <= 1e-12), f"bin {i}: more than one maximum")
                # The peak is in the centre of the band, as far as it is whole
                if hi < f[-1] and lo > 0 and len(inside) > 6:
                    true(abs(np.log2(f[used[q]] / f[i])) <= 0.12 / frac + df / f[i], f"bin {i}: largest weight at {used[q]}")
        ctx.step()

    for frac, win in itertools.product((0.5, 1.0, 3.0, 6.0), (W.Boxcar, W.Hann, W.Blackman)):
        ctx.case(f"smoothing weights/{n} {frac} {win.name}", one, frac, win)


def no_numba(ctx):
    """Package without the optional compiled kernels: the same results"""
    optional.compare(ctx, ("smoothing", "windowing"))


# ----------------------------------------------------------- measured responses
def decaying(n, p, rate, floor, ch=1, fs=FS, k=0):
    x = np.zeros((n, ch))
    r = np.random.RandomState(k)
    for c in range(ch):
        q = p + 7 * c
        x[q:, c] = np.exp(-np.arange(n - q) * rate * (1 + 0.3 * c)) * (-1.0) ** np.arange(n - q)
        x[:, c] += floor * r.randn(n)
    return x


def trimming(ctx, p, rate):
    def one(off, ch, floor):
        x = decaying(1500, p, rate, floor, ch)
        ir = IR(x)
        o = len(x) if off is None else int(off * FS + 0.5)
        out, a, b = pure(lambda s: TF.trim_ir(s, None, off), ir)
        single = [pure(lambda s: TF.trim_ir(s, c, off), ir) for c in range(ch)]
        peaks = np.argmax(np.abs(x), 0)
        for c, (o1, a1, b1) in enumerate(single):
            same(int(a1), max(0, int(peaks[c]) - 1 - o), "start")
            true(peaks[c] < b1 <= len(x), f"stop {b1}")
            eq(o1.time_data, x[a1:b1, [c]], "trimmed channel")
            floor_at = peaks[c] + np.log(1 / max(floor, 1e-6)) / (rate * (1 + 0.3 * c))
            true(b1 >= min(len(x), 0.3 * floor_at + 0.7 * peaks[c]), f"response cut at {b1}, it decays until {floor_at}")
        same((int(a), int(b)), (min(int(s[1]) for s in single), max(int(s[2]) for s in single)), "limits of all channels")
        eq(out.time_data, x[a:b], "trimmed")
        true(type(out) is dsp.ImpulseResponse, "type")
        ctx.step()

    for off, ch, floor in itertools.product((0.0, 0.02, 0.1, None), (1, 2, 3), (1e-3, 1e-4)):
        ctx.case(f"trim/{p} {rate} {off} {ch} {floor}", one, off, ch, floor)
    ctx.case(f"trim negative/{p} {rate}", lambda: must_raise(lambda: TF.trim_ir(IR(decaying(500, 20, 0.05, 1e-3)), None, -0.1), "negative offset"))


def harmonics(ctx, f0, f1, length):
    N = int(length * FS) * 3

    def one(k, amp, q):
        """Impulses at the times of the harmonics are found in their slices."""
        x = np.zeros(N)
        p0 = int(0.9 * N)
        x[p0] = 1.0
        rate = np.log2(f1 / f0) / length
        ts = np.log2(np.arange(2, k + 3)) / rate * FS
        for i in range(k):
            x[p0 - int(round(ts[i])) + q] += amp / (i + 1)
        off = 0.05
        out = pure(lambda s: TF.harmonics_from_chirp_ir(s, [f0, f1], length, k, off), IR(x))
        same(len(out), k, "harmonics")
        for i, h in enumerate(out):
            true(type(h) is dsp.ImpulseResponse and h.number_of_channels == 1, "type")
            prev = ts[i - 1] if i else 0.0
            want = (ts[i] - prev) * (1 - off) + (ts[i + 1] - ts[i]) * off if i < k else None
            true(abs(len(h) - want) <= 3, f"length {len(h)} of harmonic {i + 2}, expected {want}")
            td = h.time_data[:, 0]
            nz = np.flatnonzero(np.abs(td) > 1e-6)
            same(len(nz), 1, f"impulses in harmonic {i + 2}")
            eq(td[nz[0]], amp / (i + 1), "amplitude")
            true(abs(nz[0] - (ts[i + 1] - ts[i]) * off - q) <= 3, f"position {nz[0]}")
        ctx.step()

    for k, amp, q in itertools.product((1, 2, 3, 5), (0.5, 0.01), (0, 1, 2)):
        ctx.case(f"harmonics/{f0} {f1} {length} {k} {amp} {q}", one, k, amp, q)

    def distortion(amps, sc):
        """Levels of known harmonic responses."""
        irs = []
        for i, a in enumerate((1.0,) + amps):
            x = np.zeros(200)
            x[5] = a
            irs.append(IR(x))
        for r in irs:
            r.set_spectrum_parameters(ME.FFT, scaling=sc)
        d = pure(lambda l: TF.harmonic_distortion_analysis(l, [0, FS // 2], None, None, 0, False), irs)
        want = {str(i + 1) for i in range(len(amps) + 1)} | {"thd", "thd_n", "thd_percent"}
        same(set(d), want, "results")
        ref = d["1"].spectral_data[3, 0] if False else None
        base = np.abs(d["1"].spectral_data[:, 0])
        for i, a in enumerate(amps):
            s = d[str(i + 2)]
            eq(np.abs(s.spectral_data[:, 0]), np.full(len(s.spectral_data), a * base[1]), f"harmonic {i + 2}", rtol=1e-6)
            true(s.frequency_vector_hz[-1] <= FS / 2 / (i + 2) + 1e-9, "frequency of the harmonic")
        thd = d["thd"]
        f = thd.frequency_vector_hz
        low = (f > 0) & (f < FS / 2 / (len(amps) + 1) - 5)
        eq(np.abs(thd.spectral_data[low, 0]), np.full(low.sum(), base[1] * np.sqrt(np.sum(np.square(amps)))), "total harmonic distortion", rtol=1e-5)
        eq(np.abs(d["thd_percent"].spectral_data[low, 0]), np.full(low.sum(), 100 * np.sqrt(np.sum(np.square(amps)))), "percentage", rtol=1e-5)
        ctx.step()

    for amps in ((0.1,), (0.1, 0.03), (0.01, 0.2, 0.05)):
        for sc in (SC.FFTBackward, SC.FFTOrthogonal, SC.FFTForward):
            ctx.case(f"distortion/{f0} {f1} {length} {amps} {sc.name}", distortion, amps, sc)


def combined(ctx, order, f):
    def one(p, gain, lower, norm):
        """An impulse combined with an impulse is the impulse."""
        x = np.zeros((512, 2))
        x[p, 0], x[p + 9, 1] = gain, -gain * 0.5
        out = pure(lambda s: TF.combine_ir_with_dirac(s, f, lower, order, norm), IR(x))
        want = np.zeros((512, 2))
        want[p, 0], want[p + 9, 1] = np.sign(gain), -np.sign(gain) * (0.5 if True else 1)
        got = out.time_data / np.max(np.abs(out.time_data))
        true(out.number_of_channels == 2 and len(out) == 512 and type(out) is dsp.ImpulseResponse, "type")
        ref = dsp.filterbanks.linkwitz_riley_crossovers([f], order, FS)
        # the two zero-phase bands of a unit impulse
        bands = ref.filter_signal(IR(x / np.max(np.abs(x))), zero_phase=True)
        lo, hi = bands.bands[0].time_data, bands.bands[1].time_data
        ir, di = (lo, hi) if lower else (hi, lo)
        unit = np.sign(np.array([gain, -gain])) / np.array([1.0, 0.5])
        di = di * np.abs(unit)
        if norm == "energy":
            di = di * np.sqrt(np.mean(ir**2, 0) / np.mean(di**2, 0))
        elif norm == "peak":
            di = di * np.max(np.abs(ir), 0) / np.max(np.abs(di), 0)
        elif norm is not None:
            di = di * 10 ** (norm / 20)
        full = ir + di
        eq(got, full / np.max(np.abs(full)), "combination", rtol=0, atol=5e-3)
        ctx.step()

    for p, gain, lower, norm in itertools.product((150, 201), (1.0, -0.25), (True, False), (None, "energy", "peak", -6.0, 3)):
        ctx.case(f"combined/{order} {f} {p} {gain} {lower} {norm}", one, p, gain, lower, norm)


def run(ctx):
    T = ctx.thorough
    ctx.parallel(deconvolution, [(n, ch) for n in (range(6, 33) if T else (6, 7, 11, 12, 13, 17, 24, 31)) for ch in (1, 2, 3)])
    ctx.parallel(estimates, [(w, ch) for w in ((W.Hann, W.Boxcar) if not T else (W.Hann, W.Boxcar, W.Blackman, W.Hamming)) for ch in (1, 2, 3)])
    ctx.parallel(tukey, [(n, w) for n in ((5, 8) if not T else (3, 5, 8, 12)) for w in (W.Hann, W.Hamming, W.Blackman)])
    ctx.parallel(fixed, [(n, w) for n in ((6, 9) if not T else (6, 9, 12)) for w in (W.Hann, W.Hamming, (W.Hann, W.Hamming))])
    ctx.parallel(adaptive, [(n, w) for n in ((6, 9) if not T else (6, 9, 12)) for w in (W.Hann, W.Hamming)])
    ctx.parallel(centered, [(n, w) for n in ((4, 7, 10) if not T else (3, 4, 5, 7, 8, 10, 13)) for w in (W.Hann, W.Hamming)])
    ctx.parallel(phases, [(n,) for n in ((24, 31) if not T else (24, 27, 31, 48))])
    ctx.parallel(magnitudes, [(fs,) for fs in (4000, 8000)])
    ctx.parallel(filters, [(n,) for n in ((24, 29) if not T else (20, 24, 29, 40))])
    ctx.parallel(averages, [(ch, b) for ch in (2, 3) for b in ("burst", "decay")])
    ctx.parallel(frequency_windows, [(n,) for n in ((8, 13) if not T else (8, 9, 13, 16, 25))])
    ctx.parallel(smoothing_weights, [(n,) for n in ((16, 33, 64) if not T else (16, 33, 64, 90, 128))])
    ctx.parallel(no_numba, [()])
    ctx.parallel(trimming, [(p, r) for p in ((5, 100) if not T else (0, 5, 100, 300)) for r in (0.02, 0.05)])
    ctx.parallel(harmonics, [(a, b, l) for a, b, l in ((20, 400, 2.0), (10, 500, 3.0))])
    ctx.parallel(combined, [(o, f) for o in ((2, 8) if not T else (2, 4, 8)) for f in (100.0, 200.0)])
    ctx.bound(channels=3, deconvolution_length=32 if T else 31, window_length=24 if T else 18, zeros_configurations=16)
    ctx.assume("phase operations are compared on responses whose zeros stay away from the unit circle; trimming bounds allow for the estimator's safety distance")
