"""C19 generators: every combination of length, rate, channels, padding, fade,
level and type within the bound; the oracle is the defining formula (for noise:
the exact spectral slope, which holds for every realisation)."""

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, true

G = dsp.generators
N, C, WF, FT = G.NoiseType, G.ChirpType, G.WaveForm, dsp.FadeType


def rnd(x):
    return int(np.floor(x + 0.5 + 1e-9))


def curve(kind, l):
    if kind == FT.Linear:
        return np.linspace(0, 1, l)
    if kind == FT.Exponential:
        return 10 ** (np.linspace(-100, 0, l) / 20)
    c = np.log10(np.linspace(1, 50 * 10**0.5, l))
    return c / np.log10(50 * 10**0.5)


def envelope(fade, n, fs, length):
    """Fade over a twentieth of the active part at both ends."""
    e = np.ones(n)
    if fade is None or fade == FT.NoFade:
        return e
    l = int(0.05 * length * fs)
    c = curve(fade, l)
    e[:l] *= c
    e[n - l :] *= c[::-1]
    return e


def frame(s, n, pad, ch, fs, cls=dsp.Signal):
    true(type(s) is cls, f"type {type(s)}")
    eq(s.time_data.shape, (n + pad, ch), "shape")
    true(s.sampling_rate_hz == fs, "sampling rate")
    true(np.all(np.isfinite(s.time_data)), "samples are not finite")
    true(not s.is_complex_signal, "real")
    if pad:
        true(np.all(s.time_data[n:] == 0), "padding is not silent")
    return s.time_data[:n]


def lin(db):
    return 10 ** (db / 20)


FADES = [None, FT.NoFade, FT.Linear, FT.Exponential, FT.Logarithmic]


def osc(ctx, fs):
    def wave(mode, f, n, cutoff, ph=0.0):
        x = np.zeros(n)
        w = 2 * np.pi * f / fs * np.arange(n)
        lim = fs // 2 if cutoff is None else cutoff
        if mode == WF.Harmonic:
            return np.sin(w + ph)
        k = 1
        while True:
            h = k if mode == WF.Sawtooth else 2 * k - 1
            if not h * f < lim:
                return x
            a = {WF.Square: 4 / np.pi / h, WF.Sawtooth: 2 / np.pi / h * (-1) ** (h + 1), WF.Triangle: 8 / np.pi**2 * (-1) ** (k + 1) / h**2}[mode]
            x += a * np.sin(h * w + ph)
            k += 1

    def go(mode, f, length, cutoff, level, ch, fade, pad):
        n, p = rnd(length * fs), rnd(pad * fs)
        s = G.oscillator(f, fs, length, mode, cutoff, level, ch, False, fade, pad)
        x = frame(s, n, p, ch, fs)
        ref = wave(mode, f, n, cutoff)
        ref = ref / np.max(np.abs(ref)) * lin(level) * envelope(fade, n, fs, length)
        eq(x, np.repeat(ref[:, None], ch, axis=1), f"{mode}", atol=1e-10)
        ctx.step()

    def uncorrelated(mode, f, length, fade, ch, pad):
        n, p = rnd(length * fs), rnd(pad * fs)
        x = frame(G.oscillator(f, fs, length, mode, None, -3.0, ch, True, fade, pad), n, p, ch, fs)
        # each channel: the same harmonics with one phase
        env = envelope(fade, n, fs, length)
        for c in range(ch):
            lim = fs // 2
            hs = [1] if mode == WF.Harmonic else [h for h in range(1, 2000) if h * f < lim and (mode == WF.Sawtooth or h % 2)]
            w = 2 * np.pi * f / fs * np.arange(n)
            sn = sum(a * np.sin(h * w) for h, a in zip(hs, amp(mode, hs)))
            cs = sum(a * np.cos(h * w) for h, a in zip(hs, amp(mode, hs)))
            b = np.stack([sn * env, cs * env], axis=1)
            k, res = np.linalg.lstsq(b, x[:, c], rcond=None)[:2]
            eq(b @ k, x[:, c], "not a phase-shifted wave", atol=1e-8)
            q = x[:, c][env == 1] if np.any(env == 1) else x[:, c]
            y = b @ k / np.where(env > 0, env, 1)
            if np.all(env[1:-1] > 0):
                true(np.max(np.abs(q)) <= lin(-3.0) * (1 + 1e-9), "peak")
        if ch > 1:
            true(any(np.max(np.abs(x[:, 0] - x[:, c])) > 1e-3 for c in range(1, ch)), "channels are equal")
        ctx.step()

    def amp(mode, hs):
        return {WF.Harmonic: lambda h: 1.0, WF.Square: lambda h: 1 / h, WF.Sawtooth: lambda h: (-1) ** (h + 1) / h, WF.Triangle: lambda h: (-1) ** ((h - 1) // 2) / h**2}[mode] and [
            {WF.Harmonic: 1.0, WF.Square: 1 / h, WF.Sawtooth: (-1) ** (h + 1) / h, WF.Triangle: (-1) ** ((h - 1) // 2) / h**2}[mode] for h in hs
        ]

    lengths = [0.21, 0.5, 0.633] if not ctx.thorough else [0.21, 0.29, 0.5, 0.57, 0.633, 1.0]
    pads = [0.0, 0.1, 0.29] if not ctx.thorough else [0.0, 0.1, 0.29, 0.57, 1.13]
    for mode in WF:
        for f in (fs / 40, fs / 7.3, 0.31 * fs):
            for length in lengths:
                for cutoff in (None, fs * 0.36, fs / 4):
                    if cutoff is not None and cutoff <= f and mode != WF.Harmonic:
                        continue
                    for fade in FADES:
                        for level, ch, pad in ((-10.0, 1, 0.0), (-3.0, 3, pads[1]), (0.0, 2, pads[2])) if not ctx.thorough else [(l, c, p) for l in (-10.0, -3.0, 0.0) for c in (1, 2, 3) for p in pads]:
                            ctx.case(f"oscillator/{fs} {mode.name} {f:.4g} {length} {cutoff} {fade} {level} {ch} {pad}", go, mode, f, length, cutoff, level, ch, fade, pad)
            for fade in FADES[1:]:
                for ch in (1, 2, 4):
                    for pad in (0.0, 0.29):
                        ctx.case(f"uncorrelated/{fs} {mode.name} {f:.4g} {fade} {ch} {pad}", uncorrelated, mode, f, 0.5, fade, ch, pad)
    for f, c in ((0.0, None), (-1.0, None), (fs, None), (fs / 2 + 1, None), (fs / 10, fs), (fs / 10, 0.0), (fs / 10, -3.0)):
        ctx.case(f"oscillator refuses/{fs} {f} {c}", lambda f=f, c=c: must_raise(lambda: G.oscillator(f, fs, 0.5, WF.Harmonic, c), "out of range"))
    ctx.case(f"oscillator refuses/{fs} padding", lambda: must_raise(lambda: G.oscillator(fs / 10, fs, 0.5, padding_end_seconds=-0.1), "negative padding"))


def sweeps(ctx, fs):
    def phase(kind, t, f1, f2, T):
        if kind == C.Linear:
            return 2 * np.pi * (f1 * t + (f2 - f1) / T * t**2 / 2)
        L = T / np.log(f2 / f1)
        return 2 * np.pi * f1 * L * (np.exp(t / L) - 1)

    def go(kind, rng, length, level, ch, fade, offset, pad):
        p = rnd(pad * fs)
        r = G.chirp(fs, kind, rng, length, level, ch, fade, offset, pad)
        f1, f2 = (15, fs // 2) if rng is None else sorted(rng)
        if kind == C.SyncLog:
            s, T = r
            k = T * f1 / np.log(f2 / f1)
            true(abs(k - round(k)) < 1e-6 and abs(T - length) <= np.log(f2 / f1) / f1, f"effective duration {T}: not synchronized")
            offset = 0.0
        else:
            s, T = r, length
        n = rnd(T * fs)
        x = frame(s, n, p, ch, fs)
        env = envelope(fade, n, fs, length)
        refs = []
        for t in (np.linspace(0, T, n), np.arange(n) / fs):
            y = np.sin(phase(kind, t, f1, f2, T) + offset)
            refs.append(y / np.max(np.abs(y)) * lin(level) * env)
        err = min(np.max(np.abs(x - y[:, None])) for y in refs)
        true(err < 1e-8, f"{kind}: differs from its definition by {err:.2g}")
        ctx.step()

    rngs = [None, (20, fs // 2), (fs // 4, 30), [fs // 10, fs // 5]]
    for kind in C:
        for rng in rngs:
            for length in (0.29, 0.57, 1.13) if not ctx.thorough else (0.29, 0.33, 0.57, 0.8, 1.0, 1.13, 2.3):
                for fade in FADES:
                    for level, ch, off, pad in ((-10.0, 1, 0.0, 0.0), (-1.0, 3, 1.0, 0.29), (0.0, 2, np.pi / 2, 0.1)) if not ctx.thorough else [
                        (l, c, o, p) for l in (-10.0, 0.0) for c in (1, 3) for o in (0.0, 1.0, -2.5) for p in (0.0, 0.29, 0.57, 1.0)
                    ]:
                        if kind == C.SyncLog and off:
                            off = 0.0
                        f1, f2 = (15, fs // 2) if rng is None else sorted(rng)
                        if kind == C.SyncLog and length * f1 / np.log(f2 / f1) < 0.5:
                            continue  # shorter than the first synchronized duration
                        ctx.case(f"chirp/{fs} {kind.name} {rng} {length} {fade} {level} {ch} {off:.3g} {pad}", go, kind, rng, length, level, ch, fade, off, pad)
    for rng in ((0, 100), (-5, 100), (10, fs), (10,), (1, 2, 3)):
        ctx.case(f"chirp refuses/{fs} {rng}", lambda rng=rng: must_raise(lambda: G.chirp(fs, C.Linear, rng), "invalid range"))
    ctx.case(f"chirp refuses/{fs} padding", lambda: must_raise(lambda: G.chirp(fs, padding_end_seconds=-0.1), "negative padding"))


def diracs(ctx):
    def go(n, d, ch, fs):
        s = G.dirac(n, fs, d, ch)
        x = frame(s, n, 0, ch, fs, dsp.ImpulseResponse)
        ref = np.zeros((n, ch))
        ref[d] = 1
        eq(x, ref, "dirac")
        ctx.step()

    for n in range(1, 40 if ctx.thorough else 17):
        for d in range(n):
            for ch in range(1, min(n, 4) + 1):
                for fs in (100, 48000):
                    ctx.case(f"dirac/{n} {d} {ch} {fs}", go, n, d, ch, fs)
    for a in ((0, 100, 0, 1), (-3, 100, 0, 1), (5, 100, 5, 1), (5, 100, -1, 1), (5, 100, 0, 0), (5, 0, 0, 1), (5.0, 100, 0, 1), (5, 100, 1.0, 1)):
        ctx.case(f"dirac refuses/{a}", lambda a=a: must_raise(lambda: G.dirac(*a), "invalid"))


def noises(ctx, fs, kind):
    name = kind.name if isinstance(kind, N) else f"beta{kind}"

    def slope(f):
        b = {N.White: 0, N.Pink: 1, N.Red: 2, N.Blue: -1, N.Violet: -2}.get(kind, kind)
        if kind == N.Grey:
            w = 12194.0**2 * f**4 / ((f**2 + 20.6**2) * np.sqrt((f**2 + 107.7**2) * (f**2 + 737.9**2)) * (f**2 + 12194.0**2))
            return 1 / w
        return f ** (-b / 2)

    def go(length, level, ch, fade, pad):
        n, p = rnd(length * fs), rnd(pad * fs)
        s = G.noise(length, fs, kind, level, ch, fade, pad)
        x = frame(s, n, p, ch, fs)
        peak = np.max(np.abs(x), axis=0)
        env = envelope(fade, n, fs, length)
        if fade is None or fade == FT.NoFade:
            eq(peak, np.full(ch, lin(level)), "peak", rtol=1e-9)
        else:
            true(np.all(peak <= lin(level) * (1 + 1e-9)), "peak")
            if np.any(env == 0):
                true(np.all(np.abs(x[env == 0]) < 1e-12), "faded ends")
            if fade == FT.Exponential or np.any(env == 0):
                true(np.all(np.abs(x) <= lin(level) * env[:, None] * (1 + 1e-9) + 1e-12), "louder than the fade")
            if np.any(env == 0):
                return ctx.step()
            x = x / env[:, None]
        true(np.all(np.abs(np.mean(x, axis=0)) < 1e-6), "mean")
        X = np.abs(np.fft.rfft(x, axis=0))
        f = np.fft.rfftfreq(n, 1 / fs)
        use = (f > 25) & (f > fs / n * 0.5) & (f < fs / 2)  # Nyquist bin counts once
        if not np.any(use):
            return ctx.step()
        r = X[use] / slope(f[use])[:, None]
        true(np.all(np.abs(r / np.median(r, axis=0) - 1) < 0.03), f"slope of {name} off by {np.max(np.abs(r / np.median(r, axis=0) - 1)):.2g}")
        if kind == N.White or kind == 0.0:
            r = X[1:-1] / np.median(X[1:-1], axis=0)
            true(np.all(np.abs(r - 1) < 0.03), "white noise lacks frequencies")
        if ch > 1 and n > 20:
            for a in range(ch):
                for b in range(a):
                    true(np.max(np.abs(x[:, a] - x[:, b])) > 1e-9 * lin(level), "channels share one realisation")
        ctx.step()

    lens = [0.29, 0.57, 1.0, 1.13, 0.02, 0.033] if not ctx.thorough else [0.02, 0.025, 0.033, 0.05, 0.29, 0.33, 0.57, 0.8, 1.0, 1.13, 1.501, 2.0]
    lens = lens if fs < 10000 else [0.033, 0.29]
    for length in lens:
        for level in (-10.0, 0.0, -60.0):
            for ch in (1, 2, 4):
                for fade in FADES if length * fs * 0.05 >= 2 else FADES[:2]:
                    for pad in (0.0, 0.29, 0.5) if not ctx.thorough else (0.0, 0.1, 0.29, 0.5, 0.57):
                        ctx.case(f"noise/{fs} {name} {length} {level} {ch} {fade} {pad}", go, length, level, ch, fade, pad)

    def history():
        a = G.noise(0.5, fs, kind, fade=None).time_data
        b = G.noise(0.5, fs, kind, fade=None).time_data
        true(np.max(np.abs(a - b)) > 1e-6, "noises repeat")

    ctx.case(f"noise differs/{fs} {name}", history)
    for a in (dict(length_seconds=0.0), dict(length_seconds=-1.0), dict(peak_level_dbfs=1.0), dict(number_of_channels=0), dict(padding_end_seconds=-1.0)):
        ctx.case(f"noise refuses/{fs} {name} {a}", lambda a=a: must_raise(lambda: G.noise(**{**dict(length_seconds=0.5, sampling_rate_hz=fs, type_of_noise=kind), **a}), "invalid"))


def run(ctx):
    rates = [1000, 1001, 4800] if not ctx.thorough else [1000, 1001, 2205, 4800, 8000]
    kinds = list(N) + [0.0, 1.0, -1.0, 0.5, 3.0]
    ctx.parallel(osc, [(fs,) for fs in rates])
    ctx.parallel(sweeps, [(fs,) for fs in rates])
    ctx.parallel(noises, [(fs, k) for fs in rates + [48000] for k in kinds])
    ctx.parallel(diracs, [()])
    ctx.bound(sampling_rates=len(rates), noise_types=len(kinds), fades=len(FADES), chirps=3, waveforms=4)
    ctx.assume("sweeps may sample their time axis on n/fs or on the closed interval [0, length]; noise slopes are compared above 25 Hz")
