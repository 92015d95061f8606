"""C18 effects: every effect x parameter set x input against independent
sample-by-sample reference models, contract on every input (structure,
finiteness, silence, channel independence, determinism), breadth-first search
over parameter histories against freshly built effects."""

import contextlib
import io
import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

E = dsp.effects
D = E.DistortionType
FS = 1000


# ------------------------------------------------------------------- inputs
def inputs(thorough):
    out = {}
    for n in (1, 2, 5, 24) + ((60, 61) if thorough else ()):
        k = np.arange(n)
        out[f"silence{n}"] = np.zeros((n, 1))
        out[f"dirac{n}"] = (k == n // 2)[:, None] * 0.5
        out[f"alt{n}"] = ((-1.0) ** k)[:, None]
        if n > 1:
            out[f"mix{n}x2"] = np.stack([R.td(n, 1, 3)[:, 0], 0.1 * R.td(n, 1, 4)[:, 0]], axis=1)
            out[f"half_silent{n}x2"] = np.stack([np.zeros(n), R.td(n, 1, 5)[:, 0]], axis=1)
    out["levels"] = np.repeat([0.01, 0.1, 1.0, 0.5, 0.001, 0.0, 0.3], 8)[:, None] * (-1.0) ** np.arange(56)[:, None]
    out["tiny"] = 1e-6 * R.td(24, 1, 6)
    out["huge"] = 1e6 * R.td(24, 1, 6)
    out["dc"] = np.full((24, 1), 0.25)
    out["three"] = R.td(30, 3, 2)
    return out


def sig(x, fs=FS):
    return dsp.Signal(None, x, fs, constrain_amplitude=False)


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


def peak(x):
    p = np.max(np.abs(x), axis=0)
    return np.where(p > 0, p, 1.0), p


def restore(y, p):
    q, _ = peak(y)
    return y * (p / q)


# --------------------------------------------------------- reference models
def shape(kind, x, level, offset):
    lv, of = 10 ** (level / 20), 10 ** (offset / 20)
    q, _ = peak(x)
    v = x / q
    if kind is D.Arctan:
        return 2 / np.pi * np.arctan(v * lv + of)
    if kind is D.HardClip:
        return np.minimum(1, np.maximum(-1, v * lv + of))
    if kind is D.SoftClip:
        u = (v * 2 / 3 + of) * lv
        return np.where(u >= 1, 2 / 3, np.where(u <= -1, -2 / 3, u - u**3 / 3))
    return x


def distortion(x, fs, types, levels, mix, offsets, post):
    _, p = peak(x)
    y = sum(m * restore(shape(k, x, lv, of), p) for k, lv, m, of in zip(types, levels, mix, offsets) if m)
    return restore(y, p) * 10 ** (post / 20)


def curve(L, T, ratio, W, down):
    d = L - T
    if W > 0 and abs(d) <= W / 2:
        if down:
            return L + (1 / ratio - 1) * (d + W / 2) ** 2 / (2 * W)
        return L - (1 / ratio - 1) * (d - W / 2) ** 2 / (2 * W)
    above = d > 0
    return T + d / ratio if above == down and d != 0 else L


def compressor(x, fs, threshold=-10, attack=0.5, release=20, ratio=3, relative=True, knee=0, pre=0, post=0, mix=100, makeup=True, down=True):
    x = x * 10 ** (pre / 20)
    rms0 = np.sqrt(np.mean(x**2, axis=0))
    q, _ = peak(x)
    ref = q if relative else np.ones_like(q)
    v = x / ref

    def coeff(ms):
        n = int(ms * 1e-3 * fs)
        return 1.0 if n == 0 else 1 - 0.05 ** (1 / n)

    ca, cr = coeff(attack), coeff(release)
    y = np.empty_like(v)
    for c in range(v.shape[1]):
        g = 1.0
        for i in range(len(v)):
            L = 10 * np.log10(max(v[i, c] ** 2, 1e-30))
            want = 10 ** ((curve(L, threshold, ratio, knee, down) - L) / 20)
            more = want < g if down else want > g
            k = ca if more else cr
            g = k * want + (1 - k) * g
            y[i, c] = v[i, c] * (g * mix / 100 + 1 - mix / 100)
    y = y * ref
    if makeup:
        r = np.sqrt(np.mean(y**2, axis=0))
        y = y * (rms0 / np.where(r > 0, r, 1))
    return y * 10 ** (post / 20)


def wave(kind, freq, fs, n):
    ph = freq / fs * np.arange(n)
    if kind == "harmonic":
        return np.sin(2 * np.pi * ph)
    if kind == "square":
        return np.sign(np.sin(2 * np.pi * ph))
    if kind == "sawtooth":
        return 2 * (ph - np.floor(ph)) - 1
    return 2 / np.pi * np.arcsin(np.sin(2 * np.pi * ph))


def fit(x, n):
    return np.concatenate([x[:n], np.zeros((max(0, n - len(x)),) + x.shape[1:])])


def modulation(m, fs, n):
    return wave(m[0], m[1], fs, n) if isinstance(m, tuple) else fit(np.asarray(m, float), n)


def tremolo(x, fs, depth, mod):
    return x * np.abs(1 + depth * modulation(mod, fs, len(x)))[:, None]


def chorus(x, fs, depths, delays, mods, mix):
    n = len(x)
    if isinstance(mods, np.ndarray):
        d = fit(mods.reshape(len(mods), -1), n)
        voices = [d[:, k] for k in range(d.shape[1])]
    else:
        v = max(len(depths), len(delays), len(mods))
        ex = lambda q: list(q) * v if len(q) == 1 else list(q)
        voices = [modulation(m, fs, n) * a + b for m, a, b in zip(ex(mods), ex(depths), ex(delays))]
    wet = x.copy()
    for d in voices:
        for i in range(n):
            j = i - int(np.round(d[i] * 1e-3 * fs))
            if 0 <= j < n:
                wet[i] += x[j]
    _, p = peak(x)
    return restore(wet * mix / 100 + x * (1 - mix / 100), p)


def delay(x, fs, ms, feedback, sat):
    d = int(np.round(ms * 1e-3 * fs))
    f = {None: lambda v: v, "arctan": lambda v: 0.5 * np.arctan(2 * v), "custom": lambda v: v / (1 + np.abs(v))}[sat]
    n = len(x) + int(d * (1 + feedback * 15))
    y = fit(x, n)
    for i in range(d, n):
        y[i] = y[i] + feedback * f(y[i - d])
    _, p = peak(x)
    return restore(y, p)


def custom(v):
    return float(v / (1 + abs(v)))


def frames(x, L, hop):
    n = len(x) + 2 * L
    pad = np.concatenate([np.zeros((L, x.shape[1])), x, np.zeros((L, x.shape[1]))])
    k = int(np.ceil((n - L) / hop)) + 1
    pad = np.concatenate([pad, np.zeros((k * hop + L, x.shape[1]))])
    return np.stack([pad[i * hop : i * hop + L] for i in range(k)]), n


def subtract(x, fs, win, hop, exponent, factor, noise):
    """noise(frame spectra magnitudes [frames, bins], frames) -> subtrahend per frame"""
    L = len(win)
    out = np.zeros_like(x)
    for c in range(x.shape[1]):
        fr, n = frames(x[:, c : c + 1], L, hop)
        fr = fr[:, :, 0]
        sp = np.fft.rfft(fr * win, axis=1)
        mag = np.abs(sp)
        new = np.maximum(mag**exponent - factor * noise(mag, fr), 0) ** (1 / exponent)
        y = np.fft.irfft(new * np.exp(1j * np.angle(sp)), L, axis=1)
        acc, env = np.zeros(len(fr) * hop + L), np.zeros(len(fr) * hop + L)
        for i in range(len(fr)):
            acc[i * hop : i * hop + L] += y[i] * win
            env[i * hop : i * hop + L] += win**2
        out[:, c] = acc[L : L + len(x)] / np.maximum(env[L : L + len(x)], 1e-12)
    _, p = peak(x)
    return restore(out, p)


# ------------------------------------------------------------------ configs
def build_lfo(m):
    if isinstance(m, tuple):
        return E.LFO(m[1], m[0])
    return np.asarray(m, float)


def distortion_configs(thorough):
    c = []
    levels = (-6, 0, 20, 50) if thorough else (0, 20)
    for k in (D.Arctan, D.HardClip, D.SoftClip, D.NoDistortion):
        for lv in levels:
            for mix in (0, 40, 100):
                for of in (-np.inf, -20):
                    for post in (0, 6):
                        c.append(([k], [lv], [mix], [of], post))
    for ks in itertools.product((D.Arctan, D.HardClip, D.SoftClip, D.NoDistortion), repeat=2):
        for mix in ([30, 70], [100, 0], [0, 100]):
            c.append((list(ks), [10, 25], mix, [-np.inf, -30], 0))
    c.append(([D.SoftClip, D.NoDistortion, D.Arctan], [30, 0, 6], [20, 50, 30], [-np.inf, -10, -40], -3))
    for ks, lv, mix, of, post in c:
        def make(ks=ks, lv=lv, mix=mix, of=of, post=post):
            e = E.Distortion()
            one = len(ks) == 1
            e.set_advanced_parameters(ks[0] if one else ks, lv[0] if one else np.array(lv), mix[0] if one else np.array(mix), of[0] if one else np.array(of), post)
            return e

        def model(x, fs, ks=ks, lv=lv, mix=mix, of=of, post=post):
            if len(ks) == 1:
                return distortion(x, fs, ks + [D.NoDistortion], lv + [0], [mix[0] / 100, 1 - mix[0] / 100], of + [-np.inf], post)
            return distortion(x, fs, ks, lv, np.array(mix) / 100, of, post)

        yield "distortion/" + "+".join(k.name for k in ks) + f"-{lv}-{mix}-{of}-{post}".replace(" ", ""), make, model


def compressor_configs(thorough):
    c = []
    for T in (-40, -20, -10, 0):
        for ratio in (1, 3, 10):
            for at, rel in ((0, 0), (0.5, 20), (5, 0), (0, 4)):
                for relative in (True, False):
                    for down in (True, False):
                        c.append(dict(threshold=T, ratio=ratio, attack=at, release=rel, relative=relative, down=down))
    for T in (-20, -10):
        for knee in (0, 6):
            for pre, post in ((0, 0), (6, 0), (0, 6), (-6, 3)):
                for mix in (30, 100):
                    for makeup in (True, False):
                        for relative in (True, False):
                            c.append(dict(threshold=T, knee=knee, pre=pre, post=post, mix=mix, makeup=makeup, relative=relative, down=(pre != 6)))
    for kw in c:
        def make(kw=kw):
            e = E.Compressor(kw.get("threshold", -10), kw.get("attack", 0.5), kw.get("release", 20), kw.get("ratio", 3), kw.get("relative", True))
            e.set_advanced_parameters(kw.get("knee", 0), kw.get("pre", 0), kw.get("post", 0), kw.get("mix", 100), kw.get("makeup", True), kw.get("down", True))
            return e
        yield "compressor/" + ",".join(f"{k}={v}" for k, v in kw.items()), make, lambda x, fs, kw=kw: compressor(x, fs, **kw)


MODS = [("harmonic", 30.0), ("square", 70.0), ("sawtooth", 40.0), ("triangle", 55.0), ("harmonic", 1)]


def tremolo_configs(thorough):
    for m in MODS + [np.linspace(-1, 2, 10), np.zeros(100), np.linspace(0, 1, 24)]:
        for depth in (0.2, 0.5, 1):
            nm = f"{m[0]}{m[1]}" if isinstance(m, tuple) else f"array{len(m)}-{m[-1]}"
            yield f"tremolo/{nm}-{depth}", lambda m=m, depth=depth: E.Tremolo(depth, build_lfo(m)), lambda x, fs, m=m, depth=depth: tremolo(x, fs, depth, m)


def chorus_configs(thorough):
    c = []
    for m in MODS:
        for dep, base in ((0, 5), (3, 4.13), (2, 2.13), (5, 1.13), (4, 40.13)):
            for mix in (25, 100):
                c.append(([dep], [base], [m], mix))
    c.append(([1, 2, 3], [4], [MODS[0]], 80))
    c.append(([2], [4, 8], [MODS[3]], 100))
    c.append(([1, 2], [3, 6], [MODS[0], MODS[2]], 100))
    for dep, base, mods, mix in c:
        def make(dep=dep, base=base, mods=mods, mix=mix):
            un = lambda q: q[0] if len(q) == 1 else np.array(q)
            ms = [build_lfo(m) for m in mods]
            return E.Chorus(un(dep), un(base), ms[0] if len(ms) == 1 else ms, mix)
        yield f"chorus/{dep}-{base}-{len(mods)}{mods[0][0]}{mods[0][1]}-{mix}".replace(" ", ""), make, lambda x, fs, a=(dep, base, mods, mix): chorus(x, fs, *a)
    for k, arr in enumerate((np.linspace(0, 6, 24), np.linspace(1, 3, 50)[:, None], np.stack([np.full(24, 2.0), np.linspace(5, 0, 24)], axis=1))):
        yield f"chorus/array{k}", lambda arr=arr: E.Chorus(1.0, 1.0, arr.copy(), 70), lambda x, fs, arr=arr: chorus(x, fs, None, None, arr, 70)


def delay_configs(thorough):
    for ms in (1, 3, 12, 2.4):
        for fb in (0.1, 0.5, 0.9):
            for sat in (None, "arctan", "custom"):
                def make(ms=ms, fb=fb, sat=sat):
                    e = E.DigitalDelay(ms, fb)
                    e.set_advanced_parameters(custom if sat == "custom" else sat)
                    return e
                yield f"delay/{ms}-{fb}-{sat}", make, lambda x, fs, a=(ms, fb, sat): delay(x, fs, *a)


def subtractor_configs(thorough):
    W = dsp.Window
    for win in (W.Hann, W.Hamming):
        for ov in (50, 75):
            for exponent in (1, 2, 1.5):
                for factor in (0.5, 2):
                    for L in (8, 16):
                        for thr in (-200, -40, -10) if factor == 2 else (-10,):
                            def make(win=win, ov=ov, exponent=exponent, factor=factor, L=L, thr=thr):
                                e = E.SpectralSubtractor(True, thr, (L - 0.5) / FS)
                                e.set_advanced_parameters(ov, win, 0.7, factor, exponent)
                                return e

                            def model(x, fs, win=win, ov=ov, exponent=exponent, factor=factor, L=L, thr=thr):
                                w = np.maximum(window(win, L), 1e-6)

                                def noise(mag, fr):
                                    out, cur = [], np.zeros(mag.shape[1])
                                    for i in range(len(mag)):
                                        if 10 * np.log10(max(np.var(fr[i]), 1e-30)) < thr:
                                            cur = 0.7 * cur + 0.3 * mag[i]
                                        out.append(cur)
                                    return np.array(out) ** exponent
                                return subtract(x, fs, w, L * (100 - ov) // 100, exponent, factor, noise)
                            yield f"denoise/adaptive-{win.name}-{ov}-{exponent}-{factor}-{L}-{thr}", make, model

                        def make2(win=win, ov=ov, exponent=exponent, factor=factor, L=L):
                            e = E.SpectralSubtractor(False, -40, 0.1, spectrum(L))
                            e.set_advanced_parameters(ov, win, 0.7, factor, exponent)
                            return e

                        def model2(x, fs, win=win, ov=ov, exponent=exponent, factor=factor, L=L):
                            w = np.maximum(window(win, L), 1e-6)
                            return subtract(x, fs, w, L * (100 - ov) // 100, exponent, factor, lambda mag, fr: spectrum(L) ** (exponent / 2))
                        yield f"denoise/given-{win.name}-{ov}-{exponent}-{factor}-{L}", make2, model2


def spectrum(L):
    return 0.05 + 0.04 * np.cos(np.arange(L // 2 + 1))


def window(win, L):
    k = np.arange(L)
    a = 0.5 if win is dsp.Window.Hann else 0.54
    return a - (1 - a) * np.cos(2 * np.pi * k / L)


GROUPS = dict(distortion=distortion_configs, compressor=compressor_configs, tremolo=tremolo_configs, chorus=chorus_configs, delay=delay_configs, denoise=subtractor_configs)


# -------------------------------------------------------------------- check
def judge(make, model, x, tol):
    e = make()
    s = sig(x)
    y = pure(lambda z: quiet(e.apply, z), s)
    true(type(y) is dsp.Signal, "type of the result")
    same(y.sampling_rate_hz, FS, "sampling rate")
    same(y.number_of_channels, x.shape[1], "channels")
    true(np.isfinite(y.time_data).all(), "non-finite samples")
    eq(y.time_data, model(x, FS), "samples", tol, 1e-12)
    eq(quiet(e.apply, s).time_data, y.time_data, "second application", 0, 0)
    if x.shape[1] > 1:
        for c in range(x.shape[1]):
            if len(x) >= 1:
                one = quiet(make().apply, sig(x[:, c : c + 1]))
                eq(one.time_data[:, 0], y.time_data[:, c], f"channel {c} alone", 1e-9, 1e-12)


def explore(ctx, group, part, parts, thorough):
    X = inputs(thorough)
    for k, (name, make, model) in enumerate(GROUPS[group](thorough)):
        if k % parts != part:
            continue
        for nm, x in X.items():
            if len(x) < x.shape[1]:
                continue
            if group == "denoise" and nm in ("tiny", "huge") and not thorough:
                continue
            ctx.case(f"{name}/{nm}", judge, make, model, x, 1e-7 if group == "denoise" else 1e-9)
            ctx.state(name, nm)
            ctx.step()


def static_denoise(ctx):
    """Static mode with the noise taken from the signal itself."""
    n = 1600
    rng = np.random.RandomState(3)
    k = np.arange(n)
    tone = np.sin(2 * np.pi * 0.11 * k) * (k >= n // 2)
    for level, gain, ov, ex, factor in itertools.product((1e-3, 3e-3), (1e-2, 1.0, 100.0), (50, 75), (1, 2), (1, 2)):
        x = (tone + level * rng.standard_normal(n))[:, None]

        def one():
            def run(z):
                e = E.SpectralSubtractor(False, -40, 0.03)
                e.set_advanced_parameters(overlap_percent=ov, subtraction_exponent=ex, subtraction_factor=factor)
                s = sig(z)
                r = pure(lambda z: quiet(e.apply, z), s)
                same(r.time_data.shape, z.shape, "shape")
                return r.time_data
            y = run(gain * x)
            true(np.isfinite(y).all(), "finite")
            eq(y, gain * run(x), "scaling the signal scales the result", 1e-6, 1e-9 * gain)
            before = np.sqrt(np.mean(x[100:700] ** 2))
            after = np.sqrt(np.mean(y[100:700] ** 2)) / gain
            true(after < 0.85 * before, f"noise is not reduced: {before} -> {after}")
            eq(y[950:1500] / gain, x[950:1500], "the tone is kept", 0.02, 0.05)
        ctx.case(f"static/{level}-{gain}-{ov}-{ex}-{factor}", one)
        ctx.step()
    for nm, x in (("activity only", np.sign(np.sin(2 * np.pi * 0.21 * k + 0.1))[:, None]), ("silence", np.zeros((n, 2)))):
        def two():
            e = E.SpectralSubtractor(False, -40, 0.03)
            eq(quiet(e.apply, sig(x)).time_data, x, "unchanged", 1e-9, 1e-9)
        ctx.case(f"static/{nm}", two)


def detected_noise(ctx):
    """Static mode subtracts the spectrum of what the activity detector finds
    to be noise, per channel, with its attack and release."""
    n = 900
    rng = np.random.RandomState(5)
    k = np.arange(n)
    on = (k // 150) % 2 == 1
    x = np.stack([np.sin(2 * np.pi * 0.11 * k) * on, 0.6 * np.sin(2 * np.pi * 0.2 * k) * (k > 500)], axis=1)
    x += rng.standard_normal((n, 2)) * [3e-3, 6e-3]
    W = dsp.Window
    for (attack, release), ov, win, ex, L in itertools.product(((0, 0), (0.5, 30), (5, 0), (20, 100)), (50, 75), (W.Hann, W.Hamming), (1, 2), (16, 32)):
        def one():
            e = E.SpectralSubtractor(False, -30, (L - 0.5) / FS)
            e.set_advanced_parameters(ov, win, 0.9, 2, ex, attack, release)
            y = quiet(e.apply, sig(x)).time_data
            for c in range(2):
                noise = dsp.activity_detector(sig(x), -30, c, attack_time_ms=attack, release_time_ms=release)[1]["noise"]
                noise.set_spectrum_parameters(dsp.SpectrumMethod.WelchPeriodogram, window_length_samples=L, overlap_percent=ov, window_type=win, scaling=dsp.SpectrumScaling.FFTBackward)
                power = np.abs(noise.get_spectrum()[1][:, 0]) ** 2
                d = E.SpectralSubtractor(False, -30, 0.1, power)
                d.set_advanced_parameters(ov, win, 0.9, 2, ex)
                eq(y[:, c], quiet(d.apply, sig(x[:, c : c + 1])).time_data[:, 0], f"channel {c}", 1e-7, 1e-10)
        ctx.case(f"detected/{attack}-{release}-{ov}-{win.name}-{ex}-{L}", one)
        ctx.step()


def structures(ctx):
    """Bands, impulse responses, rejected inputs."""
    effects = dict(distortion=lambda: E.Distortion(12.0), compressor=lambda: E.Compressor(-20.0), tremolo=lambda: E.Tremolo(0.4, E.LFO(20, "triangle")),
                   chorus=lambda: E.Chorus(2, 4, E.LFO(15, "harmonic"), 60), delay=lambda: E.DigitalDelay(5, 0.4), denoise=lambda: E.SpectralSubtractor(True, -20.0, 0.012))
    for nm, mk in effects.items():
        for ch in (1, 2):
            for silent in (None, 0, 1, 2):
                bands = [R.td(40, ch, 3 + i) * (0.1 if i else 1.0) * (0 if silent == i else 1) for i in range(3)]

                def one():
                    mb = dsp.MultiBandSignal([sig(b) for b in bands])
                    y = pure(lambda z: quiet(mk().apply, z), mb)
                    true(type(y) is dsp.MultiBandSignal, "type")
                    same(len(y.bands), 3, "bands")
                    for i, b in enumerate(bands):
                        eq(y.bands[i].time_data, quiet(mk().apply, sig(b)).time_data, f"band {i}", 1e-12, 1e-14)
                ctx.case(f"structure/{nm}-bands-{ch}-{silent}", one)
                ctx.step()

        def ir():
            x = R.td(30, 1, 4)
            h = dsp.ImpulseResponse(None, x, FS, constrain_amplitude=False)
            y = quiet(mk().apply, h)
            true(isinstance(y, dsp.ImpulseResponse), "type of the result of an impulse response")
            eq(y.time_data, quiet(mk().apply, sig(x)).time_data, "samples", 1e-12, 1e-14)
        ctx.case(f"structure/{nm}-ir", ir)
        ctx.case(f"structure/{nm}-rejects", lambda: must_raise(lambda: mk().apply(np.zeros(10)), "an array"))


def lfo(ctx, thorough):
    for kind, freq, smooth, fs in itertools.product(("harmonic", "square", "sawtooth", "triangle"), (1, 3.7, 25.0), (0, 1, 5, 10), (500, 1000)):
        def one():
            o = E.LFO(freq, kind, False, smooth)
            long = o.get_waveform(fs, 3 * fs)
            same(long.shape, (3 * fs,), "length")
            if smooth == 0 or kind == "harmonic":
                w = wave(kind, freq, fs, 3 * fs)
                near = np.zeros(3 * fs, bool)
                if kind in ("square", "sawtooth"):
                    ph = freq / fs * np.arange(3 * fs)
                    near = np.abs(2 * ph - np.round(2 * ph)) < 1e-9  # jumps
                eq(long[~near], w[~near], "waveform", 1e-9, 1e-9)
            true(np.max(np.abs(long)) <= 1 + 1e-4, f"peak {np.max(np.abs(long))}")
            true(np.max(np.abs(long)) >= 0.9, f"peak {np.max(np.abs(long))}")
            for n in (0, 1, 2, fs // 20, fs // 3, fs):
                eq(o.get_waveform(fs, n), long[:n], f"{n} samples are the first of more", 1e-9, 1e-12)
            same(len(o.get_waveform(fs)), int(fs / freq), "one period")
        ctx.case(f"lfo/{kind}-{freq}-{smooth}-{fs}", one)
        ctx.step()
    for kind, freq, smooth, seed in itertools.product(("harmonic", "square", "sawtooth", "triangle"), (2, 12.5), (0, 1, 5, 10), range(4)):
        def drawn():
            """A drawn phase: the same waveform from some starting point"""
            N, fs = 20000, 1000
            g = E.LFO(1, kind, False, smooth).get_waveform(N, N)
            o = E.LFO(freq, kind, True, smooth)
            np.random.seed(seed)
            y, y2 = o.get_waveform(fs, 600), o.get_waveform(fs, 600)
            same(y.shape, (600,), "length")
            true(np.max(np.abs(y)) <= 1 + 1e-4, "peak")
            true(not np.array_equal(y, y2), "another phase in another call")
            adv = np.arange(600) * freq / fs * N
            best = 1e9
            for k in range(0, N, 4):
                if abs(g[k] - y[0]) < 0.02:
                    e = np.sort(np.abs(g[np.round(k + adv).astype(int) % N] - y))
                    best = min(best, e[int(0.95 * len(e))])
            true(best < 0.01, f"not the waveform from any starting point: {best}")
        ctx.case(f"lfo/drawn {kind}-{freq}-{smooth}-{seed}", drawn)
        ctx.step()
    base = dict(quarter=1, half=2, whole=4, eighth=1 / 2, sixteenth=1 / 4, quintuplet=1 / 5)
    base["32th"] = 1 / 8
    for (note, beats), mod, bpm in itertools.product(base.items(), ("", " 3", " dotted"), (30, 60, 90.0, 120, 200)):
        def two():
            length = beats * {"": 1, " 3": 2 / 3, " dotted": 1.5}[mod] * 60 / bpm
            eq(E.get_time_period_from_musical_rhythm(note + mod, bpm), length, "period", 1e-12)
            eq(E.get_frequency_from_musical_rhythm(note + mod, bpm), 1 / length, "frequency", 1e-12)
            o = E.LFO((note + mod, bpm), "harmonic")
            eq(o.get_waveform(1000, 50), np.sin(2 * np.pi / length * np.arange(50) / 1000), "LFO", 1e-9, 1e-9)
        ctx.case(f"rhythm/{note}{mod}-{bpm}", two)
        ctx.step()
    ctx.case("rhythm/invalid", lambda: must_raise(lambda: E.get_frequency_from_musical_rhythm("nothing", 60), "unknown note"))


# ---------------------------------------------------------------- histories
PROBES = [np.concatenate([0.02 * R.td(20, 1, 3), R.td(20, 1, 5), 0.3 * R.td(15, 1, 6)]), R.td(30, 2, 7)]


def history_ops(which):
    ops = []
    if which == "compressor":
        for k, v in (("threshold_dbfs", -25), ("attack_time_ms", 4.0), ("release_time_ms", 9.0), ("ratio", 8), ("relative_to_peak_level", False), ("threshold_dbfs", -5), ("ratio", 1)):
            ops.append((f"{k}={v}", ("set", {k: v})))
        for kw in (dict(), dict(knee_factor_db=4, mix_percent=50), dict(automatic_make_up_gain=False, post_gain_db=3), dict(downward_compression=False, pre_gain_db=2)):
            ops.append((f"adv{list(kw.values())}", ("adv", kw)))
    elif which == "tremolo":
        for kw in (dict(depth=0.9), dict(depth=0.3), dict(modulator="a"), dict(modulator="b"), dict(depth=0.7, modulator="c")):
            ops.append((str(sorted(kw.items())), ("set", kw)))
    elif which == "chorus":
        for kw in (dict(depths_ms=3.0), dict(base_delays_ms=9.0), dict(modulators="a"), dict(mix_percent=40), dict(depths_ms=(1, 2)), dict(base_delays_ms=(7, 5)), dict(modulators="b", mix_percent=90), dict(modulators="c")):
            ops.append((str(sorted(kw.items())), ("set", kw)))
    elif which == "delay":
        for kw in (dict(delay_time_ms=4), dict(delay_time_ms=7), dict(feedback=0.6), dict(feedback=0.2, delay_time_ms=2)):
            ops.append((str(sorted(kw.items())), ("set", kw)))
        for sat in (None, "arctan"):
            ops.append((f"sat{sat}", ("adv", dict(saturation=sat))))
    elif which == "denoise":
        for kw in (dict(threshold_rms_dbfs=-10.0), dict(threshold_rms_dbfs=-30), dict(block_length_s=0.014), dict(adaptive_mode=True), dict(adaptive_mode=False), dict(spectrum_to_subtract="s"), dict(spectrum_to_subtract=False)):
            ops.append((str(sorted(kw.items())), ("set", kw)))
        for kw in (dict(), dict(overlap_percent=75, subtraction_factor=1), dict(subtraction_exponent=1, noise_forgetting_factor=0.5)):
            ops.append((f"adv{list(kw.values())}", ("adv", kw)))
    elif which == "lfo":
        for kw in (dict(frequency_hz=7), dict(frequency_hz=("eighth", 90)), dict(waveform="square"), dict(waveform="triangle"), dict(smooth=4), dict(smooth=0), dict(random_phase=False)):
            ops.append((str(sorted(kw.items(), key=str)), ("set", kw)))
    ops.append(("apply0", ("apply", 0)))
    ops.append(("apply1", ("apply", 1)))
    return ops


VALUES = dict(a=("triangle", 45.0), b=("harmonic", 12), c=np.linspace(0.5, 4, 40), s=spectrum(16))
START = dict(
    compressor=dict(threshold_dbfs=-10, attack_time_ms=0.5, release_time_ms=20, ratio=3, relative_to_peak_level=True),
    tremolo=dict(depth=0.5, modulator="b"),
    chorus=dict(depths_ms=2.0, base_delays_ms=5.0, modulators="b", mix_percent=70),
    delay=dict(delay_time_ms=5, feedback=0.3),
    denoise=dict(adaptive_mode=True, threshold_rms_dbfs=-20, block_length_s=0.028, spectrum_to_subtract=False),
    lfo=dict(frequency_hz=11, waveform="harmonic", random_phase=False, smooth=0),
)
CLASS = dict(compressor=E.Compressor, tremolo=E.Tremolo, chorus=E.Chorus, delay=E.DigitalDelay, denoise=E.SpectralSubtractor, lfo=E.LFO)
ADV = dict(compressor={}, delay={}, denoise={})


def args(which, kw):
    out = {}
    for k, v in kw.items():
        if k in ("modulator", "modulators"):
            v = build_lfo(VALUES[v])
        elif isinstance(v, str) and v in VALUES:
            v = VALUES[v].copy()
        elif isinstance(v, tuple) and k != "frequency_hz":
            v = np.array(v, float)
        out[k] = v
    return out


def fresh(which, model):
    e = CLASS[which](**args(which, model["set"]))
    if which in ADV:
        e.set_advanced_parameters(**model["adv"])
    return e


def output(which, e, x):
    if which == "lfo":
        return e.get_waveform(FS, len(x))[:, None]
    return quiet(e.apply, sig(x)).time_data


def histories(ctx, which, depth):
    model = dict(set=dict(START[which]), adv={}, voices=1)

    def apply(o, m, op):
        kind, v = op[1]
        if kind == "apply":
            eq(output(which, o, PROBES[v]), output(which, fresh(which, m), PROBES[v]), "result", 1e-12, 1e-14)
            return o, m
        if kind == "adv":
            o.set_advanced_parameters(**v)
            m["adv"] = v
        else:
            if which == "chorus" and any(isinstance(q, tuple) for q in v.values()) and m["set"]["modulators"] == "c":
                return None  # array modulators fix the number of voices
            if which == "chorus" and v.get("modulators") == "c" and any(isinstance(m["set"][q], tuple) for q in ("depths_ms", "base_delays_ms")):
                return None
            if which == "denoise" and v.get("adaptive_mode") and not isinstance(m["set"]["spectrum_to_subtract"], bool):
                return None  # documented as unsupported
            o.set_parameters(**args(which, v))
            m["set"].update(v)
            if which == "chorus":
                # the number of voices only grows: single values apply to all
                if any(isinstance(q, tuple) for q in v.values()):
                    m["voices"] = 2
                for q in ("depths_ms", "base_delays_ms"):
                    if m["voices"] == 2 and not isinstance(m["set"][q], tuple):
                        m["set"][q] = (m["set"][q],) * 2
            if which == "denoise" and v.get("spectrum_to_subtract") == "s":
                m["set"]["adaptive_mode"] = False
        for x in PROBES:
            eq(output(which, o, x), output(which, fresh(which, m), x), "result after the change of parameters", 1e-12, 1e-14)
        return o, m

    e = fresh(which, model)
    ctx.bfs(f"histories/{which}", e, history_ops(which), apply, depth, model=model)


def run(ctx):
    t = ctx.thorough
    depth = dict(compressor=3 if t else 2, tremolo=4 if t else 3, chorus=4 if t else 3, delay=4 if t else 3, denoise=4 if t else 3, lfo=4 if t else 3)
    ctx.bound(inputs=len(inputs(t)), configs={g: sum(1 for _ in f(t)) for g, f in GROUPS.items()}, history_depth=depth)
    ctx.assume("the phase that a random-phase LFO draws is not judged: only that the waveform is the one of its kind from some starting point")
    split = dict(distortion=2, compressor=6, tremolo=1, chorus=3, delay=2, denoise=6)
    jobs = [(explore, g, p, split[g], t) for g in GROUPS for p in range(split[g])]
    jobs += [(static_denoise,), (detected_noise,), (structures,), (lfo, t)]
    jobs += [(histories, w, depth[w]) for w in START]
    ctx.parallel(dispatch, [(j[0].__name__, j[1:]) for j in jobs])


def dispatch(ctx, name, a):
    globals()[name](ctx, *a)
