"""C22 room acoustics: decays with known reverberation time and energies,
image sources enumerated one by one, closed forms of rooms."""

import contextlib
import io
import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

RA = dsp.room_acoustics
RT, DE = RA.ReverbTime, RA.RoomAcousticsDescriptor
C = 343


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def ir(x, fs):
    return dsp.ImpulseResponse(None, x, fs, constrain_amplitude=False)


def decay(T, fs, dur, pre=0, kind="exp"):
    n = int(dur * fs)
    x = 10 ** (-3 * np.arange(n) / fs / T)
    if kind == "sign":
        x = x * np.where((np.arange(n) * 7919 // 13) % 2, 1.0, -1.0)
    return np.concatenate([np.zeros(pre), x])


# -------------------------------------------------------- reverberation time
def seconds(r, mode):
    return r * (6 if mode is RT.EDT else 1)


def reverb(ctx, fs, T, thorough):
    modes = (RT.Adaptive, RT.T20, RT.T30, RT.EDT, RT.T60)
    for ratio, pre, kind, gain in itertools.product((1.5, 2.5), (0, 1, 100), ("exp", "sign"), (1.0, 1e-3, 50.0) if thorough else (1.0, 1e-3)):
        for mode, trim in itertools.product(modes, (True, False)):
            if mode is RT.T60 and ratio < 2:
                continue
            x = gain * decay(T, fs, ratio * T, pre, kind)

            def one():
                h = ir(x[:, None], fs)
                t, c = pure(lambda z: RA.reverb_time(z, mode, None, trim), h)
                same(t.shape, (1,), "shape")
                eq(seconds(t[0], mode), T, "reverberation time", 0.04 if mode is RT.T60 else 0.015, 0)
                true(c[0] < -0.99, f"correlation {c[0]}")
            ctx.case(f"reverb/{fs}-{T}-{ratio}-{pre}-{kind}-{gain}-{mode.name}-{trim}", one)
            ctx.state("reverb", fs, T, ratio, pre, kind, gain, mode, trim)
            ctx.step()


def reverb_structures(ctx):
    fs = 4000
    Ts = [0.3, 0.6, 0.9]
    cols = [decay(T, fs, 1.6, 40) for T in Ts]
    for order in itertools.permutations(range(3)):
        for mode, trim in itertools.product((RT.T20, RT.EDT, RT.Adaptive), (True, False)):
            def one():
                h = ir(np.stack([cols[k] for k in order], axis=1), fs)
                t, c = RA.reverb_time(h, mode, None, trim)
                eq(seconds(t, mode), [Ts[k] for k in order], "channels", 0.015)
                mb = dsp.MultiBandSignal([ir(cols[k][:, None], fs) for k in order])
                t, c = pure(lambda z: RA.reverb_time(z, mode, None, trim), mb)
                same(t.shape, (3, 1), "shape of bands")
                same(c.shape, (3, 1), "shape of correlations")
                eq(seconds(t[:, 0], mode), [Ts[k] for k in order], "bands", 0.015)
            ctx.case(f"structure/reverb-{order}-{mode.name}-{trim}", one)
            ctx.step()
    # two decays: the later start selects the second one
    n1, n2 = 1200, 8000

    def two(Ta, Tb):
        a = 10 ** (-3 * np.arange(n1) / fs / Ta)
        b = a[-1] * 10 ** (-3 * np.arange(1, n2 + 1) / fs / Tb)
        return np.concatenate([a, b])
    for (Ta, Tb), (Tc, Td) in itertools.product(((0.9, 0.3), (0.5, 0.8)), repeat=2):
        for mode in (RT.T20, RT.EDT):
            def starts():
                h = ir(np.stack([two(Ta, Tb), two(Tc, Td)], axis=1), fs)
                for st, want in ((n1, [Tb, Td]), (np.array([n1, n1]), [Tb, Td]), ([n1, n1 + 20], [Tb, Td])):
                    t, _ = RA.reverb_time(h, mode, st, False)
                    eq(seconds(t, mode), want, f"start {st}", 0.02)
                if mode is RT.EDT:
                    for st, want in (([0, n1], [Ta, Td]), ([n1, 0], [Tb, Tc])):
                        t, _ = RA.reverb_time(h, mode, np.array(st), False)
                        eq(seconds(t, mode), want, f"start {st}", 0.03)
                mb = dsp.MultiBandSignal([h, ir(h.time_data[:, ::-1], fs)])
                t, _ = RA.reverb_time(mb, mode, n1, False)
                eq(seconds(t, mode), [[Tb, Td], [Td, Tb]], "bands", 0.02)
                t, _ = RA.reverb_time(mb, mode, np.full((2, 2), n1), False)
                eq(seconds(t, mode), [[Tb, Td], [Td, Tb]], "start per band", 0.02)
                if mode is RT.EDT:
                    for st in itertools.product((0, n1), repeat=4):
                        st = np.array(st).reshape(2, 2)
                        t, _ = pure(lambda z, i: RA.reverb_time(z, mode, i, False), mb, st)
                        own = [[(Ta, Tb), (Tc, Td)], [(Tc, Td), (Ta, Tb)]]
                        eq(seconds(t, mode), [[own[b][c][int(st[b, c] > 0)] for c in (0, 1)] for b in (0, 1)], f"own start per band {st.tolist()}", 0.03)
                    for st in itertools.product((0, n1), repeat=2):
                        t, _ = RA.reverb_time(mb, mode, np.array(st), False)
                        own = [[(Ta, Tb), (Tc, Td)], [(Tc, Td), (Ta, Tb)]]
                        eq(seconds(t, mode), [[own[b][c][int(st[c] > 0)] for c in (0, 1)] for b in (0, 1)], f"start per channel {st}", 0.03)
            ctx.case(f"structure/starts-{Ta}-{Tb}-{Tc}-{Td}-{mode.name}", starts)
            ctx.step()
    ctx.case("structure/reject-array", lambda: must_raise(lambda: RA.reverb_time(cols[0]), "array"))
    ctx.case("structure/reject-starts", lambda: must_raise(lambda: RA.reverb_time(ir(cols[0][:, None], fs), RT.T20, np.array([1, 2])), "wrong number of starts"))


# -------------------------------------------------------------- descriptors
def definition(what, x, fs):
    e = x**2
    if what is DE.D50:
        return e[: int(0.05 * fs)].sum() / e.sum()
    if what is DE.C80:
        w = int(0.08 * fs)
        return 10 * np.log10(e[:w].sum() / e[w:].sum())
    return (e * np.arange(len(e)) / fs).sum() / e.sum()


def close(got, what, x, fs, pre, loose):
    """the start of the response is the last sample below -20 dB"""
    wants = [definition(what, x[max(0, s) :], fs) for s in (pre - 1, pre)]
    for w in wants:
        tol = (0.02 if what is not DE.C80 else 0.1) if loose else (1.5 / (len(x) - pre) if what is DE.CenterTime else 1e-9)
        if abs(got - w) <= tol * (abs(w) if what is not DE.C80 else 1):
            return
    raise_(f"{what.name}: got {got}, expected {wants}")


def raise_(msg):
    true(False, msg)


def descriptor(ctx, fs, thorough):
    for T, ratio, pre, kind in itertools.product((0.2, 0.5, 1.0), (1.0, 2.0), (0, 1, 57), ("exp", "sign")):
        x = decay(T, fs, ratio * T, pre, kind)
        y = 0.3 * decay(0.7 * T, fs, ratio * T, pre, kind)
        for what, trim in itertools.product((DE.D50, DE.C80, DE.CenterTime), (True, False)):
            def one():
                h = ir(np.stack([x, y, 4 * x], axis=1), fs)
                d = pure(lambda z: RA.descriptors(z, what, trim), h)
                same(d.shape, (3,), "shape")
                for k, col in enumerate((x, y, 4 * x)):
                    close(d[k], what, col, fs, pre, trim)
                eq(d[2], d[0], "level", 1e-6, 1e-9)
                mb = dsp.MultiBandSignal([ir(np.stack(q, axis=1), fs) for q in ((y, x), (x, y))])
                b = pure(lambda z: RA.descriptors(z, what, trim), mb)
                eq(b, [[d[1], d[0]], [d[0], d[1]]], "bands", 1e-9)
            ctx.case(f"descriptor/{fs}-{T}-{ratio}-{pre}-{kind}-{what.name}-{trim}", one)
            ctx.state("descriptor", fs, T, ratio, pre, kind, what, trim)
            ctx.step()


def bass_ratio(ctx):
    fs, n = 4000, 8000
    t = np.arange(n) / fs
    for T1, T2 in itertools.product((0.5, 0.9), repeat=2):
        def one():
            tones = lambda fr, T: sum(np.cos(2 * np.pi * f * t + f) for f in fr) * 10 ** (-3 * t / T)
            x = np.concatenate([np.zeros(400), tones((125, 250), T1) + tones((500, 1000), T2)])
            y = np.concatenate([np.zeros(400), tones((125, 250, 500, 1000), T1)])
            d = RA.descriptors(ir(np.stack([x, y], axis=1), fs), DE.BassRatio)
            eq(d, [T1 / T2, 1.0], "bass ratio", 0.05)
        ctx.case(f"bass/{T1}-{T2}", one)
        ctx.step()
    # single slope against two slopes: T20 (-5..-25 dB) is asked for
    for lo in ((0.3, 1.2), (0.9, 0.4)):
        def two():
            out = []
            for fr, T in (((125, 250), lo), ((500, 1000), (0.6, 0.6))):
                k = int(0.2 * fs)
                env = 10 ** (-3 * t / T[0])
                out.append(sum(np.cos(2 * np.pi * f * t + f) for f in fr) * env)
            x = np.concatenate([np.zeros(400), out[0] + out[1]])
            h = ir(x[:, None], fs)
            fb = dsp.filterbanks.fractional_octave_bands([125, 1000], filter_order=10, sampling_rate_hz=fs)[0]
            rt, _ = RA.reverb_time(fb.filter_signal(h, dsp.FilterBankMode.Parallel, zero_phase=True), RT.T20)
            eq(RA.descriptors(h, DE.BassRatio), [(rt[0, 0] + rt[1, 0]) / (rt[2, 0] + rt[3, 0])], "ratio of T20", 1e-9)
        ctx.case(f"bass/T20-{lo}", two)
    ctx.case("bass/bands", lambda: must_raise(lambda: RA.descriptors(dsp.MultiBandSignal([ir(decay(0.3, 1000, 1)[:, None], 1000)] * 2), DE.BassRatio), "bands"))


def starts(ctx):
    for pre, thr, gain, tail in itertools.product((0, 1, 2, 9), (-6, -20, -40), (1, -0.01, 30), (1, 5)):
        def one():
            lead = gain * 10 ** (-60 / 20) * np.cos(np.arange(pre))
            x = np.concatenate([lead, gain * np.ones(tail), np.zeros(4)])
            h = ir(np.stack([x, x[::-1].copy()], axis=1), 1000)
            s = pure(lambda z: RA.find_ir_start(z, thr), h)
            same([int(v) for v in s], [max(0, pre - 1), 3], "start")
        ctx.case(f"start/{pre}-{thr}-{gain}-{tail}", one)
        ctx.step()


def convolve(ctx):
    for n, m, ch, peak, length in itertools.product((5, 40, 200), (1, 3, 60), (1, 2, 3), (True, False), (True, False)):
        def one():
            x = R.td(n, ch, 3)
            if ch == 3:
                x[:, 1] = 0
            r = R.td(m, 1, 4)
            s, h = dsp.Signal(None, x, 1000, constrain_amplitude=False), ir(r, 1000)
            y = pure(lambda a, b: RA.convolve_rir_on_signal(a, b, peak, length), s, h)
            want = np.stack([np.convolve(x[:, k], r[:, 0]) for k in range(ch)], axis=1)
            want = want[:n] if length else want
            if peak:
                p = np.max(np.abs(want), axis=0)
                want = want * np.max(np.abs(x), axis=0) / np.where(p > 0, p, 1)
            eq(y.time_data, want, "convolution", 1e-9, 1e-9)
            same(y.sampling_rate_hz, 1000, "rate")
        ctx.case(f"convolve/{n}-{m}-{ch}-{peak}-{length}", one)
        ctx.step()
    s = dsp.Signal(None, R.td(20, 1, 3), 1000)
    ctx.case("convolve/reject-channels", lambda: must_raise(lambda: RA.convolve_rir_on_signal(s, ir(R.td(9, 2, 3), 1000)), "two channels"))
    ctx.case("convolve/reject-rate", lambda: must_raise(lambda: RA.convolve_rir_on_signal(s, ir(R.td(9, 1, 3), 500)), "rate"))


def modes(ctx):
    fs = 1000
    t = np.arange(fs) / fs
    for freqs, ch, rng, anti in itertools.product(((60, 90, 140), (75, 120), (55, 66, 77, 188)), (1, 2, 3), ((50, 200), (70, 150)), (False,)):
        def one():
            cols = [sum((1 + 0.3 * ((k + j) % 2)) * np.exp(-6 * t) * np.sin(2 * np.pi * f * t) for j, f in enumerate(freqs)) for k in range(ch)]
            h = ir(np.stack(cols, axis=1), fs)
            f = pure(lambda z: RA.find_modes(z, list(rng), 5, 3.0), h)
            want = [q for q in freqs if rng[0] < q < rng[1]]
            same(len(f), len(want), f"number of modes ({f} for {want})")
            true(np.max(np.abs(np.array(f) - want)) <= 1.0, f"modes {f}, expected {want}")
            # The resonances of the inverse system are its antiresonances
            X = np.fft.rfft(h.time_data, axis=0)
            inv = np.fft.irfft(1 / X, len(h), axis=0)
            inv = ir(inv / np.abs(inv).max(), fs)
            eq(RA.find_modes(inv, list(rng), 5, 3.0, True), f, "antiresonances of the inverse", 1e-9)
            # Modes closer than the given distance: the strongest remains
            sp = np.abs(np.fft.rfft(h.time_data, axis=0))
            few = RA.find_modes(h, list(rng), 1000.0, 3.0)
            same(len(few), 1, "modes with a large distance")
            if ch == 1:
                level = [sp[int(round(q)), 0] for q in f]
                eq(few[0], f[int(np.argmax(level))], "strongest mode", 1e-9)
        ctx.case(f"modes/{freqs}-{ch}-{rng}", one)
        ctx.step()


# -------------------------------------------------------------------- rooms
ROOMS = [(3, 4, 5), (2, 2, 2), (1, 1.5, 6), (6, 2.5, 3.1)]
WALLS = dict(west=(0, 0), east=(0, 1), south=(1, 0), north=(1, 1), floor=(2, 0), ceiling=(2, 1))


def images(dims, betas, src, rec, fs, tmax):
    """Every image source of a shoebox room, one reflection after the other:
    along each axis the images are 2 l L + s (|l| bounces on either wall) and
    2 l L - s (|l| at the far, |l - 1| at the near wall)."""
    axes = []
    for a in range(3):
        L, s, r = dims[a], src[a], rec[a]
        lim = int(C * tmax / (2 * L)) + 2
        row = []
        for l in range(-lim, lim + 1):
            row.append((2 * l * L + s - r, betas[a][0] ** abs(l) * betas[a][1] ** abs(l)))
            row.append((2 * l * L - s - r, betas[a][0] ** abs(l - 1) * betas[a][1] ** abs(l)))
        axes.append(np.array(row))
    x, y, z = axes
    d = np.sqrt(x[:, None, None, 0] ** 2 + y[None, :, None, 0] ** 2 + z[None, None, :, 0] ** 2)
    g = x[:, None, None, 1] * y[None, :, None, 1] * z[None, None, :, 1]
    out = np.zeros(int(tmax * fs))
    k = np.floor(d / C * fs + 0.5).astype(int)
    ok = k < len(out)
    np.add.at(out, k[ok], (g / (4 * np.pi * d))[ok])
    return out


def positions(dims):
    d = np.array(dims)
    return [(0.5 * d, 0.5 * d + [0.3, 0, 0]), (0.3 * d, 0.7 * d), (0.21 * d, d * [0.63, 0.4, 0.11]), (d * [0.9, 0.1, 0.5], d * [0.05, 0.5, 0.5])]


def compare(h, want, what):
    got = h.time_data[:, 0] / h.amplitude_scale_factor
    n = min(len(got), len(want))
    eq(got[:n], want[:n], what, 1e-9, 1e-12)


def rooms(ctx, dims, pos, alpha, thorough):
    src, rec = positions(dims)[pos]
    for fs in (4000, 22050):
        key = f"{dims}-{pos}-{fs}-{alpha}".replace(" ", "")
        room = RA.ShoeboxRoom(dims, absorption_coefficient=alpha)
        t60 = room.t60_s
        tmax = t60
        for total in (0.02, 0.3):
            def one():
                b = np.sqrt(1 - alpha)
                want = images(dims, [(b, b)] * 3, src, rec, fs, min(tmax, total))
                h = pure(lambda r: quiet(RA.generate_synthetic_rir, r, src, rec, fs, total), room)
                true(type(h) is dsp.ImpulseResponse, "type")
                same(h.time_data.shape, (int(total * fs), 1), "shape")
                compare(h, want, "image sources")
                back = quiet(RA.generate_synthetic_rir, room, rec, src, fs, total)
                eq(back.time_data, h.time_data, "reciprocity", 1e-9, 1e-12)
            ctx.case(f"images/{key}-{total}", one)
            ctx.state("images", key, total)
            ctx.step()
        for wall, (ax, side) in WALLS.items():
            def walls():
                ab = {w: 0.95 for w in WALLS}
                ab[wall] = 0.5
                r = RA.ShoeboxRoom(dims, absorption_coefficient=alpha)
                r.add_detailed_absorption({k: v for k, v in ab.items()})
                betas = [[np.sqrt(0.05)] * 2 for _ in range(3)]
                betas[ax][side] = np.sqrt(0.5)
                want = images(dims, betas, src, rec, fs, min(0.04, r.t60_s))
                h = quiet(RA.generate_synthetic_rir, r, src, rec, fs, 0.06, use_detailed_absorption=True)
                compare(h, want, f"wall {wall}")
            if thorough or fs == 4000 and alpha == 0.95:
                ctx.case(f"walls/{key}-{wall}", walls)
                ctx.step()

        def tail():
            h = quiet(RA.generate_synthetic_rir, room, src, rec, fs, 0.3).time_data[:, 0]
            for total in (0.3, 0.01):
                g = quiet(RA.generate_synthetic_rir, room, src, rec, fs, total, add_noise_reverberant_tail=True).time_data[:, 0]
                true(np.isfinite(g).all(), "finite")
                mix = np.sqrt(1000 * np.prod(dims) / (4 * np.pi * C**3))
                first = np.flatnonzero(h)[0]
                k = min(len(g), first + int(mix * fs))
                eq(g[:k], h[:k], "before the mixing time", 1e-9, 1e-12)
                k = np.flatnonzero(h[: len(g)])
                eq(g[k], h[k], "reflections stay", 1e-9, 1e-12)
        if alpha < 0.95 and fs > 4000 and not thorough:
            continue
        ctx.case(f"tail/{key}", tail)

        def order():
            full = quiet(RA.generate_synthetic_rir, room, src, rec, fs, 0.05).time_data[:, 0]
            for mo in (0, 1, 2):
                h = quiet(RA.generate_synthetic_rir, room, src, rec, fs, 0.05, max_order=mo).time_data[:, 0]
                # images of a higher order are at least this far
                d = min(2 * (mo + 1) * L - max(s + r, L - abs(s - r)) for L, s, r in zip(dims, src, rec))
                k = max(0, int((max(d, 0) - max(dims)) / C * fs) - 1)
                eq(h[:k], full[:k], f"up to order {mo}", 1e-9, 1e-12)
                true(np.sum(h**2) <= np.sum(full**2) * (1 + 1e-9), "energy of fewer images")
        ctx.case(f"order/{key}", order)

        def audible():
            # Band from 20 Hz to 90 % of the nyquist frequency
            h = quiet(RA.generate_synthetic_rir, room, src, rec, fs, 1.0).time_data[:, 0]
            g = quiet(RA.generate_synthetic_rir, room, src, rec, fs, 1.0, apply_bandpass=True).time_data[:, 0]
            same(g.shape, h.shape, "length")
            f = np.fft.rfftfreq(len(h), 1 / fs)
            H, G = np.fft.rfft(h), np.fft.rfft(g)
            # Far from the notches of the response
            clear = np.abs(H) > np.median(np.abs(H))
            level = lambda lo, hi: 20 * np.log10(np.abs(G / H))[clear & (f >= lo) & (f <= hi)]
            ny = fs / 2
            inside = level(40, 0.8 * ny)
            true(np.abs(inside - np.median(inside)).max() < 0.3 and abs(np.median(inside) + 20 * np.log10(1.0)) < 0.3, "passband")
            edge = level(0.9 * ny - 2.5, 0.9 * ny + 2.5)
            if len(edge):
                true(np.abs(edge + 3.01).max() < 0.8, f"upper limit {edge}")
            top = level(0.97 * ny, ny)
            true(len(top) == 0 or top.max() < -20, "above the band")
            true(abs(G[0]) < 1e-2 * np.abs(H).max(), "mean")
        ctx.case(f"audible/{key}", audible)


def room_formulas(ctx):
    for dims in ROOMS:
        x, y, z = dims
        V, S = x * y * z, 2 * (x * y + y * z + x * z)
        for alpha in (0.05, 0.3, 1.0):
            def one():
                T = 0.161 * V / S / alpha
                for r in (RA.ShoeboxRoom(dims, absorption_coefficient=alpha), RA.ShoeboxRoom(dims, t60_s=T * (1 + 1e-12))):
                    eq([r.volume, r.area, r.t60_s, r.absorption_coefficient], [V, S, T, alpha], "Sabine", 1e-9)
                    eq(r.schroeders_frequency, 2000 * np.sqrt(T / V), "Schroeder frequency", 1e-9)
                    eq(r.critical_distance_m, 0.057 * np.sqrt(V / T), "critical distance", 1e-9)
                    f = np.array([50.0, 200.0])
                    eq(r.modal_density(f), 4 * np.pi * V * f**2 / C**3 + np.pi / 2 * S * f / C**2, "modal density", 1e-9)
            ctx.case(f"room/{dims}-{alpha}", one)
        for order, c in itertools.product((1, 2, 4), (343.0, 340.0)):
            def mds():
                m = RA.ShoeboxRoom(dims, absorption_coefficient=0.3).get_room_modes(order, c)
                want = [(c / 2 * np.sqrt((a / x) ** 2 + (b / y) ** 2 + (d / z) ** 2), a, b, d) for a, b, d in itertools.product(range(order + 1), repeat=3) if a + b + d]
                same(m.shape, (len(want), 4), "number of modes")
                eq(m[:, 0], np.sort([w[0] for w in want]), "frequencies", 1e-9)
                eq(m[:, 0], [c / 2 * np.sqrt((a / x) ** 2 + (b / y) ** 2 + (d / z) ** 2) for _, a, b, d in m], "indices", 1e-9)
                same(len({tuple(q) for q in m[:, 1:]}), len(want), "distinct modes")
            ctx.case(f"room/modes-{dims}-{order}-{c}", mds)

        def inside():
            r = RA.ShoeboxRoom(dims, absorption_coefficient=0.3)
            for p in itertools.product((-0.1, 0.0, 0.5, 1.0, 1.1), repeat=3):
                q = np.array(p) * dims
                same(r.check_if_in_room(q), all(0 <= v <= 1 for v in p), f"point {q}")
                if min(p) < 0 or max(p) > 1:
                    must_raise(lambda: quiet(RA.generate_synthetic_rir, r, q, np.array(dims) / 2, 1000), f"source at {q}")
                    must_raise(lambda: quiet(RA.generate_synthetic_rir, r, np.array(dims) / 2, q, 1000), f"receiver at {q}")
        ctx.case(f"room/inside-{dims}", inside)

        def mixing():
            r = RA.ShoeboxRoom(dims, absorption_coefficient=0.3)
            eq(r.get_mixing_time("perceptual"), (0.58 * np.sqrt(V) + 21.2) * 1e-3, "perceptual", 1e-9)
            for n in (100, 400):
                eq(r.get_mixing_time("physical", n), np.sqrt(n * V / (4 * np.pi * C**3)), "physical", 1e-9)
                eq(r.get_mixing_time("physical", n, c=250.0), np.sqrt(n * V / (4 * np.pi * 250.0**3)), "speed of sound", 1e-9)
        ctx.case(f"room/mixing-{dims}", mixing)
        for case in range(3):
            def detailed():
                ab = dict(north=[0.5, 0.2, 0.3], south=0.47, east=[0.3, 0.1], west=[0.2], floor=[0.1, 0.2, 0.35], ceiling=0.6)
                if case == 1:
                    ab = {w: 0.05 + 0.1 * k for k, w in enumerate(ab)}
                if case == 2:
                    ab = {w: list(np.linspace(0.1, 0.8, 8 if k < 3 else k)) for k, w in enumerate(ab)}
                r = RA.ShoeboxRoom(dims, absorption_coefficient=0.3)
                given = {k: np.array(v) if isinstance(v, list) else v for k, v in ab.items()}
                pure(r.add_detailed_absorption, given)
                nb = max(len(np.atleast_1d(v)) for v in ab.values())
                row = {k: (list(np.atleast_1d(v)) + [np.atleast_1d(v)[-1]] * nb)[:nb] for k, v in ab.items()}
                areas = dict(north=x * z, south=x * z, east=y * z, west=y * z, floor=x * y, ceiling=x * y)
                A = sum(areas[w] * np.array(row[w]) for w in row)
                d = r.detailed_absorption
                eq(d["absorption_area"], A, "absorption area", 1e-9)
                for w in row:
                    eq(d["absorption_matrix"][d["index_wall_dictionary"][w]], row[w], f"absorption of {w}", 1e-9)
                eq(d["mean_absorption_coefficients_per_frequency"], A / S, "mean absorption", 1e-9)
                eq(d["t60_s_per_frequency"], 0.161 * V / A, "t60", 1e-9)
                eq(d["center_frequencies"], 125 * 2.0 ** np.arange(nb), "centre frequencies", 1e-9)
                a = np.average(A / S, weights=2.0 ** np.arange(nb))
                eq([r.absorption_coefficient, r.t60_s], [a, 0.161 * V / S / a], "totals", 1e-9)
            ctx.case(f"room/detailed-{dims}-{case}", detailed)
            ctx.step()
        for order, det, speed in itertools.product((1, 3), (False, True), (C, 250.0)):
            def analytic():
                r = RA.ShoeboxRoom(dims, absorption_coefficient=0.3)
                if det:
                    r.add_detailed_absorption({w: [0.1 + 0.1 * k, 0.5 - 0.05 * k] for k, w in enumerate(WALLS)})
                s, q = positions(dims)[2]
                f = np.linspace(20, 200, 25)
                p, m, plot = pure(lambda z: z.get_analytical_transfer_function(s, q, f, order, False, *([] if speed == C else [speed])), r)
                true(plot is None, "no plot asked for")
                w, want = 2 * np.pi * f, 0
                for n in itertools.product(range(order + 1), repeat=3):
                    if not any(n):
                        continue
                    k = np.pi * np.array(n) / dims
                    wn = speed * np.sqrt(k @ k)
                    T = r.t60_s
                    if det:
                        T = r.detailed_absorption["t60_s_per_frequency"][np.argmin(np.abs(wn / 2 / np.pi - np.array([125, 250])))]
                    norm = np.prod([0.5 if v else 1.0 for v in n]) * V
                    want = want + speed**2 * np.prod(np.cos(k * s) * np.cos(k * q)) / norm / (wn**2 + 2j * np.log(1000) / T * wn - w**2)
                eq(p, want, "transfer function", 1e-8, 1e-12)
                same(m.shape, ((order + 1) ** 3 - 1, 4), "modes")
            ctx.case(f"room/analytic-{dims}-{order}-{det}-{speed}", analytic)
            ctx.step()
    for bad in (dict(t60_s=0.001), dict(absorption_coefficient=1.2), dict(absorption_coefficient=0), {}):
        ctx.case(f"room/reject-{bad}", lambda: must_raise(lambda: RA.ShoeboxRoom((3, 4, 5), **bad), str(bad)))


def dispatch(ctx, name, a):
    globals()[name](ctx, *a)


def run(ctx):
    t = ctx.thorough
    jobs = [("reverb", (fs, T, t)) for fs in ((4000, 8000, 16000) if t else (4000, 8000)) for T in ((0.2, 0.5, 0.8, 1.3, 2.0) if t else (0.2, 0.5, 1.0))]
    jobs += [("descriptor", (fs, t)) for fs in ((2000, 8000, 44100) if t else (2000, 8000))]
    alphas = (0.95, 0.7, 0.4) if t else (0.95, 0.7)
    jobs += [("rooms", (d, p, a, t)) for a in alphas[::-1] for d in ROOMS for p in range(4)]
    jobs += [(n, ()) for n in ("reverb_structures", "bass_ratio", "starts", "convolve", "modes", "room_formulas")]
    ctx.bound(rooms=ROOMS, absorption=alphas)
    ctx.assume("max_order: only arrivals that precede every image beyond the limit are compared; the random tail only where it must not change the response")
    ctx.parallel(dispatch, jobs)
