"""C24 beamforming: every grid and array, formulation and beamformer against
explicit sums over microphones, points and frequencies; simulated sources and
focused signals against analytic pulses."""

import contextlib
import io
import itertools

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from scipy.integrate import simpson

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

matplotlib.use("Agg")
B = dsp.beamforming
ST = B.SteeringVectorType
LINES = {
    1: [0.3],
    2: [-0.45, 0.8],
    3: [-0.2, 0.1, 0.7],
    4: [0.9, -0.3, 0.15, 0.4],  # Need not be sorted
}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def dist(a, b):
    return float(np.sqrt(sum((float(i) - float(j)) ** 2 for i, j in zip(a, b))))


# ------------------------------------------------------------ points and grids
def check_points(obj, want):
    want = np.array(want, dtype=float)
    n = len(want)
    same(obj.number_of_points, n, "number of points")
    eq(obj.coordinates, want, "coordinates")
    for i, d in enumerate("xyz"):
        eq(np.array(obj.extent[d], dtype=float), np.array([want[:, i].min(), want[:, i].max()]), "extent " + d)
    dims = [d for i, d in enumerate("xyz") if len(set(want[:, i])) > 1]
    same(list(obj.dim), dims, "extended dimensions")
    same(obj.ndim, len(dims), "number of extended dimensions")
    got = obj.coordinates
    got[:] = 99.0
    eq(obj.coordinates, want, "coordinates are not those of the caller")
    queries = [*want, [0.0, 0.0, 0.0], [0.21, -0.33, 0.5], [-3.0, 2.0, 7.0], [1e3, 1e3, -1e3]]
    for q in queries:
        d = np.array([dist(p, q) for p in want])
        for form in (np.array(q), list(q)):
            g = obj.get_distances_to_point(form)
            same(np.shape(g), (n,), "shape of distances")
            eq(g, d, "distances", 1e-9, 1e-9)
        i, c = obj.find_nearest_point(q)
        true(0 <= i < n and d[i] <= d.min() + 1e-9, "nearest point")
        eq(c, want[i], "coordinates of the nearest point")
    for m in (1, 2, len(queries)):
        g = obj.get_distances_to_point(np.array(queries[:m]))
        same(g.shape, (n, m), "shape of distance matrix")
        eq(g, np.array([[dist(p, q) for q in queries[:m]] for p in want]), "distance matrix", 1e-9, 1e-9)
    must_raise(lambda: obj.get_distances_to_point(np.zeros((2, 2))), "points of two coordinates")
    must_raise(lambda: obj.find_nearest_point([0.0, 1.0]), "two coordinates")


def image(fig_ax):
    fig, ax = fig_ax
    im = ax.get_images()
    same(len(im), 1, "images")
    return ax, np.asarray(im[0].get_array()), im[0]


def check_plot(fig_ax, want_db, xl, xr, yl, yr, rng):
    ax, a, im = image(fig_ax)
    eq(a, want_db, "plotted map", 1e-7, 1e-6)
    same(im.origin, "lower", "origin")
    eq(np.array(im.get_extent()), np.array([*xr, *yr]), "extent")
    same((ax.get_xlabel(), ax.get_ylabel()), (xl + " / m", yl + " / m"), "labels")
    eq(np.array(im.get_clim()), np.array([want_db.max() - rng, want_db.max()]), "range", 1e-7, 1e-6)
    plt.close("all")


def grids(ctx, lengths):
    for n1, n2 in itertools.product(lengths, repeat=2):
        l1, l2 = LINES[n1], [1.5 * v - 0.1 for v in LINES[n2]]
        for dims in itertools.permutations("xyz", 2):
            def one():
                third = ({*"xyz"} - {*dims}).pop()
                g = B.Regular2DGrid(l1, np.array(l2), [d.upper() for d in dims] if n1 == n2 else dims, 0.25)
                want = [tuple({dims[0]: a, dims[1]: b, third: 0.25}[d] for d in "xyz") for a in l1 for b in l2]
                check_points(g, want)
                m = np.abs(R.td(n1 * n2, 1, 5)[:, 0]) + 0.01
                mat = np.array([[m[i * n2 + j] for j in range(n2)] for i in range(n1)])
                eq(pure(g.reconstruct_map_shape, m), mat, "map")
                must_raise(lambda: g.reconstruct_map_shape(m[:-1]), "short map")
                if n1 > 1 and n2 > 1:
                    ex = lambda l: (min(l), max(l))
                    for arg in (m, mat):
                        check_plot(pure(lambda v: g.plot_map(v, 30), arg), 10 * np.log10(mat), dims[1], ex(l2), dims[0], ex(l1), 30)
            ctx.case(f"grid2d/{dims[0]}{dims[1]}-{n1}x{n2}", one)
            ctx.step()
    for dims, lines in (("xx", 2), ("xyz", 3), ("x", 1)):
        ctx.case(f"grid2d/reject-{dims}", lambda: must_raise(lambda: B.Regular2DGrid([0, 1], [0, 1], list(dims), 0.1), dims))
    for d in "xyzXYZ":
        for n in lengths:
            def line():
                g = B.LineGrid(LINES[n], d, 0.3, -0.7)
                dl = d.lower()
                second = "xyzx"["xyz".index(dl) + 1]
                third = ({*"xyz"} - {dl, second}).pop()
                check_points(g, [tuple({dl: v, second: 0.3, third: -0.7}[k] for k in "xyz") for v in LINES[n]])
            ctx.case(f"line/{d}-{n}", line)
            ctx.step()
    ctx.case("line/reject", lambda: must_raise(lambda: B.LineGrid([0, 1], "w", 0, 0), "dimension w"))
    for ns in itertools.product(lengths, repeat=3):
        def cube():
            ls = [LINES[n] for n in ns]
            g = B.Regular3DGrid(*ls)
            check_points(g, list(itertools.product(*ls)))
            m = np.abs(R.td(int(np.prod(ns)), 1, 5)[:, 0]) + 0.01
            mat = g.reconstruct_map_shape(m)
            same(mat.shape, tuple(ns), "shape of map")
            for k, (i, j, l) in enumerate(itertools.product(*map(range, ns))):
                same(mat[i, j, l], m[k], "map")
            if min(ns) < 2 or max(ns) > 3:
                return
            ex = [(min(v), max(v)) for v in ls]
            for axis, d in enumerate("xyz"):
                a, b = (i for i in range(3) if i != axis)
                for i, v in enumerate(ls[axis]):
                    want = 10 * np.log10(np.take(mat, i, axis=axis))
                    check_plot(g.plot_map(m if i else mat, d, v + 0.01, 25), want, "xyz"[b], ex[b], "xyz"[a], ex[a], 25)
            must_raise(lambda: g.plot_map(m, "w", 0.0), "dimension w")
        ctx.case(f"grid3d/{ns}", cube)
        ctx.step()
    for n in range(1, 7):
        def free():
            p = R.td(n, 3, n) if n >= 3 else R.td(9, 3, n)[:n]
            p = np.round(p, 3)
            for cls in (B.Grid, B.MicArray):
                for kind in (list, np.array, lambda v: np.array(v)[:, None]):
                    check_points(cls(dict(x=kind(p[:, 0]), y=kind(p[:, 1]), z=kind(p[:, 2]))), p)
            must_raise(lambda: B.Grid(dict(x=p[:, 0], y=p[:, 1])), "z missing")
            must_raise(lambda: B.Grid(dict(x=p[:, 0], y=p[:, 1], z=np.zeros(n + 1))), "lengths differ")
            m = p[:, 0]
            eq(B.Grid(dict(x=p[:, 0], y=p[:, 1], z=p[:, 2])).reconstruct_map_shape(m), m, "map")
        ctx.case(f"free/{n}", free)
        ctx.step()


# ------------------------------------------------------------------ microphones
def positions(name):
    if name == "ring":
        a = np.arange(5) * 2 * np.pi / 5
        p = np.stack([0.3 * np.cos(a), 0.3 * np.sin(a), 0 * a], axis=1)
        return np.append(p, [[0.02, 0.01, 0.0]], axis=0)
    if name == "line":
        return np.array([[0.0, 0.1 * i**1.5, 0.2] for i in range(4)])
    if name == "pair":
        return np.array([[0.1, 0.0, 0.0], [-0.15, 0.0, 0.05]])
    return np.array([[0.2, -0.1, 0.1], [0.0, 0.3, -0.2], [-0.3, 0.1, 0.0], [0.05, 0.05, 0.35], [0.01, 0.0, 0.02]])


ARRAYS = ("ring", "line", "pair", "space")


def array(name):
    p = positions(name)
    return B.MicArray(dict(x=p[:, 0], y=p[:, 1], z=p[:, 2]))


def centre(p):
    m = p.mean(axis=0)
    return int(np.argmin([dist(q, m) for q in p]))


class MicModel:
    def __init__(self, name):
        self.name = name


def mic_check(a, name):
    p = positions(name)
    d = [dist(x, y) for x, y in itertools.combinations(p, 2)]
    eq(a.aperture, max(d), "aperture")
    eq(a.min_distance, min(d), "minimum distance")
    same(int(a.array_center_channel_number), centre(p), "channel of the centre")
    eq(a.array_center_coordinates, p[centre(p)], "centre")
    for c in (343, 1500.0):
        for he in (0.5, 4, 10.0):
            eq(a.he_to_hz(he, c), he * c / max(d), "He to Hz")
            eq(a.hz_to_he(a.he_to_hz(he, c), c), he, "Hz to He")
        for lo in (4, 1.5):
            eq(np.array(a.get_maximum_frequency_range(lo, c)), np.array([lo * c / max(d), c / min(d) / 2]), "frequency range")
    check_points(a, p)


def mics(ctx, depth):
    ops = ["aperture", "min_distance", "array_center_coordinates", "array_center_channel_number", "range", "mutate", *ARRAYS]

    def apply(a, m, op):
        if op in ARRAYS:
            p = positions(op)
            a.coordinates = p
            p[:] = 7.0
            m = op
        elif op == "range":
            a.get_maximum_frequency_range()
        elif op == "mutate":
            a.coordinates[:] = 3.0
        else:
            getattr(a, op)
        mic_check(a, m)
        return a, m
    for name in ARRAYS:
        ctx.case(f"mics/{name}", lambda: mic_check(array(name), name))
        ctx.step()
        # Reading in any order, without the full check in between
        for seq in itertools.product(ops, repeat=depth):
            if not any(s in ARRAYS for s in seq):
                continue

            def history():
                a, m = array(name), name
                for op in seq:
                    if op in ARRAYS:
                        a.coordinates = positions(op)
                        m = op
                    elif op == "range":
                        a.get_maximum_frequency_range()
                    elif op == "mutate":
                        a.coordinates[:] = 3.0
                    else:
                        getattr(a, op)
                p = positions(m)
                d = [dist(x, y) for x, y in itertools.combinations(p, 2)]
                eq(a.aperture, max(d), "aperture")
                eq(a.min_distance, min(d), "minimum distance")
                same(int(a.array_center_channel_number), centre(p), "channel of the centre")
                eq(a.array_center_coordinates, p[centre(p)], "centre")
            ctx.case(f"mics/{name}/{'-'.join(seq)}", history)
            ctx.step()
        ctx.case(f"mics/{name}/then", lambda: [apply(array(name), name, op) for op in ops])
    ctx.state("mics", depth)


# -------------------------------------------------------------------- steering
def steering(kind, k, grid, mic):
    """Formulations I-IV of Sarradj (2012), microphones x points"""
    ref = mic[centre(mic)]
    n = len(mic)
    h = np.zeros((len(mic), len(grid)), dtype=complex)
    for t, g in enumerate(grid):
        r0 = dist(g, ref)
        s = sum(1 / dist(g, m) ** 2 for m in mic)
        for i, m in enumerate(mic):
            r = dist(g, m)
            a = {
                ST.Classic: 1 / n,
                ST.Inverse: r / (n * r0),
                ST.TruePower: 1 / (r0 * r * s),
                ST.TrueLocation: 1 / (r * np.sqrt(n * s)),
            }[kind]
            h[i, t] = a * np.exp(-1j * k * (r - r0))
    return h


def a_grid(name):
    if name == "plane":
        return B.Regular2DGrid([-0.3, 0.05, 0.4], [-0.35, 0.15], ["x", "y"], 0.6)
    if name == "upright":
        return B.Regular2DGrid([0.3, 0.9], [-0.3, 0.2, 0.45], ["z", "x"], 0.5)
    if name == "cube":
        return B.Regular3DGrid([-0.3, 0.3], [-0.2, 0.25], [0.5, 0.9])
    if name == "line":
        return B.LineGrid([-0.5, -0.1, 0.2, 0.6], "y", 0.7, 0.4)
    return B.LineGrid([0.25], "x", 0.1, 0.55)


GRIDS = ("plane", "upright", "cube", "line", "point")


def steer(ctx):
    ks = np.array([0.7, 9.0, 31.4])
    for kind, a, g in itertools.product(ST, ARRAYS, GRIDS):
        def one():
            mic, grid = array(a), a_grid(g)
            want = np.stack([steering(kind, k, grid.coordinates, positions(a)) for k in ks])
            for fn in (B.SteeringVector(kind).get_vector,):
                for arg, w in ((ks, want), (ks[:1], want[:1]), (9.0, want[1:2]), (ks[::-1].copy(), want[::-1])):
                    eq(fn(arg, grid=grid, mic=mic), w, "steering vector", 1e-9, 1e-9)
            # What the formulations promise: gain (II, III) for the true source
            true_h = np.array([[dist(p, positions(a)[centre(positions(a))]) / dist(p, m) for p in grid.coordinates] for m in positions(a)])
            h = B.SteeringVector(kind).get_vector(ks[1:2], grid=grid, mic=mic)[0]
            if kind in (ST.Inverse, ST.TruePower):
                eq(np.sum(np.abs(h) * true_h, axis=0), np.ones(h.shape[1]), "unit gain", 1e-9, 1e-9)
            if kind in (ST.Classic, ST.TrueLocation):
                eq(np.sum(np.abs(h) ** 2, axis=0), np.full(h.shape[1], 1 / len(h)), "norm", 1e-9, 1e-9)
        ctx.case(f"steering/{kind.name}-{a}-{g}", one)
        ctx.step()
    ctx.case("steering/reject", lambda: must_raise(lambda: B.SteeringVector("classic"), "formulation"))


# --------------------------------------------------------------------- sources
FS = 8000


def pulse(t, which=0):
    """Band-limited pulses (far below the Nyquist frequency)"""
    w, f, t0 = ((1.1e-3, 450.0, 8e-3), (1.6e-3, 200.0, 1e-2), (9e-4, 0.0, 7e-3))[which]
    return np.exp(-(((t - t0) / w) ** 2)) * np.cos(2 * np.pi * f * (t - t0) + 0.3 * which)


N = 400
T = np.arange(N) / FS
SRC = ((0.1, 0.4, 0.7), (-0.3, 0.05, 0.5), (0.35, -0.2, 1.1))


def source(which, gain=1.0, constrain=False, n=N, fs=FS, at=None):
    s = dsp.Signal.from_time_data(gain * pulse(np.arange(n) / fs, which), fs, constrain_amplitude=constrain)
    return B.MonopoleSource(s, SRC[which] if at is None else at)


def arriving(which, gain, mic, c, n=N, at=None):
    """One on the point, decaying with the distance"""
    r = np.array([dist(SRC[which] if at is None else at, m) for m in mic])
    t = np.arange(n) / FS
    return np.stack([gain * pulse(t - d / c, which) / (1 + d) for d in r], axis=1)


def over(x, constrain):
    p = np.max(np.abs(x))
    return x / p if constrain and p > 1 else x


TOL = 2e-3


def sources(ctx):
    for a in (*ARRAYS, "mono"):
        p = positions(a) if a != "mono" else np.array([[0.2, 0.1, 0.0]])
        mic = B.MicArray(dict(x=p[:, 0], y=p[:, 1], z=p[:, 2]))
        for which, c, gain in itertools.product(range(3), (343, 200.0), (0.5, 3.0)):
            for constrain in (False, True):
                def single():
                    src = source(which, gain, constrain)
                    x = src.emitted_signal.time_data[:, 0]
                    g = gain * np.max(np.abs(x)) / np.max(np.abs(gain * pulse(T, which)))
                    out = src.get_signals_on_array(mic, c)
                    same((out.number_of_channels, out.length_samples, out.sampling_rate_hz), (len(p), N, FS), "shape")
                    eq(out.time_data, over(arriving(which, g, p, c), constrain), "signals", 0, TOL)
                    eq(src.emitted_signal.time_data[:, 0], x, "emitted signal")
                    mixed = B.mix_sources_on_array(src, mic, c)
                    eq(mixed.time_data, out.time_data, "a single source")
                    eq(B.mix_sources_on_array([src], mic, c).time_data, out.time_data, "a list with one source")
                ctx.case(f"source/{a}-{which}-{c}-{gain}-{constrain}", single)
                ctx.step()
        # Whole samples of delay are exact
        for shifts in itertools.product((0, 1, 7), repeat=2):
            def whole():
                c = 320.0
                src = (0.0, 0.0, 0.0)
                m = B.MicArray(dict(x=[s * c / FS for s in shifts], y=[0.0, 0.0], z=[0.0, 0.0]))
                x = R.td(60, 1, 3)[:, 0]
                s = dsp.Signal.from_time_data(x, FS, constrain_amplitude=False)
                out = B.MonopoleSource(s, src).get_signals_on_array(m, c).time_data
                for i, k in enumerate(shifts):
                    eq(out[:, i], np.append(np.zeros(k), x)[:60] / (1 + k * c / FS), "delayed", 2e-3, 2e-3)
            if a == "ring":
                ctx.case(f"source/whole-{shifts}", whole)
                ctx.step()
        for order in itertools.chain(itertools.permutations(range(3), 2), itertools.permutations(range(3))):
            for gains, constrain in itertools.product(((0.3, 0.4, 0.2), (0.9, 0.8, 0.7), (3.0, 2.0, 4.0)), (False, True)):
                for cut in ((0, 0, 0), (0, 60, 0), (80, 0, 40)):
                    def mix():
                        lens = [N - cut[w] for w in order]
                        srcs = [source(w, gains[w], constrain, n) for w, n in zip(order, lens)]
                        eff = [s.emitted_signal.time_data[:, 0] for s in srcs]
                        n = min(lens)
                        want = 0
                        for s, w in zip(srcs, order):
                            g = gains[w] * np.max(np.abs(s.emitted_signal.time_data)) / np.max(np.abs(gains[w] * pulse(np.arange(len(s.emitted_signal)) / FS, w)))
                            want = want + arriving(w, g, p, 343, n)
                        got = B.mix_sources_on_array(srcs, mic)
                        same(got.time_data.shape, (n, len(p)), "shape")
                        eq(got.time_data, over(want, constrain), "mixed", 0, 3 * TOL * max(1, max(gains)))
                        for s, e in zip(srcs, eff):
                            eq(s.emitted_signal.time_data[:, 0], e, "emitted")
                    if a in ("ring", "pair", "mono"):
                        ctx.case(f"mix/{a}-{order}-{gains[0]}-{constrain}-{cut}", mix)
                        ctx.step()

    def reject():
        must_raise(lambda: B.mix_sources_on_array([], array("pair")), "no source")
        must_raise(lambda: B.mix_sources_on_array([source(0), 3], array("pair")), "not a source")
        must_raise(lambda: B.MonopoleSource(dsp.Signal.from_time_data(R.td(9, 2, 1), FS), [0, 0, 0]), "two channels")
        must_raise(lambda: B.MonopoleSource(source(0).emitted_signal, [0, 0]), "two coordinates")
        must_raise(lambda: B.mix_sources_on_array([source(0), source(1, fs=FS // 2)], array("pair")), "sampling rates")
    ctx.case("source/reject", reject)


# -------------------------------------------------- delay and sum in time domain
def das_time(ctx):
    for a, g, which in itertools.product(ARRAYS, GRIDS, range(3)):
        for c, gain, constrain in ((343, 0.3, False), (343, 4.0, False), (343, 4.0, True), (500.0, 1.0, True)):
            def focus():
                p, grid = positions(a), a_grid(g)
                q = grid.coordinates
                at = q[which % len(q)]
                ds = np.array([[dist(m, t) for t in q] for m in p])
                r = np.array([dist(m, at) for m in p])
                x = np.stack([gain * pulse(T - d / c, which) / d for d in r], axis=1)
                s = dsp.Signal.from_time_data(x, FS, constrain_amplitude=constrain)
                scale = 1 / np.max(np.abs(x)) if constrain and np.max(np.abs(x)) > 1 else 1.0
                bf = B.BeamformerDASTime(s, array(a), grid, c)
                out = quiet(bf.get_beamformer_output)
                eq(s.time_data, x * scale, "input")
                same(out.number_of_channels, len(q), "one channel per grid point")
                true(out.length_samples >= N + int((ds.max() - ds.min()) / c * FS), "length")
                t = np.arange(out.length_samples) / FS
                r0 = ds.max()
                want = np.zeros((len(t), len(q)))
                for j in range(len(q)):
                    for i in range(len(p)):
                        tt = t - (r0 - ds[i, j]) / c
                        v = gain * scale * pulse(tt - r[i] / c, which) / r[i]
                        # What was recorded ends with the recording
                        want[:, j] += np.where(tt <= (N - 1) / FS, v, 0) * ds[i, j]
                want = over(want / len(p), constrain)
                eq(out.time_data, want, "focused", 0, 2e-3 * max(1.0, gain))
                if not constrain:
                    # The source itself, as it arrives from the largest distance
                    j = which % len(q)
                    eq(out.time_data[:, j], gain * pulse(t - r0 / c, which), "source", 0, 2e-3 * max(1, gain))
                e = np.sum(out.time_data**2, axis=0)
                eq(quiet(bf.get_beamformer_output).time_data, out.time_data, "again")
            ctx.case(f"dastime/{a}-{g}-{which}-{c}-{gain}-{constrain}", focus)
            ctx.step()

    def reject():
        s = dsp.Signal.from_time_data(R.td(50, 3, 1), FS)
        must_raise(lambda: B.BeamformerDASTime(s, array("pair"), a_grid("line")), "channels")
        must_raise(lambda: B.BeamformerDASTime(s, array("space"), a_grid("line"), -1), "channels")
        s = dsp.Signal.from_time_data(R.td(50, 2, 1), FS)
        for c in (0, -3.0):
            must_raise(lambda: B.BeamformerDASTime(s, array("pair"), a_grid("line"), c), "speed of sound")
        must_raise(lambda: B.BeamformerDASTime(s, array("pair"), array("pair")), "grid")
        must_raise(lambda: B.BeamformerDASFrequency(s, array("pair"), a_grid("line"), "classic"), "steering")
    ctx.case("dastime/reject", reject)


# -------------------------------------------------------------- frequency domain
def field(kind, p, at, c, n=1024):
    """Signals of an ideal monopole of the given amplitude (one metre off).
    `periodic`: a tone in each bin of the FFT; `noise`: with some uncorrelated
    noise, for Welch's method. Returns amplitude spectrum of the source"""
    r = np.array([dist(at, m) for m in p])
    f = np.fft.rfftfreq(n, 1 / FS)
    rng = np.random.default_rng(11)
    amp = rng.standard_normal(len(f)) + 1j * rng.standard_normal(len(f))
    amp[[0, -1]] = 0
    X = amp[:, None] * np.exp(-2j * np.pi * f[:, None] * r / c) / r
    x = np.fft.irfft(X, n, axis=0)
    x *= 0.1 / np.abs(x).max()
    if kind == "noise":
        x = np.tile(x, (5, 1)) + 2e-4 * rng.standard_normal((5 * n, len(p)))
    return x


def make_signal(kind, x):
    s = dsp.Signal.from_time_data(x, FS, constrain_amplitude=False)
    if kind == "noise":
        s.set_spectrum_parameters(dsp.SpectrumMethod.WelchPeriodogram, window_length_samples=256, scaling=dsp.SpectrumScaling.PowerSpectralDensity)
    else:
        s.set_spectrum_parameters(dsp.SpectrumMethod.FFT, scaling=dsp.SpectrumScaling.PowerSpectralDensity)
    return s


def band(f, centre_hz, fraction):
    """First and last bin: those nearest to the lower and below the one
    nearest to the upper limit"""
    lo, hi = (centre_hz, centre_hz) if fraction == 0 else (centre_hz * 2 ** (-1 / fraction / 2), centre_hz * 2 ** (1 / fraction / 2))
    a, b = int(np.argmin(np.abs(f - lo))), int(np.argmin(np.abs(f - hi)))
    return a, max(b, a + 1)


def das(C, h, diag):
    n = len(C)
    if diag:
        C = C * n / (n - 1) * (1 - np.eye(n))
    v = np.array([(h[:, g].conj() @ C @ h[:, g]).real for g in range(h.shape[1])])
    return np.maximum(v, 0) if diag else v


def functional(C, h, gamma):
    w, v = np.linalg.eigh(C)
    root = (v * np.maximum(w, 0) ** (1 / gamma)) @ v.conj().T
    nn = np.sum(np.abs(h) ** 2, axis=0)
    return np.array([((h[:, g].conj() @ root @ h[:, g]).real / nn[g]) ** gamma * nn[g] for g in range(h.shape[1])])


def mvdr(C, h):
    out = []
    for g in range(h.shape[1]):
        a = h[:, g] / np.sum(np.abs(h[:, g]) ** 2)
        out.append(1 / (a.conj() @ np.linalg.solve(C, a)).real)
    return np.array(out)


def orthogonal(C, h, count):
    w, v = np.linalg.eigh(C)
    out = np.zeros(h.shape[1])
    for e in range(1, count + 1):
        m = np.abs(h.conj().T @ v[:, -e]) ** 2
        out[np.argmax(m)] += m.max() * w[-e]
    return out


def total(per_bin, df):
    per_bin = np.array(per_bin)
    return per_bin[0] if len(per_bin) == 1 else simpson(per_bin, dx=df, axis=0)


def reference(s, name, kind, mic, grid, c, fc, fraction, opt):
    f, csm = s.get_csm()
    a, b = band(f, fc, fraction)
    res = []
    for i in range(a, b):
        h = steering(kind, 2 * np.pi * f[i] / c, grid, mic)
        C = csm[i]
        if name == "das":
            res.append(das(C, h, opt))
        elif name == "functional":
            res.append(functional(C, h, opt))
        elif name == "mvdr":
            res.append(mvdr(C, h))
        elif name == "orthogonal":
            res.append(orthogonal(C, h, opt or len(mic) // 2))
    return f[a], f[b - 1], total(res, f[1] - f[0])


BEAMS = dict(das=B.BeamformerDASFrequency, functional=B.BeamformerFunctional, mvdr=B.BeamformerMVDR, orthogonal=B.BeamformerOrthogonal, clean=B.BeamformerCleanSC)


def call(name, bf, fc, fraction, opt):
    kw = {}
    if name == "das":
        kw = dict(remove_csm_diagonal=opt)
    elif name == "functional":
        kw = dict(gamma=opt)
    elif name == "orthogonal":
        kw = dict(number_eigenvalues=opt)
    return quiet(bf.get_beamformer_map, fc, fraction, **kw)


def maps(ctx, kind, arrays, grid_names, c):
    for a, g, data in itertools.product(arrays, grid_names, ("periodic", "noise")):
        p = positions(a)
        grid = a_grid(g)
        q = grid.coordinates
        for at in range(len(q)):
            x = field(data, p, q[at], c)
            s = make_signal(data, x)
            f, csm = s.get_csm()
            ref = centre(p)

            def formulas():
                for name, opt in (("das", True), ("das", False), ("functional", 1), ("functional", 2), ("functional", 10), ("mvdr", None), ("orthogonal", None), ("orthogonal", 1), ("orthogonal", len(p))):
                    if name in ("mvdr", "orthogonal") and data == "periodic" and (name, opt) != ("orthogonal", 1):
                        continue  # Rank one: singular, resp. arbitrary vectors
                    if name == "functional" and opt == 10 and data == "periodic":
                        continue  # Rounding errors to the power of 1/10
                    for fc, fraction in ((1000, 0), (900, 3), (700.0, 1)):
                        bf = BEAMS[name](s, array(a), grid, B.SteeringVector(kind), c)
                        m = call(name, bf, fc, fraction, opt)
                        lo, hi, want = reference(s, name, kind, p, q, c, fc, fraction, opt)
                        what = f"{name} {opt} {fc}/{fraction}"
                        eq(np.array(bf.f_range_hz, dtype=float), np.array([lo, hi]), "frequency range, " + what)
                        shape = grid.original_lengths if hasattr(grid, "original_lengths") else (len(q),)
                        same(m.shape, shape, "shape, " + what)
                        eq(m.ravel(), want, what, 1e-6, 1e-9 * np.max(np.abs(want)))
                        if kind is ST.TrueLocation and name in ("das", "functional") and opt is not True:
                            true(m.ravel()[at] >= m.max() * (1 - (1e-9 if data == "periodic" else 2e-2)), "largest at the source: " + what)
                        if kind in (ST.Inverse, ST.TruePower) and (name, opt) == ("das", False):
                            i, j = band(f, fc, fraction)
                            level = total([csm[b][ref, ref].real for b in range(i, j)], f[1] - f[0])
                            eq(m.ravel()[at], level, "level at the centre: " + what, 1e-6 if data == "periodic" else 5e-2)
                        if fc == 900:
                            m[...] = 5.0
                            again = call(name, bf, fc, fraction, opt)
                            eq(again.ravel(), want, "again, " + what, 1e-6, 1e-9 * np.max(np.abs(want)))
                            call(name, bf, 1000, 0, opt)
                            eq(call(name, bf, fc, fraction, opt).ravel(), want, "after another band, " + what, 1e-6, 1e-9 * np.max(np.abs(want)))
                eq(s.get_csm()[1], csm, "matrix of the signal")
                eq(s.time_data, x, "signal")
            ctx.case(f"map/{kind.name}-{a}-{g}-{at}-{data}-{c}", formulas)
            ctx.step()

            def clean():
                for fc, fraction in ((1000, 0), (900, 3)):
                    for gain, its in ((0.5, None), (1.0, 3), (0.3, 4), (0.8, 1)):
                        bf = B.BeamformerCleanSC(s, array(a), grid, B.SteeringVector(kind), c)
                        m = quiet(bf.get_beamformer_map, fc, fraction, its, gain)
                        lo, hi, full = reference(s, "das", kind, p, q, c, fc, fraction, False)
                        eq(np.array(bf.f_range_hz, dtype=float), np.array([lo, hi]), "frequency range")
                        k = its or 2 * len(p)
                        i, j = band(f, fc, fraction)
                        want = []
                        for b in range(i, j):
                            h = steering(kind, 2 * np.pi * f[b] / c, q, p)
                            d = das(csm[b], h, False)
                            v = np.zeros(len(q))
                            v[np.argmax(d)] = d.max() * (1 - (1 - gain) ** k)
                            want.append(v)
                        want = total(want, f[1] - f[0])
                        eq(m.ravel(), want, f"clean {fc} {gain} {its}", 1e-5, 1e-6 * want.max())
                        eq(quiet(bf.get_beamformer_map, fc, fraction, its, gain), m, "again")
                eq(s.get_csm()[1], csm, "matrix of the signal")
                bf = B.BeamformerCleanSC(s, array(a), grid, B.SteeringVector(kind), c)
                for v in (0, -0.1, 1.1):
                    must_raise(lambda: quiet(bf.get_beamformer_map, 900, 3, None, v), "safety factor")
                must_raise(lambda: quiet(bf.get_beamformer_map, 900, 3, 0), "iterations")
                bf = B.BeamformerOrthogonal(s, array(a), grid, B.SteeringVector(kind), c)
                for v in (0, len(p) + 1):
                    must_raise(lambda: quiet(bf.get_beamformer_map, 900, 3, v), "eigenvalues")
            if data == "periodic":
                ctx.case(f"clean/{kind.name}-{a}-{g}-{at}-{c}", clean)
                ctx.step()


def two_sources(ctx, kind):
    """A source in even and another in odd bins: each is found in its bins, in
    the sum both; a removed diagonal changes no place"""
    c = 343
    for a, g in (("ring", "plane"), ("space", "cube"), ("space", "upright")):
        p, grid = positions(a), a_grid(g)
        q = grid.coordinates
        for i, j in itertools.permutations(range(len(q)), 2):
            def both():
                n = 1024
                x = field("periodic", p, q[i], c, n)
                y = field("periodic", p, q[j], c, n)
                X, Y = np.fft.rfft(x, axis=0), np.fft.rfft(y, axis=0)
                X[1::2] = Y[1::2]
                s = make_signal("periodic", np.fft.irfft(X, n, axis=0))
                for fc in (990.0, 1500.0):
                    f = s.get_csm()[0]
                    b = int(np.argmin(np.abs(f - fc)))
                    for k in (b, b + 1):
                        src = (i, j)[k % 2]
                        for name, opt in (("das", False), ("functional", 4), ("orthogonal", 1)):
                            bf = BEAMS[name](s, array(a), grid, B.SteeringVector(kind), c)
                            m = call(name, bf, f[k], 0, opt).ravel()
                            if kind is ST.TrueLocation:
                                true(m[src] >= m.max() * (1 - 1e-9), f"{name} finds the source of bin {k}")
                        bf = B.BeamformerCleanSC(s, array(a), grid, B.SteeringVector(kind), c)
                        m = quiet(bf.get_beamformer_map, f[k], 0, remove_csm_diagonal=True).ravel()
                        d = das(s.get_csm()[1][k] * (1 - np.eye(len(p))), steering(kind, 2 * np.pi * f[k] / c, q, p), False)
                        true(m[np.argmax(d)] >= 0.45 * d.max(), "deconvolved source")
            ctx.case(f"two/{kind.name}-{a}-{g}-{i}-{j}", both)
            ctx.step()


def scalings(ctx, kind):
    """Maps show the same source distribution for every method and scaling of
    the spectrum, up to a factor"""
    c = 343
    for a, g in (("ring", "plane"), ("space", "cube"), ("line", "upright")):
        p, grid = positions(a), a_grid(g)
        q = grid.coordinates
        for at in range(len(q)):
            x = field("noise", p, q[at], c)

            def compare():
                for method in (dsp.SpectrumMethod.WelchPeriodogram, dsp.SpectrumMethod.FFT):
                    for name, opt in (("das", True), ("das", False), ("functional", 2), ("mvdr", None), ("orthogonal", 1), ("clean", None)):
                        if method is dsp.SpectrumMethod.FFT and name == "mvdr":
                            continue  # Singular matrix
                        for fc, fraction in ((1000, 0), (900, 3)):
                            got = {}
                            for scaling in dsp.SpectrumScaling:
                                s = dsp.Signal.from_time_data(x, FS, constrain_amplitude=False)
                                if method is dsp.SpectrumMethod.WelchPeriodogram:
                                    s.set_spectrum_parameters(method, window_length_samples=256, scaling=scaling)
                                else:
                                    s.set_spectrum_parameters(method, scaling=scaling)
                                bf = BEAMS[name](s, array(a), grid, B.SteeringVector(kind), c)
                                m = call(name, bf, fc, fraction, opt).ravel()
                                got[scaling.name] = m / m.max()
                            want = got["PowerSpectralDensity"]
                            for k, v in got.items():
                                eq(v, want, f"{method.name} {k} {name} {opt} {fc}/{fraction}", 1e-5, 1e-7)
                s = dsp.Signal.from_time_data(x, FS, constrain_amplitude=False)
                s.set_spectrum_parameters(window_length_samples=256)
                if kind is ST.TrueLocation:
                    bf = B.BeamformerDASFrequency(s, array(a), grid, B.SteeringVector(kind), c)
                    m = call("das", bf, 900, 3, False).ravel()
                    true(m[at] >= m.max() * (1 - 2e-2), "source with the default parameters")
            ctx.case(f"scaling/{kind.name}-{a}-{g}-{at}", compare)
            ctx.step()


def clean_reference(C, h, its, gain):
    """CLEAN-SC (Sijtsma, 2007) without autospectra: powers of each point"""
    n = len(C)
    off = 1 - np.eye(n)
    D, last = C * off, None
    m = np.array([(h[:, g].conj() @ D @ h[:, g]).real for g in range(h.shape[1])])
    out = np.zeros(len(m))
    for _ in range(its):
        i = int(np.argmax(m))
        if m[i] <= 0:
            break
        out[i] += gain * m[i]
        norm = np.abs(D).sum(axis=0).max()
        if last is not None and norm >= last:
            break
        last = norm
        w = h[:, i]
        d = D @ w / m[i]
        comp = w
        for _ in range(20):
            H = np.abs(comp) ** 2
            comp = (d + H * w) / np.sqrt(1 + H @ np.abs(w) ** 2)
        G = np.outer(comp, comp.conj()) * off * m[i]
        D = D - gain * G
        m = m - gain * np.array([(h[:, g].conj() @ G @ h[:, g]).real for g in range(len(m))])
    return out


def additive(ctx, kind):
    """The map of a band integrates those of its bins, whichever the beamformer
    and its options; each bin of CLEAN-SC without autospectra against an own
    deconvolution"""
    c = 343
    for a, g in (("ring", "plane"), ("space", "cube"), ("line", "upright"), ("pair", "line")):
        p, grid = positions(a), a_grid(g)
        q = grid.coordinates
        for i, data in itertools.product(range(len(q)), ("periodic", "noise")):
            def one():
                x = field(data, p, q[i], c) + 0.6 * np.roll(field(data, p, q[(i + 2) % len(q)], c), 13, axis=0)
                s = make_signal(data, x)
                f, csm = s.get_csm()
                opts = [("das", True), ("das", False), ("functional", 2), ("orthogonal", 1)]
                if data == "noise":
                    opts.append(("mvdr", None))
                for diag, its, gain in itertools.product((True, False), (None, 4), (0.5, 0.9)):
                    opts.append(("clean", (its, gain, diag)))
                for fc, fraction in ((1000, 0), (900, 3)):
                    k1, k2 = band(f, fc, fraction)
                    for name, opt in opts:
                        def get(fc, fraction):
                            bf = BEAMS[name](s, array(a), grid, B.SteeringVector(kind), c)
                            if name == "clean":
                                return quiet(bf.get_beamformer_map, fc, fraction, *[opt[0], opt[1], opt[2]]).ravel()
                            return call(name, bf, fc, fraction, opt).ravel()
                        bins = [get(f[k], 0) for k in range(k1, k2)]
                        eq(get(fc, fraction), total(bins, f[1] - f[0]), f"{name} {opt}: {fc}/{fraction}", 1e-9, 1e-12)
                        if name == "clean" and opt[2]:
                            for k, got in zip(range(k1, k2), bins):
                                h = steering(kind, 2 * np.pi * f[k] / c, q, p)
                                want = clean_reference(csm[k], h, opt[0] or 2 * len(p), opt[1])
                                eq(got, want, f"deconvolved bin {k} {opt}", 1e-6, 1e-9 * np.abs(want).max())
                eq(s.get_csm()[1], csm, "matrix of the signal")
            ctx.case(f"additive/{kind.name}-{a}-{g}-{i}-{data}", one)
            ctx.step()


def info(ctx):
    s = make_signal("periodic", field("periodic", positions("pair"), (0.1, 0.2, 0.6), 343))
    for c in (343, 500.0):
        def one():
            kinds = {B.BeamformerDASFrequency: "Delay-and-sum (Frequency)", B.BeamformerCleanSC: "CleanSC", B.BeamformerOrthogonal: "Orthogonal (Grid)", B.BeamformerFunctional: "Functional", B.BeamformerMVDR: "MVDR"}
            for cls, txt in kinds.items():
                bf = cls(s, array("pair"), a_grid("plane"), B.SteeringVector(), c)
                same(bf.beamformer_type, txt, "type")
            bf = B.BeamformerDASTime(s, array("pair"), a_grid("plane"), c)
            same(bf.beamformer_type, "Delay-and-sum (Time)", "type")
            ap = dist(*positions("pair"))
            for r in ([4, 10], (1.0, 2.5)):
                eq(np.array(bf.get_frequency_range_from_he(r)), np.array(r) * c / ap, "range")
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                bf.show_info()
            txt = out.getvalue()
            for v in (ap, 4 * c / ap, c / ap / 2, 2, 6):
                true(str(v) in txt, f"{v} in the info")
            fig, ax = bf.plot_setting()
            pts = [np.stack(np.ma.filled(o._offsets3d), axis=1) if not isinstance(o._offsets3d, np.ndarray) else o._offsets3d for o in ax.collections]
            eq(pts[0], positions("pair"), "microphones")
            eq(pts[1], a_grid("plane").coordinates, "grid")
            plt.close("all")
        ctx.case(f"info/{c}", one)
        ctx.step()


def run(ctx):
    t = ctx.thorough
    parts = [(grids, (1, 2, 3, 4) if t else (1, 2, 3)), (mics, 4 if t else 3), (steer,), (sources,), (das_time,), (info,)]
    for kind in ST:
        parts.append((two_sources, kind))
        parts.append((scalings, kind))
        parts.append((additive, kind))
        if t:
            for a, g, c in itertools.product(ARRAYS, GRIDS, (343, 200.0)):
                parts.append((maps, kind, (a,), (g,), c))
        else:
            parts.append((maps, kind, ("ring",), ("plane", "point"), 343))
            parts.append((maps, kind, ("space",), ("cube", "line"), 343))
            parts.append((maps, kind, ("pair", "line"), ("upright",), 250.0))
    ctx.bound(
        grids="every class, orientation and line lengths of 1-" + ("4" if t else "3"),
        arrays=list(ARRAYS), formulations=[k.name for k in ST],
        spectrum_parameters="both methods with every scaling",
        beamformers=sorted(BEAMS) + ["das time"],
        sources="every grid point as the source, per array, grid and formulation",
        histories=f"all sequences of {4 if t else 3} reads and changes of an array",
    )
    ctx.assume("The cross-spectral matrix itself is decided by C15; fractional delays by C04; here pulses far below the Nyquist frequency bound their error.")
    ctx.parallel(lambda c, fn, *a: fn(c, *a), parts)
