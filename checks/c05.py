"""C05 channel and data operations of Signal / ImpulseResponse: breadth-first
search over operation histories; the model is a complex matrix with metadata."""

import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import Mismatch, canon, eq, must_raise, same, true
from mc import dsp as R

FS = 1000
N = 5
MAXCH = 4
SS, SM = dsp.SpectrumScaling, dsp.SpectrumMethod


class Model:
    def __init__(self, kind, td):
        self.kind, self.td, self.fs = kind, td, FS


def check(s, m):
    if m.td.shape[1] > m.td.shape[0]:
        return None  # documented: more channels than samples are read as transposed data
    cls = dsp.ImpulseResponse if m.kind.startswith("ir") else dsp.Signal
    true(type(s) is cls, f"type is {type(s).__name__}")
    true(s.time_data.dtype.kind in "fi", "time data must be real")
    if np.iscomplexobj(m.td):
        true(s.is_complex_signal, "imaginary part lost")
        eq(s.time_data, m.td.real, "real part", 1e-12, 1e-14)
        eq(s.time_data_imaginary, m.td.imag, "imaginary part", 1e-12, 1e-14)
    else:
        true(not s.is_complex_signal and s.time_data_imaginary is None, "unexpected imaginary part")
        eq(s.time_data, m.td, "time data", 1e-12, 1e-14)
    same(s.number_of_channels, m.td.shape[1], "number_of_channels")
    same(len(s), m.td.shape[0], "len")
    same(s.length_samples, m.td.shape[0], "length_samples")
    eq(s.length_seconds, m.td.shape[0] / m.fs, "length_seconds")
    same(s.sampling_rate_hz, m.fs, "sampling_rate_hz")
    same(s.spectrum_scaling, SS.PowerSpectrum, "spectrum scaling")
    same(s.calibrated_signal, True, "calibrated_signal")
    same(s.constrain_amplitude, False, "constrain_amplitude")
    same(s.amplitude_scale_factor, 1.0, "amplitude_scale_factor")
    md = s.metadata
    same(md["number_of_channels"], m.td.shape[1], "metadata channels")
    same(md["signal_length_samples"], m.td.shape[0], "metadata length")
    same(md["is_complex_signal"], bool(np.iscomplexobj(m.td)), "metadata complex")
    for i, c in enumerate(s):
        eq(c, m.td[:, i].real, f"iteration over channel {i}", 1e-12, 1e-14)
    tv = s.time_vector_s
    same(tv.shape, (m.td.shape[0],), "time vector shape")
    return s, m


def pad(x, n):
    return x[:n] if len(x) >= n else np.concatenate([x, np.zeros((n - len(x),) + x.shape[1:], x.dtype)])


def rejected(s, m, fn, what):
    before = canon(s)
    must_raise(fn, what)
    true(canon(s) == before, f"{what}: rejected but the object changed")
    return s, m


def build_ops(thorough):
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, f))
            return f
        return deco

    for name, x in {
        "add1d": R.seq(N, 20), "add2d": R.td(N, 1, 21), "add2ch": R.td(N, 2, 22), "addshort": R.seq(N - 2, 23),
        "addlong": R.td(N + 3, 2, 24), "addcplx": R.td(N, 1, 25, True), "addlist": list(R.seq(N, 26)), "addint": np.array([1, 0, -1, 2, 3]),
    }.items():
        def f(s, m, x=x):
            a = np.array(x)
            a = a[:, None] if a.ndim == 1 else a
            if m.td.shape[1] + a.shape[1] > MAXCH:
                return None
            given = x.copy() if isinstance(x, np.ndarray) else list(x)
            r = s.add_channel(None, given, FS if m.fs == FS else m.fs)
            true(r is s, "add_channel returns the object")
            m.td = np.concatenate([m.td, pad(a, m.td.shape[0])], axis=1)
            return check(s, m)
        op(name)(f)

    def reject_add(s, m):
        rejected(s, m, lambda: s.add_channel(None, R.seq(N), m.fs + 1), "add_channel with another sampling rate")
        rejected(s, m, lambda: s.add_channel(None, R.seq(m.td.shape[0] + 1), m.fs, allow_padding_trimming=False), "add_channel longer without padding/trimming")
        if m.td.shape[0] > 1:
            rejected(s, m, lambda: s.add_channel(None, R.seq(m.td.shape[0] - 1), m.fs, allow_padding_trimming=False), "add_channel shorter without padding/trimming")
        rejected(s, m, lambda: s.add_channel(None, np.ones((3, 2, 2)), m.fs), "add_channel with three dimensions")
        return check(s, m)
    op("badadd")(reject_add)

    for i in (-1, 0, 1, 2, 3):
        def f(s, m, i=i):
            ch = m.td.shape[1]
            if ch == 1 or i >= ch:
                return rejected(s, m, lambda: s.remove_channel(i), f"remove_channel({i}) of {ch}")
            s.remove_channel(i)
            m.td = np.delete(m.td, i, axis=1)
            return check(s, m)
        op(f"rm{i}")(f)

    for n in range(1, MAXCH + 1):
        perms = list(itertools.permutations(range(n)))
        if n == 4 and not thorough:
            perms = [(1, 2, 3, 0), (3, 0, 1, 2), (0, 3, 2, 1), (2, 1, 3, 0), (1, 0, 3, 2)]
        for p in perms:
            def f(s, m, p=p):
                if len(p) != m.td.shape[1]:
                    return None
                s.swap_channels(list(p) if len(p) != 2 else np.array(p))
                m.td = m.td[:, list(p)]
                return check(s, m)
            op("swap" + "".join(map(str, p)))(f)

    def reject_swap(s, m):
        ch = m.td.shape[1]
        rejected(s, m, lambda: s.swap_channels(list(range(ch + 1))), "swap_channels too long")
        rejected(s, m, lambda: s.swap_channels(list(range(1, ch + 1))), "swap_channels index out of range")
        rejected(s, m, lambda: s.swap_channels([-1] + list(range(1, ch))), "swap_channels negative index")
        if ch > 1:
            rejected(s, m, lambda: s.swap_channels([0] * ch), "swap_channels repeated index")
            rejected(s, m, lambda: s.swap_channels(list(range(ch - 1))), "swap_channels too short")
        rejected(s, m, lambda: s.get_channels([0, ch]), "get_channels index out of range")
        return check(s, m)
    op("badswap")(reject_swap)

    for name, sel in {"0": 0, "last": "last", "10": [1, 0], "00": [0, 0], "arr02": np.array([0, 2]), "210": (2, 1, 0), "02last": [0, 2, "last"]}.items():
        def f(s, m, sel=sel):
            ch = m.td.shape[1]
            c = sel if not isinstance(sel, str) else ch - 1
            if isinstance(c, list):
                c = [x if x != "last" else ch - 1 for x in c]
            idx = np.atleast_1d(np.array(c))
            if idx.max() >= ch:
                return None
            before = canon(s)
            r = s.get_channels(c)
            true(canon(s) == before, "get_channels changed the signal")
            m.td = m.td[:, idx]
            return check(r, m)
        op("get" + name)(f)

    def sm(s, m):
        before = canon(s)
        r = s.sum_channels()
        true(canon(s) == before, "sum_channels changed the signal")
        m.td = np.sum(m.td, axis=1, keepdims=True)
        return check(r, m)
    op("sum")(sm)

    def cp(s, m):
        r = s.copy()
        before = canon(s)
        q = s.copy()
        q.time_data = R.td(3, 2, 55)
        q.spectrum_scaling = SS.FFTForward
        q.calibrated_signal = False
        true(canon(s) == before, "changing a copy changed the original")
        return check(r, m)
    op("copy")(cp)

    for name, x in {
        "set1d": R.seq(N, 30), "setcol": R.td(N, 1, 31), "set2": R.td(N, 2, 32), "setT": R.td(N + 1, 3, 33).T, "setcplx": R.td(N, 2, 34, True),
        "setsquare": R.td(4, 4, 35), "setlist": [list(v) for v in R.td(N, 3, 36)], "set3d": R.td(N, 2, 37)[None], "setint": np.array([[1, -2], [0, 4], [3, 3], [2, 1], [-5, 2]]),
        "setone": np.array([0.3]),
    }.items():
        def model(x):
            a = np.array(x)
            a = a[0] if a.ndim == 3 else a
            a = a[:, None] if a.ndim == 1 else a
            return a.T if a.shape[1] > a.shape[0] else a

        def f(s, m, x=x):
            g = x.copy() if isinstance(x, np.ndarray) else [list(v) for v in x]
            s.time_data = g
            m.td = model(x)
            return check(s, m)
        op(name)(f)

        def h(s, m, x=x):
            g = x.copy() if isinstance(x, np.ndarray) else [list(v) for v in x]
            before = canon(s)
            r = s.copy_with_new_time_data(g)
            true(canon(s) == before, "copy_with_new_time_data changed the signal")
            m.td = model(x)
            return check(r, m)
        if name in ("set1d", "set2", "setcplx", "setT") or thorough:
            op("new" + name)(h)

    def badset(s, m):
        return rejected(s, m, lambda: setattr(s, "time_data", np.ones((3, 3, 2))), "time data with three dimensions")
    op("badset")(badset)

    def imag(s, m):
        im = R.td(*m.td.shape, 60)
        s.time_data_imaginary = im.copy()
        m.td = m.td.real + 1j * im
        return check(s, m)
    op("imag")(imag)

    def noimag(s, m):
        s.time_data_imaginary = None
        m.td = m.td.real.copy()
        return check(s, m)
    op("noimag")(noimag)

    def badimag(s, m):
        return rejected(s, m, lambda: setattr(s, "time_data_imaginary", np.ones((m.td.shape[0] + 1, m.td.shape[1]))), "imaginary part of another shape")
    op("badimag")(badimag)

    def fs(s, m):
        m.fs = 1500 if m.fs == FS else FS
        s.sampling_rate_hz = m.fs
        rejected(s, m, lambda: setattr(s, "sampling_rate_hz", 1000.5), "non-integer sampling rate")
        return check(s, m)
    op("fs")(fs)

    for name, x, order in (("appreal", R.td(N, 1, 40), 0), ("appcplx", R.td(N, 2, 41, True), 0), ("appshort", R.td(N - 2, 1, 42), 0), ("applong", R.td(N + 4, 1, 43), 0)):
        for at_end in (True, False):
            def f(s, m, x=x, at_end=at_end):
                if m.td.shape[1] + x.shape[1] > MAXCH:
                    return None
                o = dsp.Signal(None, x.copy(), m.fs)
                before = canon((s, o))
                r = dsp.append_signals([s, o], at_end=at_end)
                true(canon((s, o)) == before, "append_signals changed its inputs")
                n = m.td.shape[0]
                y = pad(x, n) if at_end else pad(x[::-1], n)[::-1]
                m.td = np.concatenate([m.td, y], axis=1)
                return check(r, m)
            op(name + ("" if at_end else "_start"))(f)

    def append_three(s, m):
        if m.td.shape[1] * 2 + 1 > MAXCH:
            return None
        o = dsp.Signal(None, R.td(m.td.shape[0], 1, 45), m.fs)
        rejected(s, m, lambda: dsp.append_signals([s, dsp.Signal(None, R.td(5, 1), m.fs + 1)]), "append_signals with other sampling rate")
        rejected(s, m, lambda: dsp.append_signals([s, dsp.Signal(None, R.td(m.td.shape[0] + 1, 1), m.fs)], allow_padding_trimming=False), "append_signals other length without padding")
        r = dsp.append_signals([s, o, s])
        m.td = np.concatenate([m.td, o.time_data, m.td], axis=1)
        return check(r, m)
    op("append3")(append_three)

    def to_ir(s, m):
        r = dsp.ImpulseResponse.from_signal(s)
        cls_td = m.td
        if np.iscomplexobj(cls_td):
            eq(r.time_data_imaginary, cls_td.imag, "from_signal imaginary part")
        eq(r.time_data, cls_td.real, "from_signal")
        same(r.calibrated_signal, True, "from_signal calibrated")
        same(r.sampling_rate_hz, m.fs, "from_signal sampling rate")
        same(r.spectrum_method, SM.FFT, "from_signal spectrum method")
        return None
    op("to_ir")(to_ir)
    return ops


def start(kind):
    td = {"r1": R.td(N, 1, 1), "r2": R.td(N, 2, 2), "c2": R.td(N, 2, 3, True), "r3": R.td(N, 3, 4)}[kind.split("-")[1]]
    cls = dsp.ImpulseResponse if kind.startswith("ir") else dsp.Signal
    s = cls(None, td.copy(), FS, constrain_amplitude=False)
    s.calibrated_signal = True
    s.spectrum_scaling = SS.PowerSpectrum
    return s, Model(kind, td)


def apply(s, m, op):
    return op[1](s, m)


def explore(ctx, kind, first, depth, ops):
    s, m = start(kind)
    if first is None:
        ctx.case(f"{kind}/start", check, s, m)
        return
    key = f"{kind}/{first[0]}"
    r = ctx.case(key, apply, s, m, first)
    ctx.step()
    if r is None:
        return
    ctx.state(canon(r))
    ctx.bfs(key, r[0], ops, apply, depth - 1, model=r[1])


def run(ctx):
    ops = build_ops(ctx.thorough)
    depth = 3
    parts = [(k, f, depth, ops) for k in ("sig-r1", "sig-c2", "sig-r3", "ir-r2", "ir-c2") for f in [None] + ops]
    if ctx.thorough:
        parts += [(k, f, 4, ops) for k in ("sig-r2", "sig-c2") for f in ops]
    ctx.bound(depth=depth, operations=len(ops), channels=f"1-{MAXCH}", samples="1-6")
    ctx.assume("signals have at least as many samples as channels (the constructor documents that other shapes are transposed)")
    ctx.assume("models are matrices; data values are fixed generic sequences, the operations only move or add them")
    ctx.parallel(explore, parts)
