"""C14 amplitude constraint: breadth-first search over histories of data
changes, constraint toggles and channel operations around the 0 dBFS limit."""

import numpy as np

import dsptoolbox as dsp
from mc.core import canon, eq, same, true
from mc import dsp as R

FS = 1000
N = 6


def data():
    base = R.td(N, 2, 3)
    base = base / np.max(np.abs(base))
    one = R.td(N, 1, 5) / np.max(np.abs(R.td(N, 1, 5)))
    im = R.td(N, 2, 8) / np.max(np.abs(R.td(N, 2, 8)))
    return {
        "half": 0.5 * base,
        "full": base,
        "negfull": -base,
        "just": base * (1 + 1e-9),
        "over": 1.25 * base,
        "negover": -3.0 * one,
        "secondch": np.concatenate([0.2 * one, 4.0 * one], axis=1),
        "zeros": np.zeros((N, 2)),
        "ints": np.array([[3, -1], [0, 2], [-7, 1], [2, 2], [1, 0], [0, 0]]),
        "smallints": np.array([[1, -1], [0, 1], [-1, 1], [0, 0], [1, 0], [0, 0]]),
        "cplx_im": 0.4 * base + 2.5j * im,
        "cplx_re": 2.0 * base + 0.5j * im,
        "cplx_in": 0.6 * base + 0.9j * im,
        "cplx_mod": 0.9 * base + 0.9j * base,
        "f32": (1.5 * base).astype(np.float32),
    }


DATA = data()


class Model:
    def __init__(self, kind, flag):
        self.kind, self.flag, self.factor = kind, flag, 1.0
        self.td = None
        self.single = False  # float32 data somewhere in the history

    def put(self, td):
        td = np.array(td)
        self.factor = 1.0
        if self.flag:
            mx = max(np.max(np.abs(td.real)), np.max(np.abs(td.imag)))
            if mx > 1.0:
                td = td / mx
                self.factor = 1.0 / mx
        self.td = td
        self.single |= td.dtype in (np.float32, np.complex64)


def check(s, m, tol=1e-9):
    true(type(s) is (dsp.Signal if m.kind == "sig" else dsp.ImpulseResponse), "type")
    same(s.constrain_amplitude, m.flag, "constrain_amplitude")
    tol = 1e-6 if m.single else 1e-12
    true(s.is_complex_signal == np.iscomplexobj(m.td), "complex flag")
    eq(s.time_data, m.td.real, "time data", tol, tol)
    if s.is_complex_signal:
        eq(s.time_data_imaginary, m.td.imag, "imaginary part", tol, tol)
    if m.flag:
        true(np.max(np.abs(s.time_data)) <= 1.0 + 1e-7, "peak above 1")
        if s.is_complex_signal:
            true(np.max(np.abs(s.time_data_imaginary)) <= 1.0 + 1e-7, "imaginary peak above 1")
    eq(s.amplitude_scale_factor, m.factor, "amplitude_scale_factor", tol, tol)
    same(s.metadata["amplitude_scale_factor"], s.amplitude_scale_factor, "metadata factor")
    return s, m


def guarded(a, fn):
    a = a.copy()
    b = a.copy()
    r = fn(a)
    true(a.dtype == b.dtype and np.array_equal(a, b), "the given array was modified")
    return r


def build_ops():
    ops = []
    for k, x in DATA.items():
        def f(s, m, x=x):
            guarded(x, lambda a: setattr(s, "time_data", a))
            m.put(x)
            return check(s, m)
        ops.append(("set_" + k, f))

        def g(s, m, x=x):
            before = canon(s)
            r = guarded(x, s.copy_with_new_time_data)
            true(canon(s) == before, "copy_with_new_time_data changed the signal")
            m.put(x)
            return check(r, m)
        ops.append(("new_" + k, g))

        if x.shape[1] == 2 and k in ("half", "over", "ints", "cplx_im", "just"):
            def h(s, m, x=x):
                if m.td.shape[1] > 3:
                    return None
                guarded(x[:, :1], lambda a: s.add_channel(None, a, FS))
                m.put(np.concatenate([m.td, x[:, :1]], axis=1))
                return check(s, m)
            ops.append(("add_" + k, h))

            def ap(s, m, x=x):
                if m.td.shape[1] > 3:
                    return None
                o = dsp.Signal(None, x[:, 1:].copy(), FS, constrain_amplitude=False)
                r = dsp.append_signals([s, o])
                m.put(np.concatenate([m.td, x[:, 1:]], axis=1))
                return check(r, m)
            ops.append(("append_" + k, ap))

    def on(s, m):
        # activating applies the constraint to the present data
        if not m.flag:
            m.flag = True
            m.put(m.td)
            s.constrain_amplitude = True
            return check(s, m)
        return None

    def off(s, m):
        m.flag = False
        s.constrain_amplitude = False
        return check(s, m)

    def total(s, m):
        r = s.sum_channels()
        m.put(np.sum(m.td, axis=1, keepdims=True))
        return check(r, m)

    def first(s, m):
        r = s.get_channels(0)
        m.put(m.td[:, :1])
        return check(r, m)

    def swap(s, m):
        o = list(range(m.td.shape[1]))[::-1]
        s.swap_channels(o)
        m.put(m.td[:, o])
        return check(s, m)

    def rm(s, m):
        if m.td.shape[1] < 2:
            return None
        s.remove_channel(0)
        m.put(m.td[:, 1:])
        return check(s, m)

    def gain(db):
        def f(s, m):
            r = dsp.apply_gain(s, db)
            m.put(m.td * 10 ** (db / 20))
            return check(r, m)
        return f

    def cp(s, m):
        return check(s.copy(), m)

    ops += [("on", on), ("off", off), ("sum", total), ("get0", first), ("swap", swap), ("rm0", rm), ("gain20", gain(20.0)), ("gain-6", gain(-6.0)), ("copy", cp)]
    return ops


def construct(kind, how, flag, x):
    cls = dsp.Signal if kind == "sig" else dsp.ImpulseResponse
    if how == "init":
        return cls(None, x, FS, constrain_amplitude=flag)
    if how == "from_time_data":
        return cls.from_time_data(x, FS, constrain_amplitude=flag)
    if how == "default":
        return cls.from_time_data(x, FS)
    if how == "init_default":
        return cls(None, x, FS)
    s = dsp.Signal(None, x, FS, constrain_amplitude=flag)
    return dsp.ImpulseResponse.from_signal(s)


def explore(ctx, kind, flag, k, depth, ops):
    hows = ["init", "from_time_data"]
    hows += ["default"] if flag else []
    hows += ["init_default"] if flag == (kind == "ir") else []
    hows += ["from_signal"] if kind == "ir" else []
    m = Model(kind, flag)
    m.put(DATA[k])
    for how in hows:
        def one():
            s = guarded(DATA[k], lambda a: construct(kind, how, flag, a))
            if how == "from_signal":
                eq(s.time_data, m.td.real, "from_signal", 1e-6, 1e-6)
                return s
            check(s, m)
            return s
        s = ctx.case(f"{kind}-construct/{how}-{flag}-{k}", one)
        ctx.step()
    s = construct(kind, "init", flag, DATA[k].copy())
    ctx.bfs(f"{kind}-histories/{flag}-{k}/", s, ops, lambda s, m, op: op[1](s, m), depth, model=m)


def run(ctx):
    ops = build_ops()
    depth = 3 if ctx.thorough else 2
    parts = [(kind, flag, k, depth, ops) for kind in ("sig", "ir") for flag in (True, False) for k in DATA]
    ctx.bound(depth=depth, operations=len(ops), data_classes=len(DATA))
    ctx.parallel(explore, parts)
