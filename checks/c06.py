"""C06 MultiBandSignal: breadth-first search over operation histories against
a list-of-bands model."""

import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import canon, eq, must_raise, same, true
from mc import dsp as R

N = 6
MAXB = 4


class Model:
    def __init__(self, kind, bands):
        self.same = not kind.startswith("multi")
        self.ir = "ir" in kind
        self.bands = bands  # list of (td, fs)


def make(td, fs, ir):
    cls = dsp.ImpulseResponse if ir else dsp.Signal
    return cls(None, td.copy(), fs, constrain_amplitude=False)


def is_band(s, td, fs, what):
    eq(s.time_data, td.real, what, 1e-12, 1e-14)
    true(s.is_complex_signal == np.iscomplexobj(td), f"{what}: complex flag")
    if s.is_complex_signal:
        eq(s.time_data_imaginary, td.imag, f"{what} (imaginary)", 1e-12, 1e-14)
    same(s.sampling_rate_hz, fs, f"{what} sampling rate")


def check(mb, m):
    nb = len(m.bands)
    same(mb.number_of_bands, nb, "number_of_bands")
    same(len(mb), nb, "len")
    same(mb.same_sampling_rate, m.same, "same_sampling_rate")
    same(mb.metadata["number_of_bands"], nb, "metadata bands")
    for i, (b, (td, fs)) in enumerate(zip(mb.bands, m.bands)):
        is_band(b, td, fs, f"band {i}")
    for i, (b, (td, fs)) in enumerate(zip(mb, m.bands)):
        is_band(b, td, fs, f"iterated band {i}")
    before = canon(mb)
    if nb == 0:
        same(mb.length_samples, 0, "length of an empty signal")
        same(mb.is_complex_signal, False, "complex flag of an empty signal")
        same(mb.length_seconds, 0.0, "duration of an empty signal")
        return mb, m
    tds = [b[0] for b in m.bands]
    cplx = np.iscomplexobj(tds[0])
    ch = tds[0].shape[1]
    same(mb.number_of_channels, ch, "number_of_channels")
    same(mb.metadata["number_of_channels"], ch, "metadata channels")
    same(mb.is_complex_signal, cplx, "is_complex_signal")
    eq(mb.length_seconds, len(tds[0]) / m.bands[0][1], "length_seconds")
    allt = mb.get_all_time_data()
    if m.same:
        same(mb.sampling_rate_hz, m.bands[0][1], "sampling_rate_hz")
        same(mb.length_samples, len(tds[0]), "length_samples")
        same(allt[1], m.bands[0][1], "get_all_time_data rate")
        eq(allt[0], np.stack(tds, axis=1), "get_all_time_data", 1e-12, 1e-14)
        for c in range(ch):
            s = mb.get_all_bands(c)
            true(type(s) is (dsp.ImpulseResponse if m.ir else dsp.Signal), "get_all_bands type")
            is_band(s, np.stack([t[:, c] for t in tds], axis=1), m.bands[0][1], f"get_all_bands({c})")
        s = mb.collapse()
        is_band(s, sum(tds), m.bands[0][1], "collapse")
        s.time_data = s.time_data * 0.0
    else:
        same(list(mb.sampling_rate_hz), [b[1] for b in m.bands], "sampling_rate_hz")
        same(list(mb.length_samples), [len(t) for t in tds], "length_samples")
        same(len(allt), nb, "get_all_time_data length")
        for i, (a, fs) in enumerate(allt):
            eq(a, tds[i], f"get_all_time_data[{i}]", 1e-12, 1e-14)
            same(fs, m.bands[i][1], f"get_all_time_data[{i}] rate")
        for c in range(ch):
            data, rates = mb.get_all_bands(c)
            same(list(rates), [b[1] for b in m.bands], "get_all_bands rates")
            for i, a in enumerate(data):
                eq(a, tds[i][:, c], f"get_all_bands({c})[{i}]", 1e-12, 1e-14)
        must_raise(mb.collapse, "collapse of a multirate signal")
    str(mb)
    true(canon(mb) == before, "reading changed the multiband signal")
    return mb, m


def rejected(mb, m, fn, what):
    before = canon(mb)
    must_raise(fn, what)
    true(canon(mb) == before, f"{what}: rejected but the object changed")


def build_ops(kind, thorough):
    ops = []
    cplx = "cplx" in kind
    multi = kind.startswith("multi")
    ir = "ir" in kind
    pool = {}
    for i, k in enumerate("xyz"):
        n, fs = (N + i, 1000 * (i + 1)) if multi else (N, 1000)
        pool[k] = (R.td(n, 2, 70 + i, cplx), fs)

    def op(name, f):
        ops.append((name, f))

    for k, (td, fs) in pool.items():
        for idx in (-1, 0, 1, 2):
            def f(mb, m, td=td, fs=fs, idx=idx):
                if len(m.bands) >= MAXB or idx > len(m.bands) or (m.bands and m.bands[0][0].shape[1] != 2):
                    return None
                r = mb.add_band(make(td, fs, ir)) if idx == -1 else mb.add_band(make(td, fs, ir), idx)
                true(r is mb, "add_band returns the object")
                if idx == -1:
                    m.bands.append((td, fs))
                else:
                    m.bands.insert(idx, (td, fs))
                return check(mb, m)
            if idx in (-1, 0) or k == "x" or thorough:
                op(f"add_{k}{idx}", f)

    def bad(mb, m):
        if not m.bands:
            rejected(mb, m, lambda: mb.remove_band(), "remove_band from an empty signal")
            return check(mb, m)
        td, fs = m.bands[0]
        n, ch = td.shape
        for idx in (-1, 0):
            rejected(mb, m, lambda: mb.add_band(make(R.td(n, ch + 1, 1, cplx), fs, ir), idx), f"add_band({idx}) with another channel count")
            rejected(mb, m, lambda: mb.add_band(make(R.td(n, ch, 1, not cplx), fs, ir), idx), f"add_band({idx}) mixing real and complex")
            if not multi:
                rejected(mb, m, lambda: mb.add_band(make(R.td(n, ch, 1, cplx), fs + 1, ir), idx), f"add_band({idx}) with another sampling rate")
                rejected(mb, m, lambda: mb.add_band(make(R.td(n + 1, ch, 1, cplx), fs, ir), idx), f"add_band({idx}) with another length")
            rejected(mb, m, lambda: mb.add_band(R.td(n, ch), idx), f"add_band({idx}) of an array")
        nb = len(m.bands)
        rejected(mb, m, lambda: mb.remove_band(nb), "remove_band out of range")
        rejected(mb, m, lambda: mb.swap_bands(list(range(nb + 1))), "swap_bands too long")
        rejected(mb, m, lambda: mb.swap_bands(list(range(1, nb + 1))), "swap_bands out of range")
        if nb > 1:
            rejected(mb, m, lambda: mb.swap_bands([0] * nb), "swap_bands repeated")
        return check(mb, m)
    op("bad", bad)

    for i in (-1, 0, 1, 2):
        for ret in (False, True):
            def f(mb, m, i=i, ret=ret):
                if i >= len(m.bands) or not m.bands:
                    return None
                r = mb.remove_band(i, ret)
                td, fs = m.bands.pop(i)
                if ret:
                    is_band(r, td, fs, "removed band")
                else:
                    true(r is mb, "remove_band returns the object")
                return check(mb, m)
            op(f"rm{i}{'r' if ret else ''}", f)
    for n in range(1, MAXB + 1):
        perms = list(itertools.permutations(range(n)))
        if n == 4 and not thorough:
            perms = [(1, 2, 3, 0), (3, 0, 1, 2), (2, 1, 3, 0)]
        for p in perms:
            def f(mb, m, p=p):
                if len(p) != len(m.bands):
                    return None
                mb.swap_bands(list(p))
                m.bands = [m.bands[i] for i in p]
                return check(mb, m)
            op("swap" + "".join(map(str, p)), f)

    def cp(mb, m):
        r = mb.copy()
        q = mb.copy()
        before = canon(mb)
        for b in q.bands:
            b.time_data = b.time_data * 0
        if q.bands:
            q.remove_band()
        true(canon(mb) == before, "changing a copy changed the original")
        return check(r, m)
    op("copy", cp)

    def setter(names, as_tuple):
        def f(mb, m):
            bands = [make(*pool[k], ir) for k in names]
            mb.bands = tuple(bands) if as_tuple else bands
            m.bands = [pool[k] for k in names]
            return check(mb, m)
        return f
    op("set_xy", setter("xy", False))
    op("set_zyx_t", setter("zyx", True))
    op("set_empty", setter("", False))

    def none(mb, m):
        mb.bands = None
        m.bands = []
        return check(mb, m)
    op("set_none", none)

    for extra in ("same", "short", "long"):
        for at_end in (True, False):
            def f(mb, m, extra=extra, at_end=at_end):
                if not m.bands or m.bands[0][0].shape[1] > 2:
                    return None
                d = dict(same=0, short=-2, long=2)[extra]
                other = [(R.td(len(td) + d, 1, 90 + i, cplx), fs) for i, (td, fs) in enumerate(m.bands)]
                o = dsp.MultiBandSignal([make(t, fs, ir) for t, fs in other], same_sampling_rate=m.same)
                before = canon((mb, o))
                r = dsp.append_signals([mb, o], at_end=at_end)
                if extra != "same":
                    must_raise(lambda: dsp.append_signals([mb, o], allow_padding_trimming=False), "append_signals with other length and no padding")
                true(canon((mb, o)) == before, "append_signals changed its inputs")
                new = []
                for (td, fs), (t, _) in zip(m.bands, other):
                    n = len(td)
                    if not at_end:
                        t = t[::-1]
                    t = t[:n] if len(t) >= n else np.concatenate([t, np.zeros((n - len(t), 1), t.dtype)])
                    if not at_end:
                        t = t[::-1]
                    new.append((np.concatenate([td, t], axis=1), fs))
                m.bands = new
                return check(r, m)
            op(f"append_{extra}{'' if at_end else '_start'}", f)

    def band_op(mb, m):
        if not m.bands:
            return None
        # band-wise operations of the library keep the structure
        r = dsp.apply_gain(mb, 6.0)
        m.bands = [(td * 10 ** 0.3, fs) for td, fs in m.bands]
        return check(r, m)
    op("gain", band_op)
    return ops


def start(kind):
    m = Model(kind, [])
    mb = dsp.MultiBandSignal(same_sampling_rate=m.same)
    return mb, m


def explore(ctx, kind, first, depth):
    ops = build_ops(kind, ctx.thorough)
    mb, m = start(kind)
    if first is None:
        ctx.case(f"{kind}/start", check, mb, m)
        return
    op = dict(ops)[first]
    r = ctx.case(f"{kind}/{first}", op, mb, m)
    ctx.step()
    if r is not None:
        ctx.state(canon(r))
        ctx.bfs(f"{kind}/{first}", r[0], ops, lambda s, mm, o: o[1](s, mm), depth - 1, model=r[1])


def run(ctx):
    parts = []
    for kind in ("same", "same-cplx", "multi", "multi-cplx", "same-ir"):
        depth = 5 if ctx.thorough else 4
        firsts = [None] + [o[0] for o in build_ops(kind, ctx.thorough)]
        parts += [(kind, f, depth) for f in firsts]
        ctx.bound(depth=depth, operations=len(firsts) - 1, bands=f"0-{MAXB}")
    ctx.parallel(explore, parts)
