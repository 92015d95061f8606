"""C08 time-structure operations: every length, amount and option in a small
range, and every short history of them, against exact index arithmetic."""

import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc import dsp as R
from mc.snap import pure, snap

FT = dsp.FadeType


def cplx(s):
    d = np.array(s.time_data)
    if s.time_data_imaginary is not None:
        d = d + 1j * s.time_data_imaginary
    return d


def sig(x, fs=1000, kind="sig"):
    cls = dsp.ImpulseResponse if kind == "ir" else dsp.Signal
    return cls.from_time_data(np.array(x), fs, constrain_amplitude=False)


def check(r, want, like, fs):
    true(type(r) is type(like), f"type {type(r).__name__}")
    same(r.sampling_rate_hz, fs, "sampling rate")
    true(r.is_complex_signal == np.iscomplexobj(want), "complex flag")
    same(r.length_samples, len(want), "length_samples")
    same(r.constrain_amplitude, like.constrain_amplitude, "constrain_amplitude")
    eq(cplx(r), want, "samples", 1e-12, 1e-13)
    true(
        not any(np.shares_memory(r.time_data, o) for o in (like.time_data,) if o.size),
        "result shares memory with the input",
    )


# ----------------------------------------------------------------- models
def m_pad(x, L, end):
    n = len(x)
    if L >= n:
        z = np.zeros((L - n, x.shape[1]), x.dtype)
        return np.concatenate([x, z] if end else [z, x])
    return x[:L] if end else x[n - L:]


def m_modify(x, a, b):
    """a, b: samples to add (negative: to remove); None if to be rejected."""
    n = len(x)
    if max(-a, 0) + max(-b, 0) >= n:
        return None
    out = x[max(-a, 0): n - max(-b, 0)]
    z = lambda k: np.zeros((max(k, 0), x.shape[1]), x.dtype)
    return np.concatenate([z(a), out, z(b)])


def m_select(x, a, b, inc):
    n = len(x)
    if a is None and b is None:
        return None
    lo = 0 if a is None else (a if inc else a + 1)
    hi = n if b is None else (b + 1 if inc else b)
    if (a is not None and a >= n) or (b is not None and b == 0) or hi <= lo:
        return None
    return x[lo:hi]


def m_delay(x, d, ch, keep):
    n, c = x.shape
    y = np.zeros((n + d, c), x.dtype)
    for k in range(c):
        o = d if k in ch else 0
        y[o: o + n, k] = x[:, k]
    return y[:n] if keep else y


def fade_curve(kind, l):
    t = np.arange(l) / (l - 1) if l > 1 else np.zeros(l)
    if kind == FT.Linear:
        return t
    if kind == FT.Exponential:
        return 10 ** ((-100 + 100 * t) / 20)
    if kind == FT.Logarithmic:
        top = 50 * 10**0.5
        return np.log10(1 + (top - 1) * t) / np.log10(top)
    return np.ones(l)


def m_fade(x, kind, l, st, en):
    y = x.copy()
    c = fade_curve(kind, l)
    for i in range(l):
        if st:
            y[i] *= c[i]
        if en:
            y[len(x) - 1 - i] *= c[i]
    return y


def m_normalize(x, db, peak, each):
    g = 10 ** (db / 20)
    if peak:
        lev = np.array([np.max(np.abs(x[:, c])) for c in range(x.shape[1])])
        lev = lev if each else np.max(lev)
    else:
        p = np.array([np.sum(np.abs(x[:, c]) ** 2) / len(x) for c in range(x.shape[1])])
        lev = np.sqrt(p) if each else np.sqrt(np.mean(p))
    return x * (g / lev)


def subsets(c):
    out = [None]
    for r in range(1, c + 1):
        out += [list(p) for p in itertools.permutations(range(c), r)]
    return out


# ------------------------------------------------------------ single operations
def kinds(n):
    return {
        "r1": (R.td(n, 1), "sig"),
        "r3": (R.td(n, 3, 2), "sig"),
        "c2": (R.td(n, 2, 4, True), "sig"),
        "ir2": (R.td(n, 2, 6), "ir"),
    }


def ops_of(x, fs):
    """(name, call, expected) for one matrix of samples; expected None: must
    be rejected."""
    n, c = x.shape
    for L in range(1, n + 4):
        for e in (True, False):
            yield f"pad_trim-{L}-{e}", lambda s, L=L, e=e: dsp.pad_trim(s, L, e), m_pad(x, L, e)
    amounts = [None] + list(range(-n, 3))
    for a in amounts:
        for b in amounts:
            if a is None and b is None:
                continue
            for off in (0.0, 0.3, -0.3):
                sa = None if a is None else (a + off * (a != 0)) / fs
                sb = None if b is None else (b + off * (b != 0)) / fs
                yield (
                    f"modify-{a}-{b}-{off}",
                    lambda s, sa=sa, sb=sb: dsp.modify_signal_length(s, sa, sb),
                    m_modify(x, a or 0, b or 0),
                )
    for a in [None] + list(range(0, n + 1)):
        for b in [None] + list(range(0, n + 1)):
            for inc in (True, False):
                ta = None if a is None else a / fs
                tb = None if b is None else b / fs
                yield (
                    f"select-{a}-{b}-{inc}",
                    lambda s, ta=ta, tb=tb, inc=inc: dsp.trim_with_time_selection(s, ta, tb, inc),
                    m_select(x, a, b, inc),
                )
    for d in range(0, n + 3):
        for ch in subsets(c):
            for keep in (False, True):
                want = m_delay(x, d, range(c) if ch is None else ch, keep)
                if keep and d >= n:
                    want = None
                yield (
                    f"delay-{d}-{ch}-{keep}",
                    lambda s, d=d, ch=ch, keep=keep: dsp.delay(s, d, ch, keep),
                    want,
                )
    if n > 2:
        for k in FT:
            for l in range(1, n - 1):
                for st, en in ((True, True), (True, False), (False, True)):
                    yield (
                        f"fade-{k.name}-{l}-{st}-{en}",
                        lambda s, k=k, l=l, st=st, en=en: dsp.fade(s, k, (l + 0.4) / fs, st, en),
                        m_fade(x, k, l, st, en),
                    )
        yield "fade-none", lambda s: dsp.fade(s, FT.Linear, 1.4 / fs, False, False), None
        yield "fade-long", lambda s: dsp.fade(s, FT.Linear, (n + 1) / fs), None
    for db in (-20.0, 0.0, 6.0):
        for peak in (True, False):
            for each in (True, False):
                yield (
                    f"normalize-{db}-{peak}-{each}",
                    lambda s, db=db, peak=peak, each=each: dsp.normalize(s, db, peak, each),
                    m_normalize(x, db, peak, each),
                )


def single(ctx, name, n, fs):
    x, kind = kinds(n)[name]
    s = sig(x, fs, kind)
    if n < x.shape[1]:
        return
    for op, call, want in ops_of(x, fs):
        if want is not None and len(want) < x.shape[1]:
            continue  # documented: data with more columns than rows is transposed
        ctx.step()
        ctx.state(name, n, fs, op)

        def one():
            if want is None:
                before = snap(s)
                must_raise(lambda: call(s), "invalid request")
                true(snap(s) == before, "rejected call changed the signal")
                return
            check(pure(call, s), want, s, fs)

        ctx.case(f"single/{name}-{n}-{fs}-{op}", one)


# -------------------------------------------------------------- multiband
def multiband(ctx, n, mode):
    rates = (1000, 1000, 1000) if mode != "multirate" else (1000, 500, 250)
    xs = [R.td(n if mode != "multirate" else max(2, (n * r) // 1000), 2, 3 * i, mode == "cplx") for i, r in enumerate(rates)]
    mb = dsp.MultiBandSignal([sig(x, r) for x, r in zip(xs, rates)], same_sampling_rate=mode != "multirate")
    per = [list(ops_of(x, r)) for x, r in zip(xs, rates)]
    if mode == "multirate":
        # the same request in seconds for every band
        todo = [
            (f"modify-{a}", lambda s, a=a: dsp.modify_signal_length(s, a / 250, None), [m_modify(x, a * r // 250, 0) for x, r in zip(xs, rates)])
            for a in (0, 1, 2, 3)
        ]
        todo += [
            (f"modify-end-{a}", lambda s, a=a: dsp.modify_signal_length(s, None, a / 250), [m_modify(x, 0, a * r // 250) for x, r in zip(xs, rates)])
            for a in (0, 1, 2)
        ]
        todo += [
            (f"delay-{d}", lambda s, d=d: dsp.delay(s, d, [1]), [m_delay(x, d, [1], False) for x in xs]) for d in (0, 1, 2)
        ]
    else:
        todo = [(o[0][0], o[0][1], [w[2] for w in o]) for o in zip(*per) if not o[0][0].startswith("fade")]
    for op, call, wants in todo:
        if any(w is not None and len(w) < 2 for w in wants):
            continue
        ctx.step()
        ctx.state(mode, n, op)

        def one():
            if any(w is None for w in wants):
                before = snap(mb)
                must_raise(lambda: call(mb), "invalid request")
                true(snap(mb) == before, "rejected call changed the signal")
                return
            r = pure(call, mb)
            true(type(r) is dsp.MultiBandSignal, "type")
            same(r.number_of_bands, len(xs), "bands")
            same(r.same_sampling_rate, mb.same_sampling_rate, "same_sampling_rate")
            for i, w in enumerate(wants):
                check(r.bands[i], w, mb.bands[i], rates[i])

        ctx.case(f"multiband/{mode}-{n}-{op}", one)


# ------------------------------------------------------- level threshold
def threshold(ctx, nmax):
    levels = (0.0, 0.1, -0.1, 0.5, -0.9)
    for n in range(1, nmax + 1):
        for v in itertools.product(levels, repeat=n):
            x = np.array(v)[:, None]
            _threshold(ctx, x, f"{n}-{v}")
    for v in itertools.product((0.0, 0.1, -0.6), repeat=6):
        _threshold(ctx, np.array(v).reshape(3, 2), f"3x2-{v}")
    for v in itertools.product((0.0, 0.1, -0.6, 0.5j, 0.4 + 0.4j), repeat=4):
        if any(np.imag(v)):
            _threshold(ctx, np.array(v)[:, None], f"cplx-{v}")


def _threshold(ctx, x, tag):
    for lin in (0.1, 0.3, 0.55):
        db = 20 * np.log10(lin * (1 - 1e-9))
        above = [i for i in range(len(x)) if any(abs(z) >= lin * (1 - 1e-6) for z in x[i])]
        for st, en in ((True, True), (True, False), (False, True)):
            ctx.step()

            def one():
                s = sig(x)
                if not above:
                    try:
                        r, a, b = dsp.trim_with_level_threshold(s, db, st, en)
                    except (ValueError, IndexError, AssertionError):
                        return
                    true(r.length_samples == 0 or not np.any(cplx(r)), "samples below the threshold were kept")
                    return
                a = above[0] if st else 0
                b = above[-1] + 1 if en else len(x)
                if b - a < x.shape[1]:
                    return
                r = pure(lambda o: dsp.trim_with_level_threshold(o, db, st, en), s)
                same(r[1], a, "start index")
                same(r[2], b, "stop index")
                check(r[0], x[a:b], s, 1000)
                ctx.outcome(a, b, len(x))

            ctx.case(f"threshold/{tag}-{lin}-{st}-{en}", one)


# ---------------------------------------------------------------- appending
def appending(ctx, nmax):
    forms = [(1, False), (2, False), (1, True), (2, True)]
    for count in (2, 3):
        for lens in itertools.product(range(1, nmax + 1), repeat=count):
            for fm in itertools.product(forms, repeat=count):
                if count == 3 and len(set(lens)) == 3 and fm[0] != fm[1]:
                    continue
                if lens[0] < sum(c for c, _ in fm) or any(l < c for l, (c, _) in zip(lens, fm)):
                    continue
                xs = [R.td(l, c, 4 * i, z) for i, (l, (c, z)) in enumerate(zip(lens, fm))]
                for end in (True, False):
                    for allow in (True, False):
                        ctx.step()

                        def one():
                            ss = [sig(x) for x in xs]
                            lst = list(ss)
                            call = lambda *o: dsp.append_signals(lst, allow, end)
                            if not allow and len(set(lens)) > 1:
                                must_raise(call, "different lengths")
                                return
                            r = pure(call, *ss)
                            true(len(lst) == len(ss) and all(p is q for p, q in zip(lst, ss)), "list was modified")
                            want = np.concatenate([m_pad(x, lens[0], end) for x in xs], axis=1)
                            check(r, want, ss[0], 1000)
                            if len(set(lens)) == 1 and count == 2:
                                mb = [dsp.MultiBandSignal([s, s.copy()]) for s in ss]
                                if len({z for _, z in fm}) == 1:
                                    q = pure(lambda *o: dsp.append_signals(mb, allow, end), *mb)
                                    for b in q.bands:
                                        check(b, want, ss[0], 1000)

                        ctx.case(f"append/{lens}-{fm}-{end}-{allow}", one)
    ctx.case("append/rates", lambda: must_raise(lambda: dsp.append_signals([sig(R.td(4, 1)), sig(R.td(4, 1), 500)]), "different rates"))
    ctx.case("append/one", lambda: must_raise(lambda: dsp.append_signals([sig(R.td(4, 1))]), "one signal"))


# ------------------------------------------------------ activity partition
def activity(ctx, nmax):
    for n in range(2, nmax + 1):
        for v in itertools.product((0.0, 0.9, -0.9, 0.02), repeat=n):
            if not any(v):
                continue
            for rel in (True, False):
                ctx.step()

                def one():
                    x = np.stack([np.array(v), R.seq(n)], axis=1)
                    s = sig(x)
                    d, o = pure(lambda q: dsp.activity_detector(q, -20.0, 0, rel, None, 1.0, 2.0), s)
                    i, k = o["signal_indices"], o["noise_indices"]
                    true(np.array_equal(np.asarray(i), ~np.asarray(k)), "masks are not complementary")
                    same(len(i), n, "mask length")
                    if np.any(i):
                        eq(d.time_data[:, 0], x[i, 0], "detected")
                    if np.any(k):
                        eq(o["noise"].time_data[:, 0], x[k, 0], "noise")
                    ctx.outcome(tuple(map(bool, i)))

                ctx.case(f"activity/{v}-{rel}", one)


# ---------------------------------------------------------------- histories
def histories(ctx, name, depth):
    x, kind = {
        "r2": (R.td(5, 2), "sig"),
        "c2": (R.td(5, 2, 3, True), "sig"),
        "ir1": (R.td(5, 1, 5), "ir"),
    }[name]
    fs = 1000

    def mk(call, model):
        def f(s, m):
            want = model(m)
            if want is None:
                must_raise(lambda: call(s), "invalid request")
                return None
            if len(want) < want.shape[1]:
                return None
            r = pure(call, s)
            check(r, want, s, fs)
            return r, want
        return f

    ops = []
    for L in (1, 3, 6):
        for e in (True, False):
            ops.append((f"pad{L}{e}", mk(lambda s, L=L, e=e: dsp.pad_trim(s, L, e), lambda m, L=L, e=e: m_pad(m, L, e))))
    for a, b in ((1, -1), (-2, None), (None, 2), (-1, -1)):
        ops.append((f"mod{a},{b}", mk(
            lambda s, a=a, b=b: dsp.modify_signal_length(s, None if a is None else a / fs, None if b is None else b / fs),
            lambda m, a=a, b=b: m_modify(m, a or 0, b or 0))))
    for d, ch, keep in ((1, None, True), (2, [0], False), (1, 0, True)):
        chs = lambda m, ch=ch: range(m.shape[1]) if ch is None else ([ch] if isinstance(ch, int) else ch)
        ops.append((f"delay{d},{ch},{keep}", mk(
            lambda s, d=d, ch=ch, keep=keep: dsp.delay(s, d, ch, keep),
            lambda m, d=d, keep=keep, chs=chs: None if keep and d >= len(m) else m_delay(m, d, chs(m), keep))))

    def win(a, b, inc):
        def model(m):
            if b is not None and b > len(m):
                return None
            return m_select(m, a, b, inc)
        return mk(lambda s: dsp.trim_with_time_selection(s, None if a is None else a / fs, None if b is None else b / fs, inc), model)

    ops += [("sel1,3", win(1, 3, True)), ("sel0x", win(0, None, False)), ("sel,4x", win(None, 4, False))]
    ops.append(("gain", mk(lambda s: dsp.apply_gain(s, 6.0), lambda m: m * 10 ** 0.3)))
    ops.append(("dup", mk(lambda s: dsp.append_signals([s, s.get_channels(0)]) if s.number_of_channels < 4 else s.copy(),
                          lambda m: np.concatenate([m, m[:, :1]], axis=1) if m.shape[1] < 4 else m)))
    ctx.bound(history_depth=depth, history_operations=len(ops))
    s = sig(x, fs, kind)
    # samples in the model are computed without the object: digest of both
    ctx.bfs(f"histories/{name}", s, ops, lambda s, m, op: op[1](s, m), depth, model=x)


def run(ctx):
    T = ctx.thorough
    nmax = 9 if T else 5
    parts = []
    for n in range(1, nmax + 1):
        for name in ("r1", "r3", "c2", "ir2"):
            for fs in (1000, 44100) if not T else (1000, 44100, 48000, 3):
                parts.append(("single", (name, n, fs)))
        for mode in ("same", "cplx", "multirate"):
            if n > 1:
                parts.append(("multiband", (n, mode)))
    parts.append(("single", ("r1", 40, 44100)))
    parts.append(("single", ("r1", 31, 48000)))
    parts.append(("threshold", (6 if T else 5,)))
    parts.append(("appending", (6 if T else 4,)))
    parts.append(("activity", (7 if T else 5,)))
    for name in ("r2", "c2", "ir1"):
        parts.append(("histories", (name, 4 if T else 3)))
    ctx.bound(lengths=f"1..{nmax}, 31, 40", kinds=4, thresholds=3)
    ctx.parallel(lambda c, f, a: globals()[f](c, *a), parts[::-1])
