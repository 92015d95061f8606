"""C07 filters and filter banks: every list of filters, every mode, every
history of list operations, against difference equations; impulse responses and
transfer functions against the filtering they belong to."""

import itertools
import warnings

import numpy as np
import scipy.signal as ss

import dsptoolbox as dsp
from mc.core import Mismatch, eq, must_raise, same, true
from mc import dsp as R
from mc.snap import pure

FS = 1000
M = dsp.FilterBankMode
C = dsp.FilterCoefficientsType
SOS = np.array([[0.3, -0.2, 0.45, 1.0, -0.3, 0.35], [0.5, 0.25, 0.1, 1.0, 0.2, -0.15]])
ZPK = ([0.5 + 0.2j, 0.5 - 0.2j, -0.7], [0.3 + 0.4j, 0.3 - 0.4j, 0.2], 0.6)


def lf(b, a, x):
    b, a = np.asarray(b), np.asarray(a)
    y = np.zeros(len(x), dtype=np.result_type(b, a, x, float))
    for n in range(len(x)):
        acc = sum(b[i] * x[n - i] for i in range(len(b)) if n >= i)
        acc = acc - sum(a[i] * y[n - i] for i in range(1, len(a)) if n >= i)
        y[n] = acc / a[0]
    return y


class Spec:
    """A filter as cascade of difference equations plus a maker."""

    def __init__(self, name, sections, make, fir=None, order=None):
        self.name, self.sections, self.make, self.fir = name, sections, make, fir
        self.order = order

    def run(self, x):
        out = []
        for c in range(x.shape[1]):
            y = x[:, c]
            for b, a in self.sections:
                y = lf(b, a, y)
            out.append(y)
        return np.stack(out, axis=1)

    def tf(self, f, fs=FS):
        z = np.exp(-2j * np.pi * np.asarray(f) / fs)
        h = np.ones(len(z), dtype=complex)
        for b, a in self.sections:
            h = h * np.polyval(np.asarray(b)[::-1], z) / np.polyval(np.asarray(a)[::-1], z)
        return h

    def __repr__(self):
        return self.name


def ba(name, b, a, fs=FS):
    return Spec(
        name,
        [(b, a)],
        lambda: dsp.Filter.from_ba(np.array(b), np.array(a), fs),
        np.asarray(b) / a[0] if len(a) == 1 else None,
        max(len(b), len(a)) - 1,
    )


def pool(fs=FS):
    return {
        "g": ba("g", [0.7], [1.0], fs),
        "fir2": ba("fir2", [0.5, -0.25], [1.0], fs),
        "fir5": ba("fir5", [0.1, 0.4, -0.3, 0.2, 0.35], [1.0], fs),
        "fir3a2": ba("fir3a2", [0.4, 0.2, -0.6], [2.0], fs),
        "firc": ba("firc", [0.5, 0.25j, -0.2], [1.0], fs),
        "iir2": ba("iir2", [0.3, -0.2, 0.45], [1.0, -0.3, 0.35], fs),
        "iir1a": ba("iir1a", [0.3, -0.2, 0.45], [2.0, -0.6], fs),
        "sos2": Spec("sos2", [(s[:3], s[3:]) for s in SOS], lambda: dsp.Filter.from_sos(SOS.copy(), fs), None, 4),
        "zpk3": Spec(
            "zpk3",
            [(np.real(np.poly(ZPK[0])) * ZPK[2], np.real(np.poly(ZPK[1])))],
            lambda: dsp.Filter.from_zpk(np.array(ZPK[0]), np.array(ZPK[1]), ZPK[2], fs),
            None,
            3,
        ),
    }


P = pool()


def sig(x, fs=FS, cls=dsp.Signal):
    return cls.from_time_data(np.array(x), fs, constrain_amplitude=False)


def cx(s):
    d = s.time_data
    return d + 1j * s.time_data_imaginary if s.time_data_imaginary is not None else d


def inputs():
    yield "r1", R.td(9, 1, 1)
    yield "r2", R.td(8, 2, 2)
    yield "c2", R.td(9, 2, 3, True)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


# ---------------------------------------------------------- single filters
def single(ctx, name, n, ch, cplx, sub):
    sp = P[name]
    x = R.td(n, ch, 4, cplx)
    f = sp.make()
    s = sig(x)
    y = f.filter_signal(s, channels=None if sub is None else list(sub))
    want = x.astype(complex)
    cols = range(ch) if sub is None else sub
    ref = sp.run(x)
    for c in cols:
        want[:, c] = ref[:, c]
    eq(cx(y), want if (cplx or np.iscomplexobj(ref)) else want.real, "output")
    same(y.sampling_rate_hz, FS, "sampling rate")
    same(type(y), type(s), "type")
    true(not hasattr(f, "zi"), "stateless call leaves a state")
    ctx.step()
    ctx.outcome(cx(y).tobytes())


def coeffs(ctx, name):
    sp = P[name]
    f = sp.make()
    same(f.order, sp.order, "order")
    same(len(f), sp.order + 1, "len")
    same(f.is_fir, sp.fir is not None, "is_fir")
    same(f.is_iir, sp.fir is None, "is_iir")
    for n in range(1, 14):
        ir = f.get_ir(n)
        true(isinstance(ir, dsp.ImpulseResponse), "IR type")
        L = n if sp.fir is None else max(n, len(sp.fir))
        same(ir.length_samples, L, f"IR length {n}")
        d = np.zeros((L, 1))
        d[0] = 1.0
        eq(cx(ir), sp.run(d), f"IR {n}")
        ctx.step()
    for fr in freqs():
        eq(f.get_transfer_function(fr), sp.tf(fr), "transfer function", rtol=1e-8)
        ctx.step()
    must_raise(lambda: f.get_transfer_function(np.array([FS / 2 + 1.0])), "frequency above nyquist")
    must_raise(lambda: f.filter_signal(sig(R.td(8, 1), FS + 1)), "other sampling rate")
    must_raise(lambda: f.filter_signal(sig(R.td(8, 2)), channels=[2]), "absent channel")
    must_raise(lambda: f.filter_signal(sig(R.td(8, 2)), activate_zi=True, zero_phase=True), "zi with zero phase")


def freqs():
    yield np.linspace(0.0, FS / 2, 17)
    yield np.array([123.4])
    yield np.array([400.0, 10.0, 250.0])


def zero_phase(ctx, name, n, ch, cplx):
    sp = P[name]
    x = R.td(n, ch, 6, cplx)
    f = sp.make()
    if name == "sos2" or name == "zpk3":
        sos = SOS if name == "sos2" else ss.zpk2sos(*ZPK)
        want = ss.sosfiltfilt(sos, x, axis=0)
    else:
        want = ss.filtfilt(*[np.asarray(q) for q in sp.sections[0]], x, axis=0)
    eq(cx(f.filter_signal(sig(x), zero_phase=True)), want, "zero phase", rtol=1e-8)
    ctx.step()


def zero_ref(name, x):
    if name in ("sos2", "zpk3"):
        return ss.sosfiltfilt(SOS if name == "sos2" else ss.zpk2sos(*ZPK), x, axis=0)
    return ss.filtfilt(*[np.asarray(q) for q in P[name].sections[0]], x, axis=0)


def zero_bank(ctx, names, ch, cplx):
    """Zero phase through a bank: signal, bands and responses in every mode"""
    x = R.td(40, ch, 6, cplx)
    d = np.zeros((45, 1))
    d[0] = 1.0

    def ref(mode, x):
        if mode == M.Sequential:
            for n in names:
                x = zero_ref(n, x)
            return x
        bands = [zero_ref(n, x) for n in names]
        return bands if mode == M.Parallel else sum(bands)

    for mode in M:
        b = dsp.FilterBank([P[n].make() for n in names])
        for what, got, inp in (
            ("signal", pure(lambda s: b.filter_signal(s, mode, zero_phase=True), sig(x)), x),
            ("response", b.get_ir(45, mode, zero_phase=True), d),
        ):
            want = ref(mode, inp)
            if mode == M.Parallel:
                same(got.number_of_bands, len(names), "bands")
                for i, w in enumerate(want):
                    eq(cx(got.bands[i]), w, f"zero-phase {what}, band {i}", rtol=1e-8, atol=1e-11)
            else:
                eq(cx(got), want, f"zero-phase {what}, {mode.name}", rtol=1e-8, atol=1e-11)
        must_raise(lambda: b.filter_signal(sig(x), mode, True, True), "states with zero phase")
    b = dsp.FilterBank([P[n].make() for n in names])
    mb = dsp.MultiBandSignal([sig(x * (i + 1)) for i in range(len(names))])
    got = pure(lambda m: b.filter_multiband_signal(m, zero_phase=True), mb)
    for i, n in enumerate(names):
        eq(cx(got.bands[i]), zero_ref(n, x) * (i + 1), f"zero-phase band {i} on its own band", rtol=1e-8, atol=1e-11)
    must_raise(lambda: b.filter_multiband_signal(mb, True, True), "states with zero phase")
    m = dsp.FilterBank([pool(FS * (i + 1))[n].make() for i, n in enumerate(names)], same_sampling_rate=False)
    for i, o in enumerate(m.get_ir(45, M.Parallel, zero_phase=True).bands):
        same(o.sampling_rate_hz, FS * (i + 1), "rate of the band")
        eq(cx(o), zero_ref(names[i], d), f"zero-phase response {i}, own rates", rtol=1e-8, atol=1e-11)
    ctx.step()


def part_zero(ctx):
    for k in (1, 2, 3):
        for names in itertools.product(("g", "fir5", "iir2", "sos2", "zpk3"), repeat=k):
            for ch, cplx in ((1, False), (2, False), (2, True)):
                if k == 3 and ch == 1:
                    continue
                ctx.case(f"zero-phase bank/{'+'.join(names)}/{ch}{'c' if cplx else ''}", quiet, zero_bank, ctx, names, ch, cplx)


# ------------------------------------------------------------------- banks
def ref_mode(specs, mode, x):
    if mode == M.Parallel:
        return [s.run(x) for s in specs]
    if mode == M.Sequential:
        for s in specs:
            x = s.run(x)
        return x
    return sum(s.run(x) for s in specs)


def check_bank(bank, specs, x, cls=dsp.Signal):
    s = sig(x, cls=cls)
    for mode in M:
        y = quiet(bank.filter_signal, s, mode)
        want = ref_mode(specs, mode, x)
        if mode == M.Parallel:
            same(y.number_of_bands, len(specs), "bands")
            for i, b in enumerate(y.bands):
                eq(cx(b), want[i], f"parallel band {i}")
                same(b.sampling_rate_hz, FS, "band rate")
        else:
            eq(cx(y), want, f"{mode.name}")
            same(y.sampling_rate_hz, FS, "rate")
            same(type(y), cls, "type")


def check_meta(bank, specs):
    same(bank.number_of_filters, len(specs), "number_of_filters")
    same(len(bank), len(specs), "len")
    same([f.order for f in bank], [s.order for s in specs], "order of filters")
    if specs:
        same(bank.sampling_rate_hz, FS, "sampling rate")


def check_responses(bank, specs, lengths=(1, 4, 5, 9)):
    for fr in freqs():
        hs = [s.tf(fr) for s in specs]
        eq(bank.get_transfer_function(fr, M.Parallel), np.stack(hs, axis=1), "parallel response", rtol=1e-8)
        eq(bank.get_transfer_function(fr, M.Sequential), np.prod(hs, axis=0), "sequential response", rtol=1e-8)
        eq(bank.get_transfer_function(fr, M.Summed), np.sum(hs, axis=0), "summed response", rtol=1e-8)
    for n in lengths:
        for mode in M:
            ir = quiet(bank.get_ir, n, mode)
            L = ir.length_samples
            if n > max(s.order for s in specs):
                same(L, n, "IR length")
            else:
                true(L >= n, "IR shorter than requested")
                for s in specs:
                    true(s.fir is None or L >= len(s.fir), "IR shorter than a filter")
            d = np.zeros((L, 1))
            d[0] = 1.0
            want = ref_mode(specs, mode, d)
            if mode == M.Parallel:
                for i, b in enumerate(ir.bands):
                    eq(cx(b), want[i], f"IR band {i}")
            else:
                eq(cx(ir), want, f"IR {mode.name}")


def lists(ctx, names):
    specs = [P[n] for n in names]
    bank = dsp.FilterBank([s.make() for s in specs])
    check_meta(bank, specs)
    # bands that mix real and complex samples are (documentedly) unsupported
    mixed = "firc" in names and len(set(names)) > 1
    for _, x in inputs():
        if not mixed or np.iscomplexobj(x):
            check_bank(bank, specs, x)
            ctx.step(3)
    if not mixed:
        check_bank(bank, specs, R.td(7, 1, 5), dsp.ImpulseResponse)
    check_responses(bank, specs, () if mixed else (1, 4, 5, 9))
    ctx.step(9)


X0 = R.td(7, 2, 8, True)


def apply(bank, model, op):
    name = op[0]
    if name.startswith("add"):
        sp, idx = P[op[1]], op[2]
        if idx is None:
            bank.add_filter(sp.make())
            model = model + [sp]
        else:
            bank.add_filter(sp.make(), idx)
            model = list(model)
            if idx == -1:
                model.append(sp)
            else:
                model.insert(idx, sp)
    elif name.startswith("rem"):
        idx = op[1]
        if not model or not (idx == -1 or 0 <= idx < len(model)):
            must_raise(lambda: bank.remove_filter(idx), name)
        else:
            model = list(model)
            got = bank.remove_filter(idx, return_filter=op[2])
            sp = model.pop(idx)
            if op[2]:
                eq(cx(got.filter_signal(sig(X0))) if True else 0, sp.run(X0), "returned filter")
            else:
                true(got is bank, "remove_filter returns self")
    elif name.startswith("swap"):
        order = op[1]
        if sorted(order) != list(range(len(model))):
            must_raise(lambda: bank.swap_filters(order), name)
        else:
            bank.swap_filters(list(order))
            model = [model[i] for i in order]
    elif name == "set":
        model = [P["iir2"], P["fir5"]]
        bank.filters = tuple(s.make() for s in model)
    elif name == "clear":
        model = []
        bank.filters = None
    elif name == "copy":
        old = bank
        bank = old.copy()
        old.add_filter(P["g"].make())
        old.filters[0].ba = [[9.0], [1.0]]
    elif name == "bad-rate":
        if model:
            must_raise(lambda: bank.add_filter(dsp.Filter.from_ba([1.0], [1.0], FS * 2)), name)
    elif name == "bad-set":
        must_raise(
            lambda: setattr(bank, "filters", [dsp.Filter.from_ba([1.0], [1.0], FS * 2), P["g"].make()]), name
        )
    elif name == "bad-type":
        must_raise(lambda: setattr(bank, "filters", [P["g"].make(), "x"]), name)
    check_meta(bank, model)
    if model:
        check_bank(bank, model, X0)
        check_responses(bank, model, (6,))
    return bank, model


OPS = [
    ("add-fir2", "fir2", None),
    ("add-iir2@0", "iir2", 0),
    ("add-sos2@1", "sos2", 1),
    ("add-fir5@-1", "fir5", -1),
    ("rem", -1, False),
    ("rem0", 0, True),
    ("rem1", 1, False),
    ("rem7", 7, False),
    ("swap0", (0,)),
    ("swap10", (1, 0)),
    ("swap201", (2, 0, 1)),
    ("swap00", (0, 0)),
    ("set",),
    ("clear",),
    ("copy",),
    ("bad-rate",),
    ("bad-set",),
    ("bad-type",),
]


# ------------------------------------- states of filters while the bank changes
class Track:
    """A filter with the state it must have (direct form II transposed)."""

    def __init__(self, name, ch):
        self.name = name
        self.zi = None

    def run(self, x):
        y = []
        first = self.zi is None
        if first:
            self.zi = []
        for c in range(x.shape[1]):
            v = x[:, c]
            if self.name == "sos2":
                if first:
                    self.zi.append(ss.sosfilt_zi(SOS))
                v, self.zi[c] = ss.sosfilt(SOS, v, zi=self.zi[c])
            else:
                b, a = [np.asarray(q) for q in P[self.name].sections[0]]
                if first:
                    self.zi.append(ss.lfilter_zi(b, a))
                v, self.zi[c] = ss.lfilter(b, a, v, zi=self.zi[c])
            y.append(v)
        return np.stack(y, axis=1)


def stream_history(ctx, hist):
    start = ("fir5", "iir2")
    bank = dsp.FilterBank([P[n].make() for n in start])
    model = [Track(n, 2) for n in start]
    k = 0
    for op in hist:
        if op in M:
            k += 1
            x = R.td(4, 2, 20 + k)
            y = bank.filter_signal(sig(x), op, activate_zi=True)
            if op == M.Parallel:
                for i, t in enumerate(model):
                    eq(cx(y.bands[i]), t.run(x), f"block {k} band {i}", rtol=1e-8)
            elif op == M.Sequential:
                v = x
                for t in model:
                    v = t.run(v)
                eq(cx(y), v, f"block {k} sequential", rtol=1e-8)
            else:
                eq(cx(y), sum(t.run(x) for t in model), f"block {k} summed", rtol=1e-8)
        elif op == "ins":
            bank.add_filter(P["sos2"].make(), 0)
            model.insert(0, Track("sos2", 2))
        elif op == "app":
            bank.add_filter(P["fir2"].make())
            model.append(Track("fir2", 2))
        elif op == "rem":
            if len(model) > 1:
                bank.remove_filter(0)
                model.pop(0)
        elif op == "rev":
            o = list(range(len(model)))[::-1]
            bank.swap_filters(o)
            model = [model[i] for i in o]
        elif op == "plain":
            bank.filter_signal(sig(R.td(4, 3, 50)), M.Parallel)
        ctx.step()


# --------------------------------------------------------------- appending
def appending(ctx, groups, rates):
    """groups: names of the filters per bank; rates: one per bank or per filter"""
    multi = len({r for g in rates for r in g}) > 1
    bks = [dsp.FilterBank([pool(fs)[n].make() for n, fs in zip(g, r)], same_sampling_rate=not multi) for g, r in zip(groups, rates)]
    before = [[id(f) for f in b.filters] for b in bks]
    new = dsp.append_filterbanks(bks)
    specs = [pool(fs)[n] for g, r in zip(groups, rates) for n, fs in zip(g, r)]
    fss = [fs for r in rates for fs in r]
    same(new.number_of_filters, len(specs), "number of filters")
    same(new.same_sampling_rate, not multi, "same rate")
    same(list(new.sampling_rate_hz) if multi else new.sampling_rate_hz, fss if multi else fss[0], "rates")
    for i, (s, fs) in enumerate(zip(specs, fss)):
        x = R.td(7, 2, i)
        eq(cx(quiet(new.filters[i].filter_signal, sig(x, fs))), s.run(x), f"filter {i}")
    same([[id(f) for f in b.filters] for b in bks], before, "banks passed")
    true(not {id(f) for f in new.filters} & {i for b in before for i in b}, "filters are copies")
    # states of the new bank are its own
    if not multi:
        x = R.td(6, 1, 9)
        quiet(new.filter_signal, sig(x, fss[0]), M.Parallel, True)
        y = bks[0].filters[0].filter_signal(sig(x, fss[0]))
        eq(cx(y), specs[0].run(x), "filter of the first bank")
        new.remove_filter(0)
        same(bks[0].number_of_filters, len(groups[0]), "filters of the first bank")
        bad = dsp.FilterBank([pool(fss[0] // 2)[groups[0][0]].make()])
        must_raise(lambda: dsp.append_filterbanks([bks[0], bad]), "rates")
    must_raise(lambda: dsp.append_filterbanks(bks[:1]), "a single bank")
    ctx.step()


# --------------------------------------------------------------- multirate
def multirate(ctx, names, rates, ch, cplx):
    specs = [pool(fs)[n] for n, fs in zip(names, rates)]
    bank = dsp.FilterBank([s.make() for s in specs], same_sampling_rate=False)
    same(list(bank.sampling_rate_hz), list(rates), "rates")
    xs = [R.td(6 + i, ch, i, cplx) for i in range(len(specs))]
    mb = dsp.MultiBandSignal([sig(x, fs) for x, fs in zip(xs, rates)], same_sampling_rate=False)
    y = quiet(bank.filter_multiband_signal, mb)
    for i, s in enumerate(specs):
        eq(cx(y.bands[i]), s.run(xs[i]), f"band {i}")
        same(y.bands[i].sampling_rate_hz, rates[i], "band rate")
        eq(cx(mb.bands[i]), xs[i], "argument")
    ir = quiet(bank.get_ir, 8, M.Parallel)
    d = np.zeros((8, 1))
    d[0] = 1
    for i, s in enumerate(specs):
        eq(cx(ir.bands[i]), s.run(d), f"IR {i}")
        same(ir.bands[i].sampling_rate_hz, rates[i], "IR rate")
    if len(set(rates)) > 1:
        for m in (M.Sequential, M.Summed):
            must_raise(lambda: bank.get_ir(8, m), "multirate IR")
            must_raise(lambda: bank.filter_signal(sig(xs[0], rates[0]), m), "multirate filtering")
    # a same-rate bank on a multiband signal, streamed
    bank = dsp.FilterBank([P[n].make() for n in names])
    tr = [Track(n, ch) for n in names]
    for k in range(3):
        xs = [R.td(4, ch, 30 + 3 * k + i) for i in range(len(names))]
        y = bank.filter_multiband_signal(dsp.MultiBandSignal([sig(x) for x in xs]), activate_zi=True)
        for i, t in enumerate(tr):
            eq(cx(y.bands[i]), t.run(xs[i]), f"block {k} band {i}", rtol=1e-8)
    ctx.step()


def part_single(ctx, name):
    subs = {1: (None, (0,)), 2: (None, (0,), (1,), (1, 0)), 3: (None, (0, 2), (2,), (2, 1))}
    N = 12 if ctx.thorough else 8
    for n in range(1, N + 1):
        for ch in (1, 2, 3):
            if n < ch:
                continue
            for cplx in (False, True):
                for sub in subs[ch]:
                    ctx.case(f"filter/{name}/{n}x{ch}{'c' if cplx else ''}/{sub}", quiet, single, ctx, name, n, ch, cplx, sub)
    ctx.case(f"responses/{name}", quiet, coeffs, ctx, name)
    if name != "firc":
        for n, ch, cplx in itertools.product((16, 17, 20), (1, 2), (False, True)):
            ctx.case(f"zero-phase/{name}/{n}x{ch}{'c' if cplx else ''}", quiet, zero_phase, ctx, name, n, ch, cplx)


def part_lists(ctx, first, names):
    L = 3
    ctx.case(f"lists/{first}", quiet, lists, ctx, (first,))
    for k in range(1, L):
        for rest in itertools.product(names, repeat=k):
            l = (first,) + rest
            ctx.case("lists/" + "+".join(l), quiet, lists, ctx, l)


def part_bfs(ctx, first):
    """Histories that start with operation `first`."""
    bank, model = dsp.FilterBank(), []
    r = ctx.case(f"histories/{first[0]}", apply, bank, model, first)
    if r is None:
        return
    depth = 3 if ctx.thorough else 2

    def dig(p):
        from mc.core import canon

        return canon((p[0], [s.name for s in p[1]]))

    ctx.bfs(f"histories/{first[0]}", r[0], OPS, apply, depth, digest=dig, model=r[1])


def part_stream(ctx, first):
    ops = [M.Parallel, M.Sequential, M.Summed, "ins", "app", "rem", "rev", "plain"]
    depth = 5 if ctx.thorough else 4
    for rest in itertools.product(ops, repeat=depth - 1):
        h = (first,) + rest
        if h[-1] not in M:
            continue
        ctx.case("states/" + ".".join(getattr(o, "name", o) for o in h), quiet, stream_history, ctx, h)


def part_multirate(ctx):
    for names in itertools.product(("fir5", "iir2", "sos2"), repeat=2):
        for rates in ((1000, 2000), (1000, 1000), (4000, 500)):
            for ch, c in ((1, False), (2, True), (2, False)):
                ctx.case(
                    f"multirate/{'+'.join(names)}/{rates}/{ch}{'c' if c else ''}", multirate, ctx, names, rates, ch, c
                )


def part_append(ctx):
    pools = ["g", "fir5", "iir2", "sos2"]
    lists = [c for k in (1, 2) for c in itertools.product(pools, repeat=k)]
    for groups in itertools.chain(itertools.product(lists, repeat=2), itertools.product(lists[:6], repeat=3)):
        for kind in ("same", "banks", "each"):
            if kind == "each" and len(groups) == 3:
                continue
            n = itertools.count()
            rates = [[FS * (1 if kind == "same" else 1 + i if kind == "banks" else 1 + next(n)) for _ in g] for i, g in enumerate(groups)]
            ctx.case(f"append/{kind}-" + "+".join(".".join(g) for g in groups), appending, ctx, groups, rates)


def _dispatch(ctx, kind, arg):
    {"s": part_single, "l": lambda c, a: part_lists(c, *a), "b": part_bfs, "t": part_stream, "m": lambda c, a: part_multirate(c), "a": lambda c, a: part_append(c), "z": lambda c, a: part_zero(c)}[
        kind
    ](ctx, arg)


def run(ctx):
    names = list(P) if ctx.thorough else ["g", "fir5", "firc", "iir2", "sos2"]
    ctx.bound(
        filters=list(P),
        lists=f"all lists of 1-3 filters out of {names}, all modes, real and complex signals",
        histories=f"all sequences of {len(OPS)} list operations, depth {4 if ctx.thorough else 3}, and all histories of blocks and list operations of length {5 if ctx.thorough else 4}",
        zero_phase="all lists of 1-3 filters out of 5 in every mode: signals, multi-band signals, responses",
        single="all lengths 1-8 (12), 1-3 channels, channel subsets, real and complex",
    )
    ctx.assume("filter banks hold Filter objects; zero-phase filtering is compared with SciPy's forward-backward filter")
    parts = [("s", n) for n in P] + [("l", (n, names)) for n in P] + [("b", o) for o in OPS]
    parts += [("t", o) for o in [M.Parallel, M.Sequential, M.Summed, "ins", "app", "rem", "rev", "plain"]] + [("m", None), ("a", None), ("z", None)]
    ctx.parallel(_dispatch, parts)
