"""C03 block streaming with filter states: every partition of a signal into
blocks, every history that mixes streamed blocks with stateless calls, copies,
channel subsets and re-initialisations, gives the samples of one long call."""

import copy
import itertools

import numpy as np

import dsptoolbox as dsp
from mc.core import canon, compositions, eq
from mc import dsp as R

FS = 1000
M = dsp.FilterBankMode

SOS = np.array(
    [
        [0.3, -0.2, 0.45, 1.0, -0.3, 0.35],
        [0.5, 0.25, 0.1, 1.0, 0.2, -0.15],
        [0.2, 0.3, -0.4, 1.0, -0.5, 0.3],
    ]
)
BA = {
    "fir1": ([0.7], [1.0]),
    "fir2": ([0.5, -0.25], [1.0]),
    "fir4": ([0.1, 0.4, -0.3, 0.2], [1.0]),
    "fir7": ([0.1, 0.4, -0.3, 0.2, 0.35, -0.15, 0.05], [1.0]),
    "iir1": ([0.5, 0.25], [1.0, -0.4]),
    "iir2": ([0.3, -0.2, 0.45], [1.0, -0.3, 0.35]),
    "iir2a0": ([0.3, -0.2, 0.45], [2.0, -0.6, 0.7]),
    "iir3b": ([0.3, -0.2], [1.0, -0.3, 0.35, 0.1]),
    "iir3a": ([0.3, -0.2, 0.1, 0.2], [1.0, -0.3]),
}


def filters():
    out = {}
    for k, (b, a) in BA.items():
        out[k] = (
            lambda b=b, a=a: dsp.Filter.from_ba(np.array(b), np.array(a), FS),
            lambda x, b=b, a=a: R.lfilter_ref(b, a, x),
        )
    for n in (1, 2, 3):
        out[f"sos{n}"] = (
            lambda n=n: dsp.Filter.from_sos(SOS[:n].copy(), FS),
            lambda x, n=n: R.sos_ref(SOS[:n], x),
        )
    out["butter4"] = (
        lambda: dsp.Filter.iir_filter(4, 120.0, dsp.FilterPassType.Lowpass, FS),
        None,
    )
    out["peak"] = (
        lambda: dsp.Filter.biquad(dsp.BiquadEqType.Peaking, 100.0, 6.0, 0.7, FS),
        None,
    )
    return out


def sigm(x):
    return dsp.Signal.from_time_data(np.array(x), FS, constrain_amplitude=False)


def cplx(s):
    d = s.time_data
    if s.time_data_imaginary is not None:
        d = d + 1j * s.time_data_imaginary
    return d


class One:
    """A single filter under streaming."""

    def __init__(self, fac):
        self.f = fac()

    def stream(self, x):
        return [cplx(self.f.filter_signal(sigm(x), activate_zi=True))]

    def plain(self, x):
        return [cplx(self.f.filter_signal(sigm(x)))]

    def copy(self):
        n = object.__new__(type(self))
        n.__dict__ = dict(self.__dict__)
        n.f = self.f.copy()
        return n

    def init(self, n):
        self.f.initialize_zi(n)

    def probe(self):
        self.f.get_ir(8)


class Bank(One):
    def __init__(self, fac, mode):
        self.f = fac()
        self.mode = mode

    def _o(self, r):
        if self.mode == M.Parallel:
            return [cplx(b) for b in r.bands]
        return [cplx(r)]

    def stream(self, x):
        return self._o(self.f.filter_signal(sigm(x), self.mode, activate_zi=True))

    def plain(self, x):
        return self._o(self.f.filter_signal(sigm(x), self.mode))

    def probe(self):
        self.f.get_ir(16, self.mode)


class MB(One):
    """filter_multiband_signal: band n through filter n."""

    def _mb(self, x):
        x = np.asarray(x)
        return dsp.MultiBandSignal(
            [sigm(x * (i + 1) / 3) for i in range(self.f.number_of_filters)],
            same_sampling_rate=True,
        )

    def stream(self, x):
        r = self.f.filter_multiband_signal(self._mb(x), activate_zi=True)
        return [cplx(b) for b in r.bands]

    def plain(self, x):
        return [cplx(b) for b in self.f.filter_multiband_signal(self._mb(x)).bands]

    def probe(self):
        self.f.get_ir(16, M.Parallel)


def banks():
    fl = filters()

    def fb(*names):
        return dsp.FilterBank([fl[n][0]() for n in names])

    out = {}
    for m in (M.Parallel, M.Sequential, M.Summed):
        out[f"FB:{m.name}"] = lambda m=m: Bank(lambda: fb("fir4", "sos2", "iir2"), m)
        out[f"FB1:{m.name}"] = lambda m=m: Bank(lambda: fb("iir2"), m)
    out["FBmb"] = lambda: MB(lambda: fb("fir4", "sos2", "iir2"))
    for m in (M.Parallel, M.Summed):
        for fr, order in (
            ([100.0], 4), ([60.0, 200.0], 4), ([40.0, 120.0, 300.0], 4),
            ([60.0, 200.0], 2), ([40.0, 120.0, 300.0], [2, 4, 8]),
            ([60.0, 200.0], [1, 3]), ([30.0, 90.0, 170.0, 330.0], 4),
        ):
            out[f"LR:{m.name}:{len(fr)}:{order}"] = lambda fr=fr, order=order, m=m: Bank(
                lambda: dsp.filterbanks.linkwitz_riley_crossovers(fr, order, FS), m
            )
    out["QMF"] = lambda: Bank(
        lambda: dsp.filterbanks.qmf_crossover(
            dsp.Filter.fir_filter(6, 240.0, dsp.FilterPassType.Lowpass, FS)
        ),
        M.Parallel,
    )
    out["GT"] = lambda: Bank(
        lambda: dsp.filterbanks.auditory_filters_gammatone([200.0, 3000.0], 1.0, 16000),
        M.Parallel,
    )
    return out


_GT = {}


def oneshot(mk, x, L):
    """The reference: one long streamed call of a fresh object."""
    return mk().stream(x[:L])


def lin(ctx, name, mk, n_ch, N):
    """One long streamed call = response to the initial state + plain
    filtering; so the state is only an initial condition."""
    x = R.td(N, n_ch, 1)
    a = mk().stream(x)
    z = mk().stream(np.zeros_like(x))
    p = mk().plain(x)
    for i in range(len(a)):
        eq(a[i] - z[i], p[i], f"{name} band {i}: zero-state part", 1e-7, 1e-9)
    ctx.step(3)


def partition(ctx, name, mk, n_ch, parts, want):
    o = mk()
    x = R.td(sum(parts), n_ch, 1)
    pos = 0
    for k in parts:
        y = o.stream(x[pos : pos + k])
        for i in range(len(y)):
            eq(y[i], want[i][pos : pos + k],
               f"{name} {n_ch}ch blocks {parts} at {pos} band {i}", 1e-7, 1e-9)
        pos += k
        ctx.step()
        ctx.state(name, n_ch, canon(o.f.__dict__))
    ctx.outcome(name, n_ch, np.round(np.abs(y[0]).sum(), 9))


OPS = ("a", "b", "p", "i", "c", "k", "z")


def history_step(ctx, name, mk, want, n_ch):
    """a/b: streamed block of n_ch / n_ch+1 samples; p: stateless call; i:
    impulse response; c: continue on a copy; k: stream into a copy and drop
    it; z: initialise again.  The model is the position in the one-shot
    output."""
    x = R.td(want[0].shape[0], n_ch, 1)

    def apply(o, pos, op):
        if op in "ab":
            k = n_ch + (op == "b")
            y = o.stream(x[pos : pos + k])
            for i in range(len(y)):
                eq(y[i], want[i][pos : pos + k],
                   f"{name} streamed block at {pos} band {i}", 1e-7, 1e-9)
            ctx.outcome(name, np.round(y[0].sum(), 9))
            pos += k
        elif op == "p":
            y = o.plain(x[:5])
            if "p" not in ctx.__dict__.setdefault("memo" + name, {}):
                ctx.__dict__["memo" + name]["p"] = mk().plain(x[:5])
            for a, b in zip(y, ctx.__dict__["memo" + name]["p"]):
                eq(a, b, f"{name} stateless call", 1e-9, 1e-12)
        elif op == "i":
            o.probe()
        elif op == "c":
            o = o.copy()
        elif op == "k":
            o.copy().stream(R.td(5, n_ch, 4))
        elif op == "z":
            o.init(n_ch)
            pos = 0
        return o, pos

    return apply


def chan_subset(ctx, name, fac, ref):
    """Streaming a subset of the channels only touches their states."""
    n_ch = 3
    for subs in itertools.product(
        ((0,), (1,), (2,), (0, 2), (2, 0), (0, 1, 2)), repeat=2 if not ctx.thorough else 3
    ):
        def go():
            f = fac()
            hist = [[] for _ in range(n_ch)]
            solo = [fac() for _ in range(n_ch)]
            pos = 0
            for sub in subs:
                x = R.td(pos + 4, n_ch, 2)[-4:]
                pos += 4
                y = f.filter_signal(sigm(x), channels=list(sub), activate_zi=True)
                for c in range(n_ch):
                    if c in sub:
                        w = solo[c].filter_signal(
                            sigm(x[:, [c]]), activate_zi=True
                        ).time_data[:, 0]
                    else:
                        w = x[:, c]
                    eq(y.time_data[:, c], w, f"{name} {subs} ch {c}", 1e-7, 1e-9)
                ctx.step()
                ctx.state(name, "sub", canon(f.__dict__))
        ctx.case(f"subset/{name}/{subs}", go)


def steady(ctx, name, fac):
    """Initial states are those of a settled unit step: a constant 1 stays at
    the DC gain."""
    f = fac()
    y = cplx(f.filter_signal(sigm(np.ones((6, 2))), activate_zi=True))
    h = f.get_transfer_function(np.array([0.0]))[0]
    eq(y, np.ones((6, 2)) * h.real, f"{name} settled", 1e-6, 1e-9)


def stateless(ctx, name, fac, ref):
    f = fac()
    for n_ch in (1, 2, 3):
        for L in range(n_ch, 10):
            x = R.td(L, n_ch, 3)
            w = np.stack([ref(x[:, c]) for c in range(n_ch)], 1)
            eq(f.filter_signal(sigm(x)).time_data, w, f"{name} L={L}", 1e-8, 1e-10)
            ctx.step()


def rechannel(ctx, name, mk, seqn):
    """A different channel count starts from fresh states, every time."""
    o = mk()
    last, pos = None, 0
    cache = ctx.__dict__.setdefault("rech" + name, {})
    for n_ch in seqn:
        if n_ch != last:
            pos = 0
        if n_ch not in cache:
            cache[n_ch] = mk().stream(R.td(25, n_ch, 1))
        want = [w[: pos + 5] for w in cache[n_ch]]
        y = o.stream(R.td(pos + 5, n_ch, 1)[pos:])
        for i in range(len(y)):
            eq(y[i], want[i][pos:], f"{name} channels {seqn}", 1e-7, 1e-9)
        pos += 5
        last = n_ch
        ctx.step()


def run(ctx):
    ctx.bound(
        partitions="all compositions (blocks not shorter than the channel count)",
        histories=f"all sequences over {OPS} up to length {4 if not ctx.thorough else 6}",
        channels="1..3",
    )
    objs = {}
    for name, (fac, ref) in filters().items():
        objs[name] = lambda fac=fac: One(fac)
        if ref is not None:
            ctx.case(f"plain/{name}", stateless, ctx, name, fac, ref)
        ctx.case(f"steady/{name}", steady, ctx, name, fac)
        if name in ("fir1", "fir4", "iir2", "iir1", "sos1", "sos2"):
            chan_subset(ctx, name, fac, ref)
    bk = banks()
    objs.update(bk)
    global FS
    for name, mk in objs.items():
        FS = 16000 if name == "GT" else 1000
        heavy = name == "GT"
        proto = mk()
        mk = lambda proto=proto: copy.deepcopy(proto)
        for n_ch in (1, 2, 3):
            N = {1: 7, 2: 10, 3: 13}[n_ch] + (3 if ctx.thorough else 0)
            if heavy:
                N = {1: 5, 2: 7, 3: 9}[n_ch]
            ctx.case(f"linear/{name}/{n_ch}", lin, ctx, name, mk, n_ch, 16)
            try:
                want = mk().stream(R.td(40, n_ch, 1))
            except Exception as e:  # reported by the cases below
                want = [np.zeros((40, n_ch))]
            for parts in compositions(N):
                if min(parts) < n_ch:
                    continue
                ctx.case(
                    f"part/{name}/{n_ch}/{'+'.join(map(str, parts))}",
                    partition, ctx, name, mk, n_ch, parts, want,
                )
        if heavy:
            continue
        n_ch = 2
        want = None
        try:
            want = mk().stream(R.td(40, n_ch, 1))
        except Exception:
            want = [np.zeros((40, n_ch))]
        depth = 6 if ctx.thorough else 4
        if name.startswith(("LR", "FB", "QMF")):
            depth -= 1
        ctx.bfs(f"hist/{name}", mk(), OPS, history_step(ctx, name, mk, want, n_ch),
                depth, model=0)
        for seqn in itertools.product((1, 2, 3), repeat=4):
            ctx.case(f"rech/{name}/{seqn}", rechannel, ctx, name, mk, seqn)
    FS = 1000
