"""C02 real-time filters: every bounded interleaving of per-channel samples or
blocks, resets and re-initialisations, against difference equations."""

import itertools

import numpy as np
import scipy.signal as ss

import dsptoolbox as dsp
from dsptoolbox.filterbanks import (
    ExponentialAverageFilter,
    FilterChain,
    FIRFilter,
    FIRFilterOverlapSave,
    FIRUniformPartitioned,
    FIRUniformPartitionedMultichannel,
    IIRFilter,
    KautzFilter,
    LatticeLadderFilter,
    ParallelFilter,
    StateSpaceFilter,
    StateVariableFilter,
    WarpedFIR,
    WarpedIIR,
)

from mc.core import canon, compositions, eq, interleavings, true
from mc import dsp as R

FS = 1000
BA = {
    "o0": ([0.5], [1.0]),
    "o1": ([0.5, 0.25], [1.0, -0.4]),
    "o1b0": ([0.5], [1.0, -0.4]),
    "o2": ([0.3, -0.2, 0.45], [1.0, -0.3, 0.35]),
    "o2a0": ([0.3, -0.2, 0.45], [2.0, -0.6, 0.7]),
    "o2b1": ([0.3, -0.2], [1.0, -0.3, 0.35]),
    "o3bl": ([0.3, -0.2, 0.45, 0.15], [1.0, -0.3]),
    "o4": ([0.2, 0.1, -0.3, 0.25, 0.4], [1.0, -0.2, 0.3, -0.1, 0.05]),
}
FIR = {
    "n1": [0.7],
    "n2": [0.5, -0.25],
    "n3": [0.5, 0.3, -0.2],
    "n4": [0.1, 0.4, -0.3, 0.2],
    "n5": [0.1, 0.4, -0.3, 0.2, 0.35],
    "n7": [0.1, 0.4, -0.3, 0.2, 0.35, -0.15, 0.05],
}
SOS = np.array(
    [
        [0.3, -0.2, 0.45, 1.0, -0.3, 0.35],
        [0.5, 0.25, 0.1, 1.0, 0.2, -0.15],
        [0.2, 0.3, -0.4, 1.0, -0.5, 0.3],
    ]
)
SOS_A0 = SOS.copy()
SOS_A0[1] *= 2.0
SOS_A0[2] *= 0.5


def flt_ba(b, a=(1.0,)):
    return dsp.Filter.from_ba(np.array(b, float), np.array(a, float), FS)


def arr(x):
    return np.array(x, dtype=float)


def svf_ref(fc, r, i):
    g = np.tan(np.pi * fc / FS)
    *nums, den = R.bilinear_svf(g, r)
    return lambda x: R.lfilter_ref(nums[i], den, x)


def ema_coef(t, acc=0.95):
    return 1.0 - (1.0 - acc) ** (1.0 / max(t * FS, 1)) if t * FS > 1 else 1.0


def kautz_ref(poles, cr, cc):
    """Orthonormal Kautz expansion, straight from its definition: tap outputs
    of an all-pass cascade."""

    def f(x):
        y = np.zeros(len(x))
        k = 0
        for p in poles:
            if p.imag == 0:
                p = p.real
                y = y + cr[k] * R.lfilter_ref(
                    [np.sqrt(1 - p * p)], [1.0, -p], x
                )
                k += 1
                x = R.lfilter_ref([-p, 1.0], [1.0, -p], x)
        k = 0
        for p in poles:
            if p.imag != 0:
                q, r = -2 * p.real, abs(p) ** 2
                a = [1.0, q, r]
                g1 = np.sqrt((1 - r) * (1 + r - q) / 2)
                g2 = np.sqrt((1 - r) * (1 + r + q) / 2)
                y = y + cc[k] * R.lfilter_ref([g1, -g1], a, x)
                y = y + cc[k + 1] * R.lfilter_ref([g2, g2], a, x)
                k += 2
                x = R.lfilter_ref([r, q, 1.0], a, x)
        return y

    return f


def make_kautz(poles, cr, cc):
    k = KautzFilter(np.array(poles, dtype=complex), FS)
    k.set_filter_coefficients(arr(cr), arr(cc))
    return k


def parallel(n_fir, delay, offset_ms):
    """A filter fitted to an IR of its own family; the reference is that IR's
    known decomposition."""
    poles = np.array([0.5 + 0.0j, 0.4 * np.exp(0.7j), 0.3 * np.exp(2.1j)])
    N = 128
    d = np.zeros(N)
    d[0] = 1.0
    off = max(1, int(FS * offset_ms / 1000 + 0.5))
    dd = np.concatenate([np.zeros(delay), d])[:N]
    h = (
        R.lfilter_ref([0.3, 0.1, 0.05], [1.0, -1.0 * 0.8 * np.cos(0.7), 0.16], dd)
        + R.lfilter_ref([0.2, -0.15], [1.0, -0.6 * np.cos(2.1), 0.09], dd)
        + R.lfilter_ref([0.25], [1.0, -0.5], dd)
    )
    for i in range(n_fir):
        h[i * off] += 0.1 * (-1) ** i * (i + 1)
    f = ParallelFilter(poles, n_fir, FS)
    f.set_parameters(delay, offset_ms)
    ir = dsp.ImpulseResponse.from_time_data(h[:, None], FS)
    ir.spectrum_scaling = dsp.SpectrumScaling.FFTBackward
    f.fit_to_ir(ir)
    return f, h


def sample_filters():
    """name -> (factory, per-channel reference, tolerance)"""
    F = {}
    for k, (b, a) in BA.items():
        F[f"IIR:{k}"] = (
            lambda b=b, a=a: IIRFilter(arr(b), arr(a)),
            lambda x, b=b, a=a: R.lfilter_ref(b, a, x),
        )
        F[f"SS:{k}"] = (
            lambda b=b, a=a: StateSpaceFilter.from_filter(flt_ba(b, a)),
            lambda x, b=b, a=a: R.lfilter_ref(b, a, x),
        )
        if k == "o0":
            del F[f"SS:{k}"]
            continue
        F[f"IIRfrom:{k}"] = (
            lambda b=b, a=a: IIRFilter.from_filter(flt_ba(b, a)),
            lambda x, b=b, a=a: R.lfilter_ref(b, a, x),
        )
        if len(a) == len(b):
            F[f"LL:{k}"] = (
                lambda b=b, a=a: LatticeLadderFilter.from_filter(flt_ba(b, a)),
                lambda x, b=b, a=a: R.lfilter_ref(b, a, x),
            )
        for lam in (-0.6, 0.0, 0.35):
            wb, wa = R.warped_ba(b, a, lam)
            F[f"WIIR:{k}:{lam}"] = (
                lambda b=b, a=a, lam=lam: WarpedIIR(arr(b), arr(a), lam, FS),
                lambda x, wb=wb, wa=wa: R.lfilter_ref(wb, wa, x),
            )
    F["IIRfrom:sos"] = (
        lambda: IIRFilter.from_filter(dsp.Filter.from_sos(SOS.copy(), FS)),
        lambda x: R.sos_ref(SOS, x),
    )
    for nm, s in (("sos", SOS), ("sosa0", SOS_A0)):
        F[f"LLsos:{nm}"] = (
            lambda s=s: LatticeLadderFilter.from_filter(
                dsp.Filter.from_sos(s.copy(), FS)
            ),
            lambda x, s=s: R.sos_ref(s, x),
        )
    F["SSchain:sos"] = (
        lambda: FilterChain(
            StateSpaceFilter.from_filter_as_sos_list(
                dsp.Filter.from_sos(SOS.copy(), FS)
            )
        ),
        lambda x: R.sos_ref(SOS, x),
    )
    for k, b in FIR.items():
        F[f"FIR:{k}"] = (
            lambda b=b: FIRFilter(arr(b)),
            lambda x, b=b: R.conv_ref(b, x),
        )
        F[f"FIRfrom:{k}"] = (
            lambda b=b: FIRFilter.from_filter(flt_ba(b)),
            lambda x, b=b: R.conv_ref(b, x),
        )
        for lam in (-0.6, 0.0, 0.35):
            wb, wa = R.warped_ba(b, [1.0], lam)
            F[f"WFIR:{k}:{lam}"] = (
                lambda b=b, lam=lam: WarpedFIR(arr(b), lam, FS),
                lambda x, wb=wb, wa=wa: R.lfilter_ref(wb, wa, x),
            )
    for k, b in {"a": [1.0, 0.4, -0.3, 0.2], "b": [1.0, -0.4]}.items():
        F[f"LLfir:{k}"] = (
            lambda b=b: LatticeLadderFilter.from_filter(flt_ba(b)),
            lambda x, b=b: R.conv_ref(b, x),
        )
    F["LLfir:gain"] = (
        lambda: LatticeLadderFilter.from_filter(flt_ba([0.5, 0.2, -0.15, 0.1])),
        lambda x: R.conv_ref([0.5, 0.2, -0.15, 0.1], x),
    )
    kp = [0.5 + 0j, -0.3 + 0j, 0.4 + 0.3j, 0.1 + 0.5j]
    cr, cc = [0.4, -0.3], [0.2, 0.5, -0.35, 0.15]
    F["Kautz"] = (lambda: make_kautz(kp, cr, cc), kautz_ref(kp, cr, cc))
    F["Kautz:real"] = (
        lambda: make_kautz(kp[:2], cr, []),
        kautz_ref(kp[:2], cr, []),
    )
    F["Kautz:cpl"] = (
        lambda: make_kautz(kp[2:], [], cc),
        kautz_ref(kp[2:], [], cc),
    )
    F["Chain"] = (
        lambda: FilterChain(
            [
                IIRFilter(arr([0.3, -0.2, 0.45]), arr([1.0, -0.3, 0.35])),
                FIRFilter(arr([0.5, 0.3, -0.2])),
                WarpedFIR(arr([0.5, 0.3, -0.2]), 0.3, FS),
            ]
        ),
        lambda x: R.lfilter_ref(
            *R.warped_ba([0.5, 0.3, -0.2], [1.0], 0.3),
            R.conv_ref(
                [0.5, 0.3, -0.2],
                R.lfilter_ref([0.3, -0.2, 0.45], [1.0, -0.3, 0.35], x),
            ),
        ),
    )
    for n_fir, delay, off in (
        (0, 0, 0.0), (0, 3, 0.0), (1, 0, 0.0), (1, 2, 0.0), (3, 0, 0.0),
        (3, 4, 0.0), (3, 0, 2.0), (2, 0, 3.0), (4, 6, 2.0),
    ):
        def fac(n_fir=n_fir, delay=delay, off=off):
            return parallel(n_fir, delay, off)[0]

        def ref(x, n_fir=n_fir, delay=delay, off=off, c={}):
            if "h" not in c:
                c["h"] = parallel(n_fir, delay, off)[1]
            return R.conv_ref(c["h"][: max(1, len(x))], x)

        F[f"Par:{n_fir}:{delay}:{off}"] = (fac, ref)
    return F


def svf():
    out = {}
    for fc, r in ((100.0, 1.0), (300.0, 0.5), (20.0, 1.7)):
        out[f"SVF:{fc}:{r}"] = (
            lambda fc=fc, r=r: StateVariableFilter(fc, r, FS),
            [svf_ref(fc, r, i) for i in range(4)],
        )
    return out


def apply_chan(f, x, ch):
    return f.process_sample(float(x), ch)


def run_history(ctx, name, fac, ref, n_ch, hist, tol=1e-8):
    """hist: list of channel indices, or 'R' (reset), or 'N' (set_n_channels).
    The reference is the difference equation on everything each channel got
    since the last reset."""
    f = fac()
    f.set_n_channels(n_ch)
    refs = ref if isinstance(ref, list) else [ref]
    ins = [[] for _ in range(n_ch)]
    cnt = [0] * n_ch
    outs = [[] for _ in range(n_ch)]
    for ev in hist:
        ctx.step()
        if ev == "R":
            f.reset_state()
            ins = [[] for _ in range(n_ch)]
            outs = [[] for _ in range(n_ch)]
        elif ev == "N":
            f.set_n_channels(n_ch)
            ins = [[] for _ in range(n_ch)]
            outs = [[] for _ in range(n_ch)]
        else:
            x = R.seq(cnt[ev] + 1, 3 * ev)[-1]
            cnt[ev] += 1
            ins[ev].append(x)
            y = f.process_sample(float(x), ev)
            y = np.array(y, dtype=float).ravel() if len(refs) > 1 else [float(y)]
            outs[ev].append(y)
            for r, yy in zip(refs, y):
                eq(yy, r(np.array(ins[ev]))[-1],
                   f"{name} channel {ev} sample {len(ins[ev])} after {hist}",
                   rtol=tol, atol=tol)
        ctx.state(name + canon(f.__dict__))
    ctx.outcome(name, np.round([o[-1][0] if o else 0 for o in outs], 9).tolist())


def hstr(h):
    return "".join(str(e) for e in h)


def histories(order_bound, thorough):
    """Channel interleavings with at most one reset / re-init at any point."""
    for h in interleavings((3, 3) if not thorough else (4, 4)):
        yield 2, list(h)
    for h in interleavings((1, 2, 2) if not thorough else (2, 2, 2)):
        yield 3, list(h)
    base = [0, 1, 0, 1, 1, 0]
    for i in range(len(base) + 1):
        for ev in "RN":
            yield 2, base[:i] + [ev] + base[i:]
            if thorough:
                for j in range(i, len(base) + 1):
                    yield 2, base[:i] + [ev] + base[i:j] + ["R"] + base[j:]


def long_hist(n):
    return [0] * n + [1] * n + [0, 1] * n


def vec_cases(ctx, name, fac, ref):
    """filter_signal agrees with sample processing and with the reference,
    leaves other channels alone, for each channel count."""
    for n_ch in (1, 2, 3):
        for L in (max(2, n_ch), 7, 16):
            def go():
                f = fac()
                if not hasattr(f, "filter_signal"):
                    return
                f.set_n_channels(n_ch)
                x = R.td(L, n_ch)
                s = dsp.Signal.from_time_data(x.copy(), FS)
                out = f.filter_signal(s)
                ctx.step()
                if isinstance(ref, list):
                    for i, r in enumerate(ref):
                        w = np.stack([r(x[:, c]) for c in range(n_ch)], 1)
                        eq(out.bands[i].time_data, w, f"{name} band {i}",
                           rtol=1e-8, atol=1e-8)
                else:
                    w = np.stack([ref(x[:, c]) for c in range(n_ch)], 1)
                    eq(out.time_data, w, f"{name} filter_signal {n_ch}ch L={L}",
                       rtol=1e-8, atol=1e-8)
                eq(s.time_data, x, f"{name} input unchanged")

            ctx.case(f"vec/{name}/{n_ch}/{L}", go)


def blocks(ctx):
    """Partitioned/overlap-save convolvers: all interleavings of block calls
    over channels, every (length, blocksize), resets in between."""
    lens = range(1, 8) if not ctx.thorough else range(1, 12)
    sizes = (1, 2, 3, 4, 5) if not ctx.thorough else (1, 2, 3, 4, 5, 6, 7, 8)
    for cls in (FIRFilterOverlapSave, FIRUniformPartitioned):
        for L in lens:
            h = R.seq(L, 2)
            for B in sizes:
                scheds = list(interleavings((2, 2))) + list(interleavings((3, 1)))
                scheds += [s for s in interleavings((1, 2, 1))]
                nb = -(-L // B) + 2
                scheds.append((0,) * nb + (1,) * nb + (0, 1) * 2)
                scheds.append((0, 1) * nb)
                base = (0, 1, 0, 1, 0)
                scheds += [
                    base[:i] + ("R",) + base[i:] for i in range(len(base) + 1)
                ]
                scheds += [base[:i] + ("P",) + base[i:] for i in (2, 3)]
                for sc in scheds:
                    n_ch = max([e for e in sc if not isinstance(e, str)]) + 1

                    def go(from_filter=False):
                        if from_filter:
                            f = cls.from_filter(flt_ba(h))
                        else:
                            f = cls(h.copy())
                        f.prepare(B, n_ch)
                        hist = [np.zeros(0) for _ in range(n_ch)]
                        cnt = [0] * n_ch
                        for e in sc:
                            ctx.step()
                            if e == "R":
                                f.reset_state()
                                hist = [np.zeros(0) for _ in range(n_ch)]
                                continue
                            if e == "P":
                                f.prepare(B, n_ch)
                                hist = [np.zeros(0) for _ in range(n_ch)]
                                continue
                            x = R.seq((cnt[e] + 1) * B, 3 * e)[-B:]
                            cnt[e] += 1
                            hist[e] = np.append(hist[e], x)
                            y = f.process_block(x.copy(), e)
                            eq(np.asarray(y).ravel(),
                               R.conv_ref(h, hist[e])[-B:],
                               f"{cls.__name__} L={L} B={B} {sc}", 1e-8, 1e-9)
                            ctx.state(cls.__name__, L, B, canon(f.__dict__))

                    ctx.case(f"block/{cls.__name__}/{L}/{B}/{hstr(sc)}", go)
                    if sc == (0, 1) * nb and L > 1:
                        ctx.case(
                            f"block/{cls.__name__}/from/{L}/{B}", go, True
                        )
    # one FIR per channel
    for L in lens:
        for n_ch in (1, 2, 3):
            for gain in (1.0, 4.0):
                h = R.td(L, n_ch, 2) * gain
                if L < n_ch or L == 1:
                    continue
                for B in sizes:
                    for reset_at in (None, 0, 1, 2, 3):

                        def go():
                            f = FIRUniformPartitionedMultichannel(h.copy())
                            f.prepare(B)
                            nb = -(-L // B) + 2
                            X = np.zeros((0, n_ch))
                            for i in range(nb):
                                ctx.step()
                                if reset_at == i:
                                    f.reset_state()
                                    X = np.zeros((0, n_ch))
                                x = R.td((i + 1) * B, n_ch, 3)[-B:]
                                X = np.concatenate([X, x])
                                y = f.process_block(x.copy())
                                w = np.stack(
                                    [R.conv_ref(h[:, c], X[:, c])[-B:]
                                     for c in range(n_ch)], 1)
                                eq(y, w, f"multich L={L} B={B} block {i}",
                                   1e-8, 1e-9)
                                ctx.state("mc", L, B, n_ch, canon(f.__dict__))

                        ctx.case(
                            f"block/FIRUniformPartitionedMultichannel/"
                            f"{L}/{B}/{n_ch}/{gain}/{reset_at}", go)


def parallel_set(ctx):
    """After set_coefficients, the sample path, the vector path and the sum
    of the sections the caller asked for are the same filter."""
    for n0, delay in ((0, 0), (2, 0), (3, 2)):
        for fir in (None, [0.3], [0.3, -0.2], [0.1, 0.2, 0.3, -0.4]):
          for then in (None, 0, 1, 4):
            def go():
                f, _ = parallel(n0, delay, 0.0)
                den = [
                    x.get_coefficients(dsp.FilterCoefficientsType.Sos)[0, 3:]
                    for x in f.filter_bank.filters if x.is_iir
                ]
                co = np.stack([R.seq(2, i) for i in range(len(den))])
                f.set_coefficients(co.copy(), None if fir is None else arr(fir))
                if then is not None:
                    f.set_parameters(then)
                f.set_n_channels(2)
                x = R.td(12, 2)
                want = np.zeros_like(x)
                for c in range(2):
                    xd = np.concatenate([np.zeros(delay if then is None else then), x[:, c]])[:12]
                    for i, d in enumerate(den):
                        want[:, c] += R.lfilter_ref(co[i], d, xd)
                    if fir is not None:
                        want[:, c] += R.conv_ref(fir, x[:, c])
                s = dsp.Signal.from_time_data(x.copy(), FS)
                eq(f.filter_signal(s).time_data, want, "filter_signal", 1e-8, 1e-8)
                for n in range(12):
                    for c in range(2):
                        ctx.step()
                        eq(f.process_sample(x[n, c], c), want[n, c],
                           f"process_sample {n},{c}", 1e-8, 1e-8)
                        ctx.state("parset", n0, delay, str(fir), then, n, c)
            ctx.case(f"parset/{n0}/{delay}/{fir}/{then}", go)


def ema(ctx):
    """Nonlinear: every sign pattern of inputs, every interleaving."""
    vals = (-0.5, 0.0, 0.25, 1.0)
    n = 4 if not ctx.thorough else 5
    for ti, tdn in ((0.01, 0.05), (0.05, 0.01), (0.02, 0.02)):
        for acc in (0.95, 0.5):
            def coef(t):
                # step response reaches `acc` after t seconds
                return 1.0 - (1.0 - acc) ** (1.0 / (t * FS))

            def ref(xs):
                y = 0.0
                for x in xs:
                    c = coef(ti) if x > y else coef(tdn)
                    y = c * x + (1 - c) * y
                return y

            for xs in itertools.product(vals, repeat=n):
                def go():
                    f = ExponentialAverageFilter(ti, tdn, FS, acc)
                    for i, x in enumerate(xs):
                        ctx.step()
                        eq(f.process_sample(x, 0), ref(xs[: i + 1]),
                           f"EMA {ti},{tdn} {xs[:i + 1]}", 1e-7, 1e-9)
                        ctx.state("ema", ti, acc, canon(f.__dict__))
                ctx.case(f"ema/1ch/{ti}/{tdn}/{acc}/{xs}", go)
            for sc in interleavings((3, 3)):
                for pat in itertools.product((0, 1), repeat=2):
                    seqs = [(0.5, -0.25, 1.0), (-1.0, 0.75, 0.1)]
                    seqs = [seqs[p] for p in pat]

                    def go():
                        f = ExponentialAverageFilter(ti, tdn, FS, acc)
                        f.set_n_channels(2)
                        got = [[], []]
                        for c in sc:
                            ctx.step()
                            got[c].append(seqs[c][len(got[c])])
                            eq(f.process_sample(got[c][-1], c), ref(got[c]),
                               f"EMA 2ch {sc} ch {c}", 1e-7, 1e-9)
                        f.reset_state()
                        eq(f.process_sample(0.5, 1), ref([0.5]), "after reset")
                    ctx.case(f"ema/2ch/{ti}/{tdn}/{acc}/{hstr(sc)}/{pat}", go)


def run(ctx):
    ctx.bound(
        channels="1..3",
        interleavings="all of (3,3),(1,2,2) samples; quick. all of (4,4),(2,2,2); thorough",
        resets="one reset or re-initialisation at every point",
        fir_taps="1..7 (11 thorough)", blocksizes="1..5 (8 thorough)",
    )
    F = sample_filters()
    for name, (fac, ref) in F.items():
        for n_ch, h in histories(4, ctx.thorough):
            ctx.case(f"smp/{name}/{hstr(h)}", run_history, ctx, name, fac, ref, n_ch, h)
        ctx.case(f"smp/{name}/long", run_history, ctx, name, fac, ref, 2, long_hist(12))
        vec_cases(ctx, name, fac, ref)
    for name, (fac, ref) in svf().items():
        for n_ch, h in histories(4, ctx.thorough):
            ctx.case(f"smp/{name}/{hstr(h)}", run_history, ctx, name, fac, ref, n_ch, h)
        ctx.case(f"smp/{name}/long", run_history, ctx, name, fac, ref, 2, long_hist(12))
        vec_cases(ctx, name, fac, ref)
    parallel_set(ctx)
    blocks(ctx)
    ema(ctx)
