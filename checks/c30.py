"""C30 FIR designers: every combination of target, length and parameters against
the integral of the group delay, delays which are exact, and every history of
parameters."""

import itertools
import warnings

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

warnings.simplefilter("ignore")
F = dsp.filterbanks
FS = 1000


def wrap(p):
    return (np.asarray(p) + np.pi) % (2 * np.pi) - np.pi


def coefficients(d):
    f = d.get_filter()
    b, a = f.get_coefficients(dsp.FilterCoefficientsType.Ba)[:2]
    a = np.asarray(a)
    true(len(a) == 1 or not np.any(a[1:]), "FIR")
    same(f.sampling_rate_hz, FS, "rate")
    b = np.asarray(b) / a[0]
    ir = d.get_filter_as_ir()
    same(ir.sampling_rate_hz, FS, "rate of the IR")
    eq(ir.time_data[:, 0], b * ir.amplitude_scale_factor, "IR and filter", 1e-9, 1e-12)
    eq(d.get_filter_as_ir().time_data, ir.time_data, "again")
    return b


def delta(n, d, gain=1.0):
    x = np.zeros(n)
    x[d] = gain
    return x


# -------------------------------------------- constant delays are pure delays
def constant(ctx, lengths):
    for n, d, inc, gain in itertools.product(lengths, (0, 1, 2, 5, 11), (0, 1, 4), (1.0, 0.25, 3.0)):
        if d + inc >= n:
            continue
        for trap, integer, extra in itertools.product((True, False), (True, False), (0, 3, None)):
            def one():
                k = n // 2 + 1
                for which in ("fir", "gd"):
                    if which == "gd":
                        if gain != 1:
                            continue
                        z = F.GroupDelayDesigner(np.full(k, d / FS), n, FS)
                    else:
                        z = F.FirDesigner(np.full(k, gain), np.full(k, d / FS), n, FS)
                    same(z.set_parameters(inc * 1e3 / FS, extra, trap, integer) is z, True, "returns itself")
                    b = coefficients(z)
                    if extra is None:
                        true(len(b) >= n, "whole response")
                    else:
                        true(d + inc + 1 + extra <= len(b) <= d + inc + 3 + extra, "length")
                    eq(b, delta(len(b), d + inc, gain), f"{which}: delay", 1e-6, 1e-6)
                # A linear phase is linearized by a pure delay
                if inc == 0 and gain == 1 and d:
                    for percent in (0, 100, 300):
                        ph = wrap(-2 * np.pi * d * np.arange(k) / n)
                        if d * 2 >= n:
                            continue  # unwrapping is ambiguous
                        z = F.PhaseLinearizer(ph, n, FS)
                        z.set_parameters(percent, extra, trap, integer)
                        rest = d * percent // 100
                        if rest >= n:
                            continue
                        b = coefficients(z)
                        eq(b, delta(len(b), rest), f"linearizer {percent}", 1e-6, 1e-6)
            ctx.case(f"constant/{n}-{d}-{inc}-{gain}-{trap}-{integer}-{extra}", one)
            ctx.step()


# ------------------------------------------------------------- general targets
def targets(n):
    k = n // 2 + 1
    f = np.arange(k) / n
    smooth = {
        "ramp": 2 + 6 * f,
        "bump": 3 + 1.5 * np.cos(2 * np.pi * f) + 0.5 * np.cos(6 * np.pi * f),
        "peak": 2.5 + 3 * np.exp(-(((f - 0.2) / 0.05) ** 2)),
    }
    mags = {
        "flat": np.ones(k),
        "lowpass": 1 / (1 + (f / 0.2) ** 4),
        "shelf": 1 + 1.5 * f,
    }
    return f, smooth, mags


def integral(gd_samples, n, trap):
    """Phase from the delay at the frequencies k / n"""
    step = 2 * np.pi / n
    if trap:
        ph = [0.0]
        for a, b in zip(gd_samples, gd_samples[1:]):
            ph.append(ph[-1] - step * (a + b) / 2)
        return np.array(ph)
    from scipy.integrate import cumulative_simpson
    return -step * cumulative_simpson(gd_samples, initial=0)


def general(ctx, lengths):
    for n in lengths:
        f, delays, mags = targets(n)
        for (gn, gd), (mn, mag), inc in itertools.product(delays.items(), mags.items(), (0, 2.5)):
            for trap, integer in itertools.product((True, False), repeat=2):
                def one():
                    k = len(f)
                    exact = int(np.max(gd + inc) + 1) * 10 <= n
                    z = F.FirDesigner(mag.copy(), gd / FS, n, FS)
                    z.set_parameters(inc * 1e3 / FS, None, trap, integer)
                    b = coefficients(z)
                    ph = integral(gd + inc, n, trap)
                    if exact:
                        same(len(b), n, "length of the whole response")
                        H = np.fft.rfft(b)
                        if n % 2 == 0 and integer:
                            # A ramp of less than a sample makes it real
                            m = np.angle(H) - ph
                            slope = (-ph[-1]) % np.pi
                            ok = [s for s in (slope, slope - np.pi) if np.max(np.abs(wrap(m - np.arange(k) / (k - 1) * s))) < 1e-6]
                            true(len(ok) > 0, "phase up to a part of a sample")
                            eq(np.abs(H), mag, "magnitude", 1e-7, 1e-8)
                        else:
                            inner = slice(1, -1 if n % 2 == 0 else None)
                            eq(np.abs(H)[inner], mag[inner], "magnitude", 1e-7, 1e-8)
                            eq(wrap(np.angle(H)[inner] - ph[inner]), np.zeros(k)[inner], "phase", 0, 1e-7)
                            eq(H[0], mag[0] + 0j, "0 Hz", 1e-7, 1e-8)
                            if n % 2 == 0:
                                eq(H[-1], mag[-1] * np.cos(ph[-1]) + 0j, "Nyquist", 1e-7, 1e-7)
                    # The first part of it is the trimmed one
                    for extra in (0, 4):
                        z.set_parameters(inc * 1e3 / FS, extra, trap, integer)
                        t = coefficients(z)
                        true(np.max(gd + inc) + extra + 1 <= len(t) <= np.max(gd + inc) + extra + 4, "length")
                        full = np.append(b, np.zeros(max(0, len(t) - len(b))))
                        eq(t, full[: len(t)], "trimmed", 1e-9, 1e-12)
                    # What it realizes: the delay between the frequencies
                    if n >= 100 and not integer:
                        got = -np.diff(np.unwrap(np.angle(np.fft.rfft(b)))) * n / 2 / np.pi
                        want = (gd + inc)[:-1] / 2 + (gd + inc)[1:] / 2
                        sel = slice(1, -2)
                        true(np.max(np.abs(got - want)[sel]) < 0.2, f"group delay {np.max(np.abs(got - want)[sel])}")
                ctx.case(f"general/{n}-{gn}-{mn}-{inc}-{trap}-{integer}", one)
                ctx.step()


# ----------------------------------------------------------------- linearizing
def linearizer(ctx, lengths):
    for n in lengths:
        f = np.arange(n // 2 + 1) / n
        z = np.exp(-2j * np.pi * f)
        systems = {}
        for r in (0.3, -0.5, 0.7):
            systems[f"allpass{r}"] = (z - r) / (1 - r * z)
        systems["second"] = (0.4 - 0.5 * z + z**2) / (1 - 0.5 * z + 0.4 * z**2)
        systems["both"] = systems["allpass0.3"] * systems["second"]
        for (name, H), percent in itertools.product(systems.items(), (0, 50, 100, 250)):
            def one():
                ph = np.angle(H)
                d = F.PhaseLinearizer(ph.copy(), n, FS)
                d.set_parameters(percent, None)
                b = coefficients(d)
                gd = -np.gradient(np.unwrap(ph)) * n / 2 / np.pi
                total = np.max(gd) * (1 + percent / 100)
                if int(np.max(total - gd) + 1) * 10 > n:
                    return
                same(len(b), n, "length")
                G = np.fft.rfft(b)
                want = integral(total - gd, n, True)
                inner = slice(1, -1)
                eq(wrap(np.angle(G)[inner] - want[inner]), 0 * want[inner], "phase", 0, 1e-7)
                eq(np.abs(G)[inner], np.ones(len(G))[inner], "magnitude", 1e-7)
                # In series: a delay
                rest = wrap(np.angle(G * H) + 2 * np.pi * f * total - np.angle(H[0]))
                true(np.max(np.abs(rest[inner])) < 0.12, f"linear phase {np.max(np.abs(rest[inner]))}")
            ctx.case(f"linearizer/{n}-{name}-{percent}", one)
            ctx.step()


# ------------------------------------------------------------------- histories
PARAMS = [
    dict(delay=0.0, additional_length_samples=0, trapezoidal_integration=True, ensure_integer_delay=False),
    dict(delay=4.0, additional_length_samples=None, trapezoidal_integration=True, ensure_integer_delay=True),
    dict(delay=2.0, additional_length_samples=7, trapezoidal_integration=False, ensure_integer_delay=False),
    dict(delay=50.0, additional_length_samples=0, trapezoidal_integration=False, ensure_integer_delay=True),
]


def histories(ctx, depth):
    n = 160
    f, delays, mags = targets(n)

    def make(which):
        if which == "fir":
            return F.FirDesigner(mags["lowpass"], delays["bump"] / FS, n, FS)
        if which == "gd":
            return F.GroupDelayDesigner(delays["peak"] / FS, n, FS)
        z = np.exp(-2j * np.pi * f)
        return F.PhaseLinearizer(np.angle((z - 0.4) / (1 - 0.4 * z)), n, FS)

    def setp(d, which, p):
        kw = dict(PARAMS[p])
        kw["delay_increase_percent" if which == "pl" else "delay_increase_ms"] = kw.pop("delay")
        true(d.set_parameters(**kw) is d, "returns itself")
    for which in ("fir", "gd", "pl"):
        ref = []
        for p in range(len(PARAMS)):
            d = make(which)
            setp(d, which, p)
            ref.append(coefficients(d))
        ref.append(coefficients(make(which)))
        ops = [f"set{p}" for p in range(len(PARAMS))] + ["filter", "ir", "reject"]
        for seq in itertools.product(ops, repeat=depth):
            def one():
                d, cur = make(which), len(PARAMS)
                for op in seq:
                    if op.startswith("set"):
                        cur = int(op[3:])
                        setp(d, which, cur)
                    elif op == "filter":
                        d.get_filter()
                    elif op == "ir":
                        d.get_filter_as_ir().time_data[:] = 5.0
                    else:
                        must_raise(lambda: d.set_parameters(-1.0), "negative delay")
                        must_raise(lambda: d.set_parameters(0.0, -1), "negative length")
                    b = coefficients(d)
                    eq(b, ref[cur], "filter after " + op)
            ctx.case(f"history/{which}-{'-'.join(seq)}", one)
            ctx.state(which, *seq)
            ctx.step(depth)

    def reject():
        k = n // 2 + 1
        must_raise(lambda: F.FirDesigner(np.ones(k), np.ones(k - 1), n, FS), "lengths")
        must_raise(lambda: F.FirDesigner(np.ones(k - 1), np.ones(k), n, FS), "lengths")
        must_raise(lambda: F.GroupDelayDesigner(np.ones(k), n + 4, FS), "length")
        must_raise(lambda: F.GroupDelayDesigner(np.ones((k, 2)), n, FS), "two dimensions")
        must_raise(lambda: F.PhaseLinearizer(np.ones(k), n // 2, FS), "length")
    ctx.case("history/reject", reject)


def run(ctx):
    t = ctx.thorough
    ls = (12, 13, 40, 41, 200, 301) if not t else (12, 13, 14, 27, 40, 41, 64, 97, 200, 201, 301, 500)
    parts = [(constant, (n,)) for n in ls]
    parts += [(general, (n,)) for n in ((60, 61, 160, 161) if not t else (60, 61, 100, 101, 160, 161, 256, 400, 401))]
    parts += [(linearizer, (n,)) for n in ((128, 129, 400) if not t else (128, 129, 256, 400, 401, 1000))]
    parts += [(histories, 4 if t else 3)]
    ctx.bound(lengths=list(ls), histories="all sequences of 7 operations up to depth " + ("4" if t else "3"))
    ctx.parallel(lambda c, fn, *a: fn(c, *a), parts)
