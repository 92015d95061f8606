"""C28 calibration: every way of passing, extending and changing calibration
data, every history of uses, against the closed-form factors."""

import itertools
import os
import shutil
import tempfile

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import pure
from mc import dsp as R

FS = 8000
N = 800  # Whole periods of 1 kHz
T = np.arange(N) / FS
P0 = 20e-6


def tone(amps, noise=0.0):
    """1 kHz tones; the noise has nothing at 0 Hz and 1 kHz"""
    x = np.stack([a * np.sin(2 * np.pi * 1000 * T + 0.4 * i) for i, a in enumerate(amps)], axis=1)
    if noise:
        n = R.td(N, len(amps), 4)
        F = np.fft.rfft(n, axis=0)
        F[[0, 100, 400]] = 0
        n = np.fft.irfft(F, N, axis=0)
        x = x + noise * n / np.sqrt(np.mean(n**2, axis=0))
    return x


def sig(x, constrain=False):
    return dsp.Signal.from_time_data(np.array(x), FS, constrain_amplitude=constrain)


def factors(x, amps, spl, high):
    r = np.sqrt(np.mean(x**2, axis=0)) if high else np.array(amps) / np.sqrt(2)
    return 10 ** (spl / 20) * P0 / r


def check(cd, fac, what="", force=False):
    nch = len(fac)
    for ch in (1, 2, 3):
        for constrain in (False, True):
            x = 0.8 * R.td(40, ch, 7) / np.max(np.abs(R.td(40, ch, 7)))
            s = sig(x, constrain)
            bands = dsp.MultiBandSignal([sig(x, constrain), sig(-0.5 * x[::-1], constrain)])
            if nch not in (1, ch):
                must_raise(lambda: cd.calibrate_signal(s, force), "channels")
                must_raise(lambda: cd.calibrate_signal(bands, force), "channels")
                continue
            c = pure(lambda v: cd.calibrate_signal(v, force), s)
            eq(c.time_data, x * fac, "calibrated " + what, 1e-7)
            true(c.calibrated_signal is True and c.constrain_amplitude is False, "state")
            true(s.calibrated_signal is False, "state of the input")
            same(c.amplitude_scale_factor, 1.0, "scale factor")
            b = pure(lambda v: cd.calibrate_signal(v, force), bands)
            for got, want in zip(b.bands, (x, -0.5 * x[::-1])):
                eq(got.time_data, want * fac, "band " + what, 1e-7)
                true(got.calibrated_signal is True and got.constrain_amplitude is False, "state of the band")
    must_raise(lambda: cd.calibrate_signal(np.ones(9)), "type")


def created(ctx, path):
    for amps in ((0.1,), (0.9,), (0.2, 0.7), (0.5, 0.1, 0.3)):
        for spl, high, noise in itertools.product((94, 114, 70.5), (True, False), (0.0, 0.05)):
            for how in ("signal", "tuple", "file"):
                def one():
                    x = tone(amps, noise)
                    want = factors(x, amps, spl, high)
                    s = sig(x)
                    if how == "file":
                        s.save_signal(path, "flac" if False else "wav", 32)
                        arg = path
                    else:
                        arg = s if how == "signal" else (x.copy(), FS)
                    cd = dsp.CalibrationData(arg, spl, high)
                    check(cd, want)
                    if how == "signal":
                        eq(s.time_data, x, "calibration signal")
                        same(s.spectrum_method, sig(x).spectrum_method, "its parameters")
                        same(s.spectrum_scaling, sig(x).spectrum_scaling, "its parameters")
                    # The recording itself then has the given level
                    c = cd.calibrate_signal(sig(x))
                    lev = 20 * np.log10(np.sqrt(np.mean(c.time_data**2, axis=0)) / P0)
                    if high or not noise:
                        eq(lev, np.full(len(amps), float(spl)), "level", 1e-6)
                ctx.case(f"new/{amps}-{spl}-{high}-{noise}-{how}", one)
                ctx.step()

    def reject():
        must_raise(lambda: dsp.CalibrationData(tone((0.1,))), "array")
        must_raise(lambda: dsp.CalibrationData((tone((0.1,)), FS, 3)), "tuple of three")
        cd = dsp.CalibrationData(sig(tone((0.1,))))
        for bad in (3, tone((0.1,)), (tone((0.1,)),), (tone((0.1,)), FS // 2), (tone((0.1,))[:-5], FS)):
            must_raise(lambda: cd.add_calibration_channel(bad), "channel")
            check(cd, factors(tone((0.1,)), (0.1,), 94, True), "after a rejected channel")
    ctx.case("new/reject", reject)


def histories(ctx, depth, path):
    """All sequences of uses, added channels and changed parameters"""
    amps0 = (0.2,)
    ops = ("use", "add", "addtuple", "addfile", "addshort", "spl", "snr", "signal")

    def play(seq):
        def one():
            x = tone(amps0)
            cd = dsp.CalibrationData(sig(x))
            spl, high, amps, force = 94, True, list(amps0), False
            for k, op in enumerate(seq):
                if op == "use":
                    cd.calibrate_signal(sig(R.td(20, len(amps), 1)), force)
                    force = False
                elif op.startswith("add"):
                    a = 0.15 * (k + 2)
                    y = tone((a,))
                    if op == "add":
                        r = cd.add_calibration_channel(sig(y))
                    elif op == "addtuple":
                        r = cd.add_calibration_channel((y.copy(), FS))
                    elif op == "addfile":
                        sig(y).save_signal(path, "wav", 32)
                        r = cd.add_calibration_channel(path)
                    else:
                        y = y[: N // 2]
                        r = cd.add_calibration_channel(sig(y), allow_padding_trimming=True)
                        y = np.append(y, np.zeros((N // 2, 1)), axis=0)
                    true(r is cd, "returns itself")
                    x = np.append(x, y, axis=1)
                    amps.append(np.abs(np.fft.rfft(y[:, 0])[100]) * 2 / N)
                elif op == "spl":
                    spl = 100 + k
                    cd.calibration_spl_db = spl
                    force = True
                elif op == "snr":
                    high = not high
                    cd.high_snr = high
                    force = True
                elif op == "signal":
                    amps = [0.33 + 0.1 * k] * len(amps)
                    x = tone(amps)
                    cd.calibration_signal = sig(x)
                    force = True
            want = factors(x, amps, spl, high)
            check(cd, want, "", force)
            check(cd, want, "again")
        return one
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            ctx.case(f"history/{'-'.join(seq)}", play(seq))
            ctx.state("history", *seq)
            ctx.step(d)


def part(ctx, which, depth):
    tmp = tempfile.mkdtemp(prefix="c28_", dir=os.environ.get("VERIF_SCRATCH") or None)
    try:
        path = os.path.join(tmp, "c.wav")
        if which == "new":
            created(ctx, path)
        else:
            histories(ctx, depth, path)
    finally:
        shutil.rmtree(tmp)


def run(ctx):
    depth = 4 if ctx.thorough else 3
    ctx.bound(histories=f"all sequences of up to {depth} of 8 operations", channels="1-3 calibration and signal channels")
    ctx.assume("Attributes changed by hand are only effective with force_update, as documented.")
    ctx.parallel(part, [("new", 0), ("history", depth)])
