"""Results of the operations with an optional compiled kernel. Run as a
script, Numba cannot be imported: its output holds what the package computes
without it."""

import io
import itertools
import os
import subprocess
import sys

import numpy as np

SIZES = (8, 9, 13, 16, 25)


def results():
    import dsptoolbox as dsp
    from mc import dsp as R

    TF, TR = dsp.transfer_functions, dsp.transforms
    out = {}

    def ir(n, ch):
        x = R.td(n, ch, n) * 0.85 ** np.arange(n)[:, None]
        s = dsp.ImpulseResponse.from_time_data(x, 8000, constrain_amplitude=False)
        s.set_spectrum_parameters(dsp.SpectrumMethod.FFT, pad_to_fast_length=False)
        return s

    for n, ch in itertools.product(SIZES, (1, 2, 3)):
        for dom, frac, w in itertools.product(TF.SmoothingDomain, (0.5, 1.0, 3.0, 12.0), (dsp.Window.Hann, dsp.Window.Boxcar)):
            s = TF.complex_smoothing(ir(n, ch), frac, dom, w)
            out[f"smoothing/{n}-{ch}-{dom.name}-{frac}-{w.name}"] = s.spectral_data
        for cycles, end in itertools.product((1, 3, 10), (-50.0, -10.0)):
            s = TF.window_frequency_dependent(ir(n, ch), cycles, end)
            out[f"windowing/{n}-{ch}-{cycles}-{end}"] = s.spectral_data
        for name, f in (("grid", np.arange(n) * 8000 / n), ("odd", np.array([0.0, 33.3, -71.0, 3999.0, 4000.0, 9111.1]))):
            out[f"dft/{n}-{ch}-{name}"] = TR.dft(ir(n, ch), f)
    return out


def without_numba():
    """Same operations in an interpreter which does not find Numba"""
    r = subprocess.run([sys.executable, "-m", "mc.optional"], capture_output=True, env=dict(os.environ), timeout=600)
    if r.returncode:
        raise AssertionError("without Numba: " + r.stderr.decode()[-300:])
    with np.load(io.BytesIO(r.stdout)) as z:
        return {k.replace("|", "/"): z[k] for k in z.files}


def compare(ctx, kinds):
    from mc.core import eq

    here, there = results(), {}
    try:
        there.update(without_numba())
        error = None
    except Exception as e:
        error = e
    for k, v in here.items():
        def one():
            if error is not None:
                raise error
            eq(there[k], v, "without Numba", 1e-9, 1e-12)
        if k.startswith(kinds):
            ctx.case("optional/" + k, one)
            ctx.step()


if __name__ == "__main__":
    sys.modules["numba"] = None
    stdout = sys.stdout.buffer
    sys.stdout = sys.stderr
    res = results()
    buf = io.BytesIO()
    np.savez(buf, **{k.replace("/", "|"): v for k, v in res.items()})
    stdout.write(buf.getvalue())
    stdout.flush()
