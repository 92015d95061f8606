"""C29 audio input and output against a simulated sound card: what reaches each
physical output and what is recorded from each physical input, for every
assignment of channels, duration and level."""

import contextlib
import io
import itertools

import numpy as np
import sounddevice as sd

import dsptoolbox as dsp
from mc.core import eq, must_raise, same, true
from mc.snap import snap
from mc import dsp as R

A = dsp.audio_io
FS = 1000
CARD = 4  # physical channels in each direction
DEVICES = [
    dict(name="Built-in Output", index=0),
    dict(name="USB Interface (in)", index=1),
    dict(name="usb interface 2", index=2),
    dict(name="Loopback", index=3),
]


class Card:
    """Stands in for sounddevice's functions (no audio hardware): each output
    is wired to the input with the next number, scaled"""

    def __init__(self):
        self.calls = []

    def outputs(self, data, mapping):
        data = np.asarray(data)
        data = data[:, None] if data.ndim == 1 else data
        mapping = list(range(1, data.shape[1] + 1)) if mapping is None else [int(m) for m in mapping]
        assert min(mapping) >= 1 and len(set(mapping)) == len(mapping) and len(mapping) == data.shape[1]
        out = np.zeros((len(data), CARD))
        for i, m in enumerate(mapping):
            out[:, m - 1] = data[:, i]
        return out

    def inputs(self, out):
        return 0.5 * np.roll(out, 1, axis=1)

    def play(self, data, samplerate=None, mapping=None, blocking=False, loop=False, **kw):
        self.calls.append(dict(kind="play", out=self.outputs(data, mapping), fs=samplerate, device=device(), blocking=blocking))

    def playrec(self, data, samplerate=None, channels=None, dtype=None, out=None, input_mapping=None, output_mapping=None, blocking=False, **kw):
        o = self.outputs(data, output_mapping)
        self.calls.append(dict(kind="playrec", out=o, fs=samplerate, device=device(), blocking=blocking))
        cols = [m - 1 for m in input_mapping]
        return self.inputs(o)[:, cols].astype(np.float32)

    def rec(self, frames=None, samplerate=None, channels=None, dtype=None, out=None, mapping=None, blocking=False, **kw):
        self.calls.append(dict(kind="rec", frames=frames, fs=samplerate, device=device(), blocking=blocking))
        return R.td(64, CARD, 3)[:frames, [m - 1 for m in mapping]].astype(np.float32) * 0.2

    def query_devices(self, which=None, kind=None):
        return list(DEVICES) if which is None else DEVICES[which]


def device():
    d = sd.default.device
    return tuple(d) if not isinstance(d, (int, str)) else (d, d)


NAMES = ("play", "playrec", "rec", "query_devices", "sleep", "OutputStream")


@contextlib.contextmanager
def card():
    c = Card()
    old = {n: getattr(sd, n) for n in NAMES}
    sd.default.reset()
    c.slept, c.streams = [], []
    for n in ("play", "playrec", "rec", "query_devices"):
        setattr(sd, n, getattr(c, n))
    sd.sleep = c.slept.append
    sd.OutputStream = lambda **kw: c.streams.append(kw) or kw
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield c
    finally:
        for n, f in old.items():
            setattr(sd, n, f)
        sd.default.reset()


def expected(x, mapping, dbfs, samples):
    x = x[:samples]
    if dbfs is not None:
        x = x / np.max(np.abs(x)) * 10 ** (dbfs / 20)
    out = np.zeros((len(x), CARD))
    for i, m in enumerate(mapping):
        out[:, m - 1] = x[:, i]
    return out


def playback(ctx):
    for ch in (1, 2, 3):
        x = R.td(21, ch, ch)
        x = 0.7 * x / np.abs(x).max()
        maps = [None, *itertools.permutations(range(1, CARD + 1), ch)]
        for mp in maps:
            forms = (mp,) if mp is None else (list(mp), mp, np.array(mp)) + ((mp[0],) if ch == 1 else ())
            for form, dbfs, dur, dev in itertools.product(forms, (None, -6, 0, -23.5), (None, 0.02, 0.0135, 0.021), (None, 3)):
                want_map = mp or range(1, ch + 1)
                n = 21 if dur is None else int(dur * FS)

                def play():
                    with card() as c:
                        s = dsp.Signal.from_time_data(x.copy(), FS)
                        d = snap(s)
                        A.play(s, dur, dbfs, dev, form)
                        same(snap(s), d, "signal")
                        same(len(c.calls), 1, "calls")
                        call = c.calls[0]
                        same((call["kind"], call["fs"], call["blocking"]), ("play", FS, True), "call")
                        eq(call["out"], expected(x, want_map, dbfs, n), "outputs", 1e-7)
                        same(call["device"], (dev, dev) if dev is not None else (-1, -1), "device")
                key = f"{form!r}".replace("/", "")
                ctx.case(f"play/{ch}-{key}-{dbfs}-{dur}-{dev}", play)
                ctx.step()
                for rc in ([1], 2, [1, 3], (2, 4), [1, 2, 3, 4]):
                    def both():
                        with card() as c:
                            s = dsp.Signal.from_time_data(x.copy(), FS)
                            d = snap(s)
                            r = A.play_and_record(s, dur, dbfs, dev, form, rc)
                            same(snap(s), d, "signal")
                            same(len(c.calls), 1, "calls")
                            call = c.calls[0]
                            same((call["kind"], call["fs"], call["blocking"]), ("playrec", FS, True), "call")
                            out = expected(x, want_map, dbfs, n)
                            eq(call["out"], out, "outputs", 1e-7)
                            same(call["device"], (dev, dev) if dev is not None else (-1, -1), "device")
                            cols = [v - 1 for v in ([rc] if isinstance(rc, int) else rc)]
                            same(r.sampling_rate_hz, FS, "rate")
                            eq(r.time_data, c.inputs(out)[:, cols], "recorded", 1e-6, 1e-7)
                    if dbfs != 0 and dev is None or mp is None:
                        ctx.case(f"playrec/{ch}-{key}-{dbfs}-{dur}-{dev}-{rc}", both)
                        ctx.step()

    def reject():
        with card() as c:
            s = dsp.Signal.from_time_data(R.td(21, 2, 1), FS)
            for fn in (A.play, A.play_and_record):
                must_raise(lambda: fn(s, play_channels=[0, 1]), "channel 0")
                must_raise(lambda: fn(s, duration_seconds=0), "no duration")
                must_raise(lambda: fn(s, duration_seconds=-1.0), "negative duration")
                must_raise(lambda: fn(s, normalized_dbfs=1), "above full scale")
                must_raise(lambda: fn(s, play_channels=[1, 2, 3]), "channels do not match")
                must_raise(lambda: fn(s, play_channels=1), "channels do not match")
            must_raise(lambda: A.play_and_record(s, rec_channels=[0]), "input 0")
            must_raise(lambda: A.record(rec_channels=[0, 1]), "input 0")
            same(len(c.calls), 0, "nothing was played")
    ctx.case("play/reject", reject)


def recording(ctx):
    for dur, fs, rc, dev in itertools.product((0.01, 0.0205, 0.05), (500, 1000), ([1], 3, [1, 2], (2, 4), [1, 2, 3, 4]), (None, 1, "Loopback")):
        def one():
            with card() as c:
                r = A.record(dur, fs, dev, rc)
                call = c.calls[0]
                same((len(c.calls), call["kind"], call["frames"], call["fs"], call["blocking"]), (1, "rec", int(dur * fs), fs, True), "call")
                same(call["device"], (dev, dev) if dev is not None else (-1, -1), "device")
                cols = [v - 1 for v in ([rc] if isinstance(rc, int) else rc)]
                eq(r.time_data, 0.2 * R.td(64, CARD, 3)[: int(dur * fs), cols], "recorded", 1e-6, 1e-7)
                same(r.sampling_rate_hz, fs, "rate")
        ctx.case(f"record/{dur}-{fs}-{rc}-{dev}", one)
        ctx.step()


# ------------------------------------------------------------------- settings
def settings(ctx, depth):
    """All sequences of settings: the defaults are those last set, nothing else
    changes"""
    ops = {
        "device2": (lambda: A.set_device(2), dict(device=(2, 2))),
        "pair": (lambda: A.set_device([1, 3]), dict(device=(1, 3))),
        "name": (lambda: A.set_device("LOOP"), dict(device=(3, 3))),
        "names": (lambda: A.set_device(["usb", "built-in"]), dict(device=(1, 0))),
        "names2": (lambda: A.set_device(["usb interface 2", "loopback"], 44100), dict(device=(2, 3), samplerate=44100)),
        "rate": (lambda: A.set_device(0, 48000), dict(device=(0, 0), samplerate=48000)),
        "lowhigh": (lambda: A.set_latency(True, False), dict(latency=("low", "high"))),
        "highlow": (lambda: A.set_latency(False, True), dict(latency=("high", "low"))),
        "low": (lambda: A.set_latency(True, True), dict(latency=("low", "low"))),
        "block": (lambda: A.set_blocksize(128), dict(blocksize=128)),
        "unknown": (lambda: must_raise(lambda: A.set_device("nothing like this"), "name"), {}),
        "three": (lambda: must_raise(lambda: A.set_device([0, 1, 2]), "three devices"), {}),
        "mixed": (lambda: must_raise(lambda: A.set_device([0, "usb"]), "mixed"), {}),
        "float": (lambda: must_raise(lambda: A.set_device(1.5), "type"), {}),
    }

    def state():
        d = sd.default
        return dict(device=device(), samplerate=d.samplerate, latency=tuple(d.latency), blocksize=d.blocksize)
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            def one():
                with card():
                    m = state()
                    for op in seq:
                        r = ops[op][0]()
                        m.update(ops[op][1])
                        same(state(), m, "defaults after " + op)
                        if ops[op][1].get("device"):
                            same(list(r), DEVICES, "list of devices")
                    true(A.default_config is sd.default, "default_config")
            ctx.case(f"settings/{'-'.join(seq)}", one)
            ctx.state("settings", *seq)
            ctx.step(n)

    def other():
        with card() as c:
            same(list(A.print_device_info()), DEVICES, "devices")
            for i in range(4):
                same(A.print_device_info(i), DEVICES[i], "device")
            for t in (0.5, 2, 0.0123):
                A.sleep(t)
            same(c.slept, [500, 2000, 12], "slept")
            s = dsp.Signal.from_time_data(R.td(21, 2, 1), FS)
            cb, fin = (lambda *a: None), (lambda: None)
            A.output_stream(s, 256, 3, "low", "x", cb, fin, True, False, True, False)
            same(c.streams[0], dict(samplerate=FS, blocksize=256, device=3, channels=2, dtype=None, latency="low", extra_settings="x", callback=cb, finished_callback=fin, clip_off=True, dither_off=False, never_drop_input=True, prime_output_buffers_using_stream_callback=False), "stream")
            A.output_stream(s)
            same((c.streams[1]["samplerate"], c.streams[1]["blocksize"], c.streams[1]["channels"]), (FS, 2048, 2), "stream")
    ctx.case("settings/other", other)


def run(ctx):
    depth = 4 if ctx.thorough else 3
    ctx.bound(card=f"{CARD} physical channels each way", mappings="every assignment of 1-3 channels to outputs", histories=f"all sequences of up to {depth} settings")
    ctx.assume("sounddevice itself is replaced by a simulated card: only what the library asks of it is decided.")
    ctx.parallel(lambda c, fn, *a: fn(c, *a), [(playback,), (recording,), (settings, depth)])
