"""C20 sample formats: every code of the 8 and 16 bit formats (thorough: every
24 bit code) and the boundary codes of the wider ones goes through every pair
of formats, as an array and as bytes, with and without casting; the oracle is
exact integer arithmetic."""

from fractions import Fraction

import numpy as np

import dsptoolbox as dsp
from mc.core import eq, must_raise, true

conv = dsp.tools.convert_sample_representation
INTS = ["i8", "u8", "i16", "u16", "i24", "u24", "i32", "u32"]
FLTS = ["f32", "f64"]
ALL = INTS + FLTS


def bits(f):
    return int(f[1:])


def top(f):
    return 2 ** (bits(f) - 1) - 1


def mid(f):
    return 0 if f[0] == "i" else top(f)


def dtype(f):
    n = {8: 8, 16: 16, 24: 32, 32: 32, 64: 64}[bits(f)]
    return np.dtype({"i": f"int{n}", "u": f"uint{n}", "f": f"float{n}"}[f[0]])


def to_bytes(v, f):
    if bits(f) == 24:
        return b"".join(int(x).to_bytes(3, "little", signed=f[0] == "i") for x in v)
    return np.asarray(v, dtype=dtype(f)).tobytes()


def from_bytes(b, f):
    if bits(f) == 24:
        return np.array([int.from_bytes(b[i : i + 3], "little", signed=f[0] == "i") for i in range(0, len(b), 3)], dtype=np.int64)
    return np.frombuffer(b, dtype=dtype(f)).astype(np.int64)


def codes(f, full24=False):
    """Codes of the format (those that reach out of the symmetric range too)."""
    t, m = top(f), mid(f)
    lo, hi = (-t - 1, t) if f[0] == "i" else (0, 2 * t + 1)
    if bits(f) <= 16 or (bits(f) == 24 and full24):
        return np.arange(lo, hi + 1, dtype=np.int64)
    near = set()
    for k in range(bits(f)):
        for d in range(-3, 4):
            for s in (1, -1):
                near.add(m + s * (2**k + d))
    for d in range(-40, 41):
        near |= {m + d, lo + d, hi + d, m + t // 2 + d, m - t // 2 + d, m + t // 3 + d, m - t // 3 + d}
    # the widths of the narrower formats, at the limits between their codes
    for w in (7, 15, 23):
        q = 2**w - 1
        if q < t:
            for j in list(range(0, min(q, 300))) + [q // 2, q - 2, q - 1]:
                for s in (1, -1):
                    c = Fraction(2 * j + 1, 2 * q) * t
                    near |= {m + s * (int(c) + d) for d in (-1, 0, 1, 2)}
    return np.array(sorted(c for c in near if lo <= c <= hi), dtype=np.int64)


def floats(f):
    x = [0.0, 1.0, -1.0, 0.5, -0.5, 1e-3, -1e-3, 2.0**-7, 2.0**-15, 2.0**-23, 2.0**-31, 1 - 2.0**-23, -(1 - 2.0**-23), 1.5, -2.0, 1e6, -1e6]
    for w in (7, 15, 23, 31):
        q = 2**w - 1
        for j in (0, 1, 2, q // 3, q // 2, q - 2, q - 1):
            for o in (0.0, 0.25, 0.49, 0.51, 0.75):
                x += [(j + o) / q, -(j + o) / q]
    x = np.array(sorted(set(x)))
    return np.unique(x.astype(np.float32)) if f == "f32" else x


def values(f, full24=False):
    return floats(f) if f in FLTS else codes(f, full24)


def norm(v, f):
    """Value (times the top code of the format) in the symmetric range."""
    if f in FLTS:
        return np.clip(np.asarray(v, dtype=np.float64), -1, 1)
    return np.clip(np.asarray(v, dtype=np.int64) - mid(f), -top(f), top(f))


def expect_check(v, i, o, out):
    """out (as an exact array) against the exact mapping."""
    n = norm(v, i)
    out = np.asarray(out)
    if o in FLTS:
        ref = n / (1.0 if i in FLTS else float(top(i)))
        tol = 6e-8 if o == "f32" else 4e-16
        eq(np.asarray(out, dtype=np.float64), ref, f"{i} to {o}", rtol=tol, atol=tol * 1e-3 if i in FLTS else tol * 2)
        z = n == 0
        true(np.all(out[z] == 0), f"{i} to {o}: zero maps to {out[z][:1]}")
        full = np.abs(n) == (1.0 if i in FLTS else top(i))
        true(np.all(np.abs(out[full]) == 1.0), f"{i} to {o}: full scale maps to {out[full][:2]}")
        return
    t, m = top(o), mid(o)
    k = np.asarray(out)
    true(np.all(k == np.round(np.asarray(k, dtype=np.float64))), f"{i} to {o}: output is no integer")
    k = np.asarray(k, dtype=np.int64) - m
    true(np.all(np.abs(k) <= t), f"{i} to {o}: code {k[np.abs(k) > t][:3]} out of the range")
    if i in FLTS:
        err = np.abs(k - n * t)
        true(np.all(err < 1), f"{i} to {o}: code further than a step from {v[err >= 1][:3]}")
        z, full = n == 0, np.abs(n) == 1
    else:
        # |k/t − n/top(i)| < 1/t, in exact arithmetic
        ti = top(i)
        if max(t, ti) < 2**31 and t * ti < 2**62:
            err = np.abs(k * ti - n * t)
            bad = err >= ti
        else:
            bad = np.array([abs(int(a) * ti - int(b) * t) >= ti for a, b in zip(k, n)])
        true(not np.any(bad), f"{i} to {o}: code further than a step, e.g., {v[bad][:3]} to {out[bad][:3]}")
        z, full = n == 0, np.abs(n) == ti
    true(np.all(k[z] == 0), f"{i} to {o}: zero maps to {k[z][:1]}")
    true(np.all(k[full] == np.sign(n[full]) * t), f"{i} to {o}: full scale maps to {k[full][:2]}")
    order = np.argsort(n, kind="stable")
    true(np.all(np.diff(k[order]) >= 0), f"{i} to {o} is not monotone")
    if o != i and i in INTS and bits(o) > bits(i):
        same = np.diff(n[order]) > 0
        true(np.all(np.diff(k[order])[same] > 0), f"{i} to {o} merges codes")


def pair(ctx, i, o, full24=False):
    v = values(i, full24)
    arr = v.astype(dtype(i))
    true_out = {}

    def call(kind, cast, inb, outb):
        x = to_bytes(v, i) if inb else (arr if kind == "native" else v.astype(np.float64))
        keep = x if inb else x.copy()
        out, e, s = conv(x, i, o, cast, outb)
        true(x == keep if inb else np.array_equal(x, keep), "input modified")
        true(float(e) == (0 if o in FLTS else mid(o)), f"equilibrium {e} of {o}")
        true(float(s) == (1.0 if o in FLTS else top(o)), f"span {s} of {o}")
        ctx.step()
        if outb:
            true(isinstance(out, bytes), f"output in bytes is {type(out)}")
            size = bits(o) // 8 if cast else 8
            true(len(out) == size * len(v), f"{len(out)} bytes for {len(v)} samples")
            out = from_bytes(out, o) if cast else np.frombuffer(out, dtype=np.float64)
        else:
            true(isinstance(out, np.ndarray), f"output is {type(out)}")
            true(out.dtype == (dtype(o) if cast else np.float64), f"data type {out.dtype} of {o}, cast {cast}")
        true(out.shape == v.shape, f"shape {out.shape}")
        expect_check(v, i, o, out)
        if "ref" not in true_out:
            true_out["ref"] = np.asarray(out, dtype=np.float64)
        eq(np.asarray(out, dtype=np.float64), true_out["ref"], "depends on the container", rtol=1e-7)

    inputs = [("native", False), ("float64", False), ("native", True)]
    if full24 and bits(i) == 24:
        inputs = inputs[:1]
    for kind, inb in inputs:
        if kind == "float64" and i == "f32":
            continue
        for cast in (False, True):
            for outb in (False, True):
                if full24 and (outb and bits(o) == 24):
                    continue
                nm = f"{i} {o} {'bytes' if inb else kind} cast={cast} bytes={outb}{' all' if full24 else ''}"
                if cast and not outb and bits(o) == 24:
                    ctx.case(f"no 24-bit type/{nm}", lambda: must_raise(lambda: conv(arr, i, o, True, False), "24-bit cast"))
                elif not (outb and o in FLTS):
                    ctx.case(f"pair/{nm}", call, kind, cast, inb, outb)


def round_trip(ctx, a, w, back_too=True, full24=False):
    """Through a format which is wide enough, every code comes back."""
    v = values(a, full24)
    n = norm(v, a) + (mid(a) if a in INTS else 0)
    outb = bits(w) == 24

    def go(via_bytes):
        if via_bytes:
            x = to_bytes(v, a)
            y = conv(x, a, w, True, True)[0]
            z = conv(y, w, a, True, True)[0]
            got = from_bytes(z, a)
        else:
            y = conv(v.astype(dtype(a)), a, w, not outb, False)[0]
            got = np.asarray(conv(y, w, a, False)[0], dtype=np.int64)
        bad = got != n
        true(not np.any(bad), f"{a} → {w} → {a}: {int(bad.sum())} of {len(v)} codes lost, e.g., {v[bad][:3]} comes back as {got[bad][:3]}")
        ctx.step()

    ctx.case(f"round trip/{a} {w} arrays{' all' if full24 else ''}", go, False)
    if w in INTS and not full24:
        ctx.case(f"round trip/{a} {w} bytes", go, True)


def chains(ctx, a):
    """Every chain of three conversions through formats at least as wide."""
    v = codes(a)[:: max(1, len(codes(a)) // 600)]
    n = norm(v, a) + mid(a)

    def go(b, c):
        y = conv(v.astype(dtype(a)), a, b, False)[0]
        y = conv(y, b, c, False)[0]
        z = conv(y, c, a, False)[0]
        eq(np.asarray(z, dtype=np.int64), n, f"{a} → {b} → {c} → {a}")
        ctx.step()

    wide = [f for f in ALL if f in FLTS or bits(f) > bits(a) or (f != a and bits(f) == bits(a))]
    if bits(a) > 24:
        wide = [f for f in wide if f != "f32"]
    for b in wide:
        for c in wide:
            if b != c:
                ctx.case(f"chain/{a} {b} {c}", go, b, c)


def misc(ctx):
    def shapes(i, o):
        x = values(i)[:12].astype(dtype(i))
        base = conv(x, i, o, False)[0]
        for sh in ((12, 1), (6, 2), (3, 4), (2, 2, 3)):
            got = conv(x.reshape(sh), i, o, False)[0]
            true(got.shape == sh, f"shape {got.shape} of {sh}")
            eq(got.ravel(), base, "array of more dimensions")
            ctx.step()
        eq(conv(x[::2], i, o, False)[0], base[::2], "strided input")
        eq(conv(np.asfortranarray(x.reshape(6, 2)), i, o, False)[0], base.reshape(6, 2), "fortran order")
        if bits(o) == 24:
            b = conv(x.reshape(6, 2), i, o, True, True)[0]
            eq(from_bytes(b, o), base.astype(np.int64), "bytes in C order")
            b = conv(np.asfortranarray(x.reshape(6, 2)), i, o, True, True)[0]
            eq(from_bytes(b, o), base.astype(np.int64), "bytes in C order of a fortran array")
        eq(conv(x, i.upper(), o.upper(), False)[0], base, "upper-case formats")

    def clip(i, o):
        x = np.array([0, 1, -1, 5, -5, 300, -300]) * (1.0 if i in FLTS else top(i)) + (0 if i in FLTS else mid(i))
        got = conv(x, i, o, False)[0]
        e, s = (0, 1) if o in FLTS else (mid(o), top(o))
        eq((got - e) / s, np.clip([0, 1, -1, 5, -5, 300, -300], -1, 1), "clipped")

    for i in ALL:
        ctx.case(f"no conversion/{i}", lambda i=i: must_raise(lambda: conv(np.zeros(3), i, i), "same format"))
        ctx.case(f"unknown/{i}", lambda i=i: [must_raise(lambda: conv(np.zeros(3), *p), "unknown format") for p in ((i, "i12"), ("x16", i), (i, ""), ("u64", i))])
        for o in ALL:
            if i != o:
                ctx.case(f"shapes/{i} {o}", shapes, i, o)
                ctx.case(f"clip/{i} {o}", clip, i, o)
    def float_bytes(i, o):
        x = values(i).astype(dtype(i))
        b = conv(x, i, o, True, True)[0]
        true(isinstance(b, bytes), f"output in bytes is {type(b)}")
        eq(np.frombuffer(b, dtype=dtype(o)), conv(x, i, o)[0], "bytes of the samples")

    for o in FLTS:
        for i in ("i8", "u16", "i24", "f32" if o == "f64" else "f64"):
            ctx.case(f"bytes output of {o}/{i}", float_bytes, i, o)
    for f in ("i24", "u24"):
        ctx.case(f"incomplete sample/{f}", lambda f=f: [must_raise(lambda: conv(b"\0" * n, f, "f64"), "incomplete") for n in (1, 2, 4, 5)])


def run(ctx):
    parts = []
    for i in ALL:
        for o in ALL:
            if i != o:
                parts.append((pair, (i, o)))
    for a in INTS:
        for w in ALL:
            if w == a:
                continue
            if (w in INTS and bits(w) >= bits(a)) or w == "f64" or (w == "f32" and bits(a) <= 24):
                parts.append((round_trip, (a, w)))
        parts.append((chains, (a,)))
    parts.append((misc, ()))
    if ctx.thorough:
        for i in ("i24", "u24"):
            for o in ALL:
                if i != o:
                    parts.append((pair, (i, o, True)))
            for w in ("f32", "f64", "i32", "u32", "i24", "u24"):
                if w != i:
                    parts.append((round_trip, (i, w, True, True)))
    for fn in (pair, round_trip, chains, misc):
        ctx.parallel(fn, [a for f, a in parts if f is fn])
    ctx.bound(formats=len(ALL), pairs=len(ALL) * (len(ALL) - 1), codes_8bit=256, codes_16bit=65536, codes_24bit=len(codes("i24", ctx.thorough)), codes_32bit=len(codes("i32")), floats=len(floats("f64")), chain=3)
    ctx.assume("a narrowed sample may round to either neighbouring code; codes outside of the symmetric range of a format (−128 of i8, 255 of u8) are full scale")
