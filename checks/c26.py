"""C26 Each channel (band) of a result is what that channel (band) alone gives."""

import itertools
import warnings

import numpy as np

import dsptoolbox as dsp
from mc import catalog as K
from mc.core import Mismatch, canon, eq, same, true


def pick(r, sel, c, n):
    """What the result r says about channel c of n."""
    if sel is None:
        return None
    if isinstance(sel, tuple):
        true(isinstance(r, tuple) and len(r) == len(sel), "number of results")
        return [pick(v, k, c, n) for v, k in zip(r, sel)]
    if sel == "all":
        return np.asarray(r)
    if sel == "ch":
        if isinstance(r, dsp.MultiBandSignal):
            same(r.number_of_channels, n, "channels of the result")
            return [pick(b, sel, c, n) for b in r.bands]
        same(r.number_of_channels, n, "channels of the result")
        if isinstance(r, dsp.Spectrum):
            out = [r.frequency_vector_hz, r.spectral_data[:, c]]
            if r.has_coherence:
                out.append(r.coherence[:, c])
            return out
        td = r.time_data[:, c]
        if r.is_complex_signal:
            td = td + 1j * r.time_data_imaginary[:, c]
        return [np.array([r.sampling_rate_hz, r.length_samples]), td]
    r = np.asarray(r)
    same(r.shape[sel], n, "channels of the result")
    return np.take(r, c, axis=sel)


def alike(a, b, what):
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            alike(x, y, f"{what}[{i}]")
        return
    same(a.shape, b.shape, what + " shape")
    na, nb = np.isnan(a), np.isnan(b)
    same(canon(na), canon(nb), what + " NaN")
    a, b = np.where(na, 0, a), np.where(nb, 0, b)
    ia, ib = np.isinf(a), np.isinf(b)
    same(canon(np.where(ia, a, 0)), canon(np.where(ib, b, 0)), what + " inf")
    a, b = np.where(ia, 0, a), np.where(ib, 0, b)
    eq(a, b, what, rtol=1e-6, atol=1e-9 * (1 + float(np.max(np.abs(b), initial=0))))


def attempt(fn, *a):
    try:
        return fn(*a)
    except Mismatch:
        raise
    except Exception as e:
        return e


CACHE = {}


def single(o, kind, c, pos, cplx):
    key = (o.name, kind, c, pos if "ch" in o.name or "vec" in o.name or "subset" in o.name else 0, cplx)
    if key not in CACHE:
        s, a = K.make(kind, c, cplx), K.make(kind, c, cplx, True)
        CACHE[key] = attempt(o.fn, s, a, [pos])
    return CACHE[key]


def word(ctx, o, kind, w, cplx):
    n = len(w)
    s, a = K.make(kind, w, cplx), K.make(kind, w, cplx, True)
    singles = [single(o, kind, c, i, cplx) for i, c in enumerate(w)]
    r = attempt(o.fn, s, a, list(range(n)))
    bad = [x for x in singles if isinstance(x, Exception)]
    if isinstance(r, Exception) or bad:
        # whatever is rejected for one channel may be rejected for all of them
        if isinstance(r, Exception) and not bad:
            raise Mismatch(f"{n} channels raise {type(r).__name__}: {r}, each alone works")
        if isinstance(r, Exception) and len(bad) == n:
            ctx.outcome("raises")
            if n == 1:
                raise Mismatch(f"raises {type(r).__name__}: {r}")
        elif not isinstance(r, Exception):
            raise Mismatch(f"a channel alone raises {type(bad[0]).__name__}: {bad[0]}, not together with others")
        return
    for i in range(n):
        alike(pick(r, o.sel, i, n), pick(singles[i], o.sel, 0, 1), f"channel {i} of {w}")
        ctx.step()


def bands(ctx, o, w, cplx):
    """Each band of a multiband result is that band alone."""
    s, a = K.make("mb", w, cplx), K.make("mb", w, cplx, True)
    n = len(w)
    whole = o.fn(s, a, list(range(n)))
    for b in range(s.number_of_bands):
        one = o.fn(s.bands[b], a.bands[b], list(range(n)))
        if isinstance(whole, dsp.MultiBandSignal):
            m = one.number_of_channels
            true(whole.bands[b].number_of_channels == m, "channels of the band")
            for c in range(m):
                alike(pick(whole.bands[b], "ch", c, m), pick(one, "ch", c, m), f"band {b}")
        else:
            axis = 1 if o.name.startswith("envelope") else 0
            for v, u in zip(whole if isinstance(whole, tuple) else [whole], one if isinstance(one, tuple) else [one]):
                alike(np.take(v, b, axis=axis), np.asarray(u), f"band {b}")
        ctx.step()


def part(ctx, idx):
    o = K.OPS[idx]
    pool = K.POOLS[o.pool]
    if o.sel is None:
        if "mb" in o.kinds.split() and "sig" in o.kinds.split():
            for w in itertools.product(pool, repeat=2):
                ctx.case(f"bands/{o.name}", bands, ctx, o, "".join(w), False)
        return
    heavy = o.pool == "decay" or o.name.startswith(("vqt", "cwt", "gammatone", "ir_dirac", "fw_snr"))
    for kind in o.kinds.split():
        for cplx in (False, True) if o.cplx else (False,):
            for n in range(1, (4 if ctx.thorough else 3) + (0 if heavy else 1)):
                for w in itertools.product(pool, repeat=n):
                    ctx.case(f"channels/{o.name}/{kind}{'/cplx' if cplx else ''}", word, ctx, o, kind, "".join(w), cplx)
            if kind == "mb" and "sig" in o.kinds and not cplx:
                for w in itertools.product(pool, repeat=2):
                    ctx.case(f"bands/{o.name}", bands, ctx, o, "".join(w), cplx)


def run(ctx):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    ctx.parallel(part, [(i,) for i in range(len(K.OPS))])
    ctx.bound(operations=sum(o.sel is not None for o in K.OPS), channels=4 if ctx.thorough else 3)
