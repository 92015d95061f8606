"""Observable state of library objects: everything their public properties and
attributes show, recursively. Used to decide whether a call changed what it was
given. Caches and other private representation do not count."""

import copy
import enum

import numpy as np

from .core import canon, true

# settings without a public getter; absent names are simply ignored
_SETTINGS = ("_spectrum_parameters", "_spectrogram_parameters", "_csm_parameters")
# computed from the rest (their freshness is C01's)
_CACHES = ("spectrum", "spectrogram", "csm", "time_vector_s")


def _mine(o):
    return type(o).__module__.split(".")[0] == "dsptoolbox" and not isinstance(
        o, (enum.Enum, type)
    )


def view(o, depth=0):
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [view(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {str(k): view(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (int, np.integer)) and not isinstance(o, (bool, enum.Enum)):
        return float(o)  # 3 and 3.0 are the same setting
    if not _mine(o) or depth > 6:
        if isinstance(o, (np.ndarray, np.generic, int, float, complex, str, bytes, bool, type(None), enum.Enum)):
            return np.array(o) if isinstance(o, np.ndarray) else o
        return type(o).__name__
    out = {"": type(o).__name__}
    names = {n for c in type(o).__mro__ for n, v in vars(c).items() if isinstance(v, property)}
    names |= set(getattr(o, "__dict__", {}))
    for n in sorted(names):
        if n.startswith("_") and n not in _SETTINGS or n in _CACHES:
            continue
        try:
            v = getattr(o, n)
        except Exception as e:
            v = "raises " + type(e).__name__
        if callable(v) and not _mine(v):
            v = getattr(v, "__qualname__", "callable")
        out[n] = view(v, depth + 1)
    return out


def snap(*objs):
    """Digest of the observable state (read from a deep copy)."""
    return canon([view(copy.deepcopy(o)) for o in objs])


def differs(a, b, path=""):
    """Names of the observable parts in which two views differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        out = [f"{path}.{k}" for k in set(a) ^ set(b)]
        for k in set(a) & set(b):
            out += differs(a[k], b[k], f"{path}.{k}")
        return out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [x for i, (p, q) in enumerate(zip(a, b)) for x in differs(p, q, f"{path}[{i}]")]
    return [] if canon(a) == canon(b) else [path or "value"]


def pure(fn, *objs, what="an argument was modified"):
    """Call fn(*objs) and demand that the observable state of objs stays."""
    before = view(copy.deepcopy(list(objs)))
    d = canon(before)
    r = fn(*objs)
    after = view(copy.deepcopy(list(objs)))
    true(canon(after) == d, f"{what}: {differs(before, after)[:6]}")
    return r
