"""Shared machinery of the bounded exhaustive explorer.

Every check enumerates a finite space of *cases*.  A case is one execution (an
operation sequence, a block/channel interleaving, a configuration with a basis
of inputs, ...) on the real code, judged against a reference model.  `Ctx`
counts what was really executed, keeps known findings apart from violations,
writes replay artefacts and the evidence file.
"""

import enum
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import types
from pathlib import Path

import numpy as np

ROOT = Path(__file__).resolve().parent.parent


class Mismatch(Exception):
    """The implementation and the reference model disagree."""


class Reject(Exception):
    """Raised by a reference model: the operation must be rejected."""


# --------------------------------------------------------------- comparison
def eq(got, want, what="", rtol=1e-9, atol=1e-11):
    """Arrays (or scalars) must agree in shape and, within float noise, in
    value."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Mismatch(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    if np.isnan(np.asarray(g, dtype=complex)).any() != np.isnan(
        np.asarray(w, dtype=complex)
    ).any():
        raise Mismatch(f"{what}: unexpected NaN: {short(g)} vs {short(w)}")
    scale = np.max(np.abs(w)[np.isfinite(np.abs(w))], initial=0.0)
    ok = np.isclose(g, w, rtol=rtol, atol=atol + rtol * scale, equal_nan=True)
    if not np.all(ok):
        i = np.unravel_index(np.argmin(ok), ok.shape)
        raise Mismatch(
            f"{what}: at {tuple(int(x) for x in i)} got {g[i]!r}, expected "
            f"{w[i]!r} ({int(np.sum(~ok))}/{ok.size} differ)"
        )


def same(got, want, what=""):
    if got is want:
        return
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        if not (
            np.asarray(got).shape == np.asarray(want).shape
            and np.array_equal(got, want)
        ):
            raise Mismatch(f"{what}: got {short(got)}, expected {short(want)}")
        return
    if got != want:
        raise Mismatch(f"{what}: got {got!r}, expected {want!r}")


def true(cond, what):
    if not cond:
        raise Mismatch(what)


def short(a, n=6):
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:n], precision=6)
    return f"{a.dtype}{a.shape}{s}"


def must_raise(fn, what, exc=(Exception,)):
    try:
        r = fn()
    except exc:
        return
    raise Mismatch(f"{what}: accepted, returned {type(r).__name__}")


# ------------------------------------------------------------ state digests
def canon(obj):
    """Digest of the complete reachable object graph (whatever attributes the
    implementation has), including aliasing between mutable parts and between
    array views.  Two objects with equal digests have the same futures, so it
    is sound to explore only one of them."""
    h = hashlib.sha1()
    memo = {}
    keep = []

    def put(*parts):
        for p in parts:
            h.update(repr(p).encode())
            h.update(b"|")

    def walk(o):
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
            put(type(o).__name__, o)
            return
        if isinstance(o, enum.Enum):
            put("enum", type(o).__name__, o.name)
            return
        if isinstance(o, np.generic):
            put("npg", o.dtype.str, o.item())
            return
        if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type)):
            put("fn", getattr(o, "__qualname__", "?"))
            return
        i = id(o)
        if i in memo:
            put("ref", memo[i])
            return
        memo[i] = len(memo)
        keep.append(o)
        if isinstance(o, np.ndarray):
            base = o
            while isinstance(base.base, np.ndarray):
                base = base.base
            put("nd", o.dtype.str, o.shape)
            if base is not o:
                if id(base) not in memo:
                    memo[id(base)] = len(memo)
                    keep.append(base)
                put("base", memo[id(base)])
            if o.dtype == object:
                for x in o.ravel():
                    walk(x)
            else:
                h.update(np.ascontiguousarray(o).tobytes())
            return
        if isinstance(o, dict):
            put("dict", len(o))
            for k in sorted(o, key=repr):
                walk(k)
                walk(o[k])
            return
        if isinstance(o, (list, tuple)):
            put(type(o).__name__, len(o))
            for x in o:
                walk(x)
            return
        if isinstance(o, (set, frozenset)):
            put("set", sorted(map(repr, o)))
            return
        if isinstance(o, types.MethodType):
            put("meth", o.__func__.__qualname__)
            walk(o.__self__)
            return
        put("obj", type(o).__qualname__)
        d = getattr(o, "__dict__", None)
        if d is not None:
            walk(d)
        for c in type(o).__mro__:
            for s in getattr(c, "__slots__", ()) or ():
                if isinstance(s, str) and hasattr(o, s):
                    put(s)
                    walk(getattr(o, s))

    walk(obj)
    return h.hexdigest()


_JOB = None
_HUNG = multiprocessing.get_context("fork").Value("i", 0)
LIMIT_S = 240  # for a single execution; the longest takes a few seconds


class Hung(BaseException):
    """An execution did not end (no Exception: nothing under test shall catch it)"""


def _alarm(*_):
    raise Hung


def _guarded(ctx, name, fn, *args):
    """What fails outside of a case (preparing inputs with the code under
    test) is a failure as well, provided it is raised by that code."""
    try:
        fn(ctx, *args)
    except Hung:
        pass  # already reported
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if not any("/dsptoolbox/" in f.filename for f in frames):
            raise
        where = " <- ".join(f"{Path(f.filename).name}:{f.lineno}" for f in reversed(frames[-4:]))
        ctx.fail(f"setup/{name}", f"raised {type(e).__name__}: {e} [{where}]")


def _work(i):
    ctx, fn, parts = _JOB
    ctx._clear()
    np.random.seed(ctx.seed)
    _guarded(ctx, f"{getattr(fn, '__name__', 'part')}-{i}", fn, *parts[i])
    return {k: getattr(ctx, k) for k in ctx._MERGED}


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, pid, tier="quick", seed=1, only=None, level="model_checking"):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.level = level
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.outcomes = set()
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.assumptions = []
        self.bounds = {}
        self.capped = []
        self.longest = 0.0
        self.groups = {}
        self.known = load_known(pid)
        self.replay_dir = ROOT / "replays" / pid

    # -- counting
    def state(self, *digest):
        """Register a state; True when it was not seen before."""
        d = digest[0] if len(digest) == 1 else repr(digest)
        d = hash(d)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(o)))

    def bound(self, **kw):
        self.bounds.update(kw)

    def assume(self, txt):
        if txt not in self.assumptions:
            self.assumptions.append(txt)

    # -- running cases
    def case(self, key, fn, *args, **kw):
        """Run one execution. `key` identifies it (call site, input, history)
        and is what a known finding refers to."""
        if self.only is not None and not (
            key == self.only or key.startswith(self.only)
        ):
            return None
        g = key.split("/")[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        self.traces += 1
        if len(self.samples) < 12 and (self.traces & (self.traces - 1)) == 0:
            self.samples.append(key)
        t0 = time.time()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20 if _HUNG.value else LIMIT_S)
        try:
            return fn(*args, **kw)
        except KeyboardInterrupt:
            raise
        except Hung:
            _HUNG.value = 1
            self.fail(key, f"did not end within {time.time() - t0:.0f} s")
            raise
        except Mismatch as e:
            self.fail(key, str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " <- ".join(
                f"{Path(f.filename).name}:{f.lineno}" for f in reversed(tb[-4:])
            )
            self.fail(key, f"raised {type(e).__name__}: {e} [{where}]")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.longest = max(self.longest, time.time() - t0)
        return None

    def bfs(self, group, init, ops, apply, depth, digest=canon, model=None):
        """Breadth-first search over operation histories of a live object.

        `apply(obj, model, op)` performs `op` on the real object, steps the
        reference model and compares; it returns the (possibly new) pair.
        States are deduplicated by `digest` of the complete object graph
        together with the model, which is sound: equal graphs have equal
        futures.  A failing transition is reported and not expanded."""
        import copy

        pair = (init, model)
        seen = {digest(pair)}
        self.state(group, digest(pair))
        frontier = [(pair, "")]
        done = 0
        for d in range(depth):
            nxt = []
            for (o, m), hist in frontier:
                for op in ops:
                    name = op if isinstance(op, str) else op[0]
                    key = f"{group}/{hist}{'.' if hist else ''}{name}"
                    if self.only is not None and not (
                        key.startswith(self.only) or self.only.startswith(key)
                    ):
                        continue
                    o2, m2 = copy.deepcopy((o, m))
                    only, self.only = self.only, None
                    r = self.case(key, apply, o2, m2, op)
                    self.only = only
                    self.step()
                    if r is None:
                        continue
                    dg = digest(r)
                    if dg in seen:
                        continue
                    seen.add(dg)
                    self.state(group, dg)
                    nxt.append((r, f"{hist}{'.' if hist else ''}{name}"))
            done = d + 1
            frontier = nxt
            if not frontier:
                break
        return done, len(seen)

    # -- parallel exploration of disjoint parts of the space
    def parallel(self, fn, parts, procs=None):
        """Run `fn(ctx, *part)` for every part in worker processes, each with
        its own context; counts, states and violations are merged."""
        parts = [p if isinstance(p, tuple) else (p,) for p in parts]
        procs = min(procs or (os.cpu_count() or 1), len(parts))
        if procs <= 1:
            for p in parts:
                fn(self, *p)
            return
        global _JOB
        _JOB = (self, fn, parts)
        with multiprocessing.get_context("fork").Pool(procs) as pool:
            for r in pool.imap_unordered(_work, range(len(parts)), chunksize=1):
                self._merge(r)

    _MERGED = (
        "states transitions traces outcomes samples viol known_hit groups "
        "bounds assumptions capped longest"
    ).split()

    def _clear(self):
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = 0
        self.samples, self.viol, self.assumptions, self.capped = [], [], [], []
        self.known_hit, self.groups, self.bounds = {}, {}, {}
        self.longest = 0.0

    def _merge(self, r):
        self.states |= r["states"]
        self.outcomes |= r["outcomes"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.viol += r["viol"]
        self.samples = (self.samples + r["samples"])[:60]
        for x in r["assumptions"]:
            self.assume(x)
        self.capped += r["capped"]
        self.longest = max(self.longest, r["longest"])
        self.bounds.update(r["bounds"])
        for k, v in r["groups"].items():
            self.groups[k] = self.groups.get(k, 0) + v
        for k, (d, ks) in r["known_hit"].items():
            self.known_hit.setdefault(k, (d, []))[1].extend(ks)

    def fail(self, key, msg):
        for pat, desc in self.known:
            if key == pat or (pat.endswith("*") and key.startswith(pat[:-1])):
                self.known_hit.setdefault(pat, (desc, []))[1].append(key)
                return
        self.viol.append((key, msg))
        if len(self.viol) <= 40:
            print(f"  FAIL {key}: {msg[:600]}", flush=True)

    # -- finishing
    def finish(self):
        wall = time.time() - self.t0
        for pat, (desc, keys) in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {pat}: {desc}")
        cov = dict(
            states=len(self.states),
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            distinct_outcomes=len(self.outcomes),
            samples=self.samples[:: max(1, len(self.samples) // 12)][:12],
            cases_per_group=self.groups,
            bounds=self.bounds,
            exhaustive=not self.capped,
            known_findings_seen=len(self.known_hit),
        )
        if self.capped:
            cov["capped"] = self.capped
        ev = dict(
            property=self.pid,
            tier=self.tier,
            seed=self.seed,
            level=self.level,
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(wall, 2),
            violations=len(self.viol),
        )
        if self.only is None and "VERIF_NOEVIDENCE" not in os.environ:
            (ROOT / "evidence").mkdir(exist_ok=True)
            (ROOT / "evidence" / f"{self.pid}.json").write_text(
                json.dumps(ev, indent=1, default=str) + "\n"
            )
        print(
            f"{self.pid} {self.tier}: traces={self.traces} states={len(self.states)} "
            f"transitions={self.transitions} outcomes={len(self.outcomes)} "
            f"groups={self.groups if len(self.groups) <= 16 else len(self.groups)} longest={self.longest:.1f}s wall={wall:.1f}s"
        )
        if not self.viol:
            return 0
        self.replay_dir.mkdir(parents=True, exist_ok=True)
        # shortest key first: smallest counterexample
        key, msg = min(self.viol, key=lambda v: (len(v[0]), v[0]))
        path = self.replay_dir / "violation.json"
        path.write_text(
            json.dumps(
                dict(
                    property=self.pid,
                    case=key,
                    message=msg,
                    tier=self.tier,
                    seed=self.seed,
                    replay_cmd=f"bash run.sh {self.pid} {self.tier} --only '{key}'",
                    all_cases=[dict(case=k, message=m) for k, m in self.viol[:3000]],
                ),
                indent=1,
                default=str,
            )
            + "\n"
        )
        print(f"VIOLATION property={self.pid} replay={path.relative_to(ROOT)}")
        return 1


def load_known(pid):
    """Lines `property=<id> key=<case key or prefix*> :: <what fails>`."""
    out = []
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith(f"property={pid} key="):
                continue
            head, _, desc = line.partition(" :: ")
            out.append((head.split(" key=", 1)[1].strip(), desc.strip()))
    return out


# ------------------------------------------------------------- enumerators
def compositions(n, parts=None):
    """All ordered partitions of n into positive parts (from `parts`)."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        if parts is None or k in parts:
            for rest in compositions(n - k, parts):
                yield (k,) + rest


def interleavings(counts):
    """All interleavings of per-thread sequences of the given lengths."""
    counts = tuple(counts)
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            for rest in interleavings(counts[:i] + (c - 1,) + counts[i + 1 :]):
                yield (i,) + rest


def main(pid, fn, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = argv[0] if argv and not argv[0].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    np.random.seed(seed)
    ctx = Ctx(pid, tier, seed, only)
    _guarded(ctx, "run", fn)
    return ctx.finish()
