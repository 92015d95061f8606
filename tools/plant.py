"""Keeps a planted bug: python3 tools/plant.py SPEC.py
SPEC.py defines bugs = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=python source)].
Each is applied to a scratch copy of /repo; kept in seeded/<id>/ only if the demo passes without and fails with it and the stable tests pass."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
DEMO = '''#!/bin/bash
# cwd: the repository
W=$(mktemp -d)
trap '/bin/rm -rf "$W"' EXIT
export PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba" MPLCONFIGDIR="$W" MPLBACKEND=Agg NUMBA_DISABLE_JIT=1 PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
skip_tests = "--notest" in sys.argv
for b in spec["bugs"]:
    d = ROOT / "seeded" / b["id"]
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    copy = w + "/repo"
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        tmp = Path(w) / "seed"
        tmp.mkdir()
        (tmp / "demo.py").write_text(b["demo"].lstrip("\n"))
        (tmp / "demo.sh").write_text(DEMO)

        def demo():
            r = subprocess.run(["bash", str(tmp / "demo.sh")], cwd=copy, capture_output=True, text=True, timeout=300)
            return r.returncode, (r.stdout + r.stderr)[-800:]

        rc0, out0 = demo()
        for f, old, new in b["edits"]:
            p = Path(copy) / "dsptoolbox" / f
            s = p.read_text()
            if s.count(old) != 1:
                print("   no single match", b["id"], f, s.count(old), flush=True)
            p.write_text(s.replace(old, new))
        rc1, out1 = demo()
        patch = subprocess.check_output(["git", "-C", copy, "diff"]).decode()
        ok = rc0 == 0 and rc1 != 0
        print(b["id"], "demo", rc0, rc1, "" if ok else out0 + "\n---\n" + out1, flush=True)
        if not ok:
            continue
        foreign = []
        for f, old, new in b["edits"]:
            rel = "dsptoolbox/" + f
            head = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + rel]).decode()
            blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", rel]).decode().splitlines()
            new_lines = set(new.splitlines())
            first = head[: head.index(old)].count("\n")
            for k, line in enumerate(old.splitlines()):
                c = blame[first + k].split()[0].lstrip("^")
                if line not in new_lines and subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", c, "3a2420f"]).returncode:
                    foreign.append(line)
        if foreign:
            print("   changes lines of a fix:", foreign, flush=True)
            continue
        if not skip_tests:
            env = dict(os.environ, PYTHONPATH=f"{copy}:/opt/vp/pytest_plugins", PYTHONPYCACHEPREFIX=w + "/pyc", NUMBA_CACHE_DIR=w + "/numba",
                       PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/cache/mpl", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "8", "--dist", "loadfile", "--timeout=300", "tests"],
                               cwd=copy, env=env, capture_output=True, text=True)
            failed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
            failed = [f.replace("/", ".").replace(".py::", ".").replace("::", "::") for f in failed]
            bad = [f for f in failed if any(f.split("::")[-1] == s.split("::")[-1] and s.split("::")[0].split(".")[1] in f for s in stable)]
            print("   tests:", r.stdout.splitlines()[-1] if r.stdout else r.stderr[-300:], "BAD" if bad else "ok", bad, flush=True)
            if bad:
                continue
        d.mkdir(parents=True, exist_ok=True)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(tmp / f, d / f)
        (d / "patch.diff").write_text(patch)
        (d / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
    finally:
        shutil.rmtree(w)
