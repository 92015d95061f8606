"""python3 tools/tryseeds.py [prefix ...]: runs each planted bug's property's quick check on a scratch copy of /repo with the bug."""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path
ROOT = Path(__file__).resolve().parent.parent
for d in sorted((ROOT / "seeded").iterdir()):
    if len(sys.argv) > 1 and not any(d.name.startswith(p) for p in sys.argv[1:]):
        continue
    pid = json.loads((d / "meta.json").read_text())["property"]
    w = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        shutil.copytree("/repo", w + "/repo", symlinks=True)
        subprocess.check_call(["git", "-C", w + "/repo", "apply", str(d / "patch.diff")])
        r = subprocess.run(["bash", "run.sh", pid, "quick"], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w + "/repo"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        f = [l for l in r.stdout.splitlines() if l.startswith("  FAIL")]
        print(d.name, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode} {r.stderr[-200:]}", len(f), f[0][:150] if f else "", flush=True)
    finally:
        shutil.rmtree(w)
