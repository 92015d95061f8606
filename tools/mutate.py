"""python3 tools/mutate.py OUT.jsonl [--n N] [--seed S] [--files a,b] [--workers K]
Small source mutants of dsptoolbox on scratch copies, each run against the
quick checks of the properties anchored in its file; survivors show what the
checks do not see (or equivalent mutants). A tool for development, no check."""
import ast, json, os, random, shutil, signal, subprocess, sys, threading, queue, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
BASE = os.environ.get("VERIF_REPO", "/repo")
SRC = Path(BASE) / "dsptoolbox"


def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


ORDER = "C28 C29 C30 C20 C07 C09 C19 C15 C11 C27 C18 C23 C12 C14 C26 C25 C13 C16 C10 C02 C21 C24 C01 C17 C04 C05 C22 C08 C06 C03 C31".split()
props = [json.loads(l) for l in open(ROOT / "properties.jsonl")]


def files_of(p):
    out = []

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
        elif isinstance(o, str) and o.startswith("dsptoolbox"):
            out.append(o)
    walk(p)
    return out


MAP = {p["id"]: files_of(p) for p in props}


def checks_for(rel):
    full = "dsptoolbox/" + rel
    hit = [c for c in ORDER if any(full == f or full.startswith(f.rstrip("/") + "/") for f in MAP[c])]
    extra = {"helpers/minimum_phase.py": "C27 C21", "helpers/windows.py": "C09 C15 C21", "helpers/ar_estimation.py": "C27", "generators/_generators.py": "C19", "classes/calibration_data.py": "C14", "classes/group_delay": "C30 C21 C16", "helpers/spectrum_utilities.py": "C13 C21", "helpers/other.py": "C24 C22", "standard/_standard_backend.py": "C10 C17 C25 C11", "classes/impulse_response.py": "C21", "standard/latency_delay.py": "C24", "helpers/smoothing.py": "C15 C13", "effects/_effects.py": "", "standard/other.py": "C18 C21"}
    for k, v in extra.items():
        if rel.startswith(k):
            hit += [c for c in v.split() if c not in hit]
    rest = [c for c in ("C26", "C04") if c not in hit]
    return hit + rest


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.skip = src, [], 0
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.bytes = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, kind):
        a, b = self.span(n)
        old = self.bytes[a:b].decode()
        if old != new:
            self.out.append((a, b, new, kind, n.lineno))

    def seg(self, n):
        a, b = self.span(n)
        return self.bytes[a:b].decode()

    def visit_FunctionDef(self, n):
        if n.name.startswith(("show", "__str__", "__repr__", "metadata")):
            return
        for d in n.args.defaults:
            self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Assert(self, n):
        pass

    def visit_Raise(self, n):
        pass

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ("warn", "print"):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            self.add(n, self.seg(n.func.value), "nocopy")
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = n.args[:2]
            if type(a) is type(b) and self.seg(a) != self.seg(b):
                s, e = self.span(a)[0], self.span(b)[1]
                mid = self.bytes[self.span(a)[1]:self.span(b)[0]].decode()
                self.out.append((s, e, self.seg(b) + mid + self.seg(a), "swapargs", n.lineno))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            t = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}[type(n.ops[0])]
            self.add(n, f"{self.seg(n.left)} {t} {self.seg(n.comparators[0])}", "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        t = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "*"}.get(type(n.op))
        if t and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or t and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (int, float)):
            self.add(n, f"({self.seg(n.left)}) {t} ({self.seg(n.right)})", "binop")
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, f"({self.seg(n.left)})", "dropterm")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, self.seg(n.operand), "unary")
        if not isinstance(n.operand, ast.Constant):
            self.generic_visit(n)

    def visit_BoolOp(self, n):
        t = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + t.join(f"({self.seg(v)})" for v in n.values) + ")", "bool")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "flag")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int")
            if v > 0:
                self.add(n, str(v - 1), "int")
        elif isinstance(v, float):
            self.add(n, repr(v * 1.5 if v else 0.5), "float")

    def visit_If(self, n):
        self.add(n.test, f"not ({self.seg(n.test)})", "negif")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            if isinstance(n.value.func, ast.Name) and n.value.func.id in ("warn", "print"):
                return
            self.add(n, "pass", "delcall")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delaug")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute):
            self.add(n, "pass", "delattr")
        self.generic_visit(n)


def mutants(rel):
    src = (SRC / rel).read_text()
    f = Finder(src)
    f.visit(ast.parse(src))
    out = []
    for a, b, new, kind, line in f.out:
        m = (f.bytes[:a] + new.encode() + f.bytes[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        out.append(dict(file=rel, line=line, kind=kind, old=f.bytes[a:b].decode(), new=new, text=m))
    return out


def run_check(pid, repo, limit=600):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_NOEVIDENCE="1")
    p = subprocess.Popen(["timeout", str(limit), "bash", "run.sh", pid, "quick"], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    tail = []
    hit = None
    for l in p.stdout:
        tail = (tail + [l.rstrip()])[-4:]
        if l.startswith("  FAIL"):
            hit = l.strip()[:200]
            break
    if hit:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return "caught", hit
    rc = p.wait()
    if rc == 0:
        return "quiet", ""
    return "error", f"rc={rc} " + " | ".join(tail)[-300:]


def main():
    out = sys.argv[1]
    rng = random.Random(int(arg("--seed", "1")))
    files = arg("--files")
    rels = files.split(",") if files else [str(p.relative_to(SRC)) for p in sorted(SRC.rglob("*.py")) if p.name not in ("__init__.py", "enums.py")]
    pool = []
    for r in rels:
        pool += mutants(r)
    print(len(pool), "mutants", flush=True)
    rng.shuffle(pool)
    pool = pool[: int(arg("--n", "200"))]
    q = queue.Queue()
    for m in pool:
        q.put(m)
    lock = threading.Lock()

    def worker(k):
        w = f"/tmp/mut_{os.getpid()}_{k}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(BASE, w, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            p = Path(w) / "dsptoolbox" / m["file"]
            orig = p.read_text()
            p.write_text(m["text"])
            t0 = time.time()
            res, checks = "survived", []
            why = ""
            for c in checks_for(m["file"]):
                r, msg = run_check(c, w)
                checks.append(c)
                if r != "quiet":
                    res, why = r + ":" + c, msg
                    break
            p.write_text(orig)
            rec = {k2: v for k2, v in m.items() if k2 != "text"} | dict(result=res, why=why, checks=checks, s=round(time.time() - t0))
            with lock:
                with open(out, "a") as fh:
                    fh.write(json.dumps(rec) + "\n")
        shutil.rmtree(w, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(int(arg("--workers", "3")))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
