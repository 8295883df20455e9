"""mutate.py OUT [--files=a,b] [--par=2] [--limit=N] [--seed=S]: change the sources mechanically, one place at a time, and list the changes no check notices.

A change that no check notices either keeps the behaviour or shows a gap.  Works in scratch copies; nothing in /repo changes.
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
opts = dict(o[2:].split("=", 1) for o in sys.argv[1:] if o.startswith("--"))
out = [a for a in sys.argv[1:] if not a.startswith("--")][0]
REPO = os.environ.get("FLORY_REPO") or "/repo"
CHECKS = {
    "flory/mcmp/_finder_impl.py": "C06 C07 C08 C05 C04 C20 C02",
    "flory/mcmp/finder.py": "C09 C10 C05 C11 C12 C20 C08 C19",
    "flory/common/phases.py": "C13 C12 C19",
    "flory/common/utilities.py": "C17 C18 C20 C09",
    "flory/common/math.py": "C14",
    "flory/free_energy/base.py": "C14 C15 C16 C17 C20",
    "flory/free_energy/flory_huggins.py": "C17 C14 C12",
    "flory/entropy/ideal_gas.py": "C06 C14 C17 C11",
    "flory/entropy/ideal_gas_polydispersed.py": "C18 C17 C06 C11",
    "flory/interaction/flory_huggins.py": "C17 C06 C14 C12 C11",
    "flory/interaction/flory_huggins_block.py": "C17 C18 C11",
    "flory/ensemble/base.py": "C17 C09 C20",
    "flory/ensemble/canonical.py": "C02 C17 C11",
    "flory/ensemble/grandcanonical.py": "C03 C17 C11",
    "flory/constraint/linear_local.py": "C04 C17 C09 C11",
    "flory/constraint/linear_global.py": "C04 C17 C09 C11",
    "flory/constraint/no.py": "C06 C10",
    "flory/constraint/base.py": "C20 C09", "flory/entropy/base.py": "C20 C09", "flory/interaction/base.py": "C20 C09",
    "flory/shortcut.py": "C19",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.MatMult: None}


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.doc = src, [], set()

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def put(self, n, text, what):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, text, what))

    def visit_FunctionDef(self, n):
        if any("__str__" == n.name or "logger" in ast.dump(d) for d in [n]) and n.name == "__str__":
            return
        for b in n.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            self.visit(b)
        for d in n.args.kw_defaults + n.args.defaults:
            if d is not None:
                self.visit(d)

    def visit_ClassDef(self, n):
        for b in n.body:
            if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)):
                self.visit(b)

    def skip(self, n):
        s = self.seg(n) or ""
        return "logger" in s or "pbar" in s or "bar_" in s or "NotImplementedError" in s

    def generic_visit(self, n):
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
            if self.skip(n):
                return
            self.put(n, "pass", "drop " + self.seg(n).split("\n")[0][:60])
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.put(n, f"({self.seg(n.left)}) {CMP[type(n.ops[0])]} ({self.seg(n.comparators[0])})", "compare " + self.seg(n)[:60])
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            self.put(n, f"({self.seg(n.left)}) {BIN[type(n.op)]} ({self.seg(n.right)})", "operator " + self.seg(n)[:60])
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                vs = [self.seg(v) for i, v in enumerate(n.values) if i != k]
                op = " and " if isinstance(n.op, ast.And) else " or "
                self.put(n, "(" + op.join(f"({v})" for v in vs) + ")", f"without {self.seg(n.values[k])[:50]}")
        if isinstance(n, ast.If) and not self.skip(n.test) and "isinstance" not in self.seg(n.test):
            self.put(n.test, "True", "always " + self.seg(n.test)[:50])
            self.put(n.test, "False", "never " + self.seg(n.test)[:50])
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.put(n, str(not n.value), f"constant {n.value}")
            elif isinstance(n.value, (int, float)):
                self.put(n, repr(n.value + 1), f"constant {n.value}+1")
                if n.value not in (0, 1):
                    self.put(n, repr(n.value * 0.5 if isinstance(n.value, float) else n.value - 1), f"constant {n.value} less")
        if isinstance(n, ast.Call):
            f = self.seg(n.func)
            if f.endswith(".copy") and not n.args:
                self.put(n, f[:-5], "no copy " + f)
            elif f.endswith(".astype"):
                self.put(n, f[:-7], "no astype " + f)
            elif f == "np.array":
                self.put(n.func, "np.asarray", "asarray")
            elif f in ("max", "min", "np.maximum", "np.minimum"):
                self.put(n.func, f.replace("max", "#").replace("min", "max").replace("#", "min"), f"swap {f}")
            elif f == "np.abs":
                self.put(n.func, "", "no abs")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.put(n, "(" + self.seg(n.operand) + ")", "without " + self.seg(n)[:30])
        if self.skip(n) if isinstance(n, ast.stmt) and not isinstance(n, (ast.If, ast.For, ast.With, ast.While)) else False:
            return
        super().generic_visit(n)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    f = Find(src)
    f.visit(ast.parse(src))
    starts = [0]
    for l in src.encode().splitlines(True):
        starts.append(starts[-1] + len(l))
    b = src.encode()
    for l0, c0, l1, c1, text, what in f.out:
        yield path, l0, what, (b[:starts[l0 - 1] + c0] + text.encode() + b[starts[l1 - 1] + c1:]).decode()


def one(job):
    path, line, what, src = job
    top = tempfile.mkdtemp(prefix="mut-")
    c = os.path.join(top, "repo")
    r = dict(file=path, line=line, what=what)
    try:
        try:
            compile(src, path, "exec")
        except SyntaxError:
            return dict(r, res="syntax")
        shutil.copytree(REPO, c, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "tests"))
        open(os.path.join(c, path), "w").write(src)
        p = subprocess.run(["/opt/venv/bin/python", "-c", "import flory"], cwd=c, env={**os.environ, "PYTHONPATH": c, "NUMBA_DISABLE_JIT": "1", "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, timeout=120)
        if p.returncode:
            return dict(r, res="import")
        try:
            p = subprocess.run([sys.executable, "tools/lite.py"] + CHECKS[path].split(), cwd=ROOT, env={**os.environ, "FLORY_REPO": c, "VERIF_SEED": "1"}, capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return dict(r, res="hangs")
        if p.returncode:
            return dict(r, res="caught" if p.returncode == 1 else "no answer", by=p.stdout[-200:] or p.stderr[-200:])
        return dict(r, res="SURVIVED")
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    files = opts["files"].split(",") if "files" in opts else list(CHECKS)
    jobs = [m for p in CHECKS if any(x in p for x in files) for m in mutants(p)]
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["line"], d["what"]) for d in map(json.loads, open(out))}
    random.Random(int(opts.get("seed", 1))).shuffle(jobs)
    jobs = [j for j in jobs if j[:3] not in done][:int(opts.get("limit", 10 ** 6))]
    print(len(jobs), "changes", flush=True)
    if "count" in opts:
        sys.exit()
    with cf.ThreadPoolExecutor(int(opts.get("par", 2))) as ex, open(out, "a") as fh:
        for r in (f.result() for f in cf.as_completed([ex.submit(one, j) for j in jobs])):
            fh.write(json.dumps(r) + "\n"); fh.flush()
