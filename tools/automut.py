"""developer aid: random small mutations of core files in a scratch copy; those that pass the repository's tests are run through the checks
usage: automut.py SEED COUNT OUT.jsonl [FILE-SUBSTRING]"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/tools")
import runtests
seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sub = sys.argv[4] if len(sys.argv) > 4 else ""
random.seed(seed)
S = "ama_xiv_combat_sim/simulator/"
ORDER = {}
for line in open("/verif/properties.jsonl"):
    p = json.loads(line)
    ORDER[p["id"]] = json.dumps(p)
if os.environ.get("CLASSDATA"):
    sys.setrecursionlimit(10000)
d = tempfile.mkdtemp(prefix="amut")
R = d + "/r"
shutil.copytree("/repo", R, ignore=shutil.ignore_patterns(".git", "__pycache__"))
files = []
for a, _, ns in os.walk(R + "/ama_xiv_combat_sim"):
    for n in ns:
        f = os.path.relpath(os.path.join(a, n), R)
        if n.endswith(".py") and "test" not in f.lower() and (("class_skills" in f) == bool(os.environ.get("CLASSDATA"))) and "kitchen_sink" not in f and sub in f and not n.startswith("__"):
            files.append(f)
files = [f for f in files if "/example_rotations/" not in f or "utils" in f or "specific_rotations" in f]


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, n, new):
        self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new))

    def generic_visit(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.seg(n.left), self.seg(n.comparators[0])
            alt = {ast.Lt: ("<=", ">"), ast.LtE: ("<", ">="), ast.Gt: (">=", "<"), ast.GtE: (">", "<="), ast.Eq: ("!=",), ast.NotEq: ("==",), ast.In: ("not in",), ast.NotIn: ("in",), ast.Is: ("is not",), ast.IsNot: ("is",)}
            for o in alt.get(type(n.ops[0]), ()):
                self.add(n, f"{a} {o} {b}")
        elif isinstance(n, ast.BinOp):
            a, b = self.seg(n.left), self.seg(n.right)
            alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            if type(n.op) in alt:
                self.add(n, f"({a} {alt[type(n.op)]} {b})")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            self.add(n, "(" + o.join("(" + self.seg(v) + ")" for v in n.values) + ")")
            self.add(n, self.seg(n.values[0]))
            self.add(n, self.seg(n.values[-1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, "bool(" + self.seg(n.operand) + ")")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            self.add(n, repr(n.value + 1))
            self.add(n, repr(0 if n.value else 5))
        elif os.environ.get("CLASSDATA") and isinstance(n, ast.Tuple) and len(n.elts) > 1 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
            for drop in (0, len(n.elts) - 1, len(n.elts) // 2):
                self.add(n, "(" + ", ".join(self.seg(e) for i, e in enumerate(n.elts) if i != drop) + ",)")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            self.add(n, repr(not n.value))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if n.lineno == n.end_lineno or isinstance(n, (ast.Expr, ast.AugAssign)):
                self.add(n, "pass")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max") and len(n.args) == 2:
            self.add(n, ("max" if n.func.id == "min" else "min") + "(" + ", ".join(self.seg(a) for a in n.args) + ")")
            self.add(n, self.seg(n.args[0]))
            self.add(n, self.seg(n.args[1]))
        elif isinstance(n, ast.If):
            pass
        super().generic_visit(n)


def apply(src, site):
    l0, c0, l1, c1, new = site
    L = src.splitlines(keepends=True)
    b = [x.encode() for x in L]
    head = b"".join(b[:l0 - 1]) + b[l0 - 1][:c0]
    tail = b[l1 - 1][c1:] + b"".join(b[l1:])
    return (head + new.encode() + tail).decode()


pool = []
for f in files:
    src = open(os.path.join(R, f)).read()
    v = Sites(src)
    v.visit(ast.parse(src))
    pool += [(f, s) for s in v.out]
random.shuffle(pool)
print("pool", len(pool), "files", len(files), flush=True)
done = 0
try:
    for f, site in pool:
        if done >= count:
            break
        fn = os.path.join(R, f)
        src = open(fn).read()
        line = src.splitlines()[site[0] - 1]
        if any(k in line for k in ("print(", "raise ", "assert", "f\"", "plt.", "ax.", "import ")):
            continue
        new = apply(src, site)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        open(fn, "w").write(new)
        try:
            done += 1
            rest = runtests.run(R, ["--maxfail=3"])
            ok = "442 passed" in rest[0]
            rec = dict(file=f, line=site[0], old=line.strip(), new=site[4][:150], tests=str(rest)[:80])
            if not ok:
                rec["killed"] = "tests"
            else:
                key = f.split("/simulator/")[-1]
                order = sorted(ORDER, key=lambda p: (key not in ORDER[p], p))
                rec["killed"] = None
                if os.environ.get("CLASSDATA"):
                    order = ["C34", "C33", "C31", "C24", "C32"]
                for p in order:
                    r = subprocess.run(["python3-vt", "-m", "symx.runner", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True)
                    if r.returncode == 1 and "VIOLATION" in r.stdout:
                        rec["killed"] = p
                        break
                    if r.returncode != 0:
                        rec.setdefault("other", []).append((p, r.returncode, r.stdout[-200:]))
            open(out, "a").write(json.dumps(rec) + "\n")
            print(rec["killed"], f.split("/")[-1], site[0], "|", line.strip()[:80], "->", site[4][:60].replace("\n", " "), flush=True)
        finally:
            open(fn, "w").write(src)
finally:
    shutil.rmtree(d)
