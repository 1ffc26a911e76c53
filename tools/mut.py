"""developer aid: run a check against a mutated scratch copy of /repo (never /repo itself)
usage: mut.py PROP[,PROP] FILE 'old' 'new' [--tests]"""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
    cands = [os.path.join(a, n) for a, _, ns in os.walk(d + "/r") for n in ns if os.path.join(a, n).endswith("/" + f)]
    assert len(cands) == 1, cands
    s = open(cands[0]).read()
    k = s.count(old)
    assert k >= 1, "pattern not found"
    n = int(os.environ.get("NTH", "1"))
    parts = s.split(old)
    s = old.join(parts[:n]) + new + old.join(parts[n:]) if k > 1 else s.replace(old, new)
    open(cands[0], "w").write(s)
    compile(s, f, "exec")
    if "--tests" in sys.argv:
        sys.path.insert(0, "/verif/tools")
        import runtests
        print(*runtests.run(d + "/r"))
    for p in props.split(","):
        e = dict(os.environ, VERIF_REPO=d + "/r")
        r = subprocess.run(["python3-vt", "-m", "symx.runner", p], cwd="/verif", env=e, capture_output=True, text=True)
        print(p, "exit", r.returncode, (f"({k} sites)" if k > 1 else ""))
        print("\n".join(x[:300] for x in (r.stdout + r.stderr[-500:]).splitlines()[:6]))
finally:
    shutil.rmtree(d)
