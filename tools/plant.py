"""developer aid: plant.py SPEC.py [id...] - builds seeded/<id>/ from a list of bug specs and confirms build, tests and demo in a scratch copy.
SPEC.py defines BUGS = [dict(id, property, file, old, new, [edits=[(file,old,new)]], needs, breaks, demo)]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/tools")
import runtests
V = "/verif"
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) or [])
for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="plant")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        out = V + "/seeded/" + b["id"]
        os.makedirs(out, exist_ok=True)
        demo = b["demo"].strip("\n") + "\n"
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            c = [os.path.join(a, n) for a, _, nn in os.walk(r) for n in nn if os.path.join(a, n).endswith("/" + f)]
            assert len(c) == 1, (b["id"], f, c)
            s = open(c[0]).read()
            assert s.count(old) == 1, (b["id"], f, "count", s.count(old))
            open(c[0], "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        tests, failed = runtests.run(r)
        e = dict(os.environ, VERIF_REPO=r)
        c = subprocess.run(["python3-vt", "-m", "symx.runner", b["property"]], cwd=V, env=e, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and "442 passed" in tests
        print(b["id"], "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "|", tests, "| check exit", c.returncode,
              "CAUGHT" if "VIOLATION" in c.stdout else "missed")
        if not ok:
            print(r0.stderr[-400:], r1.stderr[-300:], failed[:600])
            if "--keep" not in sys.argv: shutil.rmtree(out)
        elif "VIOLATION" not in c.stdout:
            print(c.stdout[-600:])
        else:
            print("   ", [l for l in c.stdout.splitlines() if l.startswith("counterexample")][0][:260])
    finally:
        shutil.rmtree(d)
