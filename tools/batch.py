"""developer aid: batch.py SPEC.py [id...] - candidate bugs (BUGS = [dict(id, property, file, old, new)]): do the tests pass, does the property's check catch it, and if not, does another"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/tools")
import runtests
ns = {}
exec(open(sys.argv[1]).read(), ns)
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]


def one(b):
    d = tempfile.mkdtemp(prefix="batch")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            c = [os.path.join(a, n) for a, _, nn in os.walk(r) for n in nn if os.path.join(a, n).endswith("/" + f)]
            if len(c) != 1:
                return b["id"], "BAD file", c
            s = open(c[0]).read()
            n = b.get("nth")
            if n is None and s.count(old) != 1:
                return b["id"], "BAD count", s.count(old)
            if n is None:
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range(n + 1):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(c[0], "w").write(s)
        t = runtests.run(r)
        if "442 passed" not in t[0]:
            return b["id"], "tests kill", str(t[1])[:150]
        e = dict(os.environ, VERIF_REPO=r, VERIF_JOBS="3")
        near = ns.get("NEAR", ["C15", "C19", "C20", "C21", "C29"]) if not os.environ.get("ALLCHECKS") else ALL
        for p in [b["property"]] + [q for q in near if q != b["property"]]:
            c = subprocess.run(["python3-vt", "-m", "symx.runner", p], cwd="/verif", env=e, capture_output=True, text=True)
            if c.returncode == 1 and "VIOLATION" in c.stdout:
                return b["id"], "CAUGHT" if p == b["property"] else "only by " + p, ""
            if c.returncode != 0:
                return b["id"], "ERROR " + p, c.stderr[-300:]
        return b["id"], "MISSED", ""
    except Exception as x:
        return b["id"], "EXC", repr(x)[:300]
    finally:
        shutil.rmtree(d)


todo = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
with cf.ThreadPoolExecutor(3) as ex:
    for x in ex.map(one, todo):
        print(*x, flush=True)
