"""python3-vt -m symx.runner PROPERTY  - decides one property; writes evidence/PROPERTY.json"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def _worker(modname, inq, outq, seed, deadline, validate, known, tier):
    sys.setrecursionlimit(20000)
    from . import loader
    loader.install()
    loader.trace_functions()
    from . import symenv
    mod = importlib.import_module(modname)
    w = symenv.Worker()
    while True:
        job = inq.get()
        if job is None:
            break
        idx, spec = job
        try:
            d = deadline
            lim = spec.get("_opts", {}).get("task_s")
            if lim:
                d = min(d, time.time() + lim)
            t = symenv.Task(mod, modname, spec, w, seed, d, validate, known)
            r = t.run()
        except BaseException as e:  # an error of the machinery
            import traceback
            r = dict(error=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-3000:], h=spec.get("h"), cfg={k: v for k, v in spec.items() if k not in ("h", "_opts")})
        outq.put((idx, r))
    w.close()
    outq.put((None, sorted(loader.FUNCS)))


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for a in argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
        if a.startswith("--only="):
            only = a.split("=")[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ["PYTHONHASHSEED"] = "0"  # inherited by the spawned workers: same set order as the replays
    sys.path.insert(0, VERIF)
    modname = "harness." + prop.lower()
    # task lists are plain data: building them imports no repository code
    from . import specs
    meta = specs.load(modname)
    tasks = meta["tasks"](tier)
    if only:
        tasks = [t for t in tasks if only in json.dumps(t)]
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "6900"))
    deadline = t0 + budget
    known_all = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    known = [k for k in known_all if k.get("property") == prop and k.get("status") == "known"]
    ctx = mp.get_context("spawn")
    inq, outq = ctx.Queue(), ctx.Queue()
    n = max(1, min(NPROC, len(tasks)))
    validate = 10 if tier == "quick" else 40
    procs = [ctx.Process(target=_worker, args=(modname, inq, outq, seed, deadline, validate, known, tier), daemon=False) for _ in range(n)]
    for p in procs:
        p.start()
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("_opts", {}).get("weight", 1))
    for i in order:
        inq.put((i, tasks[i]))
    for _ in procs:
        inq.put(None)
    results = {}
    funcs = set()
    violation = None
    done = 0
    while done < n and len(results) <= len(tasks):
        try:
            idx, r = outq.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs):
                break
            if time.time() > deadline + 60:
                break
            continue
        if idx is None:
            funcs.update(r)
            done += 1
            continue
        results[idx] = r
        if r.get("violation") and violation is None:
            violation = (idx, r)
            break
    for p in procs:
        if violation is not None or p.is_alive():
            if violation is not None:
                _kill_tree(p)
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            _kill_tree(p)
    errors = [r for r in results.values() if r.get("error")]
    missing = [i for i in range(len(tasks)) if i not in results] if violation is None else []
    good = [r for r in results.values() if not r.get("error")]
    tot = lambda k: sum(r.get(k, 0) for r in good)
    covers = {}
    for r in good:
        for c, v in r["covers"].items():
            covers[c] = covers.get(c, 0) + v
    want = set(meta["covers"]) if violation is None and not only else set()
    uncovered = sorted(want - set(covers))
    gaps = sorted({g for r in good for g in r["gaps"]})
    inconclusive = [f"{r['h']} {json.dumps(r['cfg'])}: {x}" for r in good for x in r["inconclusive"]]
    mism = [m for r in good for m in r["mismatches"]]
    knownhit = sorted({k for r in good for k in r["known"]})
    incomplete = [f"{r['h']} {json.dumps(r['cfg'])}" for r in good if not r["complete"] and not r["violation"]]
    samples = [s for r in good for s in r["samples"]][:6]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions"), traces_validated_against_impl=tot("validated"),
            samples=samples or [dict(note="no complete path")],
            tasks=len(tasks), tasks_completed=sum(1 for r in good if r["complete"]), paths_cut_by_assumptions=tot("cut"),
            obligations=tot("checks"), obligations_discharged=tot("checks_proved"),
            queries=tot("queries"), queries_unsat=tot("unsat"), queries_sat=tot("sat"), queries_unknown=tot("unknown"),
            branch_unknown_explored_both=tot("unknown_branches"),
            solver="z3 " + _z3v(), solver_s=round(tot("solver_s"), 2),
            functions_encoded=sorted(funcs), bounds=meta["bounds"], outside=meta["outside"],
            reachability_witnesses=covers, uncovered=uncovered, spurious_models=tot("spurious"),
            encoding_gaps=gaps, inconclusive=inconclusive[:40], trace_mismatches=mism[:10], incomplete_tasks=incomplete[:20],
            tasks_failed=[f"{e['h']} {json.dumps(e['cfg'])}: {e['error']}" for e in errors][:20], tasks_without_result=len(missing),
            exhaustive=not (gaps or inconclusive or incomplete or missing or errors),
        ),
        assumptions=meta["assumptions"], wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
    )
    if violation is not None:
        vi, r = violation
        rp = os.path.join(VERIF, "evidence", f"{prop}.violation.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        rec = dict(property=prop, mod=modname, fn=r["h"], cfg=r["cfg"], inputs=r["violation"]["inputs"],
                   failed=r["violation"]["failed"], exc=r["violation"].get("exc"),
                   rerun=f"cd {VERIF} && PYTHONPATH={VERIF}:/repo /opt/venv/bin/python -m symx.replay {rp}")
        json.dump(rec, open(rp, "w"), indent=1)
        ev["coverage"]["counterexample"] = rec
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    kd = {k["id"]: k for k in known}
    for k in knownhit:
        print(f"KNOWN-FINDING: property={prop} {kd[k]['what']}")
    print(f"{prop} [{tier}] tasks={len(tasks)} paths={tot('paths')} obligations={tot('checks')} discharged={tot('checks_proved')} "
          f"queries={tot('queries')} solver={tot('solver_s'):.1f}s validated={tot('validated')} wall={time.time()-t0:.1f}s")
    if violation is not None:
        print(f"counterexample: {r['h']} {json.dumps(r['cfg'])} inputs={json.dumps(r['violation']['inputs'])} failed={r['violation']['failed'][:4]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for e in errors[:5]:
        print("ERROR", e["h"], e["cfg"], e["error"])
        if os.environ.get("VERIF_DEBUG"):
            print(e["tb"])
    if missing:
        print(f"ERROR: {len(missing)} tasks without a result")
    for g in gaps[:8]:
        print("GAP", g)
    for g in inconclusive[:8]:
        print("INCONCLUSIVE", g)
    for g in incomplete[:8]:
        print("INCOMPLETE", g)
    for m in mism[:5]:
        print("TRACE-MISMATCH", json.dumps(m))
    if uncovered:
        print("UNCOVERED", uncovered)
    if os.environ.get("VERIF_VERBOSE"):
        for i, r in sorted(results.items(), key=lambda x: -x[1].get("wall_s", 0))[:15]:
            print({k: r.get(k) for k in ("h", "cfg", "paths", "cut", "decisions", "queries", "unknown", "solver_s", "wall_s")})
        print(covers)
    if tot("paths") == 0 and not gaps:
        print("ERROR: nothing explored")
        return 2
    if (errors or missing) and os.environ.get("VERIF_DEBUG"):
        return 2
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


def _kill_tree(p):
    import signal
    try:
        out = os.popen(f"pgrep -P {p.pid}").read().split()
        for c in out:
            try:
                os.kill(int(c), signal.SIGKILL)
            except OSError:
                pass
        p.kill()
    except Exception:
        pass


if __name__ == "__main__":
    sys.exit(main())
