"""single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "ama_xiv_combat_sim/simulator/"
TECH = "solver-based symbolic execution of the repository's Python source (z3, bounded)"
NOTE = ("Bounded: the real functions are executed symbolically from /repo's current source and z3 decides every assertion on every "
        "feasible path for all inputs inside the stated bounds; counterexamples are replayed on the unpatched code before they are "
        "reported. Trusts the symbolic value layer (symx/), z3, and the reference written in the harness. ")

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, observe=(), note="", state=()):
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                       anchors=dict(files=[f if f.startswith("ama_") else S + f for f in files],
                                    mechanism=[dict(name=n, where=w) for n, w in mech],
                                    state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                    observe_at=list(observe), hook_needed=None)), note))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _ in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
na = {x for x, _ in NA}
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy' && python3 -m compileall -q symx harness",
         checks=[dict(property=p["id"], quick_cmd=f"python3-vt -m symx.runner {p['id']}",
                      thorough_cmd=f"python3-vt -m symx.runner {p['id']} --tier=thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
                      level_note=NOTE + n) for p, n in PROPS if p["id"] not in na],
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes="No hooks in /repo: the symbolic layer loads the unmodified modules through an import hook in the checking process.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(m["checks"]), "checks")
