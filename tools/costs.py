"""refreshes tools/costs.json from the evidence files of quick runs"""
import json, glob
o = {}
for f in sorted(glob.glob("/verif/evidence/C*.json")):
    if "violation" in f:
        continue
    e = json.load(open(f))
    c = e["coverage"]
    if e["tier"] == "quick":
        o[e["property"]] = f"{c['tasks']} tasks, {c['states']} paths, {c['queries']} queries, solver {c['solver_s']:.1f} s"
json.dump(o, open("/verif/tools/costs.json", "w"), indent=1)
