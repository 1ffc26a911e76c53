"""writes the per-property part of DESIGN.md from the harnesses, properties and planted bugs"""
import ast, json, os, sys
sys.path.insert(0, "/verif/tools")
from design_text import D
P = [json.loads(x) for x in open("/verif/properties.jsonl")]
head = open("/verif/tools/design_head.md").read()
o = [head, "\n## Properties\n"]
for p in sorted(P, key=lambda p: p["id"]):
    i = p["id"]
    src = ast.parse(open(f"/verif/harness/{i.lower()}.py").read())
    c = {t.targets[0].id: t.value for t in src.body if isinstance(t, ast.Assign) and isinstance(t.targets[0], ast.Name) and t.targets[0].id in ("BOUNDS", "OUTSIDE")}
    c = {k: eval(compile(ast.Expression(v), "x", "eval")) for k, v in c.items()}
    cost = ""
    f = f"/verif/tools/costs.json"
    if os.path.exists(f):
        k = json.load(open(f)).get(i)
        cost = f" Cost (quick, 8 cores): {k}." if k else ""
    o.append(f"### {i} {p['title']}\n\n* Executed symbolically: {D[i][0]}.\n* Oracle: {D[i][1]}.\n* Bounds: {c['BOUNDS']}.\n* Outside: {c.get('OUTSIDE', '-')}.{cost}\n")
o.append(open("/verif/tools/design_tail.md").read())
b = json.load(open("/verif/tools/catches.json")) if os.path.exists("/verif/tools/catches.json") else {}
o.append("\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(os.listdir("/verif/seeded")):
    m = json.load(open(f"/verif/seeded/{d}/meta.json"))
    o.append(f"| {d} | {m['property']} | {m['needs']} | {b.get(d, m['property'])} |\n")
open("/verif/DESIGN.md", "w").write("".join(x if x.endswith("\n") else x + "\n" for x in o))
