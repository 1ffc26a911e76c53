"""developer aid: records harness/data/actions_<version>.json from the tree in $VERIF_REPO or /repo (run once at the pinned commit, reviewed; no check runs it)
usage: PYTHONPATH=/repo:/verif /opt/venv/bin/python -B tools/gen_actions.py"""
import contextlib, io, json, sys
sys.path.insert(0, "/verif")
from harness import c34, kit
from harness.common import JOB_MOD
r = kit.imp()
for v, l in c34.LIBS:
    lib = kit.real_library(v, l)
    out, err, rows = {}, [], 0
    for job in JOB_MOD:
        try:
            names = kit.skill_names(lib, job)
        except Exception as x:
            err.append((job, repr(x)[:80]))
            continue
        o = out[job] = {}
        for n in names:
            n = n.strip()
            try:
                sk = lib.get_skill(n, job)
            except Exception as x:
                err.append((job, n, repr(x)[:80]))
                continue
            if n.startswith("Wait ") or sk.timing_spec is None:
                continue
            a = []
            for c in c34.conds(sk):
                for f in ((False, True) if sk.combo_spec else (False,)):
                    try:
                        h, e, g = c34.observe(r, v, l, job, n, c, f, sk.has_aoe, 100.0, 100000)
                    except Exception as x:
                        err.append((job, n, c, repr(x)[:100]))
                        continue
                    m = r.SkillModifier(with_condition=", ".join(c))
                    t = sk.get_timing_spec(m)
                    a.append([c, int(f), int(sk.has_aoe), [int(bool(sk.is_GCD)), t.base_cast_time, t.gcd_base_recast_time, t.animation_lock, int(t.affected_by_speed_stat), int(t.affected_by_haste_buffs)], h, e, g])
                    rows += 1
            o[n] = a
    print(v, {j: len(x) for j, x in out.items()}, rows, "errors", len(err))
    print(err[:10])
    with open(f"/verif/harness/data/actions_{v}_{l}.json", "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(j) + ": {\n" + ",\n".join(" " + json.dumps(n) + ": " + json.dumps(a, separators=(",", ":")) for n, a in o.items()) + "}" for j, o in out.items()) + "}\n")
