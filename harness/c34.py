"""C34: every action of every job: potencies, timing, effects and gauges of its patch, under each of its conditions."""
from harness.common import *
from harness import kit
from harness.c02 import ref_time, ref_haste
import json
import os

BOUNDS = ("every action of all 21 jobs at the patches and levels listed in LIBS, under each of its condition variants, in and out of combo, on one target or, for area actions, "
          "three; pressed at any multiple of 125 ms from -10 s to 500 s, or first in a sequence with any speed stat from the level's base up to 3000; compared with the recorded table of numbers in harness/data")
OUTSIDE = "several conditions that no variant of the action names together; whether the recorded numbers are those of the game (recorded at the pinned commit)"
COVERS = ("hit", "no_hit", "effect", "gauge", "timing", "cast", "aoe", "dot", "pet", "guaranteed")

LIBS = (("6.55", 90), ("7.0", 100), ("7.01", 100), ("7.05", 100), ("7.1", 100), ("7.05", 90))
DATA = os.path.join(os.path.dirname(__file__), "data")
_T = {}


def table(version, level, job):
    if (version, level) not in _T:
        with open(f"{DATA}/actions_{version}_{level}.json") as f:
            _T[version, level] = json.load(f)
    return _T[version, level].get(job, {})


def conds(skill):
    """the condition sets this action has variants for, as sorted lists"""
    out = {()}
    for part in (skill.damage_spec, skill.timing_spec, skill.buff_spec, skill.debuff_spec, skill.follow_up_skills, skill.job_resource_spec, skill.channeling_spec):
        if isinstance(part, dict):
            for k in part:
                k = tuple(sorted(x for x in k if x and not x.startswith("Target ")))
                out.add(k)
    return sorted(out)


def num(x):
    import math
    return "inf" if x == math.inf else x


def effect(dt, side, e):
    return [dt, side, num(e.duration), num(e.max_duration), num(e.num_uses), num(e.max_num_uses), e.crit_rate_add, e.dh_rate_add, e.damage_mult, e.main_stat_add, e.main_stat_mult,
            e.auto_attack_delay_reduction, e.haste_time_reduction, num(e.flat_cast_time_reduction), e.flat_gcd_recast_time_reduction, int(e.extends_existing_duration),
            sorted(e.expires_status_effects), None if e.skill_allowlist is None else sorted(e.skill_allowlist), e.guaranteed_crit.name, e.guaranteed_dh.name,
            int(e.add_to_skill_modifier_condition), int(e.extend_only), int(e.is_party_effect)]


def observe(r, version, level, job, name, cond, force, multi, t, ms):
    """what one press at t does: hits per target, effects, gauge changes"""
    lib = kit.real_library(version, level)
    s = kit.stats(r, job, version, level=level, speed_stat=LV[level]["sub"])
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add(t, name, skill_modifier=r.SkillModifier(with_condition=", ".join(cond), force_combo=force), targets="A, B, C" if multi else "A")
    hits, effs, gauge = [], [], []
    import copy
    q = rb.get_skill_timing()
    for e in kit.drain(copy.deepcopy(q)):
        dt = kit.app(e) - ms
        for side, x in (("buff", e.skill.get_buff_spec(e.skill_modifier)), ("debuff", e.skill.get_debuff_spec(e.skill_modifier))):
            if x is not None:
                effs.append(effect(dt, side, x) + [e.skill.name, len(e.targets)])
        for x in e.skill.get_job_resource_spec(e.skill_modifier):
            gauge.append([dt, x.name, num(x.change), num(x.duration), int(x.refreshes_duration_of_last_gained), int(x.clear_all_resources_only)])
    for x in r.DamageBuilder(s, lib).get_damage_instances(q):
        d = x[1].get_damage_spec(x[2])
        hits.append([x[0] - ms, x[5], d.potency, d.damage_class.name, d.guaranteed_crit.name, d.guaranteed_dh.name, d.trait_damage_mult_override, d.pet_job_mod_override, d.pet_scalar, d.single_damage_mult])
    return hits, effs, gauge


def probes(r, version, level, job):
    lib = kit.real_library(version, level)
    if (version, level, job) not in _T:
        _T[version, level, job] = 1
        ts = r.TimingSpec(base_cast_time=0, animation_lock=0)
        lib.set_current_job_class(job)
        lib.add_skill(r.Skill(name="verif probe o", is_GCD=False, timing_spec=ts))
        lib.add_skill(r.Skill(name="verif probe g", is_GCD=True, timing_spec=ts))
    return lib


def tasks(tier):
    t = []
    for v, l in LIBS:
        for job in JOB_MOD:
            if table(v, l, job):
                t += [dict(h="h_press", version=v, level=l, job=job, part=i) for i in range(0, len(rows(v, l, job)), 40)] + [dict(h="h_timing", version=v, level=l, job=job)]
    t += [dict(h="h_uncoiled_fury", version=v, level=l) for v, l in LIBS if "Uncoiled Fury" in table(v, l, "VPR")]
    return t


def rows(version, level, job):
    return [(n, row) for n, a in sorted(table(version, level, job).items()) for row in a]


def compare(env, got, want, text):
    """both in time order; simultaneous entries may come in any order"""
    env.check(len(got) == len(want), text + ": number")
    if len(got) != len(want):
        return

    def key(x):
        return json.dumps(x[1:])
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        env.check(json.loads(json.dumps(a[1:])) == b[1:], text)
        env.check(a[0] == b[0], text + ": time")


def h_press(env, version, level, job, part):
    r = kit.imp()
    name, row = env.choice("action", rows(version, level, job)[part:part + 40])
    cond, force, multi, _, hits, effs, gauge = row
    k = env.int("t", -80, 4000)
    h, e, g = observe(r, version, level, job, name, cond, bool(force), bool(multi), k / 8, 125 * k)
    what = f"{job} {name}" + (f" ({', '.join(cond)})" if cond else "")
    if name == "Uncoiled Fury":  # see h_uncoiled_fury
        h, hits = [x for x in h if x[1] == "A"], [x for x in hits if x[1] == "A"]
    compare(env, h, hits, "hits of " + what)
    compare(env, e, effs, "effects of " + what)
    compare(env, g, gauge, "gauge changes of " + what)
    env.cover("hit" if hits else "no_hit")
    if effs:
        env.cover("effect")
    if gauge:
        env.cover("gauge")
    if len({x[1] for x in hits}) > 1:
        env.cover("aoe")
    for x in hits:
        if "DOT" in x[3]:
            env.cover("dot")
        if "PET" in x[3]:
            env.cover("pet")
        if x[4] != "DEFAULT":
            env.cover("guaranteed")


def h_uncoiled_fury(env, version, level):
    """Uncoiled Fury falls off by 50 percent"""
    r = kit.imp()
    k = env.int("t", -80, 4000)
    hits, _, _ = observe(r, version, level, "VPR", "Uncoiled Fury", (), False, True, k / 8, k * 125)
    hits = [h for h in hits if h[1] in ("A", "B")]
    env.check(And(len(hits) == 2, Or(abs(2 * hits[1][2] - hits[0][2]) < 1e-6, hits[1][2] == hits[0][2])),
              "Uncoiled Fury: half or full potency on the other target")
    env.check(abs(2 * hits[1][2] - hits[0][2]) < 1e-6, "half potency on the other targets")


def h_timing(env, version, level, job):
    r = kit.imp()
    seen, rs = set(), []
    for n, row in rows(version, level, job):
        if not row[1] and (n, str(row[3])) not in seen:
            seen.add((n, str(row[3])))
            rs.append((n, row))
    name, row = env.choice("action", rs)
    cond, _, _, (gcd, cast, recast, lock, speed, hasted), _, _, _ = row
    lib = probes(r, version, level, job)
    spd = env.int("spd", LV[level]["sub"], 3000, seeds=(LV[level]["sub"], 1000)) if speed else LV[level]["sub"]
    rb = r.RotationBuilder(kit.stats(r, job, version, level=level, speed_stat=spd), lib, fight_start_time=0)
    rb.add_next(name, skill_modifier=r.SkillModifier(with_condition=", ".join(cond)))
    rb.add_next("verif probe o")
    rb.add_next("verif probe g")
    rb.get_skill_timing()
    t = {p[1]: p[0] for p in rb.get_button_press_timing()}
    what = f"{job} {name}"
    if not gcd:
        env.check(And(t["verif probe o"] == lock, t["verif probe g"] == lock), "animation lock of " + what)
        return env.cover("timing")
    pcts = ((20 if job == "MNK" else 15 if job == "NIN" and level == 100 else 0),) if hasted else ()
    rec = ref_time(recast, spd, version, level) if speed else recast
    cst = ref_time(cast, spd, version, level) if speed else cast
    rec, w1 = ref_haste(rec, pcts)
    cst, w2 = ref_haste(cst, pcts)
    rec = smax(rec, 1500) if recast == 2500 else rec
    o, g = t["verif probe o"], t["verif probe g"]
    env.check(Or(o == cst + lock, And(w2, o == cst + lock - 10)), "cast and animation lock of " + what)
    env.check(Or(g == smax(rec, o), And(w1, g == smax(rec - 10, o))), "recast of " + what)
    env.cover("cast" if cast else "timing")
