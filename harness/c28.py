"""C28: a rotation read from a table equals the one entered by hand."""
from harness.common import *
from harness import kit

BOUNDS = ("tables of up to three rows; times any multiple of 125 ms from 10 s before the fight to 20 s after its start or whole seconds, in any order; own and other jobs, conditions, target lists; column names in any case, with and "
          "without a targets column")
OUTSIDE = "malformed files; pandas itself (its table reader is replaced by a stand-in in the symbolic run and is real in replays)"
COVERS = ("row", "offjob", "cond", "targets", "no_targets", "case", "missing_file", "empty", "order")


def tasks(tier):
    t = [dict(h="h_table", n=n, tg=g, case=c) for n in (1, 2) for g in (0, 1) for c in (0, 1, 2)]
    t += [dict(h="h_table", n=0, tg=1, case=0), dict(h="h_missing"), dict(h="h_whole")]
    if tier == "thorough":
        t += [dict(h="h_table", n=3, tg=g, case=0) for g in (0, 1)]
    return t


def lib(r):
    D = r.DamageSpec
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    ts1 = r.TimingSpec(base_cast_time=2000, animation_lock=0, application_delay=700, affected_by_speed_stat=False)
    a = [r.Skill(name="h", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=10), "weak": D(potency=5), "weak, soft": D(potency=2)}),
         r.Skill(name="c", is_GCD=True, timing_spec=ts1, damage_spec=D(potency=30))]
    b = [r.Skill(name="p", is_GCD=False, timing_spec=ts0, buff_spec=r.StatusEffectSpec(duration=5000, damage_mult=1.1, is_party_effect=True)),
         r.Skill(name="h", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=77), "weak": D(potency=7)})]
    return kit.library(r, {"test_job": a, "test_job2": b})


ROWS = (("h", "", "", ""), ("h", "", "weak", "B"), ("h", "", "soft, weak", "A, B"), ("c", "", "", "A,B"), ("p", "test_job2", "", ""), ("h", "test_job", "weak", ""), ("h", "test_job2", "weak", "C"))
HEADS = (("time", "skill_name", "job_class", "skill_conditional", "targets"), ("Time", "Skill_Name", "JOB_CLASS", "skill_Conditional", "Targets"),
         ("job_class", "targets", "skill_conditional", "time", "skill_name"))


def view(ev):
    return [(e.event_times.primary, e.event_times.secondary, e.skill.name, e.skill.get_damage_spec(e.skill_modifier), sorted(e.skill_modifier.with_condition), e.targets) for e in ev]


def same(env, a, b):
    env.check(len(a) == len(b), "the same number of events")
    for x, y in zip(a, b):
        env.check(x[2:] == y[2:], "the same skill, condition and targets")
        env.check(And(x[0] == y[0], (x[1] is None) == (y[1] is None)), "the same times")
        if x[1] is not None and y[1] is not None:
            env.check(x[1] == y[1], "the same times")


def h_table(env, n, tg, case):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
    s, L = kit.stats(r), lib(r)
    order = HEADS[case]
    if not tg:
        order = tuple(x for x in order if x.lower() != "targets")
    want = r.RotationBuilder(s, L, fight_start_time=0)
    rows, k = [], None
    for i in range(n):
        k = env.int(f"t{i}", -80, 160)
        nm, job, cond, tgt = env.choice(f"row{i}", ROWS)
        cells = dict(time=k / 8, skill_name=nm, job_class=job, skill_conditional=cond, targets=tgt)
        rows.append([cells[x.lower()] for x in order])
        want.add(k / 8, nm, skill_modifier=r.SkillModifier(with_condition=cond), job_class=job or None, targets=(tgt or None) if tg else None)
        env.cover("row")
        if job:
            env.cover("offjob")
        if cond:
            env.cover("cond")
        if tgt and tg:
            env.cover("targets")
    rb = r.RotationBuilder(s, L, fight_start_time=0)
    out, listed = CSVUtils.populate_rotation_from_csv(rb, env.csv(list(order), rows))
    env.check(out is rb, "the given builder is filled")
    env.check(len(listed) == n, "a row each")
    for i, x in enumerate(listed):
        env.check(x.t == env.int(f"t{i}", -80, 160) / 8, "the time of the row")
    a, b = kit.drain(rb.get_skill_timing()), kit.drain(want.get_skill_timing())
    same(env, view(a), view(b))
    env.cover("case" if case else "no_targets" if not tg else "order")
    if not n:
        env.cover("empty")


def h_whole(env):
    """whole seconds may be written without a decimal point"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
    s, L = kit.stats(r), lib(r)
    rb = r.RotationBuilder(s, L, fight_start_time=0)
    a, b = env.int("a", -20, 50), env.int("b", -20, 50)
    CSVUtils.populate_rotation_from_csv(rb, env.csv(list(HEADS[0]), [[a, "h", "", "", ""], [b, "c", "", "", ""]]))
    ev = kit.drain(rb.get_skill_timing())
    env.check(len(ev) == 2, "two events")
    t = {e.skill.name: e.event_times.primary for e in ev}
    env.check(And(t["h"] == a * 1000, t["c"] == b * 1000 + 1500), "times in seconds")


def h_missing(env):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
    s, L = kit.stats(r), lib(r)
    rb = r.RotationBuilder(s, L, fight_start_time=0)
    k = env.int("t", 0, 80)
    rb.add(k / 8, "h")
    out, listed = CSVUtils.populate_rotation_from_csv(rb, "/nonexistent/table.csv")
    env.check(listed == [], "a missing file has no rows")
    env.check(len(kit.drain(rb.get_skill_timing())) == 1, "and changes nothing")
    env.cover("missing_file")
