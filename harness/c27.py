"""C27: computing a timeline or damage twice gives the same result; inputs are left alone."""
from harness.common import *
from harness import kit

BOUNDS = ("rotations of three presses (cast hit, DoT with cast, haste effect, debuff, combo, gauge, autos on or off) at any multiple of 125 ms, any delay and effect duration; timelines computed "
          "twice, computed again after another press was added at any time, compared with a fresh builder; shared downtime tables and modifiers; one damage builder for the same and for different rotations")
OUTSIDE = "concurrent use of one builder"
COVERS = ("twice", "extend", "windows", "late_target", "modifier", "reuse", "reuse_other", "library", "setters", "simulated")

SEQS = ("cdh", "hdd", "ABh", "Eha", "gha", "dDc")


def tasks(tier):
    t = [dict(h="h_twice", seq=s, autos=a) for s in SEQS for a in (0, 1) if not (a and s in ("ABh", "gha"))]
    t += [dict(h="h_extend", seq=s, late=x) for s, x in (("cd", "e"), ("dh", "d"), ("dD", "e"), ("cD", "e"), ("Ah", "B"), ("hh", "T"))]
    t += [dict(h="h_windows", mode=m) for m in ("dict", "tuple")]
    t += [dict(h="h_late_target"), dict(h="h_modifier"), dict(h="h_simulator"), dict(h="h_reuse", seq="ABh"), dict(h="h_reuse", seq="ehg"), dict(h="h_reuse", seq="BAE"), dict(h="h_library")]
    t += [dict(h="h_setters", autos=a, drop=d) for a in (False, True) for d in (False, True)]
    t += [dict(h="h_reuse_other", first=a, then=b) for a, b in (("e", "h"), ("E", "h"), ("g", "h"), ("A", "B"), ("eE", "d"))]
    return t


def skills(r, env):
    d = env.int("delay", 0, 3000)
    dur = env.int("dur", 1, 20000)
    T, D, SE, J, F = r.TimingSpec, r.DamageSpec, r.StatusEffectSpec, r.JobResourceSpec, r.FollowUp
    ts0 = T(base_cast_time=0, animation_lock=0)
    tick = r.Skill(name="tick", damage_spec=D(potency=17, damage_class=r.DamageClass.MAGICAL_DOT))
    tock = r.Skill(name="tock", damage_spec=D(potency=19, damage_class=r.DamageClass.MAGICAL_DOT))
    sk = [r.Skill(name="h", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=10), "1 G": D(potency=20)}),
          r.Skill(name="c", is_GCD=True, timing_spec=T(base_cast_time=2000, animation_lock=0, application_delay=d, affected_by_speed_stat=False),
                  damage_spec=D(potency=3)),
          r.Skill(name="e", is_GCD=False, timing_spec=ts0, buff_spec=SE(duration=dur, haste_time_reduction=0.25, damage_mult=1.1)),
          r.Skill(name="E", is_GCD=False, timing_spec=ts0, debuff_spec=SE(duration=dur, crit_rate_add=0.1)),
          r.Skill(name="d", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=7),
                  follow_up_skills=(F(skill=tick, delay_after_parent_application=0, dot_duration=6000),)),
          r.Skill(name="D", is_GCD=True, timing_spec=T(base_cast_time=2400, animation_lock=0, affected_by_speed_stat=False), damage_spec=D(potency=7),
                  follow_up_skills=(F(skill=tock, delay_after_parent_application=0, dot_duration=6000),)),
          r.Skill(name="A", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=5), combo_spec=(r.ComboSpec(),)),
          r.Skill(name="B", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=500), "No Combo": D(potency=50)}, combo_spec=(r.ComboSpec(("A",)),)),
          r.Skill(name="g", is_GCD=False, timing_spec=ts0, job_resource_spec=(J(name="G", change=1),)),
          r.Skill(name="a", is_GCD=False, timing_spec=ts0, buff_spec=SE(duration=dur, auto_attack_delay_reduction=0.25)),
          r.Skill(name="Auto", is_GCD=False, timing_spec=T(base_cast_time=0, application_delay=532), damage_spec=D(potency=90, damage_class=r.DamageClass.AUTO))]
    return kit.library(r, sk, resources=(("G", r.JobResourceSettings(max_value=1, skill_allowlist=("h",))),))


def same(env, e1, e2, what):
    env.check(len(e1) == len(e2), what + ": same number of events")
    for a, b in zip(e1, e2):
        env.check(And(a.skill.name == b.skill.name, a.targets == b.targets), what + ": same events")
        env.check(And(a.event_times.primary == b.event_times.primary, kit.app(a) == kit.app(b)), what + ": same times")
        env.check(And(a.skill_modifier.with_condition == b.skill_modifier.with_condition), what + ": same conditions")


def h_twice(env, seq, autos):
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    rb = r.RotationBuilder(s, lib, enable_autos=bool(autos), **({} if env.flag("rel") else dict(fight_start_time=0)))
    k = 0
    for i, x in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 30)
        rb.add(k / 8, x)
    e1 = kit.drain(rb.get_skill_timing())
    p1 = rb.get_button_press_timing()
    kept = [list(p) for p in p1]
    e2 = kit.drain(rb.get_skill_timing())
    p2 = rb.get_button_press_timing()
    for p in p1:
        p[0] = p[0] - 1
    env.check(And(len(kept) == len(p2), [p[1:] for p in p1] == [p[1:] for p in kept],
                  *[And(a[0] == b[0] + 1, a[0] == c[0]) for a, b, c in zip(kept, p1, rb.get_button_press_timing())]),
              "a report belongs to who asked for it")
    p1 = kept
    same(env, e1, e2, "twice")
    env.check(p1 == p2, "same press report")
    env.cover("twice")


def h_extend(env, seq, late):
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    presses, k = [], 40
    for i, x in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 60)
        presses.append((k / 8, x, "T1"))
    more = (env.int("late", 0, 100) / 8, "h" if late == "T" else late, "T2" if late == "T" else "T1")
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    for t, x, tg in presses:
        rb.add(t, x, targets=tg)
    rb.get_skill_timing()
    rb.add(more[0], more[1], targets=more[2])
    fresh = r.RotationBuilder(s, lib, fight_start_time=0)
    for t, x, tg in presses + [more]:
        fresh.add(t, x, targets=tg)
    e1, e2 = kit.drain(rb.get_skill_timing()), kit.drain(fresh.get_skill_timing())
    same(env, e1, e2, "extended rotation")
    env.cover("extend")


def h_windows(env, mode):
    """one downtime table used for several rotations"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    a, b = env.int("start", 0, 20000), env.int("end", 0, 20000)
    env.assume(a < b)
    w = ((a / 1000, b / 1000),)
    if mode == "dict":
        w = {"T": w}
    k = env.int("t", 0, 200)
    n = []
    for _ in range(3):
        rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows=w, default_target="T")
        rb.add(k / 8, "h")
        n.append(len(kit.drain(rb.get_skill_timing())))
    gone = And(a <= 125 * k, 125 * k < b)
    for x in n:
        env.check((x == 0) == gone, "every rotation sees the same windows")
    env.check((w["T"] if mode == "dict" else w) == ((a / 1000, b / 1000),), "the given table is left alone")
    env.cover("windows")


def h_late_target(env):
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    a, b = env.int("start", 0, 20000), env.int("end", 0, 20000)
    env.assume(a < b)
    rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows=((a / 1000, b / 1000),))
    k1, k2 = env.int("t1", 0, 200), env.int("t2", 0, 200)
    rb.add(k1 / 8, "h", targets="X")
    rb.get_skill_timing()
    rb.add(k2 / 8, "h", targets="Y")
    ev = kit.drain(rb.get_skill_timing())
    for x, k in (("X", k1), ("Y", k2)):
        gone = And(a <= 125 * k, 125 * k < b)
        env.check((len([e for e in ev if e.targets == (x,)]) == 0) == gone, "windows for all targets hold for targets used later")
    env.cover("late_target")


def h_modifier(env):
    """modifiers and skills handed in are not changed; one modifier may be used for several presses"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    m = r.SkillModifier(with_condition=env.choice("c", ("", "z")), bonus_percent=env.choice("b", (None, 0)))
    before = set(m.with_condition)
    k = env.int("t", 1, 300)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add(0, "A", skill_modifier=m)
    rb.add(k / 8, "B", skill_modifier=m)
    rb.add(k / 8 + 40, "B", skill_modifier=m)
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    env.check(m.with_condition == before, "the given modifier is left alone")
    pot = [h[1].get_damage_spec(h[2]).potency for h in hits]
    env.check(pot == [5, 500 if bool(125 * k <= 30000) else 50, 50], "presses sharing a modifier are judged separately")
    env.cover("modifier")


def same_hits(env, h1, h2):
    env.check(len(h1) == len(h2), "same number of hits")
    for a, b in zip(h1, h2):
        env.check(And(a[0] == b[0], a[1].name == b[1].name), "same hits")
        env.check(a[1].get_damage_spec(a[2]).potency == b[1].get_damage_spec(b[2]).potency, "same potency")
        env.check(And(a[3][0] == b[3][0], a[3][1] == b[3][1]), "same status effects")


def h_reuse(env, seq):
    """one damage builder used for several timelines"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    gaps = [env.int(f"g{i}", 1, 200) for i in range(1, len(seq))]

    def timeline():
        rb = r.RotationBuilder(s, lib, fight_start_time=0)
        k = 0
        for i, x in enumerate(seq):
            if i:
                k = k + gaps[i - 1]
            rb.add(k / 8, x)
        return rb.get_skill_timing()
    db = r.DamageBuilder(s, lib)
    h1 = db.get_damage_instances(timeline())
    h2 = db.get_damage_instances(timeline())
    same_hits(env, h1, h2)
    env.cover("reuse")

def h_reuse_other(env, first, then):
    """a damage builder used for one rotation and then for another"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)

    def timeline(seq, tag):
        rb = r.RotationBuilder(s, lib, fight_start_time=0)
        for i, x in enumerate(seq):
            rb.add(env.int(f"{tag}{i}", 0, 160) / 8, x)
        return rb.get_skill_timing()
    db = r.DamageBuilder(s, lib)
    db.get_damage_instances(timeline(first, "a"))
    h1 = db.get_damage_instances(timeline(then, "b"))
    h2 = r.DamageBuilder(s, lib).get_damage_instances(timeline(then, "b"))
    same_hits(env, h1, h2)
    env.cover("reuse_other")


def h_setters(env, autos, drop):
    """switching autos or trailing ticks on or off later is the same as having asked for it at first"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    k1, k2 = env.int("t1", 0, 40), env.int("t2", 1, 60)

    def build(a, d):
        rb = r.RotationBuilder(s, lib, fight_start_time=0, enable_autos=a, ignore_trailing_dots=d)
        rb.add(k1 / 8, "d")
        rb.add(k1 / 8 + k2 / 8, "h")
        return rb
    x, y = build(not autos, not drop), build(autos, drop)
    if env.flag("computed"):
        x.get_skill_timing()
    x.set_enable_autos(autos)
    x.set_ignore_trailing_dots(drop)
    same(env, kit.drain(x.get_skill_timing()), kit.drain(y.get_skill_timing()), "set later")
    env.cover("setters")


def h_simulator(env):
    """simulating hits does not change the list they are given in"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    a, b = env.int("a", 0, 5000), env.int("b", 0, 5000)
    sk = [r.Skill(name=n, damage_spec=r.DamageSpec(potency=100, guaranteed_crit=r.NO, guaranteed_dh=r.NO)) for n in "xy"]
    mods = [r.SkillModifier(with_condition=c) for c in ("P", "Q")]
    u = env.share_draws("u")
    env.assume(u == 2 ** 51)
    env.pick(u)
    given = [(t, k, m, (r.StatusEffects(), r.StatusEffects()), i, "A") for i, (t, k, m) in enumerate(zip((a, b), sk, mods))]
    kept = list(given)
    m = DamageSimulator(kit.stats(r), given, 1)
    m.get_per_skill_damage()
    env.check(And(len(given) == 2, *[x is y for x, y in zip(given, kept)]), "the given hits keep their order")
    env.check([x.with_condition for x in mods] == [{"P"}, {"Q"}], "and their conditions")
    env.cover("simulated")


def h_library(env):
    """two rotations on one library do not influence each other"""
    r = kit.imp()
    lib, s = skills(r, env), kit.stats(r)
    k1, k2 = env.int("t1", 0, 100), env.int("t2", 1, 100)
    a = r.RotationBuilder(s, lib, fight_start_time=0)
    b = r.RotationBuilder(s, lib, fight_start_time=0)
    a.add(k1 / 8, "e")
    a.add(k1 / 8 + k2 / 8, "c")
    b.add(k2 / 8, "c")
    a.get_skill_timing()
    ev = kit.drain(b.get_skill_timing())
    env.check(len(ev) == 1, "own presses only")
    env.check(ev[0].event_times.primary == 125 * k2 + 1500, "unaffected by the other rotation")
    env.cover("library")
