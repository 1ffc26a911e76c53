"""C18: only relative times matter: the timeline starts at the first damage and shifting all presses changes nothing."""
from harness.common import *
from harness import kit

BOUNDS = ("rotations of up to three presses out of {effect, attack that deals no damage under its condition, debuff, cast hit, instant hit, DoT, combo step, gauge user} at any multiple of 125 ms, any cast 0..3000 ms and delay "
          "0..3000 ms, any effect duration; shifted by any multiple of 125 ms -30..30 s; with and without fight start, autos and trailing DoTs dropped")
OUTSIDE = "server-tick snapping (ticks are then tied to absolute time); ties between presses"
COVERS = ("first_zero", "prepull", "no_damage", "absolute", "shifted", "autos", "sequence")

SEQS = ("ehh", "hde", "Ech", "dEh", "ABh", "ghB", "dch", "ABe")


def tasks(tier):
    t = []
    for s in SEQS:
        for trail in (0, 1):
            t.append(dict(h="h_shift", seq=s, trail=trail, autos=0))
    t += [dict(h="h_shift", seq=s, trail=1, autos=1) for s in ("hh", "eh")]
    t += [dict(h="h_origin", seq=s, mode=m) for s in ("eh", "he", "hh", "ch", "ec", "e", "Ee", "dc", "nh", "nc", "n", "hn") for m in (0, 1)]
    t += [dict(h="h_seq_origin")]
    for x in t:
        if x.get("autos"):
            x["_opts"] = dict(task_s=200)
    return t


def skills(r, env):
    c = env.int("cast", 0, 3000)
    d = env.int("delay", 0, 3000)
    dur = env.int("dur", 1, 20000)
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    D, SE, J = r.DamageSpec, r.StatusEffectSpec, r.JobResourceSpec
    tick = r.Skill(name="tick", damage_spec=D(potency=17, damage_class=r.DamageClass.MAGICAL_DOT))
    sk = [r.Skill(name="h", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=10), "1 G": D(potency=20)}),
          r.Skill(name="c", is_GCD=True, timing_spec=ts, damage_spec=D(potency=3)),
          r.Skill(name="e", is_GCD=False, timing_spec=ts, buff_spec=SE(duration=dur, damage_mult=1.1)),
          r.Skill(name="E", is_GCD=False, timing_spec=ts0, debuff_spec=SE(duration=dur, crit_rate_add=0.1)),
          r.Skill(name="d", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=7),
                  follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=6000, snapshot_buffs_with_parent=False),)),
          r.Skill(name="A", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=5), combo_spec=(r.ComboSpec(),)),
          r.Skill(name="B", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=500), "No Combo": D(potency=50)}, combo_spec=(r.ComboSpec(("A",)),)),
          r.Skill(name="n", is_GCD=False, timing_spec=ts0, damage_spec={"": D(potency=5), "Dry": None}),
          r.Skill(name="g", is_GCD=False, timing_spec=ts0, job_resource_spec=(J(name="G", change=1),)),
          r.Skill(name="Auto", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, application_delay=532),
                  damage_spec=D(potency=90, damage_class=r.DamageClass.AUTO))]
    return sk, c + ite(c > 0, smax(0, d - 500), d)


def lib_of(r, sk):
    return kit.library(r, sk, resources=(("G", r.JobResourceSettings(max_value=1, expiry_from_last_gain=10000, skill_allowlist=("h",))),))


def h_shift(env, seq, trail, autos):
    r = kit.imp()
    sk, _ = skills(r, env)
    s, lib = kit.stats(r), lib_of(r, sk)
    delta = env.int("shift", -240, 240)
    out = []
    gaps = [env.int(f"g{i}", 1, 24 if autos else 200) for i in range(1, len(seq))]
    t0 = env.int("t0", -40, 40)
    for off in (0, delta):
        rb = r.RotationBuilder(s, lib, ignore_trailing_dots=bool(trail), enable_autos=bool(autos))
        k = t0 + off
        for i, x in enumerate(seq):
            if i:
                k = k + gaps[i - 1]
            rb.add(k / 8, x)
        q = rb.get_skill_timing()
        press = rb.get_button_press_timing()
        out.append((press, r.DamageBuilder(s, lib).get_damage_instances(q)))
    (p1, h1), (p2, h2) = out
    env.check([p[1:] for p in p1] == [p[1:] for p in p2], "same presses")
    for a, b in zip(p1, p2):
        env.check(a[0] == b[0], "press times count from the first damage")
    env.check(len(h1) == len(h2), "same number of hits")
    for a, b in zip(h1, h2):
        env.check(a[0] == b[0], "hit times count from the first damage")
        env.check(And(a[1].name == b[1].name, a[5] == b[5]), "same hits")
        env.check(a[1].get_damage_spec(a[2]).potency == b[1].get_damage_spec(b[2]).potency, "same potency")
        env.check(And(a[3][0] == b[3][0], a[3][1] == b[3][1]), "same status effects")
    env.check(h1[0][0] == 0, "first damage at time 0")
    env.cover("autos" if autos else "shifted")


def h_origin(env, seq, mode):
    r = kit.imp()
    sk, land = skills(r, env)
    s, lib = kit.stats(r), lib_of(r, sk)
    rb = r.RotationBuilder(s, lib, **(dict(fight_start_time=0) if mode else {}))
    k = env.int("t0", -40, 40)
    press = []
    for i, x in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 60)
        rb.add(k / 8, x, skill_modifier=r.SkillModifier(with_condition="Dry") if x == "n" else None)
        press.append((x, 125 * k))
    ev = kit.drain(rb.get_skill_timing())
    when = [(x, t + (land if x in "ce" else 0)) for x, t in press]
    dmg = [t for x, t in when if x not in "eEn"]
    first = 0
    if dmg and not mode:
        first = dmg[0]
        for t in dmg[1:]:
            first = smin(first, t)
        env.cover("first_zero")
    elif not dmg:
        env.cover("no_damage")
    else:
        env.cover("absolute")
    got = rb.get_button_press_timing()
    env.check([p[1] for p in got] == list(seq), "presses in order")
    for (x, t), p in zip(press, got):
        env.check(p[0] == t - first, "press time")
        if bool(p[0] < 0):
            env.cover("prepull")
    for x, t in when:
        env.check(Or(*[kit.app(e) == t - first for e in ev if e.skill.name == x]), "event time")
    env.check(len([e for e in ev if e.skill.name != "tick"]) == len(seq), "every press is an event")


def h_seq_origin(env):
    r = kit.imp()
    sk, land = skills(r, env)
    s, lib = kit.stats(r), lib_of(r, sk)
    rb = r.RotationBuilder(s, lib)
    for x in "ech":
        rb.add_next(x)
    rb.add(-1, "E")
    q = rb.get_skill_timing()
    press = rb.get_button_press_timing()
    first = q.get_first_damage_time()
    env.check(first == 0, "first damage at time 0")
    t = {p[1]: p[0] for p in press}
    for e in kit.drain(q):
        n = e.skill.name
        env.check(kit.app(e) == t[n] + (land if n in "ce" else 0), "events move with their presses")
    env.check(t["E"] - t["e"] == -1000, "timed and sequenced presses share one clock")
    env.cover("sequence")
