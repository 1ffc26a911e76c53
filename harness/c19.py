"""C19: when buttons are pressed: GCD recast, cast time, animation lock, haste in force, and the press report."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = ("every sequence of up to 4 (quick) or 5 (thorough) presses out of {GCD, casted GCD, long-recast GCD, off-GCD, weave with its own lock}; any animation lock 0..2000 ms, cast "
          "0..4000 ms, recasts 1500..10000 ms; haste effects (of a skill or its follow-up) with any delay, duration and moment; timed presses at any ms; repeated presses; the same button pressed at the same time")
OUTSIDE = "off-GCD skills with a cast time; speed scaling (C02)"
COVERS = ("gcd_wait", "lock_wait", "cast_wait", "haste_on", "haste_off", "timed", "tie", "repeat", "offjob", "cond_timing", "mixed", "follow_up", "close")


def tasks(tier):
    groups = {}
    n = 4 if tier == "quick" else 5
    for k in range(1, n + 1):
        for seq in itertools.product("GCLoW", repeat=k):
            if k == n and (seq[0] not in "GCo" or seq[-1] in "LW"):
                continue
            if k > 3 and seq.count("L") + seq.count("W") > 1:
                continue
            groups.setdefault((k, seq[:1]), []).append("".join(seq))
    t = [dict(h="h_pace", seqs=v[i:i + 20]) for _, v in sorted(groups.items()) for i in range(0, len(v), 20)]
    t += [dict(h="h_haste", kind=k, seq=s) for k in ("buff", "debuff", "cast", "follow") for s in ("hGG", "GhG", "GhGG", "hGoG")]
    t += [dict(h="h_timed"), dict(h="h_repeat"), dict(h="h_cond"), dict(h="h_tie"), dict(h="h_mixed"), dict(h="h_close"), dict(h="h_samename")]
    return t


def h_pace(env, seqs):
    r = kit.imp()
    seq = env.choice("seq", seqs)
    lock, wlock = env.int("lock", 0, 2000), env.int("wlock", 0, 2000)
    cast = env.int("cast", 0, 4000) if "C" in seq else 0
    clock = env.int("clock", 0, 2000) if "C" in seq else 0
    rec = env.int("recast", 1500, 4000)
    lrec = env.int("lrecast", 4000, 10000) if "L" in seq else 0
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    T, D = r.TimingSpec, r.DamageSpec
    lib = kit.library(r, [
        r.Skill(name="G", is_GCD=True, damage_spec=D(potency=1), timing_spec=T(base_cast_time=0, gcd_base_recast_time=rec, animation_lock=lock, **flat)),
        r.Skill(name="C", is_GCD=True, damage_spec=D(potency=1), timing_spec=T(base_cast_time=cast, gcd_base_recast_time=rec, animation_lock=clock, **flat)),
        r.Skill(name="L", is_GCD=True, timing_spec=T(base_cast_time=0, gcd_base_recast_time=lrec, animation_lock=lock, **flat)),
        r.Skill(name="o", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=lock, **flat)),
        r.Skill(name="W", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=wlock, **flat))])
    start = env.choice("start", (0, 7000, -6000))
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=start)
    for x in seq:
        rb.add_next(x)
    ev = kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    t, ready = start, None
    for x, p in zip(seq, press):
        if x in "GCL" and ready is not None:
            # a GCD waits for the previous GCD's recast
            if env.symbolic:
                pass
            w = smax(t, ready)
            t = w
        env.check(p[0] == t, "earliest moment allowed by recast, cast and animation lock")
        env.check(p[1] == x, "presses in order")
        if x in "GCL":
            rc = lrec if x == "L" else rec
            if x != "L":
                rc = ite(rec == 2500, smax(rc, 1500), rc)
            ready = t + rc
            t = t + (cast + clock if x == "C" else lock)
        else:
            t = t + (lock if x == "o" else wlock)
    env.check(len(press) == len(seq), "every press is reported once")
    env.check(len(ev) == len(seq), "every press is an event once")
    if len(seq) > 1 and seq[0] in "GC" and seq[1] in "GC":
        gap = press[1][0] - press[0][0]
        env.cover("gcd_wait" if bool(gap == rec) else "cast_wait" if seq[0] == "C" else "lock_wait")


def h_haste(env, kind, seq):
    """the recast (or cast) is shortened by the effects active when the button is pressed"""
    r = kit.imp()
    delay, dur = env.int("delay", 0, 6000), env.int("dur", 1, 8000)
    lock = 600
    T = r.TimingSpec
    spec = r.StatusEffectSpec(duration=dur, haste_time_reduction=0.25)
    if kind == "follow":
        d0 = env.choice("d0", (0, 400))
        F = r.Skill(name="hf", buff_spec=spec)
        h = r.Skill(name="h", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=lock, application_delay=d0),
                    follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=delay),))
        env.cover("follow_up")
    else:
        d0 = 0
        h = r.Skill(name="h", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=lock, application_delay=delay),
                    **{"debuff_spec" if kind == "debuff" else "buff_spec": spec})
    cast = 2400 if kind == "cast" else 0
    G = r.Skill(name="G", is_GCD=True, damage_spec=r.DamageSpec(potency=1),
                timing_spec=T(base_cast_time=cast, gcd_base_recast_time=2800, animation_lock=lock, affected_by_speed_stat=False))
    o = r.Skill(name="o", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=lock))
    lib = kit.library(r, [h, G, o])
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    for x in seq:
        rb.add_next(x)
    ev = kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    land = sorted([kit.app(e) for e in ev if e.skill.name == "G"])
    t, ready, win, gi = 0, None, None, 0
    for x, p in zip(seq, press):
        if x == "G" and ready is not None:
            t = smax(t, ready)
        env.check(p[0] == t, "press time")
        if x == "G":
            on = bool(And(win[0] <= t, t <= win[1])) if win else False
            env.cover("haste_on" if on else "haste_off")
            ready = t + (2100 if on else 2800)
            c = 0 if not cast else (1800 if on else 2400)
            env.check(land[gi] == t + c, "cast time")
            gi += 1
            t = t + c + lock
        else:
            if x == "h":
                win = (t + d0 + delay, t + d0 + delay + dur)
            t = t + lock


def h_timed(env):
    """a timed press happens at its time, to the millisecond, whatever the order of the calls"""
    r = kit.imp()
    G = r.Skill(name="G", is_GCD=True, damage_spec=r.DamageSpec(potency=1), timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0))
    H = r.Skill(name="H", is_GCD=True, damage_spec=r.DamageSpec(potency=1), timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0))
    lib = kit.library(r, [G, H])
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    a, b = env.int("a", -20000, 600000, seeds=(1001, 2007)), env.int("b", -20000, 600000)
    env.assume(a != b)
    rb.add(a / 1000, "G")
    rb.add(b / 1000, "H")
    ev = kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    at = {p[1]: p[0] for p in press}
    env.check(And(at["G"] == a, at["H"] == b), "pressed at the given time")
    env.check(press[0][0] <= press[1][0], "report sorted by time")
    for e in ev:
        env.check(kit.app(e) == ite(e.skill.name == "G", a, b), "event at the given time")
    env.cover("timed")


def h_repeat(env):
    r = kit.imp()
    n = env.choice("n", (1, 2, 3, 5))
    G = r.Skill(name="G", is_GCD=True, damage_spec=r.DamageSpec(potency=1),
                timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0, affected_by_speed_stat=False, affected_by_haste_buffs=False))
    lib = kit.library(r, {"test_job": [G], "test_job2": [r.Skill(name="X", is_GCD=True, timing_spec=G.timing_spec, off_class_default_condition="off",
                                                                  damage_spec={"": r.DamageSpec(potency=1), "off": r.DamageSpec(potency=2)})]})
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    rb.add_next("G", num_times=n, skill_modifier=r.SkillModifier(with_condition="c"))
    rb.add_next("X", job_class="test_job2")
    ev = kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    env.check(len(press) == n + 1, "num_times presses")
    for i, p in enumerate(press[:n]):
        env.check(p[0] == 2500 * i, "each a full press")
        env.check(p[1:] == ["G", "", "c"], "own skills are reported without job, with their conditions")
    env.check(press[n][1:] == ["X", "test_job2", "off"], "skills of another job are reported with job and default condition")
    x = [e for e in ev if e.skill.name == "X"][0]
    env.check(x.skill.get_damage_spec(x.skill_modifier).potency == 2, "skills of another job use their default condition")
    env.cover("repeat")
    env.cover("offjob")


def h_cond(env):
    """timing variants are selected by effects in force"""
    r = kit.imp()
    T = r.TimingSpec
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    dur = env.int("dur", 1, 8000)
    S = r.Skill(name="Swift", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=600),
                buff_spec=r.StatusEffectSpec(duration=dur, num_uses=1, skill_allowlist=("C",), add_to_skill_modifier_condition=True))
    C = r.Skill(name="C", is_GCD=True, damage_spec=r.DamageSpec(potency=1),
                timing_spec={"": T(base_cast_time=2000, animation_lock=100, **flat), "Swift": T(base_cast_time=0, animation_lock=650, **flat)})
    O = r.Skill(name="O", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=700))
    lib = kit.library(r, [S, C, O])
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    wait = env.choice("waits", (0, 1, 2, 6))
    rb.add_next("Swift")
    for _ in range(wait):
        rb.add_next("O")
    rb.add_next("C")
    rb.add_next("C")
    ev = kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    t = 600 + 700 * wait
    swift = bool(t <= dur)
    land = sorted([kit.app(e) for e in ev if e.skill.name == "C"])
    env.check(press[-2][0] == t, "press")
    env.check(land[0] == t + (0 if swift else 2000), "the effect makes the cast instant")
    env.check(press[-1][0] == t + 2500, "next GCD")
    env.check(land[1] == t + 2500 + 2000, "only one cast is affected")
    env.cover("cond_timing")


def h_tie(env):
    """the same button, or different ones, at the same time"""
    r = kit.imp()
    D = r.DamageSpec
    ts = r.TimingSpec(base_cast_time=0, animation_lock=0)
    G = r.Skill(name="G", is_GCD=True, damage_spec={"": D(potency=1), "k": D(potency=2)}, timing_spec=ts)
    H = r.Skill(name="H", is_GCD=True, damage_spec=D(potency=4), timing_spec=ts)
    rb = r.RotationBuilder(kit.stats(r), kit.library(r, [G, H]), fight_start_time=0)
    t = env.int("t", 0, 100)
    conds = [env.choice(f"c{i}", ("", "k")) for i in range(3)]
    for c in conds:
        rb.add(t / 8, "G", skill_modifier=r.SkillModifier(with_condition=c))
    rb.add(t / 8, "H")
    ev = kit.drain(rb.get_skill_timing())
    env.check(len(ev) == 4, "all presses happen")
    env.check(sum(e.skill.get_damage_spec(e.skill_modifier).potency for e in ev) == 4 + sum(2 if c else 1 for c in conds), "with their own conditions")
    for e in ev:
        env.check(kit.app(e) == 125 * t, "at that time")
    env.cover("tie")


def h_samename(env):
    """two jobs' different skills with the same name pressed at any two times, equal ones included"""
    r = kit.imp()
    D = r.DamageSpec
    ts = r.TimingSpec(base_cast_time=0, animation_lock=0)
    lib = kit.library(r, {"test_job": [r.Skill(name="G", is_GCD=True, damage_spec=D(potency=1), timing_spec=ts)],
                          "test_job2": [r.Skill(name="G", is_GCD=True, damage_spec=D(potency=2), timing_spec=ts)]})
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    a, b, c = (env.int(x, 0, 40) for x in "abc")
    rb.add(a / 8, "G")
    rb.add(b / 8, "G", job_class="test_job2")
    rb.add(c / 8, "G")
    ev = kit.drain(rb.get_skill_timing())
    env.check(len(ev) == 3, "all presses happen")
    for e in ev:
        p = e.skill.damage_spec.potency
        env.check(Or(And(p == 1, kit.app(e) == 125 * a), And(p == 2, kit.app(e) == 125 * b), And(p == 1, kit.app(e) == 125 * c)), "own time")


def h_close(env):
    """presses a few milliseconds apart are processed in their order, whatever their names"""
    r = kit.imp()
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    T = r.TimingSpec
    first = env.choice("name", ("a", "z"))
    d = env.choice("gap", (-25, -10, -9, -6, -2, -1, 1, 2, 3, 5, 7, 9, 10, 11, 25, 100))
    base = env.choice("base", (0, 1000, 1995, 2001))
    cast = env.int("cast", 1, 3000)
    E = r.Skill(name=first, is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=0, application_delay=0),
                buff_spec=r.StatusEffectSpec(duration=30000, add_to_skill_modifier_condition=True))
    C = r.Skill(name="m", is_GCD=True, damage_spec=r.DamageSpec(potency=1),
                timing_spec={"": T(base_cast_time=0, application_delay=0, **flat), first: T(base_cast_time=cast, application_delay=0, **flat)})
    rb = r.RotationBuilder(kit.stats(r), kit.library(r, [E, C]), fight_start_time=0)
    presses = [(base / 1000, first), ((base + d) / 1000, "m")]
    for t, n in presses if env.flag("order") else presses[::-1]:
        rb.add(t, n)
    ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == "m"]
    env.check(And(len(ev) == 1, kit.app(ev[0]) == base + d + (cast if d > 0 else 0)), "timing variant of the conditions in force")
    env.cover("close")


def h_mixed(env):
    """timed presses (e.g. of party members) do not delay the own sequence"""
    r = kit.imp()
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    G = r.Skill(name="G", is_GCD=True, damage_spec=r.DamageSpec(potency=1), timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=600, **flat))
    P = r.Skill(name="P", is_GCD=False, buff_spec=r.StatusEffectSpec(duration=1000), timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=600))
    lib = kit.library(r, {"test_job": [G], "test_job2": [P]})
    start = env.int("start", -5000, 5000)
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=start)
    k = env.int("t", 0, 100)
    rb.add_next("G", num_times=3)
    rb.add(k / 8, "P", job_class="test_job2")
    kit.drain(rb.get_skill_timing())
    press = rb.get_button_press_timing()
    g = [p[0] for p in press if p[1] == "G"]
    env.check(And(len(g) == 3, g[0] == start, g[1] == start + 2500, g[2] == start + 5000), "sequence unaffected")
    env.check([p[0] for p in press if p[1] == "P"][0] == 125 * k, "timed press at its time")
    for a, b in zip(press, press[1:]):
        env.check(a[0] <= b[0], "report sorted by time")
    env.cover("mixed")
