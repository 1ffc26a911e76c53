"""C21: every damaging event becomes exactly one hit per target, in time order; nothing is lost, invented or mixed up."""
from harness.common import *
from harness import kit

BOUNDS = ("up to four presses at any multiple of 125 ms (ties included) out of {instant hit, cast hit with delay, effect, follow-up parent, DoT, "
          "debuff, two-condition hit}, on one or two targets, any cast 0..3000 ms and delay 0..3000 ms; pressed as a timeline or as a sequence")
OUTSIDE = "more than four presses"
COVERS = ("tie", "multi", "follow", "dot", "sequence", "effect", "same_skill_tie")

SEQS = ("ii", "ic", "ci", "cc", "iei", "if", "fi", "id", "di", "dd", "idb", "cfd", "ifd", "eid", "bid", "cee", "xx", "xix")


def tasks(tier):
    t = [dict(h="h_conserve", seq=s) for s in SEQS]
    t += [dict(h="h_aoe_dot", n=n) for n in (2, 3)]
    t += [dict(h="h_sequence", seqs=["icf", "ifi", "cdi", "eic", "xiex"])]
    if tier == "thorough":
        t += [dict(h="h_conserve", seq=s) for s in ("icfd", "ddid", "xicx", "bdid", "cfcf")]
    return t


def skills(r, env):
    c = env.int("cast", 0, 3000)
    d = env.int("delay", 0, 3000)
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    D = r.DamageSpec
    f1 = r.Skill(name="f1", damage_spec=D(potency=11))
    f2 = r.Skill(name="f2", buff_spec=r.StatusEffectSpec(duration=5000, crit_rate_add=0.01))
    f3 = r.Skill(name="f3", damage_spec=D(potency=13))
    tick = r.Skill(name="tick", damage_spec=D(potency=17, damage_class=r.DamageClass.MAGICAL_DOT))
    sk = [r.Skill(name="i", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=1)),
          r.Skill(name="c", is_GCD=True, timing_spec=ts, damage_spec=D(potency=3)),
          r.Skill(name="e", is_GCD=False, timing_spec=ts, buff_spec=r.StatusEffectSpec(duration=5000, dh_rate_add=0.02)),
          r.Skill(name="b", is_GCD=False, timing_spec=ts0, debuff_spec=r.StatusEffectSpec(duration=5000, damage_mult=1.02)),
          r.Skill(name="f", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=5),
                  follow_up_skills=(r.FollowUp(skill=f1, delay_after_parent_application=0), r.FollowUp(skill=f2, delay_after_parent_application=0),
                                    r.FollowUp(skill=f3, delay_after_parent_application=700))),
          r.Skill(name="d", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=7),
                  follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=6000),)),
          r.Skill(name="x", is_GCD=True, timing_spec=ts0, damage_spec={"": D(potency=100), "k": D(potency=200), "n": None})]
    land = c + ite(c > 0, smax(0, d - 500), d)
    return sk, land


def expected(env, presses, land):
    """(skill, time, potency) for every hit; presses: (kind, time, condition)"""
    out = []
    dots = [t for k, t, _ in presses if k == "d"]
    for k, t, cond in presses:
        if k == "i":
            out.append(("i", t, 1))
        elif k == "c":
            out.append(("c", t + land, 3))
        elif k == "f":
            out += [("f", t, 5), ("f1", t, 11), ("f3", t + 700, 13)]
            env.cover("follow")
        elif k == "d":
            out.append(("d", t, 7))
            nxt = next((x for x in dots if x is not t and bool(x > t)), None)
            for j in (0, 1):
                if nxt is None or bool(t + 3000 * j < nxt):
                    out.append(("tick", t + 3000 * j, 17))
            env.cover("dot")
        elif k == "x":
            if cond != "n":
                out.append(("x", t, 200 if cond == "k" else 100))
        else:
            env.cover("effect")
    return out


def compare(env, hits, want):
    env.check(len(hits) == len(want), "number of hits")
    for a, b in zip(hits, hits[1:]):
        env.check(a[0] <= b[0], "hits in time order")
    env.check(len({h[4] for h in hits}) == len(hits), "every hit is its own event")
    for name in {n for n, _, _ in want}:
        got = sorted([h for h in hits if h[1].name == name], key=lambda h: h[0])
        w = [(t, p) for n, t, p in want if n == name]
        env.check(len(got) == len(w), "number of hits per skill")
        for i, h in enumerate(got):
            env.check(Or(*[h[0] == t for t, _ in w]), "hit time")
        env.check(ssum([h[0] for h in got]) == ssum([t for t, _ in w]), "hit times")
        env.check(sum(h[1].get_damage_spec(h[2]).potency for h in got) == sum(p for _, p in w), "potency per skill")
        for t, p in w:
            env.check(Or(*[And(h[0] == t, h[1].get_damage_spec(h[2]).potency == p) for h in got]), "every expected hit is there")


def h_conserve(env, seq):
    r = kit.imp()
    sk, land = skills(r, env)
    s, lib = kit.stats(r), kit.library(r, sk)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    k, presses = 0, []
    for n, x in enumerate(seq):
        if n:
            k = k + env.int(f"g{n}", 0 if x != "d" else 1, 40)
        cond = env.choice(f"cond{n}", ("", "k", "n")) if x == "x" else ""
        rb.add(k / 8, x, skill_modifier=r.SkillModifier(with_condition=cond))
        presses.append((x, k * 125, cond))
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    compare(env, hits, expected(env, presses, land))
    if len(hits) > 1 and bool(hits[0][0] == hits[1][0]):
        env.cover("tie")
        if hits[0][1].name == hits[1][1].name:
            env.cover("same_skill_tie")


def h_sequence(env, seqs):
    r = kit.imp()
    seq = env.choice("seq", seqs)
    sk, land = skills(r, env)
    s, lib = kit.stats(r), kit.library(r, sk)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    for n, x in enumerate(seq):
        rb.add_next(x)
    q = rb.get_skill_timing()
    at = [p[0] for p in rb.get_button_press_timing()]
    env.check(len(at) == len(seq), "every press is reported")
    hits = r.DamageBuilder(s, lib).get_damage_instances(q)
    compare(env, hits, expected(env, [(x, t, "") for x, t in zip(seq, at)], land))
    env.cover("sequence")


def h_aoe_dot(env, n):
    """a DoT spread over several targets, some with different debuffs, ticks on each of them"""
    r = kit.imp()
    sk, _ = skills(r, env)
    s, lib = kit.stats(r), kit.library(r, sk)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    T = ["A", "B", "C"][:n]
    k0, k = env.int("t0", 0, 40), env.int("t", 0, 40)
    who = env.choice("who", T)
    rb.add(k0 / 8, "b", targets=who)
    rb.add(k / 8, "d", targets=", ".join(T))
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    for x in T:
        got = [h[0] for h in hits if h[1].name == "tick" and h[5] == x]
        env.check(len(got) == 2, "two ticks on every target")
        for j, y in enumerate(got):
            env.check(y == 125 * k + 3000 * j, "tick time")
    for h in hits:
        if h[1].name == "tick":
            env.assume(k0 != k)
            on = h[5] == who and bool(And(k0 < k, 125 * k <= 125 * k0 + 5000))
            env.check(h[3][1].damage_mult == (1.02 if on else 1), "debuffs of the own target")
    env.check(len(hits) == 3 * n, "one hit and two ticks per target")
    env.cover("multi")
