"""C29: hitting several targets: order, spacing, drop-off, primary-only follow-ups, per-target effects."""
from harness.common import *
from harness import kit

BOUNDS = ("one to ten targets, any drop-off 0..100 percent and potency 1..2000, any cast 0..3000 ms and delay 0..3000 ms, one damage for all conditions or variants of no, one and two conditions, used for one or two skills; "
          "follow-ups with and without primary_target_only, snapshotting or not; debuffs on any one target; DoTs on two, nine and ten targets, and repeated presses")
OUTSIDE = "effects changed between the hits of one cast (135 ms per target)"
COVERS = ("single", "several", "ten", "cast", "instant", "primary", "everyone", "variant", "debuffed", "plain", "again", "dots", "repeated")
NAMES = ["M", "Z", "B", "Adds 2", "Boss", "T1", "K", "C", "Q", "D"]  # in no particular order


def tasks(tier):
    t = [dict(h="h_aoe", n=n) for n in (1, 2, 3, 5, 8, 9, 10)]
    t += [dict(h="h_follow", n=n, prim=p, snap=s) for n in (1, 2, 3) for p in (0, 1) for s in (0, 1)]
    t += [dict(h="h_debuff", n=n, kind=k) for n in (2, 3) for k in ("instant", "cast")]
    t += [dict(h="h_spread", n=n) for n in (2, 3)]
    t += [dict(h="h_names")]
    t += [dict(h="h_dot", n=n, seq=q) for n in (2, 9, 10) for q in (0, 1)]
    return t


def spec(r, env):
    c = env.int("cast", 0, 3000)
    d = env.int("delay", 0, 3000)
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    return ts, c, d, c + ite(c > 0, smax(0, d - 500), d)


def run(r, lib, presses, **kw):
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0, **kw)
    for t, n, tg, m in presses:
        rb.add(t, n, targets=tg, skill_modifier=m)
    return r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())


def h_aoe(env, n):
    r = kit.imp()
    ts, c, d, land = spec(r, env)
    p1, p2 = env.choice("pot", ((600, 300), (1000, 140), (430, 170)))
    drop = env.choice("drop", (0.1, 0.25, 0.5, 0.6, 0.75))
    weak = env.choice("variant", ("", "weak", "far, weak", None))
    if weak is None:
        dmg, weak = r.DamageSpec(potency=p1), ""
        env.cover("plain")
    else:
        dmg = {"": r.DamageSpec(potency=p1), "weak": r.DamageSpec(potency=p2), "weak, far": r.DamageSpec(potency=p2 - 30)}
    kw = dict(name="H", is_GCD=True, timing_spec=ts, has_aoe=True, aoe_dropoff=drop, damage_spec=dmg)
    H = r.Skill(**kw)
    if env.flag("again"):  # the same numbers may be used for several skills
        H = r.Skill(**kw)
        env.cover("again")
    k = env.int("t", 0, 40)
    hits = run(r, kit.library(r, [H]), [(k / 8, "H", ", ".join(NAMES[:n]), r.SkillModifier(with_condition=weak))])
    env.check(len(hits) == n, "one hit per target")
    p = {"": p1, "weak": p2, "far, weak": p2 - 30}[weak]
    for i, h in enumerate(hits):
        env.check(h[5] == NAMES[i], "targets in the given order")
        env.check(h[0] == k * 125 + land + 135 * i, "targets are hit 135 ms apart")
        want = p if i == 0 else (1 - drop) * p
        env.check(abs(h[1].get_damage_spec(h[2]).potency - want) < 1e-6, "full potency on the first target, reduced on the others")
    env.cover("single" if n == 1 else "ten" if n == 10 else "several")
    env.cover("cast" if bool(c > 0) else "instant")
    if weak:
        env.cover("variant")


def h_follow(env, n, prim, snap):
    r = kit.imp()
    ts, c, d, land = spec(r, env)
    f = env.int("f", 0, 2000)
    F = r.Skill(name="F", damage_spec=r.DamageSpec(potency=50))
    P = r.Skill(name="P", is_GCD=True, timing_spec=ts, has_aoe=True, damage_spec=r.DamageSpec(potency=100),
                follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=f, primary_target_only=bool(prim),
                                             snapshot_buffs_with_parent=bool(snap), snapshot_debuffs_with_parent=bool(snap)),))
    hits = run(r, kit.library(r, [P]), [(1, "P", ", ".join(NAMES[:n]), None)])
    got = [h for h in hits if h[1].name == "F"]
    env.check(len(got) == (1 if prim else n), "a follow-up hits its primary target only, or everyone")
    for i, h in enumerate(got):
        env.check(h[5] == NAMES[i], "follow-up target")
        env.check(h[0] == 1000 + land + f + 135 * i, "follow-up time")
    env.check(len(hits) == n + len(got), "parent hits everyone")
    env.cover("primary" if prim else "everyone")


def h_debuff(env, n, kind):
    """a debuff counts for the target that carries it"""
    r = kit.imp()
    d = env.int("delay", 0, 3000)
    ts = r.TimingSpec(base_cast_time=0 if kind == "instant" else 2000, animation_lock=0, application_delay=d, affected_by_speed_stat=False,
                      affected_by_haste_buffs=False)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, has_aoe=True, damage_spec=r.DamageSpec(potency=100))
    dur = env.int("dur", 1, 20000)
    B = r.Skill(name="B", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0),
                debuff_spec=r.StatusEffectSpec(duration=dur, damage_mult=1.25))
    who = env.choice("who", list(range(n)))
    k = env.int("t", 1, 160)
    hits = run(r, kit.library(r, [B, H]), [(0, "B", NAMES[who], None), (k / 8, "H", ", ".join(NAMES[:n]), None)])
    snap = k * 125 + (0 if kind == "instant" else 1500)
    for i, h in enumerate(hits):
        on = And(i == who, snap <= dur)
        env.check((h[3][1].damage_mult == 1.25) == on, "only the debuffed target takes more damage")
        env.check(h[3][0].damage_mult == 1, "no buff")
    env.cover("debuffed")


def h_spread(env, n):
    """a multi-target debuff reaches every target it was cast on, and nobody else"""
    r = kit.imp()
    H = r.Skill(name="H", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=100))
    B = r.Skill(name="B", is_GCD=False, has_aoe=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0),
                debuff_spec=r.StatusEffectSpec(duration=10000, damage_mult=1.25))
    k = env.int("t", 8, 160)
    hits = run(r, kit.library(r, [B, H]), [(0, "B", ",".join(NAMES[:n]), None)] + [(k / 8, "H", x, None) for x in NAMES[:n + 1]])
    for h in hits:
        env.check((h[3][1].damage_mult == 1.25) == And(h[5] in NAMES[:n], k * 125 <= 10000), "every target of the debuff, and no other")
    env.check(len(hits) == n + 1, "one hit each")


def h_dot(env, n, seq):
    """DoTs reach every target, every time"""
    r = kit.imp()
    ts, c, d, land = spec(r, env)
    p = env.int("p", 1, 500)
    tick = r.Skill(name="tick", damage_spec=r.DamageSpec(potency=p, damage_class=r.DamageClass.MAGICAL_DOT))
    X = r.Skill(name="X", is_GCD=True, has_aoe=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100),
                follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=6000),))
    T = NAMES[:n]
    k = env.int("t", 0, 100)
    m = 1
    if seq:
        s, lib = kit.stats(r), kit.library(r, [X])
        rb = r.RotationBuilder(s, lib, fight_start_time=125 * k)
        m = env.choice("m", (1, 2, 5))
        rb.add_next("X", num_times=m, targets=", ".join(T))
        rb.add_next("X", targets=T[-1])
        m = m + 1
        hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
        for x in T:
            got = [h for h in hits if h[5] == x and h[1].name == "X"]
            env.check(len(got) == (m if x == T[-1] else m - 1), "every repetition hits every target")
            env.check(any(h[5] == x and h[1].name == "tick" for h in hits), "ticks on every target")
        env.cover("repeated")
        return
    hits = run(r, kit.library(r, [X]), [(k / 8, "X", ",".join(T), None)])
    for x in T:
        got = [h for h in hits if h[5] == x and h[1].name == "tick"]
        env.check(len(got) == 2, "two ticks on every target")
        for j, h in enumerate(got):
            env.check(And(h[0] == 125 * k + land + 3000 * j, h[1].get_damage_spec(h[2]).potency == p), "ticks of every target")
    env.check(len(hits) == 3 * n, "one hit and two ticks per target")
    env.cover("dots")


def h_names(env):
    """target lists are comma separated, blanks do not matter; without a list the default target is used"""
    r = kit.imp()
    H = r.Skill(name="H", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=100))
    tg, want = env.choice("tg", (("A,B", ["A", "B"]), ("  A , B", ["A", "B"]), ("A B,C ", ["A B", "C"]), (None, ["Boss"])))
    nxt = env.flag("next")
    s, lib = kit.stats(r), kit.library(r, [H])
    rb = r.RotationBuilder(s, lib, default_target="Boss")
    if nxt:
        rb.add_next("H", targets=tg)
    else:
        rb.add(env.int("t", 0, 10), "H", targets=tg)
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    env.check([h[5] for h in hits] == want, "targets")
