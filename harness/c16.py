"""C16: damage-over-time effects tick every 3 s, once, while they last."""
from harness.common import *
from harness import kit

BOUNDS = ("one to three applications of one or two DoTs on one or two targets, pressed at any multiple of 125 ms (gaps up to 15 s), cast 0 or 2500 ms, any "
          "application delay 0..3000 ms, durations 1..9000 ms or 3000/9000/12000 ms; server-tick snapping off or at any multiple of 125 ms -3..6 s (several applications: four offsets, application times arbitrary); trailing ticks kept or dropped; "
          "two applications that take effect in another order than they were pressed or entered (cast times, sequence and timed presses mixed)")
OUTSIDE = "more than three applications, durations above 12 s"
COVERS = ("tick", "refreshed", "expired", "other_target", "other_dot", "snapped", "aligned", "dropped", "none", "overtaken")


def tasks(tier):
    t = []
    for seq in ("a", "aa", "ab", "aA", "aBa", "aaa"):
        for snap in (0, 1):
            for trail in (0, 1):
                if len(seq) == 3 and (snap or trail) and tier == "quick":
                    continue
                t.append(dict(h="h_dots", seq=seq, snap=snap, trail=trail, dur=9000 if len(seq) > 1 else 12000))
                if seq in ("a", "aa"):
                    t.append(dict(h="h_dots", seq=seq, snap=snap, trail=trail, dur=0))
    t.append(dict(h="h_e2e"))
    for how in ("slow", "sequence"):
        for snap in (0, 1):
            t.append(dict(h="h_order", how=how, snap=snap))
    if tier == "thorough":
        for seq in ("aba", "abAB", "aAaA"):
            t.append(dict(h="h_dots", seq=seq, snap=1, trail=1, dur=6000))
    return t


def h_dots(env, seq, snap, trail, dur):
    r = kit.imp()
    if not dur:
        dur = env.int("dur", 1, 9000)
    cast = env.choice("cast", (0, 2500)) if len(seq) == 1 else 0
    d = env.int("delay", 0, 3000)
    ts = r.TimingSpec(base_cast_time=cast, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    sk = {}
    for n in "ab":
        tick = r.Skill(name=n + " tick", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.PHYSICAL_DOT))
        sk[n] = r.Skill(name=n, is_GCD=True, timing_spec=ts, follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=dur),))
    lib = kit.library(r, list(sk.values()))
    ks = None
    if snap:
        ks = env.int("snap", -24, 48) if len(seq) == 1 else env.choice("snap", (-9, 0, 1, 31))
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0, ignore_trailing_dots=bool(trail),
                           snap_dots_to_server_tick_starting_at=ks / 8 if snap else None)
    k = env.int("t0", -16, 16)
    apps = []
    last = None
    for i, c in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 120)
        rb.add(k / 8, c.lower(), targets="T2" if c.isupper() else "T1")
        a = k * 125 + cast + (d if cast == 0 else smax(0, d - 500))
        apps.append((c, a))
        last = a
    ev = kit.drain(rb.get_skill_timing())
    want = []
    for i, (c, a) in enumerate(apps):
        nxt = next((b for x, b in apps[i + 1:] if x == c), None)
        end = a + dur
        if nxt is not None:
            env.cover("refreshed" if bool(nxt < end) else "expired")
            end = smin(end, nxt)
        s = a
        if snap:
            off = (a - 125 * ks) % 3000
            s = ite(off == 0, a, a - off + 3000)
            env.cover("aligned" if bool(off == 0) else "snapped")
        for j in range(5):
            tj = s + 3000 * j
            if not bool(tj < end):
                break
            if trail and bool(tj > last):
                env.cover("dropped")
                break
            want.append((c, tj))
    for c in dict.fromkeys(seq):
        tgt = ("T2",) if c.isupper() else ("T1",)
        got = sorted_times(env, [kit.app(e) for e in ev if e.skill.name == c.lower() + " tick" and e.targets == tgt])
        w = [x for n, x in want if n == c]
        env.check(len(got) == len(w), "number of ticks")
        for x, y in zip(got, w):
            env.check(x == y, "tick time")
            env.cover("tick")
        if not w:
            env.cover("none")
        if c.isupper():
            env.cover("other_target")
        if c == "b":
            env.cover("other_dot")
    env.check(len([e for e in ev if "tick" in e.skill.name]) == len(want), "no other ticks")


def sorted_times(env, xs):
    return sorted(xs)


def h_e2e(env):
    """every tick is a hit of its own with the DoT's damage class, at its time, on its target"""
    r = kit.imp()
    tick = r.Skill(name="tick", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.MAGICAL_DOT))
    P = r.Skill(name="P", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=100),
                follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=env.choice("dur", (3000, 6000, 15000))),))
    lib = kit.library(r, [P])
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    k = env.int("t", 0, 40)
    rb.add(k / 8, "P", targets="X")
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    n = P.follow_up_skills[0].dot_duration // 3000
    env.check(len(hits) == 1 + n, "one hit and its ticks")
    got = [h for h in hits if h[1].name == "tick"]
    for i, h in enumerate(got):
        env.check(h[0] == 125 * k + 3000 * i, "tick time")
        env.check(h[5] == "X", "tick target")
        env.check(h[1].get_damage_spec(h[2]).damage_class == r.DamageClass.MAGICAL_DOT, "tick class")
    env.check(len({h[4] for h in hits}) == len(hits), "distinct events")
    env.cover("tick")


def h_order(env, how, snap):
    """an application counts from when it takes effect, whatever the order of the presses or calls"""
    r = kit.imp()
    tick = r.Skill(name="tick", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.PHYSICAL_DOT))
    kw = dict(animation_lock=0, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    ts = {"": r.TimingSpec(base_cast_time=0, application_delay=0, **kw), "slow": r.TimingSpec(base_cast_time=4000, application_delay=600, **kw)}
    P = r.Skill(name="P", is_GCD=True, timing_spec=ts, follow_up_skills=(r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=6000),))
    W = r.Skill(name="W", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=env.int("w", 0, 9000), application_delay=0))
    lib = kit.library(r, [P, W])
    ks = env.choice("snap", (0, 7)) if snap else None
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0, snap_dots_to_server_tick_starting_at=ks / 8 if snap else None)
    k = env.int("k", 0, 60)
    apps = []
    if how == "slow":
        rb.add(0, "P", skill_modifier=r.SkillModifier(with_condition="slow"))
        apps.append((3500, 4100))
    else:
        rb.add_next("W")
        rb.add_next("P")
        w = W.timing_spec.animation_lock
        apps.append((w, w))
    rb.add(k / 8, "P")
    apps.append((k * 125, k * 125))
    env.assume(apps[0][1] != apps[1][1])
    if bool(apps[1][1] < apps[0][1]):
        apps.reverse()
        env.cover("overtaken")
    want = []
    for i, (sn, a) in enumerate(apps):
        end = a + 6000 if i else smin(a + 6000, apps[1][1])
        s0 = a
        if snap:
            off = (a - 125 * ks) % 3000
            s0 = ite(off == 0, a, a - off + 3000)
        for j in range(3):
            if not bool(s0 + 3000 * j < end):
                break
            want.append((sn, s0 + 3000 * j))
    got = [(e.event_times.primary, kit.app(e)) for e in kit.drain(rb.get_skill_timing()) if e.skill.name == "tick"]
    got = sorted(got, key=lambda x: x[1])
    env.check(len(got) == len(want), "number of ticks")
    for x, y in zip(got, want):
        env.check(x[1] == y[1], "tick time")
        env.check(x[0] == y[0], "a tick snapshots with its own application")
