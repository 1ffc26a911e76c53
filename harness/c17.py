"""C17: nothing damages a target during its downtime."""
from harness.common import *
from harness import kit

BOUNDS = ("up to two downtime windows (any start and end in ms, 0..30 s) per target, for all damage or one damage class (windows of different classes may overlap), given for all targets or per target, and seven listed windows in any of five orders; "
          "a hit pressed at any multiple of 125 ms with any cast 0..3000 ms and delay 0..3000 ms on one to three targets, DoT ticks, follow-ups, and an effect-only skill; "
          "timeline absolute or relative to the first damage")
OUTSIDE = "more than two arbitrary windows per target; skills that both damage and apply an effect"
COVERS = ("in_app", "in_snap", "out", "edge_start", "edge_end", "class_kept", "class_removed", "other_target", "effect_kept", "relative", "tick_removed", "overlap", "many")


def tasks(tier):
    t = []
    for cls in (None, "DIRECT", "AUTO"):
        for form in ("tuple", "dict"):
            t.append(dict(h="h_window", cls=cls, form=form))
    t.append(dict(h="h_two"))
    t += [dict(h="h_many", form=f) for f in ("tuple", "dict")]
    t.append(dict(h="h_targets"))
    t.append(dict(h="h_dot"))
    t.append(dict(h="h_relative"))
    return t


def inside(t, w):
    return And(w[0] <= t, t < w[1])


def window(env, name=""):
    a = env.int(name + "start", 0, 30000, seeds=(2007,))
    b = env.int(name + "end", 0, 30000, seeds=(4011,))
    env.assume(a <= b)
    return (a / 1000, b / 1000), (a, b)


def build(r, env, lo=0):
    c = env.int("cast", 0, 3000)
    d = env.int("delay", 0, 3000)
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    return ts, c, d


def times(t, c, d):
    return t + smax(0, c - 500), t + c + ite(c > 0, smax(0, d - 500), d)


def h_window(env, cls, form):
    r = kit.imp()
    (a, b), w = window(env)
    ts, c, d = build(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100))
    E = r.Skill(name="E", is_GCD=True, timing_spec=ts, buff_spec=r.StatusEffectSpec(duration=1000))
    win = (a, b) if cls is None else (a, b, getattr(r.DamageClass, cls))
    s, lib = kit.stats(r), kit.library(r, [H, E])
    rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows=(win,) if form == "tuple" else {"T": (win,)}, default_target="T")
    k = env.int("t", 0, 200)
    rb.add(k / 8, "H")
    rb.add(k / 8, "E")
    ev = kit.drain(rb.get_skill_timing())
    sn, app = times(k * 125, c, d)
    gone = Or(inside(sn, w), inside(app, w)) if cls != "AUTO" else False
    env.check(len([e for e in ev if e.skill.name == "E"]) == 1, "effects are not filtered")
    env.cover("effect_kept")
    hits = [e for e in ev if e.skill.name == "H"]
    env.check((len(hits) == 0) == gone, "a hit is removed exactly if it snapshots or lands in a downtime window")
    if hits:
        env.check(And(kit.app(hits[0]) == app, hits[0].event_times.primary == sn), "kept hits keep their times")
        env.cover("class_kept" if cls == "AUTO" else "out")
        env.check(hits[0].targets == ("T",), "kept hits keep their target")
        if bool(app == w[1]):
            env.cover("edge_end")
    else:
        env.cover("class_removed" if cls else "in_app")
        if not bool(inside(app, w)):
            env.cover("in_snap")
        if bool(app == w[0]):
            env.cover("edge_start")


def h_two(env):
    r = kit.imp()
    (a, b), w1 = window(env, "a_")
    (a2, b2), w2 = window(env, "b_")
    c1, c2 = env.choice("c1", (None, "MAGICAL_DOT", "AUTO")), env.choice("c2", (None, "MAGICAL_DOT"))
    if c1 == c2:
        env.assume(w1[1] <= w2[0])
    elif bool(And(w1[0] < w2[1], w2[0] < w1[1])):
        env.cover("overlap")
    cls = env.choice("cls", ("DIRECT", "MAGICAL_DOT", "AUTO"))
    H = r.Skill(name="H", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0),
                damage_spec=r.DamageSpec(potency=100, damage_class=getattr(r.DamageClass, cls)))
    s, lib = kit.stats(r), kit.library(r, [H])

    def win(x, y, c):
        return (x, y) if c is None else (x, y, getattr(r.DamageClass, c))
    rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows=(win(a, b, c1), win(a2, b2, c2)))
    k = env.int("t", 0, 240)
    rb.add(k / 8, "H")
    n = len(kit.drain(rb.get_skill_timing()))
    t = k * 125
    gone = Or(And(inside(t, w1), c1 in (None, cls)), And(inside(t, w2), c2 in (None, cls)))
    env.check((n == 0) == gone, "each window removes its own damage class")


MANY = ((1, 2), (4.5, 4.75), (6, 9, "AUTO"), (10, 11), (12, 13), (14.25, 16), (20, 30, "DIRECT"))
ORDERS = ((0, 1, 2, 3, 4, 5, 6), (6, 5, 4, 3, 2, 1, 0), (3, 0, 6, 1, 5, 2, 4), (5, 4, 0, 6, 3, 1, 2), (2, 6, 1, 4, 0, 3, 5))


def h_many(env, form):
    """many windows of one target, listed in any order"""
    r = kit.imp()
    order = env.choice("order", ORDERS)
    ts, c, d = build(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100))
    win = tuple((MANY[i][0], MANY[i][1]) + ((getattr(r.DamageClass, MANY[i][2]),) if len(MANY[i]) > 2 else ()) for i in order)
    rb = r.RotationBuilder(kit.stats(r), kit.library(r, [H]), fight_start_time=0, downtime_windows=win if form == "tuple" else {"T": win, "U": ((0, 30),)}, default_target="T")
    k = env.int("t", 0, 240)
    rb.add(k / 8, "H")
    sn, app = times(k * 125, c, d)
    hit = [m for m in MANY if len(m) == 2 or m[2] == "DIRECT"]
    gone = Or(*[Or(inside(sn, w), inside(app, w)) for w in [(1000 * m[0], 1000 * m[1]) for m in hit]])
    env.check((len(kit.drain(rb.get_skill_timing())) == 0) == gone, "every one of the windows counts")
    env.cover("many")


def h_targets(env):
    r = kit.imp()
    (a, b), w = window(env)
    ts, c, d = build(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, has_aoe=True, damage_spec=r.DamageSpec(potency=100))
    s, lib = kit.stats(r), kit.library(r, [H])
    which = env.choice("which", (("B",), ("A", "C"), ("Z",)))
    rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows={x: ((a, b),) for x in which})
    k = env.int("t", 0, 100)
    tg = env.choice("targets", ("A, B, C", "B", "A,B"))
    rb.add(k / 8, "H", targets=tg)
    ev = kit.drain(rb.get_skill_timing())
    sn, app = times(k * 125, c, d)
    gone = Or(inside(sn, w), inside(app, w))
    got = [x for e in ev for x in e.targets]
    for x in tg.replace(" ", "").split(","):
        hit = x in got
        env.check(hit == (Not(gone) if x in which else True), "only the target in downtime is spared")
        if x not in which:
            env.cover("other_target")


def h_dot(env):
    r = kit.imp()
    (a, b), w = window(env)
    only = env.flag("only_dots")
    F = r.Skill(name="F", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.PHYSICAL_DOT))
    G = r.Skill(name="G", damage_spec=r.DamageSpec(potency=50))
    f = env.int("f", 0, 3000)
    P = r.Skill(name="P", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=100),
                follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=0, snapshot_buffs_with_parent=False,
                                             snapshot_debuffs_with_parent=False, dot_duration=6000),
                                  r.FollowUp(skill=G, delay_after_parent_application=f, snapshot_buffs_with_parent=False,
                                             snapshot_debuffs_with_parent=False)))
    s, lib = kit.stats(r), kit.library(r, [P])
    rb = r.RotationBuilder(s, lib, fight_start_time=0, downtime_windows=((a, b, r.DamageClass.PHYSICAL_DOT) if only else (a, b),))
    k = env.int("t", 0, 100)
    rb.add(k / 8, "P")
    ev = kit.drain(rb.get_skill_timing())
    t = k * 125
    env.check((len([e for e in ev if e.skill.name == "P"]) == 1) == Or(only, Not(inside(t, w))), "parent")
    env.check((len([e for e in ev if e.skill.name == "G"]) == 1) == Or(only, Not(inside(t + f, w))), "follow-up judged by its own time")
    for i in (0, 1):
        gone = Or(inside(t, w), inside(t + 3000 * i, w))
        n = len([e for e in ev if e.skill.name == "F" and bool(kit.app(e) == t + 3000 * i)])
        env.check((n == 0) == gone, "tick judged by its snapshot and its own time")
        if n == 0:
            env.cover("tick_removed")


def h_relative(env):
    """without a fight start, times (and windows) count from the first damage"""
    r = kit.imp()
    (a, b), w = window(env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=100))
    s, lib = kit.stats(r), kit.library(r, [H])
    rb = r.RotationBuilder(s, lib, downtime_windows=((a, b),))
    k1, k2 = env.int("t1", -40, 80), env.int("t2", -40, 200)
    env.assume(k1 < k2)
    rb.add(k1 / 8, "H")
    rb.add(k2 / 8, "H")
    got = [kit.app(e) for e in kit.drain(rb.get_skill_timing())]
    t2 = (k2 - k1) * 125
    want = ite(inside(0, w), 0, 1) + ite(inside(t2, w), 0, 1)
    env.check(len(got) == want, "windows count from the first damage")
    for x in got:
        env.check(Or(x == 0, x == t2), "times count from the first damage")
    env.cover("relative")
