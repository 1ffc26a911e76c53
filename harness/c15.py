"""C15: which buffs and debuffs a hit gets is decided at its snapshot (or application) time."""
from harness.common import *
from harness import kit

BOUNDS = ("one effect window (any application delay 0..3000 ms, duration 1..30000 ms) against one hit, both pressed at any multiple of 125 ms within 20 s; "
          "cast time 0..4000 ms, application delay 0..3000 ms, follow-up delay 0..4000 ms, every snapshot flag combination, DoT follow-ups of 9 s (every tick); "
          "gauge gained by another skill at any time; follow-up order with up to three simultaneous follow-ups; one or two targets")
OUTSIDE = "effects and gauges that change between the hits of one attack on its first and second target (135 ms); an effect that starts at the very millisecond of the snapshot (order then unspecified)"
COVERS = ("in", "before", "after", "last_ms", "cast", "instant", "short_cast", "collapsed", "tick", "res_snap", "res_app", "order", "bystander")

FLAGS = ((1, 1), (1, 0), (0, 1), (0, 0))


def tasks(tier):
    t = []
    for kind in ("buff", "debuff"):
        t.append(dict(h="h_direct", kind=kind))
        for fl in range(4):
            t.append(dict(h="h_follow", kind=kind, fl=fl))
            t.append(dict(h="h_dot", kind=kind, fl=fl))
            t.append(dict(h="h_multi", kind=kind, fl=fl))
        t.append(dict(h="h_multi", kind=kind, fl=None))
        t.append(dict(h="h_bystander", kind=kind))
    for snap in (0, 1):
        t.append(dict(h="h_resource", snap=snap, n=1))
        t.append(dict(h="h_resource", snap=snap, n=2))
    for cast in (0, 1):
        t.append(dict(h="h_order", cast=cast))
    t.append(dict(h="h_flags"))
    return t


def effect(r, env, kind, most=160):
    """a non-damaging effect skill E pressed at some time: (skill, seconds, window start, window end)"""
    d = env.int("eff_delay", 0, 3000) if most == 160 else 0
    dur = env.int("eff_dur", 1, 30000)
    ts = r.TimingSpec(base_cast_time=0, animation_lock=0, application_delay=d)
    E = r.Skill(name="E", is_GCD=False, timing_spec=ts, **{kind + "_spec": r.StatusEffectSpec(duration=dur, damage_mult=1.5)})
    k = env.int("eff_t", 0, most)
    return E, k / 8, k * 125 + d, k * 125 + d + dur


def timing(r, env, lo_cast=0, cast=None):
    c = env.int("cast", lo_cast, 4000) if cast is None else cast
    d = env.int("delay", 0, 3000) if cast is None else env.choice("de", (0, 700))
    return r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False,
                        affected_by_haste_buffs=False), c, d


def times(t, c, d):
    return t + smax(0, c - 500), t + c + ite(c > 0, smax(0, d - 500), d)


def judge(env, hit, kind, at, lo, hi):
    got = "E" in hit[3][0 if kind == "buff" else 1].status_effects
    other = hit[3][1 if kind == "buff" else 0].status_effects
    env.check(other == (), "only the effect's own kind")
    env.assume(at != lo)
    env.check(got == And(at > lo, at <= hi), "the effect counts exactly if it is active at the decisive time")
    env.check((hit[3][0 if kind == "buff" else 1].damage_mult == 1.5) == got, "with its strength")
    if got:
        env.cover("in")
        if bool(at == hi):
            env.cover("last_ms")
    else:
        env.cover("before" if bool(at < lo) else "after")


def run(r, lib, presses, targets=None):
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    for t, n in presses:
        if n == "E" and targets is not None:
            each = targets.split(", ") if lib.get_skill(n, s.job_class).has_debuff else (None,)
            for x in each:
                rb.add(t, n, targets=x)
        else:
            rb.add(t, n, targets=targets)
    return r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())


def h_direct(env, kind):
    r = kit.imp()
    E, te, lo, hi = effect(r, env, kind)
    ts, c, d = timing(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100))
    k = env.int("t", 0, 160)
    hits = run(r, kit.library(r, [E, H]), [(te, "E"), (k / 8, "H")])
    env.check(len(hits) == 1, "one hit")
    snap, app = times(k * 125, c, d)
    env.check(hits[0][0] == app, "damage lands after cast and application delay")
    env.cover("instant" if bool(c == 0) else "short_cast" if bool(c <= 500) else "cast")
    if bool(snap == app):
        env.cover("collapsed")
    judge(env, hits[0], kind, snap, lo, hi)


def h_follow(env, kind, fl):
    r = kit.imp()
    sb, sd = FLAGS[fl]
    E, te, lo, hi = effect(r, env, kind)
    ts, c, d = timing(r, env)
    f = env.int("f", 0, 4000)
    F = r.Skill(name="F", damage_spec=r.DamageSpec(potency=50))
    P = r.Skill(name="P", is_GCD=True, timing_spec=ts,
                follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=f, snapshot_buffs_with_parent=bool(sb),
                                             snapshot_debuffs_with_parent=bool(sd)),))
    k = env.int("t", 0, 160)
    hits = run(r, kit.library(r, [E, P]), [(te, "E"), (k / 8, "P")])
    env.check(len(hits) == 1, "one hit")
    snap, app = times(k * 125, c, d)
    env.check(hits[0][0] == app + f, "follow-up lands its delay after its parent")
    at = snap if (sb if kind == "buff" else sd) else app + f
    judge(env, hits[0], kind, at, lo, hi)


def h_multi(env, kind, fl):
    """the same on two targets"""
    r = kit.imp()
    sb, sd = FLAGS[fl] if fl is not None else (1, 1)
    E, te, lo, hi = effect(r, env, kind, 40)
    ts, c, d = timing(r, env, cast=env.choice("ca", (0, 300, 2000)))
    f = env.choice("f", (0, 1300)) if fl is not None else 0
    F = r.Skill(name="F", has_aoe=True, damage_spec=r.DamageSpec(potency=50))
    if fl is None:
        P = r.Skill(name="P", is_GCD=True, has_aoe=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=50))
    else:
        P = r.Skill(name="P", is_GCD=True, timing_spec=ts,
                    follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=f, snapshot_buffs_with_parent=bool(sb),
                                                 snapshot_debuffs_with_parent=bool(sd), primary_target_only=False),))
    k = env.int("t", 0, 40)
    hits = run(r, kit.library(r, [E, P]), [(te, "E"), (k / 8, "P")], "A, B")
    env.check([h[5] for h in hits] == ["A", "B"], "one hit per target")
    snap, app = times(k * 125, c, d)
    env.check(hits[0][0] == app + f, "lands on the first target at its time")
    at = snap if (sb if kind == "buff" else sd) else app + f
    # hits on further targets land a little later
    late = hits[1][0]
    env.check(And(late >= app + f, late <= app + f + 500), "and shortly after on the second")
    env.assume(And(Or(lo < app + f, lo > late), Or(hi < app + f, hi >= late)))
    judge(env, hits[0], kind, at, lo, hi)
    judge(env, hits[1], kind, at, lo, hi)


def h_bystander(env, kind):
    """an attack that spreads over several targets changes nothing for the other hits"""
    r = kit.imp()
    E, te, lo, hi = effect(r, env, kind, 40)
    ts, c, d = timing(r, env, cast=env.choice("ca", (0, 300, 2000)))
    G = r.Skill(name="G", is_GCD=True, has_aoe=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=50))
    H = r.Skill(name="H", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0, application_delay=env.choice("hd", (0, 700))),
                damage_spec=r.DamageSpec(potency=100))
    s, lib = kit.stats(r), kit.library(r, [E, G, H])
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    k, kg = env.int("t", 0, 40), env.choice("tg", (0, 3))
    rb.add(kg / 8, "G", targets="A, B, C")
    rb.add(te, "E", targets="A")
    rb.add(k / 8, "H", targets="A")
    hits = [h for h in r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing()) if h[1].name == "H"]
    env.check(len(hits) == 1, "one hit")
    judge(env, hits[0], kind, k * 125, lo, hi)
    env.cover("bystander")


def h_dot(env, kind, fl):
    r = kit.imp()
    sb, sd = FLAGS[fl]
    E, te, lo, hi = effect(r, env, kind)
    ts, c, d = timing(r, env)
    F = r.Skill(name="F", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.MAGICAL_DOT))
    P = r.Skill(name="P", is_GCD=True, timing_spec=ts,
                follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=0, snapshot_buffs_with_parent=bool(sb),
                                             snapshot_debuffs_with_parent=bool(sd), dot_duration=9000),))
    k = env.int("t", 0, 160)
    hits = run(r, kit.library(r, [E, P]), [(te, "E"), (k / 8, "P")])
    env.check(len(hits) == 3, "three ticks in nine seconds")
    snap, app = times(k * 125, c, d)
    for i, h in enumerate(hits):
        env.check(h[0] == app + 3000 * i, "tick time")
        env.cover("tick")
        judge(env, h, kind, snap if (sb if kind == "buff" else sd) else app + 3000 * i, lo, hi)


def h_resource(env, snap, n):
    """a gauge condition is evaluated at the snapshot, or at application for skills that say so"""
    r = kit.imp()
    J = r.JobResourceSpec
    ts, c, d = timing(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, job_resources_snapshot=bool(snap),
                damage_spec={"": r.DamageSpec(potency=100), "1 G": r.DamageSpec(potency=200)})
    g = r.Skill(name="g", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), job_resource_spec=(J(name="G", change=1),))
    k, kg = env.int("t", 0, 80), env.int("tg", 0, 160)
    lib = kit.library(r, [H, g], resources=(("G", r.JobResourceSettings(max_value=1, skill_allowlist=("H",))),))
    hits = run(r, lib, [(k / 8, "H"), (kg / 8, "g")], "A, B" if n == 2 else None)
    env.check(len(hits) == n, "one hit per target")
    sn, app = times(k * 125, c, d)
    at = sn if snap else app
    env.assume(at != kg * 125)
    # a gauge already filled when the button is pressed counts too
    on = Or(kg * 125 < at, kg * 125 < k * 125)
    if n == 2:  # the second target is hit a little later
        env.assume(Or(kg * 125 < at, kg * 125 > hits[1][0]))
    for h in hits:
        env.check(h[1].get_damage_spec(h[2]).potency == ite(on, 200, 100), "gauge at the decisive time")
    env.cover("res_snap" if snap else "res_app")


def h_order(env, cast):
    """follow-ups take effect in the listed order, after their parent"""
    r = kit.imp()
    F = r.FollowUp
    c = env.int("cast", 1, 4000) if cast else 0
    d = env.int("delay", 0, 3000)
    snapb = env.flag("snap_b")
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    x = r.Skill(name="x", damage_spec=r.DamageSpec(potency=50))
    B = r.Skill(name="B", buff_spec=r.StatusEffectSpec(duration=30000, damage_mult=1.5))
    y = r.Skill(name="y", damage_spec=r.DamageSpec(potency=60))
    late = dict(snapshot_buffs_with_parent=False, snapshot_debuffs_with_parent=False)
    fx, fb, fy = F(x, 0, **late), F(B, 0, snapshot_buffs_with_parent=snapb, snapshot_debuffs_with_parent=snapb), F(y, 0, **late)
    pos = env.choice("pos", (0, 1, 2))
    fus = [fx, fy]
    fus.insert(pos, fb)
    P = r.Skill(name="P", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100), follow_up_skills=tuple(fus))
    hits = {h[1].name: h for h in run(r, kit.library(r, [P]), [(0, "P")])}
    env.check(set(hits) == {"P", "x", "y"}, "three hits")
    env.check("B" not in hits["P"][3][0].status_effects, "the parent is not affected by its own follow-up")
    env.check(("B" in hits["x"][3][0].status_effects) == (pos <= 0), "a follow-up is affected by those listed before it")
    env.check(("B" in hits["y"][3][0].status_effects) == (pos <= 1), "a follow-up is affected by those listed before it")
    env.cover("order")


def h_flags(env):
    """the modifier may skip the cast or the application delay"""
    r = kit.imp()
    ts, c, d = timing(r, env)
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100))
    nc, nd = env.flag("nocast"), env.flag("nodelay")
    lib = kit.library(r, [H])
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add(1, "H", skill_modifier=r.SkillModifier(ignore_cast_times=nc, ignore_application_delay=nd))
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    cc = 0 if nc else c
    dd = 0 if nd else d
    env.check(hits[0][0] == times(1000, cc, dd)[1], "cast and delay skipped on request")
