"""C20: auto-attack cadence."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = ("up to four autos: weapon delay 2.50..4.00 s (any hundredth), any landing delay, first and last event at any multiple of 125 ms within 12 s, a speed effect (own, or of the "
          "target) at any time, delay and duration, limited to autos or to other skills, conditional or not; casts and channels at any time (entered in any order), a cast during a longer cast or during a channel that lets it; one downtime window, or one per target; "
          "casts whose length depends on an effect, a gauge or a combo; target switches at any time; casts, channels and targets of allies; effects ended or replaced at any time; DoTs as last event; no damage at all; trait-hasted job; timeline absolute or relative")
OUTSIDE = "casts of a rotation entered as a sequence (see known findings); a downtime window that touches a cast, or a change of target between two autos of which the second meets a downtime (an existing test fixes that it then waits for the earlier target)"
COVERS = ("auto", "none", "fast", "slow", "cast", "channel", "downtime", "switch", "trait", "relative", "allow", "cond", "changed", "overlap", "ended", "ally", "nodamage", "dots", "own_window")


def tasks(tier):
    t = [dict(h="h_cadence", job=j) for j in ("test_job", "test_job_haste")]
    t += [dict(h="h_speed", kind=k, lim=l) for k in ("buff", "debuff") for l in ("", "Auto", "other", "cond", "after", "follow", "named", "cleared", "replaced") if (k, l) != ("debuff", "cleared")]
    t += [dict(h="h_cast", order=o, ch=c) for o in (0, 1) for c in (0, 1)]
    t += [dict(h="h_overlap", ch=c) for c in (0, 1)]
    ps = [list(x) for x in itertools.permutations(range(4))]
    t += [dict(h="h_perm", perms=ps[i:i + 6]) for i in range(0, 24, 6)]
    t += [dict(h="h_downtime", rel=x, cls=c) for x in (0, 1) for c in (0, 1)]
    t += [dict(h="h_changed", how=x) for x in ("flat", "cond", "debuffcond", "gauge", "combo", "haste", "chancond", "flatdelay", "flatfollow", "ally", "allychan")]
    t += [dict(h="h_switch", ally=x) for x in (0, 1)]
    t += [dict(h="h_nodamage"), dict(h="h_dots"), dict(h="h_own_window"), dict(h="h_shot"), dict(h="h_sequence_cast")]
    return t


def base(r, extra=(), land=532, jobs=("test_job",), shot=False):
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    auto = r.Skill(name="Auto", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, application_delay=land),
                   damage_spec=r.DamageSpec(potency=90, damage_class=r.DamageClass.AUTO))
    H = r.Skill(name="H", is_GCD=True, timing_spec=ts0, damage_spec=r.DamageSpec(potency=1))
    sk = [auto, H, *extra]
    if shot:
        sk.append(r.Skill(name="Shot", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, application_delay=land),
                          damage_spec=r.DamageSpec(potency=80, damage_class=r.DamageClass.AUTO)))
    return kit.library(r, sk, jobs=jobs)


def autos(ev, name="Auto"):
    return sorted([(e.event_times.primary, kit.app(e), e.targets) for e in ev if e.skill.name == name], key=lambda x: x[0])


def h_cadence(env, job):
    r = kit.imp()
    wd = env.int("wd", 200, 400)
    land = env.int("land", 0, 1500)
    lib = base(r, land=land, jobs=(job,))
    rel = env.flag("rel")
    rb = r.RotationBuilder(kit.stats(r, job, weapon_delay=wd / 100), lib, enable_autos=True, **({} if rel else dict(fight_start_time=0)))
    a = env.int("a", -8, 8)
    b = a + env.int("len", 0, 80)
    rb.add(b / 8, "H")
    rb.add(a / 8, "H")
    ev = kit.drain(rb.get_skill_timing())
    got = autos(ev)
    first = 0 if rel else 125 * a
    last = first + 125 * (b - a)
    step = wd * 10 if job == "test_job" else wd * 8
    step = step - step % 10
    n = 0
    t = first
    while bool(t + land < last):
        env.check(n < len(got), "autos go on until the last event")
        if n >= len(got):
            return
        ok = got[n][0] == t
        if job == "test_job_haste" and n:
            # the trait product may lose one centisecond to binary rounding when it is whole
            ok = Or(ok, And(got[n][0] <= t, got[n][0] >= t - 10 * n, wd * 8 % 10 == 0))
        env.check(ok, "an auto every weapon delay, starting with the first damage")
        t = got[n][0]
        env.check(got[n][1] == t + land, "an auto lands its delay later")
        n += 1
        t = t + step
        env.cover("auto")
    env.check(len(got) == n, "no auto lands at or after the last event")
    if n == 0:
        env.cover("none")
    if job != "test_job":
        env.cover("trait")
    if rel:
        env.cover("relative")


def follow(env, got, first, last, land, step, delayed=None, check_n=True):
    """compare the autos with the rule; step(t): delay after an auto at t; delayed(t): earliest time >= t an auto may happen"""
    t, n = first, 0
    while bool(t + land < last):
        env.check(n < len(got), "autos go on until the last event")
        if n >= len(got):
            return n
        env.check(got[n][0] == t, "time of the auto")
        t = t + step(t)
        if delayed:
            t = delayed(t)
        n += 1
    env.check(len(got) == n, "no auto lands at or after the last event")
    return n


def h_speed(env, kind, lim):
    r = kit.imp()
    delay, dur = env.int("delay", 0, 3000), env.int("dur", 1, 9000)
    ts = r.TimingSpec(base_cast_time=0, animation_lock=0, application_delay=delay)
    SE = r.StatusEffectSpec
    allow = {"Auto": dict(skill_allowlist=("Auto",)), "other": dict(skill_allowlist=("B", "H"))}.get(lim, {})
    spec = SE(duration=dur, auto_attack_delay_reduction=0.25, **allow)
    if lim == "cond":
        spec = {"": SE(duration=dur, damage_mult=1.5), "k": spec}
    if lim == "replaced":
        spec = {"": spec, "k": SE(duration=dur, damage_mult=1.5)}
    if lim == "follow":
        F = r.Skill(name="Bf", **{kind + "_spec": spec})
        B = r.Skill(name="B", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0),
                    follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=delay),))
    else:
        B = r.Skill(name="B", is_GCD=False, timing_spec=ts, **{kind + "_spec": spec})
    # a second, unrelated speed effect of the same kind that is limited to itself
    Z = r.Skill(name="Z", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0),
                buff_spec=SE(duration=9000, haste_time_reduction=0.1, skill_allowlist=("Z",)))
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    X = r.Skill(name="X", is_GCD=False, timing_spec=ts0, **({"buff_spec": SE(duration=1, clear_all_status_effects=True)} if lim == "cleared" else
                                                           {kind + "_spec": SE(duration=1, expires_status_effects=("B",))}))
    lib = base(r, [B, Z, X])
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=True, fight_start_time=0)
    kb = env.int("tb", -16, 80)
    kz = env.int("len", 24, 80)
    on_cond = env.flag("k") if lim == "cond" else False
    rb.add(0, "H")
    rb.add(kb / 8, "B", skill_modifier=r.SkillModifier(with_condition="k" if on_cond else ""))
    ends = lim in ("named", "cleared", "replaced")
    if ends:
        kx = env.int("x", -16, 80)
        env.assume(kx > kb)
        tx = 125 * kx + (delay if lim == "replaced" else 0)
        rb.add(kx / 8, *(("B", r.SkillModifier(with_condition="k")) if lim == "replaced" else ("X",)))
    if lim == "after":
        rb.add(env.int("tz", 0, 20) / 8, "Z")
    rb.add(10, "H")
    got = autos(kit.drain(rb.get_skill_timing()))
    lo, hi = 125 * kb + delay, 125 * kb + delay + dur
    if ends:
        # an effect that is ended or replaced is gone from then on
        if bool(Or(tx < lo, tx > hi)):
            env.assume(tx != lo)
        else:
            env.assume(tx > lo)
            hi = tx
            env.cover("ended")
    works = lim in ("", "Auto", "after", "follow", "named", "cleared", "replaced") or on_cond

    def step(t):
        if ends:
            env.assume(t != tx)
        on = works and bool(And(lo <= t, t <= hi))
        env.cover("fast" if on else "slow")
        return 2250 if on else 3000
    follow(env, got, 0, smax(smax(10000, lo), tx) if ends else smax(10000, lo), 532, step)
    if lim in ("Auto", "other"):
        env.cover("allow")
    if lim == "cond":
        env.cover("cond")


def h_cast(env, order, ch):
    """no auto while casting or channeling: it waits for the end"""
    r = kit.imp()
    c = env.int("cast", 1, 4000)
    T = r.TimingSpec
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    if ch:
        C = r.Skill(name="C", is_GCD=True, timing_spec=T(base_cast_time=0, animation_lock=0, **flat), channeling_spec=r.ChannelingSpec(duration=c))
    else:
        C = r.Skill(name="C", is_GCD=True, timing_spec=T(base_cast_time=c, animation_lock=0, **flat))
    lib = base(r, [C])
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=True, fight_start_time=0)
    k1 = env.int("t1", 1, 30)
    k2 = k1 + env.int("gap", 1, 30)
    p = [(0, "H"), (k1 / 8, "C"), (k2 / 8, "C"), (10, "H")]
    if not ch:
        env.assume(125 * k1 + c < 125 * k2)
    for t, n in (reversed(p) if order else p):
        rb.add(t, n)
    got = autos(kit.drain(rb.get_skill_timing()))
    per = [(125 * k1, smin(125 * k1 + c, 125 * k2)), (125 * k2, smin(125 * k2 + c, 10000) if ch else 125 * k2 + c)]

    def delayed(t):
        out = t
        for a, b in per:
            if bool(And(a <= t, t <= b)):
                out = smax(out, b)
                env.cover("channel" if ch else "cast")
        return out
    follow(env, got, 0, 10000 if ch else smax(10000, 125 * k2 + c), 532, lambda t: 3000, delayed)


def h_overlap(env, ch):
    """while casts and channels overlap, an auto waits for the last of them"""
    r = kit.imp()
    T = r.TimingSpec
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    long, short = env.int("long", 2000, 5000), env.int("short", 1, 4000)
    how = dict(timing_spec=T(base_cast_time=long, animation_lock=0, **flat))
    if ch:
        how = dict(timing_spec=T(base_cast_time=0, animation_lock=0, **flat), channeling_spec=r.ChannelingSpec(duration=long, skill_allowlist=("D",)))
    C = r.Skill(name="C", is_GCD=True, **how)
    D = r.Skill(name="D", is_GCD=True, timing_spec=T(base_cast_time=short, animation_lock=0, **flat))
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), base(r, [C, D]), enable_autos=True, fight_start_time=0)
    k1 = env.int("t1", 10, 24)
    k2 = k1 + env.int("gap", 1, 40)
    env.assume(125 * k2 < 125 * k1 + long)
    rb.add(0, "H")
    rb.add(k1 / 8, "C")
    rb.add(k2 / 8, "D")
    rb.add(14, "H")
    got = autos(kit.drain(rb.get_skill_timing()))
    per = [(125 * k1, 125 * k1 + long), (125 * k2, 125 * k2 + short)]

    def delayed(t):
        out = t
        for a, b in per:
            if bool(And(a <= t, t <= b)):
                out = smax(out, b)
        if bool(And(per[0][0] <= t, t <= per[0][1], per[1][0] <= t, t <= per[1][1])):
            env.cover("overlap")
        return out
    follow(env, got, 0, 14000, 532, lambda t: 3000, delayed)


def h_changed(env, how):
    """a cast holds autos for as long as it really takes: effects, gauges and combos that change it count"""
    r = kit.imp()
    T, SE = r.TimingSpec, r.StatusEffectSpec
    c, dur = 10 * env.int("cast", 160, 400), env.int("dur", 1, 9000)
    flat = dict(affected_by_speed_stat=False)
    ts0 = T(base_cast_time=0, animation_lock=0)
    slow, fast = T(base_cast_time=c, animation_lock=0, **flat), T(base_cast_time=0, animation_lock=0, **flat)
    kw, eff, res = dict(timing_spec={"": slow, "x": fast}), {}, ()
    d = env.int("delay", 0, 1500) if how in ("flatdelay", "flatfollow") else 0
    tb = ts0
    CH = r.ChannelingSpec
    if how in ("flat", "flatdelay", "flatfollow"):
        kw, eff = dict(timing_spec=slow), dict(buff_spec=SE(duration=dur, flat_cast_time_reduction=1500))
        if how == "flatdelay":
            tb = T(base_cast_time=0, animation_lock=0, application_delay=d)
        if how == "flatfollow":
            eff = dict(follow_up_skills=(r.FollowUp(skill=r.Skill(name="Bf", **eff), delay_after_parent_application=d),))
    elif how == "haste":
        kw, eff = dict(timing_spec=slow), dict(buff_spec=SE(duration=dur, haste_time_reduction=0.5))
    elif how == "cond":
        eff = dict(buff_spec=SE(duration=dur, add_to_skill_modifier_condition=True))
        kw = dict(timing_spec={"": slow, "B": fast})
    elif how == "chancond":
        eff = dict(buff_spec=SE(duration=dur, add_to_skill_modifier_condition=True))
        kw = dict(timing_spec=ts0, channeling_spec={"": CH(duration=c), "B": CH(duration=200)})
    elif how == "debuffcond":
        eff = dict(debuff_spec=SE(duration=dur, add_to_skill_modifier_condition=True))
        kw = dict(timing_spec={"": slow, "B": fast})
    elif how == "gauge":
        res = (("G", r.JobResourceSettings(max_value=10, skill_allowlist=("C",))),)
        eff = dict(job_resource_spec=(r.JobResourceSpec(name="G", change=1),))
        kw = dict(timing_spec={"": slow, "1 G": fast})
    elif how == "combo":
        eff = dict(combo_spec=(r.ComboSpec(),))
        kw = dict(timing_spec={"": slow, "No Combo": fast}, combo_spec=(r.ComboSpec(combo_actions=("B",)),))
    elif how == "ally":  # another player's cast
        kw, tb = dict(timing_spec=slow), T(base_cast_time=4000, animation_lock=0, **flat)
    elif how == "allychan":
        kw, eff = dict(timing_spec=ts0, channeling_spec=CH(duration=c)), dict(channeling_spec=CH(duration=4000))
    B = r.Skill(name="B", is_GCD=True, timing_spec=tb, **eff)
    C = r.Skill(name="C", is_GCD=True, **kw)
    auto = r.Skill(name="Auto", is_GCD=False, timing_spec=T(base_cast_time=0, application_delay=532),
                   damage_spec=r.DamageSpec(potency=90, damage_class=r.DamageClass.AUTO))
    H = r.Skill(name="H", is_GCD=False, timing_spec=ts0, damage_spec=r.DamageSpec(potency=1))
    ally = how.startswith("ally")
    lib = kit.library(r, {"test_job": [auto, H, C], "other": [B]} if ally else [auto, H, B, C], resources=res)
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=True, fight_start_time=0)
    k = env.int("t", 16, 28)
    kb = env.int("b", 10, 30)
    env.assume(kb != k)
    rb.add(0, "H")
    rb.add(kb / 8, "B", **(dict(job_class="other") if ally else {}))
    rb.add(k / 8, "C")
    rb.add(11, "H")
    got = autos(kit.drain(rb.get_skill_timing()))
    on = bool(kb < k)
    if how in ("flat", "cond", "debuffcond", "haste", "chancond"):
        on = on and bool(125 * (k - kb) <= dur)
    if how in ("flatdelay", "flatfollow"):
        on = on and bool(And(d <= 125 * (k - kb), 125 * (k - kb) <= d + dur))
    if how == "combo":
        on = not on
    real = c if not on or ally else 200 if how == "chancond" else c - 1500 if how.startswith("flat") else None if how == "haste" else 0
    if real is None:  # half, to the hundredth
        real = 10 * (c // 20)
    a, b = 125 * k, 125 * k + real
    if how == "chancond" and bool(kb > k):
        b = smin(b, 125 * kb)

    def delayed(t):
        return b if bool(And(b > a, a <= t, t <= b)) else t
    follow(env, got, 0, 11000, 532, lambda t: 3000, delayed)
    if on:
        env.cover("changed")
    if ally:
        env.cover("ally")


def h_nodamage(env):
    """without damage there are no autos, and no failure"""
    r = kit.imp()
    B = r.Skill(name="B", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), buff_spec=r.StatusEffectSpec(duration=1000))
    n = env.choice("n", (0, 1, 2))
    kw = {} if env.flag("rel") else dict(fight_start_time=0)
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), base(r, [B]), enable_autos=True, **kw)
    for i in range(n):
        rb.add((env.int("t", -40, 40) + 40 * i) / 8, "B")
    env.check(len(kit.drain(rb.get_skill_timing())) == n, "no autos without damage")
    env.cover("nodamage")


def h_dots(env):
    """autos go on until the last tick, or until the last other event if trailing ticks are dropped"""
    r = kit.imp()
    drop = env.flag("drop")
    dd = env.int("dd", 1, 12000)
    F = r.Skill(name="F", damage_spec=r.DamageSpec(potency=50, damage_class=r.DamageClass.PHYSICAL_DOT))
    P = r.Skill(name="P", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), damage_spec=r.DamageSpec(potency=1),
                follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=0, snapshot_buffs_with_parent=True,
                                             snapshot_debuffs_with_parent=True, dot_duration=dd),))
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=2.5), base(r, [P]), enable_autos=True, ignore_trailing_dots=drop, fight_start_time=0)
    k = env.int("t", 0, 40)
    rb.add(0, "P")
    rb.add(k / 8, "H")
    got = autos(kit.drain(rb.get_skill_timing()))
    tick = 3000 * ((dd - 1) // 3000)
    follow(env, got, 0, 125 * k if drop else smax(tick, 125 * k), 532, lambda t: 2500)
    env.cover("dots")


def h_own_window(env):
    """only the downtime of the enemy being attacked counts"""
    r = kit.imp()
    w = [(env.int("a1", 1, 9000), env.int("b1", 1, 9500)), (env.int("a2", 1, 9000), env.int("b2", 1, 9500))]
    env.assume(And(*[x < y for x, y in w]))
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), base(r), enable_autos=True, fight_start_time=0, default_target="C",
                           downtime_windows={"A": ((w[0][0] / 1000, w[0][1] / 1000),), "B": ((w[1][0] / 1000, w[1][1] / 1000),), "C": ((0, 20),)})
    k = env.int("t", 1, 70)
    rb.add(0, "H", targets="A")
    rb.add(k / 8, "H", targets="B")
    rb.add(10, "H", targets="B")
    got = autos(kit.drain(rb.get_skill_timing()))
    t, want = 0, []
    while bool(t + 532 < 10000):
        i = 0 if bool(t < 125 * k) else 1
        a, b = w[i]
        if not bool(Or(And(a <= t + 532, t + 532 < b), And(a <= t, t < b))):
            want.append((t, "AB"[i]))
        t = t + 3000
        if bool(And(a <= t, t < b)):
            env.assume(Or(125 * k <= t - 3000, 125 * k > b))
            t = b
        elif i == 0 and bool(125 * k <= t):
            env.assume(Or(t < w[1][0], w[1][1] <= t))
    env.check(len(got) == len(want), "number of autos")
    for g, (x, y) in zip(got, want):
        env.check(And(g[0] == x, g[2] == (y,)), "an auto waits for the downtime of its own target")
    env.cover("own_window")


def h_perm(env, perms):
    """the order in which presses are entered does not matter"""
    r = kit.imp()
    c = env.int("dur", 1, 6000)
    C = r.Skill(name="C", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), channeling_spec=r.ChannelingSpec(duration=c))
    lib = base(r, [C])
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=True, fight_start_time=0)
    k1 = env.int("t1", 1, 30)
    k2 = k1 + env.int("gap", 1, 30)
    p = [(0, "H"), (k1 / 8, "C"), (k2 / 8, "H"), (10, "H")]
    for i in env.choice("perm", perms):
        rb.add(*p[i])
    got = autos(kit.drain(rb.get_skill_timing()))
    a, b = 125 * k1, smin(125 * k1 + c, 125 * k2)

    def delayed(t):
        return b if bool(And(a <= t, t <= b)) else t
    follow(env, got, 0, 10000, 532, lambda t: 3000, delayed)


def h_downtime(env, rel, cls):
    r = kit.imp()
    lib = base(r)
    a, b = env.int("start", 1, 9000), env.int("end", 1, 9500)
    env.assume(a < b)
    w = (a / 1000, b / 1000) + ((r.DamageClass.AUTO,) if cls else ())
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=True, downtime_windows=(w,), **({} if rel else dict(fight_start_time=0)))
    k = env.choice("t", (-16, 0, 20)) if rel else 0
    rb.add(k / 8, "H")
    rb.add((k + 80) / 8, "H")
    got = autos(kit.drain(rb.get_skill_timing()))

    def delayed(t):
        if bool(And(a <= t, t < b)):
            env.cover("downtime")
            return b
        return t
    # an auto whose landing falls into the window is lost, the rhythm goes on
    t, want = 0, []
    while bool(t + 532 < 10000):
        if not bool(And(a <= t + 532, t + 532 < b)):
            want.append(t)
        t = delayed(t + 3000)
    env.check(len(got) == len(want), "number of autos")
    for g, x in zip(got, want):
        env.check(g[0] == x, "autos resume at the end of the downtime")
    if rel:
        env.cover("relative")


def h_switch(env, ally):
    r = kit.imp()
    lib = base(r)
    if ally:
        lib.set_current_job_class("other")
        lib.add_skill(r.Skill(name="P", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0), debuff_spec=r.StatusEffectSpec(duration=1000)))
    wd = env.choice("wd", (280, 300))
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=wd / 100), lib, enable_autos=True, fight_start_time=0)
    k1 = env.int("t1", 1, 60)
    k2 = k1 + env.int("g", 1, 60)
    env.assume(k2 < 80)
    rb.add(0, "H", targets="A")
    rb.add(k2 / 8, "H", targets="C, A")
    rb.add(k1 / 8, "H", targets="B,C")
    rb.add(10, "H", targets="A")
    if ally:
        rb.add(env.int("p", -8, 79) / 8, "P", job_class="other", **(dict(targets="D") if env.flag("given") else {}))
    got = autos(kit.drain(rb.get_skill_timing()))
    n = follow(env, got, 0, 10000, 532, lambda t: 10 * wd)
    for i, g in enumerate(got):
        t = 10 * wd * i
        want = "A" if bool(t < 125 * k1) else "B" if bool(t < 125 * k2) else "C"
        env.check(g[2] == (want,), "autos hit the current main target")
        if want != "A":
            env.cover("switch")


def h_shot(env):
    r = kit.imp()
    lib = base(r, shot=True)
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=3.0), lib, enable_autos=env.flag("on"), fight_start_time=0)
    rb.add(0, "H")
    k = env.int("len", 0, 80)
    rb.add(k / 8, "H")
    ev = kit.drain(rb.get_skill_timing())
    env.check(len(autos(ev)) == 0, "ranged jobs shoot")
    n = len(autos(ev, "Shot"))
    on = env.flag("on")
    want = 0
    if on:
        want = ite(125 * k > 532, 1, 0) + ite(125 * k > 3532, 1, 0) + ite(125 * k > 6532, 1, 0) + ite(125 * k > 9532, 1, 0)
    env.check(n == want, "autos only if enabled")


def h_sequence_cast(env):
    """casts of a rotation entered as a sequence delay autos too"""
    r = kit.imp()
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    C = r.Skill(name="C", is_GCD=True, damage_spec=r.DamageSpec(potency=1), timing_spec=r.TimingSpec(base_cast_time=2400, animation_lock=100, **flat))
    lib = base(r, [C])
    wd = env.choice("wd", (300, 330))
    rb = r.RotationBuilder(kit.stats(r, weapon_delay=wd / 100), lib, enable_autos=True, fight_start_time=0)
    rb.add_next("H")
    rb.add_next("C", num_times=3)
    got = autos(kit.drain(rb.get_skill_timing()))
    for t in [2500, 5000, 7500]:
        for g in got:
            env.check(Or(g[0] < t, g[0] >= t + 2400), "no auto during a cast")
