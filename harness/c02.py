"""C02: cast and recast times."""
from harness.common import *
from harness import kit

BOUNDS = "every integer speed stat in [level_sub-100, 6000]; base times 0..8000 ms from a list of 14; haste reductions and flat reductions from lists; two consecutive presses"
OUTSIDE = "base times outside the list; more than one haste buff and one haste debuff at a time"
COVERS = ("formula", "mono", "recast", "cast", "floor1500", "debuff")

ROWS = (("test", 90), ("6.55", 90), ("7.0", 100), ("7.1", 100))
BASE = (0, 800, 1000, 1300, 1500, 1950, 2000, 2280, 2500, 2800, 3000, 3500, 4000, 8000)
TRAIT = {"test_job": 0, "test_job_haste": 20}


def tasks(tier):
    t = []
    for v, l in ROWS:
        for b in BASE:
            t.append(dict(h="h_formula", version=v, level=l, base=b))
        for b in (1500, 2500, 3500):
            t.append(dict(h="h_mono", version=v, level=l, base=b))
    for job in ("test_job", "test_job_haste"):
        for haste in (0, 10, 15, 20, 25, 50):
            for base in (1500, 2500, 2800):
                for aff in ((1, 1), (1, 0), (0, 1), (0, 0)):
                    if haste in (10, 25, 50) and aff != (1, 1) and tier == "quick":
                        continue
                    t.append(dict(h="h_recast", job=job, haste=haste, base=base, speed=aff[0], hasted=aff[1]))
        for deb, haste in ((10, 0), (20, 15)):
            t.append(dict(h="h_recast", job=job, haste=haste, base=2500, speed=1, hasted=1, deb=deb))
            t.append(dict(h="h_recast", job=job, haste=haste, base=2800, speed=0, hasted=1, deb=deb))
    return t


def ref_time(base, spd, version, level):
    c = lv(version, level)
    return 10 * ((base * (1000 + ceil_div(130 * (c["sub"] - spd), c["div"]))) // 10000)


def ref_haste(t, pcts):
    """t * prod(1-p) truncated to 10 ms, as an exact rational: returns the exact value and whether it is a whole number of centiseconds"""
    num, den = t, 1
    for p in pcts:
        num, den = num * (100 - p), den * 100
    return 10 * (num // (10 * den)), num % (10 * den) == 0


def h_formula(env, version, level, base):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    sub = lv(version, level)["sub"]
    x = env.int("spd", sub - 100, 6000, seeds=(sub, 1000))
    t = StatFns.get_time_using_speed_stat(base, x, version, level)
    env.check(t == ref_time(base, x, version, level), "speed-scaled time")
    env.check(t % 10 == 0, "quantised to 10 ms")
    env.cover("formula")


def h_mono(env, version, level, base):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    sub = lv(version, level)["sub"]
    a = env.int("a", sub - 100, 6000)
    b = env.int("b", sub - 100, 6000)
    env.assume(a <= b)
    env.check(StatFns.get_time_using_speed_stat(base, b, version, level)
              <= StatFns.get_time_using_speed_stat(base, a, version, level), "more speed is never slower")
    env.cover("mono")


def _within(actual, exact, whole):
    """binary rounding of the haste product may lose one centisecond when the exact value is whole"""
    return Or(actual == exact, And(whole, actual == exact - 10))


def h_recast(env, job, haste, base, speed, hasted, deb=0):
    r = kit.imp()
    spd = env.int("spd", 400, 3000, seeds=(400, 1000))
    flat_cast = env.choice("flat_cast", (0, 1500))
    flat_gcd = env.choice("flat_gcd", (0, 300))
    cast = env.choice("cast", (0, 2500)) if not deb else 0
    ts = r.TimingSpec(base_cast_time=cast, gcd_base_recast_time=base, animation_lock=0,
                      affected_by_speed_stat=bool(speed), affected_by_haste_buffs=bool(hasted))
    inst = r.TimingSpec(base_cast_time=0, animation_lock=0)
    buff = r.StatusEffectSpec(duration=60000, haste_time_reduction=haste / 100, flat_cast_time_reduction=flat_cast,
                              flat_gcd_recast_time_reduction=flat_gcd)
    lib = kit.library(r, [r.Skill(name="d", is_GCD=False, timing_spec=inst, debuff_spec=r.StatusEffectSpec(duration=60000, haste_time_reduction=deb / 100)),
                          r.Skill(name="b", is_GCD=False, timing_spec=inst, buff_spec=buff),
                          r.Skill(name="g", is_GCD=True, timing_spec=ts, damage_spec=r.DamageSpec(potency=100))], jobs=(job,))
    rb = r.RotationBuilder(kit.stats(r, job, speed_stat=spd), lib, fight_start_time=0)
    if deb:
        rb.add_next("d")
        env.cover("debuff")
    rb.add_next("b")
    rb.add_next("g")
    rb.add_next("g")
    ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == "g"]
    press = rb.get_button_press_timing()
    t = [p[0] for p in press if p[1] == "g"]
    pcts = (haste, deb, TRAIT[job]) if hasted else ()
    rec = ref_time(base, spd, "test", 90) if speed else base
    cst = ref_time(cast, spd, "test", 90) if speed else cast
    rec, w1 = ref_haste(rec, pcts)
    cst, w2 = ref_haste(cst, pcts)
    cst_lo = smax(0, cst - 10 - flat_cast)
    cst = smax(0, cst - flat_cast)
    rec_lo = rec - 10 - flat_gcd
    rec = rec - flat_gcd
    if base == 2500:
        rec_lo, rec = smax(rec_lo, 1500), smax(rec, 1500)
    # animation lock 0: the next press waits for the recast or the end of the cast
    hi, lo = smax(rec, cst), smax(rec_lo, cst_lo)
    gap = t[1] - t[0]
    env.check(Or(gap == hi, And(Or(w1, w2), gap >= lo, gap <= hi)), "time between presses")
    if base == 2500:
        env.check(gap >= 1500, "default GCD is at least 1.5 s")
        env.cover("floor1500")
    env.cover("recast")
    got = kit.app(ev[0]) - t[0]
    env.check(Or(got == cst, And(w2, got == cst_lo)), "cast time")
    if cast:
        env.cover("cast")
    env.observe("gap", gap)
