"""C01: stat -> rate/multiplier conversions are the published floor formulas, for every stat value."""
from harness.common import *

BOUNDS = "every integer stat value in [level_sub-100, 20000] (main stat up to 30000, weapon damage up to 300), each version/level row, all 21 jobs; weapon delay any multiple of 0.01 s in [0.5, 5]"
OUTSIDE = "non-integer stat values; levels other than 90 and 100"
COVERS = ("crit", "dh", "det", "ten", "spd", "ap", "wd", "auto", "processed")

ROWS = (("test", 90), ("6.55", 90), ("6.55", 100), ("7.0", 100), ("7.1", 100))


def tasks(tier):
    t = []
    for v, l in ROWS:
        for h in ("h_crit", "h_dh", "h_det", "h_ten", "h_spd"):
            t.append(dict(h=h, version=v, level=l))
        for tank in (False, True):
            t.append(dict(h="h_ap", version=v, level=l, tank=tank))
        for jm in (100, 105, 110, 112, 115):
            t.append(dict(h="h_wd", version=v, level=l, job_mod=jm))
        if v != "test":
            t.append(dict(h="h_processed", version=v, level=l))
    return t


def _stat(env, name, version, level):
    sub = lv(version, level)["sub"]
    return env.int(name, sub - 100, 20000, seeds=(sub, 1500, 2500, 3000))


def h_crit(env, version, level):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = _stat(env, "crit", version, level)
    rate, bonus = StatFns.get_crit_stats(x, version, level)
    k = (200 * (x - c["sub"])) // c["div"]
    env.check(close(rate * 1000, k + 50), "crit rate")
    env.check(close(bonus * 1000, k + 400), "crit bonus")
    env.cover("crit")


def h_dh(env, version, level):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = _stat(env, "dh", version, level)
    env.check(close(StatFns.get_dh_rate(x, version, level) * 1000, (550 * (x - c["sub"])) // c["div"]), "dh rate")
    env.cover("dh")


def h_det(env, version, level):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = _stat(env, "det", version, level)
    y = _stat(env, "dh", version, level)
    det = 1000 + (140 * (x - c["main"])) // c["div"]
    env.check(StatFns.fDet(x, version, level) == det, "determination")
    env.check(StatFns.fDetDH(x, y, version, level) == det + (140 * (y - c["sub"])) // c["div"], "determination with guaranteed DH")
    env.cover("det")


def h_ten(env, version, level):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = _stat(env, "ten", version, level)
    env.check(StatFns.fTnc(x, version, level) == 1000 + (c["ten"] * (x - c["sub"])) // c["div"], "tenacity")
    env.cover("ten")


def h_spd(env, version, level):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = _stat(env, "spd", version, level)
    env.check(StatFns.fSpd(x, version, level) == 1000 + (130 * (x - c["sub"])) // c["div"], "speed multiplier")
    env.cover("spd")


def h_ap(env, version, level, tank):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = env.int("main", 100, 30000, seeds=(c["main"], 3000))
    k = c["ap_tank"] if tank else c["ap"]
    env.check(StatFns.fAP(x, tank, version, level) == 100 + (k * (x - c["main"])) // c["main"], "attack power")
    env.cover("ap")


def h_wd(env, version, level, job_mod):
    from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
    c = lv(version, level)
    x = env.int("wd", 1, 300, seeds=(126, 141))
    wd = (c["main"] * job_mod) // 1000 + x
    env.check(StatFns.fWD(x, job_mod, version, level) == wd, "weapon damage")
    d = env.int("delay", 50, 500, seeds=(224, 336))
    delay = d / 100
    auto = StatFns.fAuto(x, delay, job_mod, version, level)
    exact = (wd * d) // 300
    # one unit below only when the quotient is an integer that binary rounding misses
    env.check(Or(auto == exact, And(auto == exact - 1, (wd * d) % 300 == 0)), "auto weapon damage")
    env.cover("wd")
    env.cover("auto")


def h_processed(env, version, level):
    from ama_xiv_combat_sim.simulator.stats import Stats
    c = lv(version, level)
    job = env.choice("job", list(JOB_MOD))
    crit, dh, det = (_stat(env, n, version, level) for n in ("crit", "dh", "det"))
    s = Stats(wd=120, weapon_delay=3, main_stat=3000, det_stat=det, crit_stat=crit, dh_stat=dh, speed_stat=600,
              job_class=job, version=version, level=level)
    p = s.processed_stats
    k = (200 * (crit - c["sub"])) // c["div"]
    env.check(close(p.crit_rate * 1000, k + 50), "stats crit rate")
    env.check(close(p.crit_bonus * 1000, k + 400), "stats crit bonus")
    env.check(close(p.dh_rate * 1000, (550 * (dh - c["sub"])) // c["div"]), "stats dh rate")
    env.check(p.det_bonus == 1000 + (140 * (det - c["main"])) // c["div"], "stats determination")
    env.check(p.job_mod == JOB_MOD[job], "job modifier")
    trait = 1.3 if job in HEALERS + CASTERS else 1.2 if job in RANGED else 1
    env.check(p.trait_damage_mult == trait, "trait multiplier")
    env.cover("processed")
