"""C05: forced critical / direct hits: sources, conflicts, rates and the compensation bonus."""
from harness.common import *
from harness import kit

BOUNDS = "every combination of {default, yes, no} over the four sources (skill, skill modifier, buffs, debuffs) for crit and for DH independently; crit and DH stats any integer 400..4000 (one at a time); rate bonuses any multiple of 1% in 0..60% per side"
OUTSIDE = "both kinds conflicting at the same time beyond the listed cross pairs"
COVERS = ("dh_yes", "dh_no", "dh_default", "dh_conflict", "crit_yes", "crit_no", "crit_default", "crit_conflict", "bonus", "det")

OPT = ("DEF", "YES", "NO")


def tasks(tier):
    t = []
    for kind in ("dh", "crit"):
        for a in OPT:
            t.append(dict(h="h_rates", kind=kind, a=a))
    for cls in ("DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET", "AUTO"):
        for src in range(5):
            t.append(dict(h="h_bonus", cls=cls, src=src))
    return t


def make(r, kind, src):
    """skill, modifier, buffs, debuffs with the given forced settings for one kind"""
    a, m, b, d = (getattr(r, x) for x in src)
    if kind == "dh":
        sp, md, sb, sd = dict(guaranteed_dh=a), dict(guaranteed_dh=m), dict(guaranteed_dh=b), dict(guaranteed_dh=d)
    else:
        sp, md, sb, sd = dict(guaranteed_crit=a), dict(guaranteed_crit=m), dict(guaranteed_crit=b), dict(guaranteed_crit=d)
    return sp, md, sb, sd


def h_rates(env, kind, a):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    src = (a, env.choice("mod", OPT), env.choice("buff", OPT), env.choice("debuff", OPT))
    st = env.int("stat", 400, 4000, seeds=(400, 2000))
    add_b = env.int("add_b", 0, 60) / 100
    add_d = env.int("add_d", 0, 60) / 100
    s = kit.stats(r, **{"dh_stat" if kind == "dh" else "crit_stat": st})
    sp, md, sb, sd = make(r, kind, src)
    rate = "dh_rate_add" if kind == "dh" else "crit_rate_add"
    sb[rate], sd[rate] = add_b, add_d
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=100, **sp))
    yes, no = "YES" in src, "NO" in src
    try:
        dh, crit, bonus = ComputeDamageUtils.compute_crit_rates_and_bonuses(
            s, sk, r.SkillModifier(**md), (r.StatusEffects(**sb), r.StatusEffects(**sd)))
        err = False
    except RuntimeError:
        err = True
    env.check(err == (yes and no), kind + ": contradictory forcing is an error, anything else is not")
    if err:
        env.cover(kind + "_conflict")
        return
    got, other = (dh, crit) if kind == "dh" else (crit, dh)
    p = s.processed_stats
    natural, other_nat = (p.dh_rate, p.crit_rate) if kind == "dh" else (p.crit_rate, p.dh_rate)
    if yes:
        env.check(got == 1, kind + ": forced means rate 1")
        env.cover(kind + "_yes")
    elif no:
        env.check(got == 0, kind + ": forbidden means rate 0")
        env.cover(kind + "_no")
    else:
        env.check(close(got, natural + add_b + add_d), kind + ": natural rate plus buffs and debuffs")
        env.cover(kind + "_default")
    env.check(close(other, other_nat), kind + ": the other rate is untouched")
    env.check(close(bonus, p.crit_bonus), "crit bonus comes from the stats")


def h_bonus(env, cls, src):
    """a forced hit is compensated for rate buffs, whichever source forces it; DH forcing adds the DH stat to determination"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    kind = env.choice("kind", ("dh", "crit"))
    add_b = env.int("add_b", 0, 60) / 100
    add_d = env.int("add_d", 0, 60) / 100
    dh = env.int("dh", 400, 4000, seeds=(400, 2000))
    s = kit.stats(r, dh_stat=dh)
    src_t = tuple("YES" if i == src else "DEF" for i in range(4))
    sp, md, sb, sd = make(r, kind, src_t)
    for x, v in ((sb, add_b), (sd, add_d)):
        x["dh_rate_add" if kind == "dh" else "crit_rate_add"] = v

    def dmg(potency, sp, md, sb, sd):
        sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=potency, damage_class=getattr(r.DamageClass, cls), **sp))
        return ComputeDamageUtils.get_base_damage(sk, r.SkillModifier(**md), s, (r.StatusEffects(**sb), r.StatusEffects(**sd)))

    got = dmg(500, sp, md, sb, sd)
    plain = dmg(500, {}, {}, {}, {})
    if src == 4:
        env.check(got == plain, "rate buffs do not change an unforced hit's base damage")
        return
    b0, b1 = dmg(500, *make(r, kind, src_t)), plain
    if kind == "crit":
        env.check(b0 == b1, "forcing a crit alone does not change the base damage")
        k = s.processed_stats.crit_bonus * (add_b + add_d)
    else:
        env.check(b0 >= b1, "forcing a direct hit never lowers the base damage")
        det, det_dh = 1000 + (140 * (1620 - 390)) // 1900, (140 * (dh - 400)) // 1900
        # relative gain from determination: within flooring of each step
        env.check(And(b0 * det <= plain * (det + det_dh) + 40 * det, b0 * det + 40 * det >= plain * (det + det_dh)),
                  "direct-hit stat joins determination for a forced direct hit")
        env.cover("det")
        k = 0.25 * (add_b + add_d)
    env.check(Or(got == b0 + floor(b0 * k), abs(got - (b0 + b0 * k)) <= 1.001), "bonus for rate buffs on a forced hit")
    env.cover("bonus")
