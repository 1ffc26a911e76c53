"""C04: base damage responds monotonically to every input; degenerate skills."""
from harness.common import *
from harness import kit

BOUNDS = "two values a<=b of one input at a time (potency 0..1500, weapon damage 1..200, main stat 400..5000, determination/tenacity/speed/DH 400..3500, roles 0..5), the other inputs at listed values, for each damage class and role"
OUTSIDE = "monotonicity while several inputs change at once"
COVERS = ("zero", "none", "mono")

JOBS = ("test_job", "test_tank_job", "test_healer_job")
CLASSES = ("DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET", "AUTO")
RANGE = dict(potency=(0, 1500), wd=(1, 200), main_stat=(400, 5000), det_stat=(390, 3500), tenacity=(400, 3500),
             speed_stat=(400, 3500), dh_stat=(400, 3500), num_roles_in_party=(0, 5))

# z3 needs minutes for these four: thorough tier only
HARD = {("test_tank_job", "DIRECT", "main_stat"), ("test_tank_job", "PHYSICAL_DOT", "dh_stat"),
        ("test_tank_job", "AUTO", "main_stat"), ("test_healer_job", "DIRECT", "main_stat")}


def tasks(tier):
    t = [dict(h="h_degenerate")]
    for job in JOBS:
        for cls in CLASSES:
            for what in RANGE:
                if what == "tenacity" and job != "test_tank_job":
                    continue
                hard = (job, cls, what) in HARD
                if hard and tier == "quick":
                    continue
                lo, hi = RANGE[what]
                t.append(dict(h="h_mono", job=job, cls=cls, what=what, lo=lo, hi=hi,
                              _opts=dict(slice_s=3, undecided_s=30, query_ms=45000 if tier == "quick" else 300000,
                                         weight=9 if what in ("main_stat", "dh_stat") else 1)))
    return t


def h_degenerate(env):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    job = env.choice("job", JOBS)
    cls = env.choice("cls", CLASSES)
    s = kit.stats(r, job, healer_or_caster_strength=214, main_stat=env.int("main", 100, 5000))
    se = (r.StatusEffects(), r.StatusEffects())
    z = r.Skill(name="z", damage_spec=r.DamageSpec(potency=0, damage_class=getattr(r.DamageClass, cls)))
    env.check(ComputeDamageUtils.get_base_damage(z, r.SkillModifier(), s, se) == 0, "zero potency deals 0")
    env.cover("zero")
    n = r.Skill(name="n")
    env.check(ComputeDamageUtils.get_base_damage(n, r.SkillModifier(), s, se) is None, "no damage spec, no damage")
    # a skill whose damage exists only under one condition
    c = r.Skill(name="c", damage_spec={"Cond": r.DamageSpec(potency=100, damage_class=getattr(r.DamageClass, cls)),
                                       r.SimConsts.DEFAULT_CONDITION: None})
    env.check(ComputeDamageUtils.get_base_damage(c, r.SkillModifier(), s, se) is None, "default condition without damage")
    env.check(ComputeDamageUtils.get_base_damage(c, r.SkillModifier(with_condition="Cond"), s, se) >= 1, "condition with damage")
    env.cover("none")


def h_mono(env, job, cls, what, lo, hi):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    a = env.int("a", lo, hi)
    b = env.int("b", lo, hi)
    env.assume(a <= b)
    forced = env.flag("forced") if what in ("dh_stat", "det_stat") else False

    def dmg(v):
        kw = dict(healer_or_caster_strength=214)
        pot = 660
        if what == "potency":
            pot = v
        else:
            kw[what] = v
        s = kit.stats(r, job, **kw)
        sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=pot, damage_class=getattr(r.DamageClass, cls),
                                                        guaranteed_dh=r.YES if forced else r.DEF))
        return ComputeDamageUtils.get_base_damage(sk, r.SkillModifier(), s, (r.StatusEffects(), r.StatusEffects()))

    env.check(dmg(a) <= dmg(b), "more " + what + " never lowers the base damage")
    env.cover("mono")
