"""C03: base damage of one hit = the documented pipeline, for each damage class and role."""
from harness.common import *
from harness import kit

BOUNDS = "all integer main stat 100..6000 (strength 50..600), determination/DH/crit/speed/tenacity level_sub..4000, weapon damage 1..200, potency 1..2000, 0..5 roles; per damage class x role x version; main-stat buffs, forced DH/crit, pet scalars and damage multipliers from lists; monotonicity: one stat at a time, the others at listed values"
OUTSIDE = "non-integer stats; potencies above 2000; products of more than one main-stat multiplier per side"
COVERS = ("direct", "mdot", "pdot", "pet", "auto", "forced", "clamp")

JOBS = {"test": ("test_job", "test_tank_job", "test_healer_job"),
        "7.1": ("WAR", "PLD", "WHM", "BLM", "SAM", "BRD", "NIN")}
CLASSES = ("DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET", "AUTO")
SE = ((0.0, 1.0), (392.0, 1.0), (0.0, 0.75))  # main_stat_add, main_stat_mult of a potion / weakness


def tasks(tier):
    t = []
    for v, lvl in (("test", 90), ("7.1", 100), ("6.55", 90)):
        for j in JOBS["test" if v == "test" else "7.1"]:
            if v == "6.55" and tier == "quick" and j not in ("WAR", "WHM", "SAM"):
                continue
            for c in CLASSES:
                for se in range(len(SE)):
                    if v == "6.55" and se:
                        continue
                    t.append(dict(h="h_base", version=v, level=lvl, job=j, cls=c, se=se))
    return t


def is_tank(j):
    return j in TANKS or j == "test_tank_job"


def is_mind(j):
    return j in HEALERS + CASTERS or j == "test_healer_job"


def ref(cls, job, version, level, potency, main, wd, det, dh, ten, spd, roles, strength, delay, se_b, se_d,
        forced_dh, forced_crit, crit_add, dh_add, crit_bonus, pet_mod, pet_scalar, mult):
    c = lv(version, level)
    jm = JOB_MOD.get(job) or {"test_job": 115, "test_job2": 105, "test_tank_job": 105, "test_healer_job": 115, "test_job_haste": 115}[job]
    tank, mind = is_tank(job), is_mind(job)

    def fap(m, t):
        return floor((c["ap_tank"] if t else c["ap"]) * (m - c["main"]) / c["main"]) + 100

    det_m = floor(140 * (det - c["main"]) / c["div"]) + 1000
    if forced_dh:
        det_m = det_m + floor(140 * (dh - c["sub"]) / c["div"])
    tnc = floor(c["ten"] * (ten - c["sub"]) / c["div"]) + 1000 if tank else None
    speed = floor(130 * (spd - c["sub"]) / c["div"] + 1000)

    def party(m):
        return floor(m * (1 + 0.01 * roles))

    if cls == "PET":
        mod = jm if pet_mod is None else pet_mod
        diff = floor(c["main"] * jm / 100) - floor(c["main"] * mod / 100)
        m = floor((main - diff) * se_b[1] * se_d[1]) + (se_b[0] + se_d[0])
        m = m * pet_scalar
        ap, w = fap(m, False), floor(c["main"] * mod / 1000 + wd)
    elif cls == "AUTO" and mind:
        m = strength * (1 + 0.01 * roles)
        ap = fap(m, False)
    else:
        m = party(floor(main * se_b[1] * se_d[1]) + (se_b[0] + se_d[0]))
        ap, w = fap(m, tank), floor(c["main"] * jm / 1000 + wd)
    if cls == "DIRECT" and mind:
        b = floor(ap * det_m / 1000) / 100
        b = floor(b * floor(w * potency / 100))
    elif cls in ("DIRECT", "PET"):
        b = floor(floor(potency * ap / 100) / 100 * det_m / 10) / 100
        if tank:
            b = floor(b * tnc / 10) / 100
        b = floor(b * w)
    elif cls == "MAGICAL_DOT":
        b = floor(floor(potency * w) / 100)
        b = floor(floor(b * ap) * speed)
        b = floor(floor(b * det_m) / 1000)
        if tank:
            b = floor(b * tnc / 1000)
        b = floor(floor(b / 1000) / 100)
    elif cls == "PHYSICAL_DOT":
        b = floor(potency * ap * det_m / 100) / 1000
        if tank:
            b = floor(b * tnc / 1000)
        b = floor(floor(b * speed) / 1000)
        b = floor(floor(b * w) / 100)
    else:
        uses_sks = not mind and job not in ("test_job2", "test_job_haste")
        b = floor(floor(potency * ap / 100) / 100 * det_m / 10) / 100
        if tank:
            b = floor(b * tnc / 10) / 100
        b = floor(b * (speed if uses_sks else 1000)) / 10
        auto = floor(floor(c["main"] * jm / 1000 + wd) * (delay / 3))
        b = floor(floor(b * auto) / 100)
    bd = floor(b * (0.25 * dh_add)) if forced_dh else 0
    bc = floor(b * (crit_bonus * crit_add)) if forced_crit else 0
    b = (b + (bd + bc)) * mult
    return smax(b, 1.0)


def h_base(env, version, level, job, cls, se):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    sub = lv(version, level)["sub"]
    main = env.int("main", 100, 6000, seeds=(3000, 2500))
    potency = env.int("potency", 1, 2000, seeds=(100, 660))
    wd = env.int("wd", 1, 200, seeds=(126, 141))
    det = env.int("det", 390, 4000, seeds=(1600, 2100))
    dh = env.int("dh", sub, 4000, seeds=(1500,))
    ten = env.int("ten", sub, 4000, seeds=(700, 900)) if is_tank(job) else None
    spd = env.int("spd", sub, 4000, seeds=(600, 1000))
    roles = env.choice("roles", (5, 1, 0))
    strength = env.int("str", 50, 600, seeds=(214, 351)) if is_mind(job) else None
    forced = env.choice("forced", ("none", "dh", "crit", "both"))
    delay = 2.96
    fdh, fcr = forced in ("dh", "both"), forced in ("crit", "both")
    crit_add, dh_add = (0.1, 0.2) if forced != "none" else (0.0, 0.0)
    pet_mod, pet_scalar = env.choice("pet", ((None, 1.0), (100, 0.88))) if cls == "PET" else (None, 1.0)
    mult = env.choice("mult", (1, 1.1)) if cls in ("DIRECT", "PET") and not fcr else 1
    se_b, se_d = SE[se], SE[2 if se == 1 else 0]
    s = r.Stats(wd=wd, weapon_delay=delay, main_stat=main, det_stat=det, crit_stat=2200, dh_stat=dh, speed_stat=spd,
                job_class=job, version=version, level=level, tenacity=ten, num_roles_in_party=roles,
                healer_or_caster_strength=strength)
    spec = r.DamageSpec(potency=potency, damage_class=getattr(r.DamageClass, cls), single_damage_mult=mult,
                        guaranteed_dh=r.YES if fdh else r.DEF, guaranteed_crit=r.YES if fcr else r.DEF,
                        pet_job_mod_override=pet_mod, pet_scalar=pet_scalar)
    sk = r.Skill(name="x", damage_spec=spec)
    sb = r.StatusEffects(main_stat_add=se_b[0], main_stat_mult=se_b[1], crit_rate_add=crit_add, dh_rate_add=0.0, damage_mult=1.3)
    sd = r.StatusEffects(main_stat_add=se_d[0], main_stat_mult=se_d[1], dh_rate_add=dh_add, damage_mult=0.9)
    got = ComputeDamageUtils.get_base_damage(sk, r.SkillModifier(), s, (sb, sd))
    want = ref(cls, job, version, level, potency, main, wd, det, dh, ten, spd, roles, strength, delay, se_b, se_d,
               fdh, fcr, crit_add, dh_add, s.processed_stats.crit_bonus, pet_mod, pet_scalar, mult)
    env.check(got == want, "base damage")
    env.cover({"DIRECT": "direct", "MAGICAL_DOT": "mdot", "PHYSICAL_DOT": "pdot", "PET": "pet", "AUTO": "auto"}[cls])
    if forced != "none":
        env.cover("forced")
    env.check(got >= 1, "at least 1")
    env.cover("clamp")
