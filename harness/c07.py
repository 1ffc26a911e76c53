"""C07: the reported distribution: ranges, probabilities, expectation, variance, totals, dps and per-skill rows."""
from harness.common import *
from harness import kit

BOUNDS = "crit or DH stat any integer 400..4000 (the other listed), rate bonuses 0..30% per side; damage multiplier any percentage 50..150 on one side; two or three hits at arbitrary times -20000..600000 ms in any order; listed potencies"
BOUNDS += "; 5000, 5001 or 15002 equal hits, the last one at any time"
OUTSIDE = "more than three different hits; conditions beyond the default one"
COVERS = ("probs", "range", "override", "expect", "total", "order", "dps", "zero_time", "empty", "many")

NAMES = {"No crit, no DH": (0, 0), "Crit, no DH": (1, 0), "No crit, DH": (0, 1), "Crit, DH": (1, 1)}


def tasks(tier):
    t = []
    for which in ("crit", "dh"):
        for other in (400, 1500):
            t.append(dict(h="h_probs", which=which, other=other))
    for job in ("test_job", "test_job2", "test_healer_job"):
        for cls, pot in (("DIRECT", 1), ("DIRECT", 700), ("MAGICAL_DOT", 60), ("PET", 300), ("AUTO", 110)):
            t.append(dict(h="h_ranges", job=job, cls=cls, pot=pot))
    for n in (0, 1, 2, 3):
        t.append(dict(h="h_totals", n=n))
    t.append(dict(h="h_many", _opts=dict(weight=5)))
    return t


def sim(r, s, inst, n=1, **kw):
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    return DamageSimulator(s, inst, num_samples=n, **kw)


def h_probs(env, which, other):
    r = kit.imp()
    st = env.int("stat", 400, 4000, seeds=(400, 2000))
    s = kit.stats(r, "test_job", **{which + "_stat": st, ("dh" if which == "crit" else "crit") + "_stat": other})
    add_b, add_d = env.int("add_b", 0, 30) / 100, env.int("add_d", 0, 30) / 100
    k = which + "_rate_add"
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=100))
    se = (r.StatusEffects(**{k: add_b}), r.StatusEffects(**{k: add_d}))
    m = sim(r, s, [(0, sk, r.SkillModifier(), se, 0, "A")])
    p = s.processed_stats
    c, d = p.crit_rate, p.dh_rate
    if which == "crit":
        c = c + add_b + add_d
    else:
        d = d + add_b + add_d
    rows = m.get_damage_ranges()[0][1:]
    env.check(sorted(x[0] for x in rows) == sorted(NAMES), "four outcomes")
    for x in rows:
        ic, ih = NAMES[x[0]]
        env.check(close(x[3], (c if ic else 1 - c) * (d if ih else 1 - d)), "probability of " + x[0])
    env.check(close(ssum(x[3] for x in rows), 1), "probabilities sum to 1")
    cr = m.get_crit_and_dh_rates()
    env.check(And(close(_scalar(cr[0]), c), close(_scalar(cr[1]), d)), "reported rates")
    env.cover("probs")


def _scalar(x):
    return x.item() if hasattr(x, "item") else x


def h_ranges(env, job, cls, pot):
    """each range end is the floored chain: variance, crit bonus, direct hit, trait, damage buffs"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
    pct = env.int("mult", 50, 150)
    override = env.choice("override", (None, 1.0, 1.2))
    crit = env.choice("crit", (400, 2377))
    side = env.choice("side", (0, 1))
    s = kit.stats(r, job, crit_stat=crit, healer_or_caster_strength=214)
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=pot, damage_class=getattr(r.DamageClass, cls),
                                                    trait_damage_mult_override=override))
    mult = pct / 100
    dm = [1.0, 1.0]
    dm[side] = mult
    se = (r.StatusEffects(damage_mult=dm[0]), r.StatusEffects(damage_mult=dm[1]))
    base = ComputeDamageUtils.get_base_damage(sk, r.SkillModifier(), s, se)
    m = sim(r, s, [(0, sk, r.SkillModifier(), se, 0, "A")])
    trait = {"test_job": 1, "test_job2": 1.4, "test_healer_job": 1.3}[job] if override is None else override
    if override is not None:
        env.cover("override")
    env.check(close(_scalar(m.get_trait_damage_mult()), trait), "trait multiplier used")
    for x in m.get_damage_ranges()[0][1:]:
        ic, ih = NAMES[x[0]]
        for i, f in ((1, 0.95), (2, 1.05)):
            d = floor(base * f)
            if ic:
                d = d + floor(d * s.processed_stats.crit_bonus)
            if ih:
                d = d + floor(d * 0.25)
            d = floor(floor(d * trait) * mult)
            env.check(x[i] == d, ("low", "high")[i - 1] + " end of " + x[0])
    env.cover("range")


def h_totals(env, n):
    r = kit.imp()
    s = kit.stats(r, "test_job")
    pots = (100, 300, 0)
    inst, info = [], []
    for i in range(n):
        t = env.int(f"t{i}", -20000, 600000)
        sk = r.Skill(name=f"s{i}", damage_spec=r.DamageSpec(potency=pots[i]))
        cond = ("", "C1", "")[i]
        md = r.SkillModifier(with_condition=cond)
        se = (r.StatusEffects(status_effects=(f"B{i}",)), r.StatusEffects(status_effects=(f"D{i}",)))
        inst.append((t, sk, md, se, 10 + i // 2, f"T{i}"))  # one press may hit several targets: hits share its id
        info.append(t)
    before = list(inst)
    env.share_draws("u")
    m = sim(r, s, inst, n=4, save_damage_matrix=True)
    env.check(len(inst) == n and all(a is b for a, b in zip(inst, before)), "input list untouched")
    rows = m.get_per_skill_damage()
    env.check(len(rows) == n, "one row per hit")
    ids = tuple(x.event_id for x in rows)
    env.check(sorted(x.skill_name for x in rows) == [f"s{i}" for i in range(n)], "each hit reported once")
    env.check(tuple(m.get_event_ids()) == ids, "event ids in row order")
    exp = m.get_expected_damage_per_damage_instance()
    var = m.get_variance_per_damage_instance()
    ranges = m.get_damage_ranges()
    mat = m.get_damage_matrix()
    for j, x in enumerate(rows):
        i = int(x.skill_name[1:])
        env.check(x.event_id == 10 + i // 2, "row keeps the id of its press")
        env.check(x.application_time == info[i], "row time")
        env.check(And(x.skill_name == f"s{i}", x.target == f"T{i}", x.potency == pots[i], x.skill_modifier_condition == inst[i][2].with_condition),
                  "row describes its hit")
        env.check(And(x.status_effects[0].status_effects == (f"B{i}",), x.status_effects[1].status_effects == (f"D{i}",)), "row keeps its status effects")
        if j:
            env.check(rows[j - 1].application_time <= x.application_time, "rows in time order")
            env.cover("order")
        env.check(ranges[j][0] == f"s{i}", "ranges in row order")
        o = ranges[j][1:]
        mean = ssum(a[3] * (a[1] + a[2]) / 2 for a in o)
        # mixture of uniforms: E[X^2] - E[X]^2
        v = ssum(a[3] * ((a[2] - a[1]) ** 2 / 12 + ((a[1] + a[2]) / 2) ** 2) for a in o) - mean ** 2
        env.check(close(x.expected_damage, mean), "expected damage of a hit")
        env.check(close(exp[j], mean), "expected damage list")
        env.check(close(x.standard_deviation ** 2, v, 1e-6), "variance of a hit")
        env.check(close(var[j], v, 1e-6), "variance list")
        env.cover("expect")
    if n == 0:
        env.check(m.get_expected_damage() == 0, "no hits, no damage")
        env.check(all(x == 0 for x in m.get_raw_damage()), "no hits, no sampled damage")
        env.cover("empty")
        return
    env.check(close(m.get_expected_damage(), ssum(x.expected_damage for x in rows)), "expected total")
    env.check(close(m.get_damage_variance(), ssum(var[j] for j in range(n)), 1e-6), "total variance (independent hits)")
    raw, dps = m.get_raw_damage(), m.get_dps()
    span = smax(*info) - smin(*info)
    env.check(len(raw) == 4 and len(dps) == 4, "one total per sample")
    for k in range(4):
        tot = ssum(mat[j][k] for j in range(n))
        env.check(close(raw[k], tot), "sampled total")
    zero = bool(span == 0)
    for k in range(4):
        if zero:
            env.check(dps[k] == float("inf"), "no elapsed time")
            env.cover("zero_time")
        else:
            env.check(close(dps[k] * span, raw[k] * 1000), "dps is damage over the time between first and last hit")
            env.cover("dps")
    tm = m.get_damage_time()
    env.check(len(tm) == n and all_eq([tm[j] for j in range(n)], [x.application_time for x in rows]), "damage times")
    env.cover("total")


def all_eq(a, b):
    return And(*[x == y for x, y in zip(a, b)])


def h_many(env):
    """long fights: every hit counts"""
    r = kit.imp()
    n = env.choice("n", (5000, 5001, 15002))
    d = env.int("last", 0, 100000)
    u = env.share_draws("u")
    env.assume(u == 2 ** 51)
    env.pick(u)
    s = kit.stats(r)
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=100, guaranteed_crit=r.NO, guaranteed_dh=r.NO))
    mod, se = r.SkillModifier(), (r.StatusEffects(), r.StatusEffects())
    m = sim(r, s, [(i, sk, mod, se, i, "A") for i in range(n - 1)] + [(n + d, sk, mod, se, n + d, "A")])
    rows = m.get_per_skill_damage()
    env.check(len(rows) == n, "every hit is reported")
    env.check(rows[n - 1].application_time == n + d, "at its time")
    one = rows[0].expected_damage
    env.check(And(one > 0, close(m.get_expected_damage(), n * one)), "every hit counts in the total")
    env.cover("many")
