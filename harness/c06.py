"""C06: every sampled hit is an outcome the reported distribution allows, with the reported rates."""
from harness.common import *
from harness import kit

BOUNDS = "every value in [0,1) of every random draw (multiples of 2^-53); one or two hits, two samples; listed potencies, stats, damage multipliers and forced settings for each damage class; seven crit/DH stats for the rate check"
OUTSIDE = "quality of numpy's random generator (independence, uniformity); more than two hits per run (hits are drawn element-wise)"
COVERS = ("range", "nocrit", "crit", "dh", "critdh", "rate_yes", "rate_no", "forbidden", "guaranteed")
ASSUMPTIONS = ["np.random.rand returns arbitrary doubles of [0,1) (a stub replaces it)"]


def tasks(tier):
    t = []
    for cls, pot in (("DIRECT", 1), ("DIRECT", 660), ("AUTO", 110), ("PET", 400), ("MAGICAL_DOT", 75), ("PHYSICAL_DOT", 140)):
        for dm in (0, 1, 2):
            t.append(dict(h="h_range", cls=cls, pot=pot, dm=dm, _opts=dict(fl_monotone=True)))
    for force in ("DEF", "YES", "NO"):
        for kind in ("crit", "dh"):
            t.append(dict(h="h_rate", force=force, kind=kind, _opts=dict(fl_monotone=True)))
    return t


DM = ((1.0, 1.0), (1.03, 1.1), (0.75, 1.2))
NAMES = {(0, 0): "No crit, no DH", (1, 0): "Crit, no DH", (0, 1): "No crit, DH", (1, 1): "Crit, DH"}


def h_range(env, cls, pot, dm):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    job = env.choice("job", ("test_job", "test_job2", "test_healer_job"))
    s = kit.stats(r, job, healer_or_caster_strength=214)
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=pot, damage_class=getattr(r.DamageClass, cls)))
    se = (r.StatusEffects(damage_mult=DM[dm][0]), r.StatusEffects(damage_mult=DM[dm][1]))
    sim = DamageSimulator(s, [(0, sk, r.SkillModifier(), se, 0, "A")], num_samples=1, save_damage_matrix=True, save_crit_dh_status=True)
    d = sim.get_damage_matrix()[0][0]
    c, h = sim.get_crit_status()[0][0], sim.get_dh_status()[0][0]
    c, h = bool(c), bool(h)
    name, rows = sim.get_damage_ranges()[0][0], sim.get_damage_ranges()[0][1:]
    env.check(name == "x", "range carries the skill's name")
    row = {x[0]: x for x in rows}[NAMES[(int(c), int(h))]]
    env.check(And(row[1] <= d, d <= row[2]), "sampled damage within the reported range of its outcome")
    env.check(row[3] > 0, "sampled outcome has positive probability")
    env.cover("range")
    env.cover({(0, 0): "nocrit", (1, 0): "crit", (0, 1): "dh", (1, 1): "critdh"}[(int(c), int(h))])
    env.check(sim.get_raw_damage()[0] == d, "total is the only hit")
    lo = {k: x for x in rows for k in [x[0]]}
    env.check(And(lo["No crit, no DH"][2] <= lo["Crit, no DH"][2], lo["No crit, no DH"][1] <= lo["No crit, DH"][1],
                  lo["No crit, DH"][1] <= lo["Crit, DH"][1]), "crits and direct hits never lower the damage")


def h_rate(env, force, kind):
    """when every draw of a run is the same number u, a hit crits exactly for a set of u of length = the rate"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    st = env.choice("stat", (400, 401, 1047, 1777, 2600, 3333, 4000))
    s = kit.stats(r, "test_job", **{kind + "_stat": st})
    un = env.share_draws("u")
    sk = r.Skill(name="x", damage_spec=r.DamageSpec(potency=300, **{"guaranteed_" + kind: getattr(r, force)}))
    sim = DamageSimulator(s, [(0, sk, r.SkillModifier(), (r.StatusEffects(), r.StatusEffects()), 0, "A")], num_samples=1,
                          save_crit_dh_status=True)
    st = (sim.get_crit_status() if kind == "crit" else sim.get_dh_status())[0][0]
    got = bool(st)
    if force != "DEF":
        env.check(got == (force == "YES"), "forced outcome is certain")
        env.cover("guaranteed" if force == "YES" else "forbidden")
        return
    rate = s.processed_stats.crit_rate if kind == "crit" else s.processed_stats.dh_rate
    # the rate is a multiple of 1/1000; draws equal to it (or to its complement) fall on either side by rounding only
    u, k = un, rate * 1000 * 9007199254740.992
    lo, hi = k - 2, k + 2
    full = 2 ** 53
    below, above = u < lo, u > hi
    below2, above2 = u > full - lo, u < full - hi
    env.check(Or(Implies(below, got) if not got else Not(above), Implies(below2, got) if not got else Not(above2)),
              "hit happens for a share of the draws equal to its rate")
    env.cover("rate_yes" if got else "rate_no")
