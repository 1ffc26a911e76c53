"""C25: the kill-time estimator: when the summed damage of all rotations first reaches the boss' HP."""
from harness.common import *
from harness import kit

BOUNDS = ("one to three rotations, each by a player with other stats, with two to four hits in all, each at any multiple of 125 ms within 10 s, or 1247 ms later (ties included), limit breaks with listed exact (also zero) or mean damage; any boss HP up to 60000; "
          "one sample with every draw the same (one of four numbers; arbitrary for limit breaks alone), or two samples with arbitrary draws")
OUTSIDE = "more than four hits or two samples"
COVERS = ("killed", "not_killed", "exactly", "tie", "mean", "exact", "several", "mixed", "late_rotation", "samples", "error")


def tasks(tier):
    t = [dict(h="h_kill", rots=x) for x in (["xx"], ["x", "x"], ["x", "z", "h"], ["h", "h"], ["hx"], ["h", "x"], ["m", "x"], ["xh", "m"], ["xz"], ["z", "x"])]
    if tier == "thorough":
        t += [dict(h="h_kill", rots=x) for x in (["xxx"], ["x", "x", "x"], ["hm", "xh"], ["h", "m", "x"])]
    t += [dict(h="h_lb", cond=c) for c in range(len(CONDS))]
    t += [dict(h="h_samples", rots=x) for x in (["x", "h"], ["hx"])]
    t += [dict(h="h_none")]
    return t


CONDS = (("Exact Damage: 10000", "x", 10000), ("Exact Damage: 1", "x", 1), ("Mean Damage: 12354", "m", 12354), ("Mean Damage: 12354.7", "m", 12354.7),
         ("Exact Damage: 777.5", "x", 777.5), ("Exact Damage: 1234.567", "x", 1234.567), ("Mean Damage: 98765.25", "m", 98765.25), ("Exact Damage: 4242, Buffed", "x", 4242), ("A, Exact Damage: 9000", "x", 9000), ("Mean Damage: 100, Zed", "m", 100),
         ("", "e", 0), ("Damage: 5", "e", 0), ("Mean Damage", "e", 0))


def setup(r, h=400):
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    ts1 = r.TimingSpec(base_cast_time=0, animation_lock=0, application_delay=1247)
    s = kit.stats(r)
    no = dict(guaranteed_crit=r.NO, guaranteed_dh=r.NO)
    lib = kit.library(r, [r.Skill(name="LB 1", is_GCD=False, timing_spec=ts0, damage_spec=r.DamageSpec(potency=100, **no)),
                          r.Skill(name="LB 3", is_GCD=False, timing_spec=ts1, damage_spec=r.DamageSpec(potency=1, **no)),
                          r.Skill(name="h", is_GCD=False, timing_spec=ts0, damage_spec=r.DamageSpec(potency=h, **(no if h == 1 else {})))])
    return s, lib


VAL = {"x": (10000.5, 25000, 3000, 8000), "m": (20000, 12000, 5000, 7000), "z": (0, 0, 0, 0)}


def build(r, env, s, lib, rots):
    from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
    hp = env.int("hp", 1, 60000, seeds=(10000, 35000))
    k = KillTimeEstimator(boss_hp=hp)
    hits, n = [], 0
    for i, q in enumerate(rots):
        rb = r.RotationBuilder(s[i] if isinstance(s, list) else s, lib, fight_start_time=0)
        for c in q:
            t = env.int(f"t{n}", 0, 80)
            if c == "h":
                rb.add(t / 8, "h")
                hits.append((c, t * 125, i))
            else:
                v = VAL[c][n]
                three = n % 2
                rb.add(t / 8, "LB 3" if three else "LB 1", skill_modifier=r.SkillModifier(with_condition=("Mean" if c == "m" else "Exact") + f" Damage: {v}"))
                hits.append((c, t * 125 + (1247 if three else 0), v))
            n += 1
        k.add_rotation(rb)
    return k, hp, hits


def judge(env, kt, hp, hits):
    """hits: (time, damage)"""
    sums = [ssum(ite(tj <= ti, dj, 0) for tj, dj in hits) for ti, _ in hits]
    total = ssum(d for _, d in hits)
    if kt is None:
        env.cover("not_killed")
        return env.check(total < hp, "no kill only if the total damage does not reach the HP")
    env.cover("killed")
    env.check(total >= hp, "a kill only if the total damage reaches the HP")
    ms = kt * 1000
    env.check(Or(*[And(abs(ms - ti) < 0.01, si >= hp) for (ti, _), si in zip(hits, sums)]), "the boss dies at a hit that brings the sum to its HP")
    env.check(And(*[Implies(si >= hp, ms <= ti + 0.01) for (ti, _), si in zip(hits, sums)]), "not at a later one")
    if bool(Or(*[si == hp for si in sums])):
        env.cover("exactly")
    if len(hits) > 1 and bool(hits[0][0] == hits[1][0]):
        env.cover("tie")


US = (123456789, 9007199000000000, 3 * 10 ** 15 + 7, 2 ** 51 + 12345)


def h_kill(env, rots):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    s, lib = setup(r)
    u = env.share_draws("u")
    if set("".join(rots)) & set("hm"):
        env.assume(Or(*[u == x for x in US]))
        u = env.pick(u)
    s = [kit.stats(r, main_stat=x) for x in (2600, 2900, 3300)]  # every player has their own
    k, hp, hits = build(r, env, s, lib, rots)
    kts, cum, ts = k.estimate_kill_time(num_samples=1, verbose=False)
    env.check(len(kts) == 1, "one result per sample")
    env.check(And(len(ts) == len(hits), cum.shape == (len(hits), 1)), "every hit of every rotation counts")
    out = []
    for c, t, v in hits:
        if c == "h":
            m = DamageSimulator(s[v], [(0, lib.get_skill("h", "test_job"), r.SkillModifier(), (r.StatusEffects(), r.StatusEffects()), 0, "A")], 1, save_damage_matrix=True)
            d = m.get_damage_matrix()[0][0]
        elif c in "xz":
            d = v
            env.cover("exact")
        else:
            d = floor(v * (0.95 + 0.1 * (u / 2.0 ** 53)))
            env.cover("mean")
        out.append((t, d))
    judge(env, kts[0], hp, out)
    env.check(And(*[ts[i] <= ts[i + 1] for i in range(len(ts) - 1)]), "times are in order")
    env.check(cum[-1][0] == ssum(d for _, d in out), "the last cumulative damage is the total")
    if len(rots) > 1:
        env.cover("several")
    if "h" in "".join(rots):
        env.cover("mixed")


def floor(x):
    import math
    return x.__floor__() if hasattr(x, "__floor__") else math.floor(x)


def h_lb(env, cond):
    """the damage of a limit break is the given one, whatever its potency and its other conditions"""
    r = kit.imp()
    from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
    text, kind, v = CONDS[cond]
    s, lib = setup(r)
    u = env.share_draws("u")
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    rb.add(1.0, "LB 1", skill_modifier=r.SkillModifier(with_condition=text))
    k = KillTimeEstimator(boss_hp=1)
    k.add_rotation(rb)
    try:
        _, cum, _ = k.estimate_kill_time(num_samples=1, verbose=False)
    except RuntimeError:
        cum = None
    env.check((cum is None) == (kind == "e"), "rejected exactly if no damage is given")
    if kind == "e":
        return env.cover("error")
    if cum is None:
        return
    d = cum[0][0]
    if kind == "x":
        env.check(d == v, "exact limit break damage")
    else:
        env.check(And(d >= 0.95 * v - 1.001, d <= 1.05 * v + 0.001), "mean limit break damage within 5 percent")
        env.check(abs(d - v * (0.95 + 0.1 * (u / 2.0 ** 53))) < 1.001, "spread over the range")


def h_samples(env, rots):
    """two samples are judged separately"""
    r = kit.imp()
    s, lib = setup(r, 1)
    k, hp, hits = build(r, env, s, lib, rots)
    kts, cum, ts = k.estimate_kill_time(num_samples=2, verbose=False)
    env.check(And(len(kts) == 2, cum.shape == (len(hits), 2)), "one result per sample")
    ends = []
    for j in (0, 1):
        e = None
        for i in range(len(hits)):
            if bool(cum[i][j] >= hp):
                e = ts[i]
                break
        if e is not None:
            ends.append(e / 1000)
        for i in range(1, len(hits)):
            env.check(cum[i][j] >= cum[i - 1][j], "damage adds up")
    got = [x for x in kts if x is not None]
    env.check(len(got) == len(ends), "number of kills")
    for x, y in zip(got, ends):
        env.check(abs(x - y) < 1e-6, "kill times of the samples, in order")
    env.check(all(x is None for x in list(kts)[len(ends):]), "failures at the end")
    env.cover("samples")


def h_none(env):
    """the order in which rotations are added does not matter"""
    r = kit.imp()
    from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
    s, lib = setup(r)
    res = []
    a, b = env.int("a", 0, 80), env.int("b", 0, 80)
    hp = env.int("hp", 1, 40000)
    for order in ((0, 1, 2), (2, 1, 0)):
        k = KillTimeEstimator(boss_hp=hp)
        for i in order:
            rb = r.RotationBuilder(s, lib, fight_start_time=0)
            rb.add((a, b, 5 * 8)[i] / 8, "LB 1", skill_modifier=r.SkillModifier(with_condition=f"Exact Damage: {(10000, 7000, 20000)[i]}"))
            k.add_rotation(rb)
        res.append(k.estimate_kill_time(num_samples=1, verbose=False)[0][0])
    x, y = res
    env.check((x is None) == (y is None), "order of rotations does not matter")
    if x is not None and y is not None:
        env.check(abs(x - y) < 1e-6, "order of rotations does not matter")
    env.cover("late_rotation")
