"""C09: limited-use status effects: each benefiting hit takes one use, uses stack up to the cap, then the effect is gone."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "every sequence of up to 5 (quick) or 7 (thorough) events out of {apply, use by a benefiting skill, use by a skill outside the allowlist, use by a skill that denies the effect}; uses per application 1..3, cap 1..6 (arbitrary), arbitrary gaps 0..20000 ms, duration 1..60000 ms; buffs and debuffs"
OUTSIDE = "an application in the very event that consumes the last use"
COVERS = ("benefit", "exhausted", "stacked", "capped", "not_allowed", "denied", "timed_out", "executed")

OPS = ("apply", "use", "nouse", "deny")


def tasks(tier):
    t = []
    n = 5 if tier == "quick" else 7
    for side in ("buff", "debuff"):
        for k in range(2, n + 1):
            for seq in itertools.product(OPS, repeat=k):
                if seq[0] != "apply" or seq[-1] != "use" or seq.count("nouse") > 1 or seq.count("deny") > 1:
                    continue
                if side == "debuff" and k > 3 and tier == "quick":
                    continue
                t.append(dict(h="h_uses", side=side, seq=list(seq)))
    # long consumption chains
    for side in ("buff", "debuff"):
        for seq in (["apply"] + ["use"] * 5, ["apply", "apply"] + ["use"] * 7, ["apply", "use", "apply", "use", "use", "use", "use"]):
            t.append(dict(h="h_uses", side=side, seq=seq))
    for what in ("buff", "debuff"):
        for dmg in (0, 1):
            t.append(dict(h="h_executed", what=what, dmg=dmg))
    return t


def h_executed(env, what, dmg):
    """the use is taken when the skill is executed (snapshots), damaging or not, however late it takes effect"""
    r = kit.imp()
    delay = env.int("delay", 100, 20000)
    cast = 500 * env.choice("cast", (0, 3, 5))
    k = env.int("k", 1, 160)
    n = env.choice("n", (1, 2))
    T = r.TimingSpec
    spec = r.StatusEffectSpec(duration=60000, num_uses=n, max_num_uses=n, skill_allowlist=("U", "H"), crit_rate_add=0.5)
    e = 0 if what == "buff" else 1
    lib = kit.library(r, [
        r.Skill(name="A", timing_spec=T(base_cast_time=0, animation_lock=0, application_delay=0), **{what + "_spec": spec}),
        r.Skill(name="U", is_GCD=True, timing_spec=T(base_cast_time=cast, affected_by_speed_stat=False, affected_by_haste_buffs=False, application_delay=delay),
                buff_spec=r.StatusEffectSpec(duration=1, damage_mult=1.5, skill_allowlist=("none",)),
                damage_spec=r.DamageSpec(potency=1) if dmg else None),
        r.Skill(name="H", is_GCD=True, timing_spec=T(base_cast_time=0, application_delay=0), damage_spec=r.DamageSpec(potency=100))])
    rb = r.RotationBuilder(kit.stats(r), lib, fight_start_time=0)
    rb.add(0, "A")
    rb.add(1, "U")
    tu = 1000 + max(0, cast - 500)

    rb.add(tu // 125 / 8 + k / 8, "H")
    hits = r.DamageBuilder(kit.stats(r), lib).get_damage_instances(rb.get_skill_timing())
    h = [x for x in hits if x[1].name == "H"]
    env.check(And(len(h) == 1, h[0][3][e].crit_rate_add == (0.5 if n == 2 else 0)), "uses left after an earlier skill")
    if dmg:
        u = [x for x in hits if x[1].name == "U"]
        env.check(And(len(u) == 1, u[0][3][e].crit_rate_add == 0.5), "the earlier skill benefits")
    env.cover("executed")


def h_uses(env, side, seq):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    n = env.int("n", 1, 3)
    cap = env.int("cap", 1, 6)
    env.assume(cap >= n)
    dur = env.int("dur", 1, 60000)
    spec = r.StatusEffectSpec(duration=dur, num_uses=n, max_num_uses=cap, skill_allowlist=("H", "D"), crit_rate_add=0.5)
    A = r.Skill(name="A", **{side + "_spec": spec})
    sk = {"use": r.Skill(name="H"), "nouse": r.Skill(name="N"), "deny": r.Skill(name="D", status_effect_denylist=("A",))}
    tr = StatusEffectTracker()
    uses = end = None
    t = env.int("t0", 0, 1000)
    for i, op in enumerate(seq):
        if i:
            t = t + env.int(f"g{i}", 0, 20000)
        tr.expire_status_effects(t)
        if uses is not None and (bool(t > end) or bool(uses == 0)):
            env.cover("exhausted" if bool(uses == 0) else "timed_out")
            uses = end = None
        if op == "apply":
            tr.add_to_status_effects(t, A, r.SkillModifier())
            if uses is None:
                uses, end = n, t + dur
            else:
                uses, end = smin(uses + n, cap), t + smin(dur, end - t + dur)
                env.cover("stacked")
                if bool(uses == cap):
                    env.cover("capped")
            continue
        s = sk[op]
        got, _ = tr.compile_buffs(t, s) if side == "buff" else tr.compile_debuffs(t, s)
        want = uses is not None and op == "use"
        env.check(("A" in got.status_effects) == want, "benefits exactly while uses remain")
        env.check(got.crit_rate_add == (0.5 if want else 0), "strength")
        if want:
            uses = uses - 1
            env.cover("benefit")
        elif uses is not None:
            env.cover("denied" if op == "deny" else "not_allowed")
