"""C10: how simultaneous status effects combine for one hit."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "three simultaneous effects, each absent/present, allowlisted for the skill, for another skill or for all, denied by the skill or not; every priority order of up to three of them; additive bonuses any multiple of 1% up to 30% (main stat 0..400, flat reductions 0..3000 ms), multiplicative ones from lists; forced crit/DH on at most one effect"
OUTSIDE = "more than three simultaneous effects; two effects forcing the same outcome (rejected by an assertion)"
COVERS = ("sum", "allow", "deny", "prio", "condition", "forced")


def tasks(tier):
    t = []
    prios = [(), (0, 1), (1, 0), (2, 0, 1), (0, 1, 2), (2, 1, 0), (1, 2)]
    for side in ("buff", "debuff"):
        for p in prios:
            for d in ((), (0,), (1,), (0, 2)):
                t.append(dict(h="h_combine", side=side, prio=list(p), deny=list(d)))
    for side in ("buff", "debuff"):
        t.append(dict(h="h_values", side=side))
    return t


N = ("E0", "E1", "E2")
DM = (1.1, 1.2, 0.9)


def h_combine(env, side, prio, deny):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    allow = [env.choice(f"allow{i}", (None, ("H", "X"), ("X",))) for i in range(3)]
    present = [env.flag(f"on{i}") for i in range(3)]
    cond = env.choice("cond", (None, 0, 1))
    tr = StatusEffectTracker(tuple(N[i] for i in prio))
    dur = env.int("dur", 1000, 60000)
    for i in range(3):
        if present[i]:
            sp = r.StatusEffectSpec(duration=dur, damage_mult=DM[i], skill_allowlist=allow[i], add_to_skill_modifier_condition=cond == i)
            tr.add_to_status_effects(0, r.Skill(name=N[i], **{side + "_spec": sp}), r.SkillModifier())
    p = env.int("p", 0, 60000)
    env.assume(p <= dur)
    sk = r.Skill(name="H", status_effect_denylist=tuple(N[i] for i in deny))
    tr.expire_status_effects(p)
    got, cnd = tr.compile_buffs(p, sk) if side == "buff" else tr.compile_debuffs(p, sk)
    want = [i for i in range(3) if present[i] and (allow[i] is None or "H" in allow[i]) and i not in deny]
    first = next((i for i in prio if i in want), None)
    if first is not None:
        drop = [i for i in prio[list(prio).index(first) + 1:] if i in want]
        want = [i for i in want if i not in drop]
        if drop:
            env.cover("prio")
    env.check(sorted(got.status_effects) == [N[i] for i in want], "the effects that count")
    m = 1.0
    for i in want:
        m *= DM[i]
    env.check(close(got.damage_mult, m), "damage multipliers multiply")
    env.check(cnd == (N[cond] if cond is not None and cond in want else ""), "conditional effects reported")
    if cond in want:
        env.cover("condition")
    if any(a == ("X",) for a in allow):
        env.cover("allow")
    if deny:
        env.cover("deny")


def h_values(env, side):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    tr = StatusEffectTracker()
    L = {k: [] for k in ("c", "d", "m", "fc", "fg")}
    mm, hs, au = (0.75, 1.0, 0.5), (0.15, 0.0, 0.25), (0.1, 0.2, 0.0)
    fi = env.choice("forced", (None, 0, 1, 2))
    fk = env.choice("fk", ("YES", "NO"))
    for i in range(3):
        c, d = env.int(f"c{i}", 0, 30) / 100, env.int(f"d{i}", 0, 30) / 100
        m = env.int(f"m{i}", 0, 400)
        fc, fg = env.int(f"fc{i}", 0, 3000), env.int(f"fg{i}", 0, 3000)
        for k, v in zip(("c", "d", "m", "fc", "fg"), (c, d, m, fc, fg)):
            L[k].append(v)
        f = getattr(r, fk) if fi == i else r.DEF
        sp = r.StatusEffectSpec(duration=30000, crit_rate_add=c, dh_rate_add=d, main_stat_add=m, main_stat_mult=mm[i],
                                haste_time_reduction=hs[i], auto_attack_delay_reduction=au[i], flat_cast_time_reduction=fc,
                                flat_gcd_recast_time_reduction=fg, guaranteed_crit=f if i < 2 else r.DEF, guaranteed_dh=f if i else r.DEF)
        tr.add_to_status_effects(0, r.Skill(name=N[i], **{side + "_spec": sp}), r.SkillModifier())
    got, _ = tr.compile_buffs(10, r.Skill(name="H")) if side == "buff" else tr.compile_debuffs(10, r.Skill(name="H"))
    env.check(close(got.crit_rate_add, ssum(L["c"])), "crit rate bonuses add")
    env.check(close(got.dh_rate_add, ssum(L["d"])), "DH rate bonuses add")
    env.check(close(got.main_stat_add, ssum(L["m"])), "main stat bonuses add")
    env.check(close(got.flat_cast_time_reduction, ssum(L["fc"])), "flat cast reductions add")
    env.check(close(got.flat_gcd_recast_time_reduction, ssum(L["fg"])), "flat recast reductions add")
    env.check(close(got.main_stat_mult, 0.75 * 0.5), "main stat multipliers multiply")
    env.check(close(got.haste_time_mult, 0.85 * 0.75), "haste multiplies")
    env.check(close(got.auto_attack_delay_mult, 0.9 * 0.8), "auto delay reductions multiply")
    want = getattr(r, fk) if fi is not None else r.DEF
    env.check(got.guaranteed_crit == (want if fi in (0, 1) else r.DEF), "forced crit carried over")
    env.check(got.guaranteed_dh == (want if fi in (1, 2) else r.DEF), "forced DH carried over")
    env.cover("sum")
    env.cover("forced")
