"""C11: debuffs live on the target they were applied to; buffs are global."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "three targets, three operations (apply to any non-empty subset of targets, remove by another effect on a subset, limited use on one target), arbitrary gaps 0..20000 ms, durations 1..30000 ms, probed on every target at any later time"
OUTSIDE = "more than three targets or operations"
COVERS = ("isolated", "active", "removed", "consumed")

T = ("T1", "T2", "T3")
SUB = ((0,), (1,), (0, 1), (1, 2), (0, 1, 2))


def tasks(tier):
    t = []
    ops = [("apply", s) for s in SUB] + [("remove", s) for s in ((0,), (1, 2))] + [("use", s) for s in ((0,), (2,))]
    n = 3 if tier == "quick" else 4
    for seq in itertools.product(ops, repeat=n - 1):
        for first in ((0,), (0, 1), (0, 1, 2)):
            if tier == "quick" and first == (0,) and seq[0][0] != "apply":
                continue
            t.append(dict(h="h_targets", seq=[["apply", list(first)]] + [[a, list(b)] for a, b in seq]))
    return t


def h_targets(env, seq):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    dur = env.int("dur", 1, 30000)
    n = env.choice("n", (1, 2))
    A = r.Skill(name="A", debuff_spec=r.StatusEffectSpec(duration=dur, num_uses=n, max_num_uses=3, damage_mult=1.1, skill_allowlist=("H",)))
    R = r.Skill(name="R", debuff_spec=r.StatusEffectSpec(duration=1, expires_status_effects=("A",)))
    B = r.Skill(name="B", buff_spec=r.StatusEffectSpec(duration=dur, crit_rate_add=0.1))
    H = r.Skill(name="H")
    tr = StatusEffectTracker()
    tr.add_to_status_effects(0, B, r.SkillModifier(), targets=("T2",))
    st = {x: None for x in range(3)}
    t = 0

    def tick():
        for x in range(3):
            if st[x] is not None and (bool(t > st[x][0]) or st[x][1] == 0):
                st[x] = None

    for i, (op, sub) in enumerate(seq):
        t = t + env.int(f"g{i}", 0, 20000)
        tr.expire_status_effects(t)
        tick()
        if op == "apply":
            tr.add_to_status_effects(t, A, r.SkillModifier(), targets=tuple(T[x] for x in sub))
            for x in sub:
                if st[x] is None:
                    st[x] = (t + dur, n)
                else:
                    st[x] = (t + smin(dur, st[x][0] - t + dur), min(st[x][1] + n, 3))
        elif op == "remove":
            tr.add_to_status_effects(t, R, r.SkillModifier(), targets=tuple(T[x] for x in sub))
            for x in sub:
                if st[x] is not None:
                    st[x] = (t, st[x][1])
                    env.cover("removed")
        else:
            x = sub[0]
            got, _ = tr.compile_debuffs(t, H, T[x])
            env.check(("A" in got.status_effects) == (st[x] is not None), "effect seen on its target only")
            if st[x] is not None:
                st[x] = (st[x][0], st[x][1] - 1)
                env.cover("consumed")
    t = t + env.int("gp", 0, 40000)
    tr.expire_status_effects(t)
    tick()
    for x in range(3):
        got, _ = tr.compile_debuffs(t, H, T[x])
        env.check(("A" in got.status_effects) == (st[x] is not None), "effect seen on its target only")
        env.check(got.crit_rate_add == 0, "buff is not a debuff")
        env.cover("active" if st[x] is not None else "isolated")
    got, _ = tr.compile_buffs(t, H)
    env.check(("B" in got.status_effects) == bool(t <= dur), "buff is global")
    env.check("A" not in got.status_effects, "debuff is not a buff")
