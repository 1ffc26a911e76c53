"""C08: when a status effect is active: start, expiry, refresh, extension cap, removal."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "every sequence of up to 3 (quick) or 4 (thorough) operations out of {apply, apply without extension, extend-only, apply with another duration, remove by another effect, clear all, unrelated effect} on buffs and on debuffs, at arbitrary non-decreasing integer times with gaps 0..40000 ms, durations 1..30000 ms, caps up to 60000 ms, observed by a probe at any later time; an effect that is a buff and a debuff at once, removed by name (alone or with another) through a buff or a debuff; a rotation that presses a cast-time buff twice (any times, delay and duration) and casts after the second application"
OUTSIDE = "longer sequences; durations above 30 s (only differences matter); events processed out of time order; what a cast started between the press and the application of an effect gets"
COVERS = ("active", "expired", "extended", "capped", "extend_only_skipped", "removed", "cleared", "boundary", "removed_both", "gap", "gap_extended", "targets")

OPS = ("apply", "noext", "extonly", "other", "remove", "clear", "unrelated")


def tasks(tier):
    t = []
    n = 3 if tier == "quick" else 4
    for side in ("buff", "debuff"):
        for k in range(1, n + 1):
            for seq in itertools.product(OPS, repeat=k):
                if side == "debuff" and ((k == 3 and tier == "quick" and seq[0] not in ("apply", "noext"))):
                    continue
                if seq[0] in ("clear", "remove", "unrelated") and k > 1:
                    continue
                t.append(dict(h="h_window", side=side, seq=list(seq)))
    for remover in ("buff", "debuff"):
        for multi in (False, True):
            t.append(dict(h="h_both", remover=remover, multi=multi))
    t.append(dict(h="h_gap"))
    t += [dict(h="h_targets", n=n) for n in (1, 2, 3)]
    return t


def h_gap(env):
    """the same rule for the rotation's own timing: an application after the effect ran out starts afresh"""
    r = kit.imp()
    T = r.TimingSpec
    d, dur, cap = env.int("delay", 0, 3000), env.int("dur", 1, 9000), env.int("cap", 9000, 12000)
    flat = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
    B = r.Skill(name="B", is_GCD=False, timing_spec=T(base_cast_time=0, animation_lock=0, application_delay=d),
                buff_spec=r.StatusEffectSpec(duration=dur, max_duration=cap, flat_cast_time_reduction=1000))
    C = r.Skill(name="C", is_GCD=True, timing_spec=T(base_cast_time=3000, animation_lock=0, **flat), damage_spec=r.DamageSpec(potency=100))
    rb = r.RotationBuilder(kit.stats(r), kit.library(r, [B, C]), fight_start_time=0)
    k1 = env.int("t", 1, 100)
    k2 = k1 + env.int("u", 0, 120)
    a2, e1 = 125 * k1 + d, d + dur
    u = 125 * k2
    env.assume(u > a2)
    rb.add(0, "B")
    rb.add(k1 / 8, "B")
    rb.add(k2 / 8, "C")
    ev = [e for e in kit.drain(rb.get_skill_timing()) if e.skill.name == "C"]
    gap = bool(e1 < a2)
    end = a2 + (dur if gap else smin(cap, e1 - a2 + dur))
    on = bool(u <= end)
    env.check(len(ev) == 1, "one cast")
    env.check(kit.app(ev[0]) == u + (2000 if on else 3000), "a cast is shortened exactly while the effect is on")
    env.cover("gap" if gap else "gap_extended")


def h_targets(env, n):
    """a buff is given once, however many targets its action has"""
    r = kit.imp()
    T = r.TimingSpec
    d, dur = env.int("delay", 0, 3000), env.int("dur", 1, 9000)
    uses = env.choice("uses", (1, None))
    kw = dict(num_uses=1, max_num_uses=3) if uses else {}
    B = r.Skill(name="B", is_GCD=False, has_aoe=True, timing_spec=T(base_cast_time=0, animation_lock=0, application_delay=d),
                damage_spec=r.DamageSpec(potency=1) if env.flag("hit") else None,
                buff_spec=r.StatusEffectSpec(duration=dur, max_duration=60000, damage_mult=1.5, skill_allowlist=("H",), **kw))
    H = r.Skill(name="H", is_GCD=True, timing_spec=T(base_cast_time=0, animation_lock=0, application_delay=0), damage_spec=r.DamageSpec(potency=100))
    s, lib = kit.stats(r), kit.library(r, [B, H])
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    k = env.int("t", 1, 120)
    k2 = k + env.int("u", 1, 40)
    rb.add(0, "B", targets=", ".join(("A", "B", "C")[:n]))
    rb.add(k / 8, "H", targets="A")
    rb.add(k2 / 8, "H", targets="A")
    hits = [h for h in r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing()) if h[1].name == "H"]
    env.check(len(hits) == 2, "two hits")
    env.assume(And(125 * k != d, 125 * k2 != d))
    on = [bool(And(125 * x > d, 125 * x <= d + dur)) for x in (k, k2)]
    if uses and on[0]:
        on[1] = False
    env.check([h[3][0].damage_mult for h in hits] == [1.5 if x else 1 for x in on], "from its application until its duration is over")
    env.cover("targets")


def h_window(env, side, seq):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    dur = env.int("dur", 1, 30000)
    dur2 = env.int("dur2", 1, 30000)
    cap = env.int("cap", 1, 60000)
    S = r.StatusEffectSpec
    cond = {"apply": "", "noext": "noext", "extonly": "extonly", "other": "other"}
    spec = {r.SimConsts.DEFAULT_CONDITION: S(duration=dur, max_duration=cap, damage_mult=1.1),
            "noext": S(duration=dur, extends_existing_duration=False, damage_mult=1.2),
            "extonly": S(duration=dur2, max_duration=cap, extend_only=True, damage_mult=1.3),
            "other": S(duration=dur2, max_duration=cap, damage_mult=1.4)}
    key = side + "_spec"
    A = r.Skill(name="A", **{key: spec})
    R = r.Skill(name="R", **{key: S(duration=5000, expires_status_effects=("A",))})
    C = r.Skill(name="C", buff_spec=S(duration=5000, clear_all_status_effects=True))
    U = r.Skill(name="U", **{key: S(duration=7000)})
    mult = {"apply": 1.1, "noext": 1.2, "extonly": 1.3, "other": 1.4}
    tr = StatusEffectTracker(("A", "C2") if "clear" in seq else ())
    probe = r.Skill(name="probe")
    st = None  # [start, end, mult] of A
    t = env.int("t0", 0, 1000)
    for i, op in enumerate(seq):
        if i:
            t = t + env.int(f"g{i}", 0, 40000)
        tr.expire_status_effects(t)
        if st is not None and t > st[1]:
            st = None
        if op in cond:
            sk, md = A, r.SkillModifier(with_condition=cond[op])
        else:
            sk, md = {"remove": R, "clear": C, "unrelated": U}[op], r.SkillModifier()
        tr.add_to_status_effects(t, sk, md)
        if op in cond:
            d = dur if op in ("apply", "noext") else dur2
            if st is None:
                if op == "extonly":
                    env.cover("extend_only_skipped")
                else:
                    st = [t, t + d, mult[op]]
            else:
                left = smax(st[1] - t, 0)
                if op == "noext":
                    st = [st[0], t + left, mult[op]]
                else:
                    st = [st[0], t + smin(cap, left + d), mult[op]]
                    env.cover("extended")
        elif op == "remove" and st is not None:
            st = [st[0], t, st[2]]
            env.cover("removed")
        elif op == "clear" and side == "buff":
            st = None
            env.cover("cleared")
    p = t + env.int("gp", 0, 70000)
    tr.expire_status_effects(p)
    got, _ = tr.compile_buffs(p, probe) if side == "buff" else tr.compile_debuffs(p, probe)
    want = And(st[0] <= p, p <= st[1]) if st is not None else False
    want = bool(want)
    env.check(("A" in got.status_effects) == want, "effect active exactly inside its window")
    env.check(got.damage_mult == (st[2] if want else 1), "the latest application's strength counts")
    o, _ = tr.compile_debuffs(p, probe) if side == "buff" else tr.compile_buffs(p, probe)
    env.check("A" not in o.status_effects, "a buff is not a debuff")
    env.cover("active" if want else "expired")
    if want and st is not None:
        if bool(p == st[1]):
            env.cover("boundary")
        if bool(st[1] == t + cap) and len(seq) > 1:
            env.cover("capped")


def h_both(env, remover, multi):
    """one effect that is a buff and a debuff at once: a removal by name ends both halves, and only the named ones"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
    S = r.StatusEffectSpec
    db, dd, d2 = env.int("db", 1, 30000), env.int("dd", 1, 30000), env.int("d2", 1, 30000)
    A = r.Skill(name="A", buff_spec=S(duration=db, damage_mult=1.1), debuff_spec=S(duration=dd, damage_mult=1.2))
    B = r.Skill(name="B", buff_spec=S(duration=d2, damage_mult=1.3), debuff_spec=S(duration=d2, damage_mult=1.3))
    R = r.Skill(name="R", **{remover + "_spec": S(duration=100000, expires_status_effects=("B", "A") if multi else ("A",))})
    tr = StatusEffectTracker()
    t = env.int("t0", 0, 1000)
    tr.add_to_status_effects(t, A, r.SkillModifier())
    tr.add_to_status_effects(t, B, r.SkillModifier())
    u = t + env.int("g", 0, 40000)
    tr.expire_status_effects(u)
    tr.add_to_status_effects(u, R, r.SkillModifier())
    p = u + env.int("gp", 0, 40000)
    tr.expire_status_effects(p)
    probe = r.Skill(name="probe")
    for got, end in ((tr.compile_buffs(p, probe)[0], t + db), (tr.compile_debuffs(p, probe)[0], t + dd)):
        a = bool(And(p <= end, p == u))
        b = bool(p <= t + d2) and (not multi or bool(p == u))
        env.check(("A" in got.status_effects) == a, "both halves of a removed effect end with the removal")
        env.check(("B" in got.status_effects) == b, "other effects stay until they end, named ones do not")
    env.check(("R" in tr.compile_buffs(p, probe)[0].status_effects) == (remover == "buff"), "the remover itself is in force")
    if bool(p > u) and bool(p <= t + db) and bool(p <= t + dd):
        env.cover("removed_both")
