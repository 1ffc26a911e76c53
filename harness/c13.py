"""C13: job resource gauges."""
from harness.common import *
from harness import kit
import itertools
import math

BOUNDS = "every sequence of up to 4 (quick) or 5 (thorough) events out of {gain, refreshing gain, timed gain, spend (in five sequences also one that only counts for a time), spend-all, clear-all, event that lies in the future of the query} on one resource, arbitrary gaps 0..30000 ms, amounts 1..3, cap 1..4, timed duration 1..20000 ms, expiry off or 1..20000 ms; a second resource with its own allowlist is present; first event at any time -5000..5000 ms; a rotation of two gains and two uses at any multiples of 125 ms with any delay"
OUTSIDE = "longer histories; amounts above 3"
COVERS = ("zero", "positive", "cleared", "future", "no_number", "not_allowed", "rotation")

OPS = ("gain", "ref", "timed", "spend", "all", "clear")


def tasks(tier):
    t = []
    n = 4 if tier == "quick" else 5
    groups = {}
    for k in range(1, n + 1):
        for seq in itertools.product(OPS, repeat=k):
            if k >= 3 and (seq[0] in ("spend", "all", "clear") or seq.count("clear") + seq.count("all") > 1):
                continue
            if k >= 4 and (seq.count("clear") + seq.count("all") + seq.count("spend") > 2 or seq.count("gain") > 2):
                continue
            if k >= 4 and tier == "quick" and seq[0] == "timed":
                continue
            for exp in (0, 1):
                if exp == 0 and ("ref" in seq or k >= 4):
                    continue
                groups.setdefault((k, exp, seq[:2]), []).append(list(seq))
    for (k, exp, _), v in sorted(groups.items(), key=str):
        for i in range(0, len(v), 12):
            t.append(dict(h="h_gauge", exp=exp, seqs=v[i:i + 12]))
    for seq in (["ref", "ref"], ["gain", "gain"], ["ref", "gain"], ["gain", "spend"], ["ref", "spend", "ref"]):
        t.append(dict(h="h_gauge", exp=1, seqs=[seq], future=1))
    for seq in (["tspend", "gain"], ["gain", "tspend"], ["gain", "tspend", "gain"], ["gain", "tspend", "spend"], ["ref", "tspend", "ref"]):
        t.append(dict(h="h_gauge", exp=0 if "ref" not in seq else 1, seqs=[seq]))
    t.append(dict(h="h_order"))
    t.append(dict(h="h_allow"))
    t += [dict(h="h_rotation", snap=s, cast=c) for s in (0, 1) for c in (0, 2000)]
    return t


def value(env, events, t, cap, exp):
    """the gauge at time t; events in time order: (time, change, duration or None, refreshes)"""
    total, since = 0, None
    for at, ch, dur, ref in events:
        if since is None:
            since = at
        if exp is not None:
            total = ite(since + exp < at, 0, total)
        if ref:
            since = at
        if ch is None:
            total = 0
        else:
            new = smax(0, smin(cap, total + ch))
            total = new if dur is None else ite(at + dur < t, total, new)
    if since is not None and exp is not None:
        total = ite(since + exp < t, 0, total)
    return total


def h_gauge(env, exp, seqs, future=0):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
    seq = env.choice("seq", seqs)
    cap = env.int("cap", 1, 4)
    n1 = env.int("n1", 1, 3)
    n2 = env.int("n2", 1, 3)
    dur = env.int("dur", 1, 20000)
    ex = env.int("exp", 1, 20000) if exp else None
    J = r.JobResourceSpec
    spec = dict(gain=J(name="G", change=n1), ref=J(name="G", change=n2, refreshes_duration_of_last_gained=True),
                timed=J(name="G", change=n1, duration=dur), spend=J(name="G", change=-n2), tspend=J(name="G", change=-n2, duration=dur), all=J(name="G", change=-math.inf),
                clear=J(clear_all_resources_only=True))
    eff = dict(gain=(n1, None, False), ref=(n2, None, True), timed=(n1, dur, False), spend=(-n2, None, False), tspend=(-n2, dur, False), all=(None, None, False), clear=(None, None, False))
    cfg = dict(max_value=cap, skill_allowlist=("H",))
    if exp:
        cfg["expiry_from_last_gain"] = ex
    tr = JobResourceTracker({"G": r.JobResourceSettings(**cfg), "K": r.JobResourceSettings(max_value=9, skill_allowlist=("H", "I"))})
    tr.add_resource(0, r.Skill(name="k", job_resource_spec=(J(name="K", change=2),)), r.SkillModifier())
    t = env.int("t0", -5000, 5000)
    events, k_left = [], True
    for i, op in enumerate(seq):
        if i:
            t = t + env.int(f"g{i}", 0, 30000)
        tr.add_resource(t, r.Skill(name=op, job_resource_spec=(spec[op],)), r.SkillModifier())
        events.append((t,) + eff[op])
        if op == "clear":
            env.cover("cleared")
    if future:
        # the query lies anywhere between two events
        q = events[0][0] + env.int("gq", 0, 60000)
        past = [e for e in events if bool(e[0] <= q)]
        if len(past) < len(events):
            env.cover("future")
        events = past
    else:
        q = t + env.int("gq", 0, 40000)
    got = [x.strip() for x in tr.compile_job_resources(q, r.Skill(name="H")).split(",")]
    got = [x for x in got if x.endswith("G")]
    want = value(env, events, q, cap, ex)
    if bool(want > 0):
        env.check(got == [f"{env.pick(want)} G"], "the condition names the gauge with its value")
        env.cover("positive")
    else:
        env.check(got == [], "an empty gauge adds no condition")
        env.cover("zero")


def h_order(env):
    """events reported out of time order count in time order; asking twice gives the same answer"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
    J = r.JobResourceSpec
    cap = env.int("cap", 1, 4)
    n1, n2 = env.int("n1", 1, 4), env.int("n2", 1, 4)
    a, b = env.int("a", 0, 20000), env.int("b", 0, 20000)
    env.assume(a != b)
    tr = JobResourceTracker({"G": r.JobResourceSettings(max_value=cap, skill_allowlist=("H",))})
    H = r.Skill(name="H")
    tr.add_resource(a, r.Skill(name="x", job_resource_spec=(J(name="G", change=n1),)), r.SkillModifier())
    tr.add_resource(b, r.Skill(name="y", job_resource_spec=(J(name="G", change=-n2),)), r.SkillModifier())
    want = ite(a < b, smax(0, smin(n1, cap) - n2), smin(n1, cap))
    q = 20000
    g1, g2 = tr.compile_job_resources(q, H), tr.compile_job_resources(q, H)
    w = "" if bool(want == 0) else f"{env.pick(want)} G"
    env.check(g1 == w, "time order decides")
    env.check(g2 == w, "asking does not change the gauge")


def h_allow(env):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
    J = r.JobResourceSpec
    n = env.int("n", 1, 6)
    t = env.int("t", 0, 10000)
    q = env.int("q", 0, 20000)
    num = env.flag("num")
    tr = JobResourceTracker({"G": r.JobResourceSettings(max_value=4, skill_allowlist=("H",), add_number_to_conditional=num),
                             "K": r.JobResourceSettings(max_value=3, skill_allowlist=("H", "I"))})
    tr.add_resource(t, r.Skill(name="x", job_resource_spec={"": (J(name="G", change=n),), "both": (J(name="G", change=n), J(name="K", change=1))}),
                    r.SkillModifier(with_condition=env.choice("c", ("", "both"))))
    on = bool(q >= t)
    G = f"{env.pick(smin(n, 4))} G" if num else "G"
    h = {x.strip() for x in tr.compile_job_resources(q, r.Skill(name="H")).split(",") if x.strip()}
    i = {x.strip() for x in tr.compile_job_resources(q, r.Skill(name="I")).split(",") if x.strip()}
    z = tr.compile_job_resources(q, r.Skill(name="Z"))
    env.check(z == "", "a skill outside the allowlist sees no gauge")
    env.check(h - {"1 K"} == ({G} if on else set()), "gauge visible to its skills from its time on")
    env.check(("1 K" in h) == ("1 K" in i), "per-gauge allowlist")
    env.check("G" not in "".join(i), "per-gauge allowlist")
    env.cover("not_allowed")
    if not num:
        env.cover("no_number")


def h_rotation(env, snap, cast):
    """a hit is conditioned on the gauge at its snapshot (or application, if the skill says so), before its own change"""
    r = kit.imp()
    J = r.JobResourceSpec
    d = env.choice("delay", (0, 1375)) if cast else env.int("delay", 0, 3000)
    flat = dict(animation_lock=0, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    D = r.DamageSpec
    g = r.Skill(name="g", is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, application_delay=700, **flat), job_resource_spec=(J(name="G", change=1),))
    H = r.Skill(name="H", is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=cast, application_delay=d, **flat), job_resources_snapshot=bool(snap),
                damage_spec={"": D(potency=100), "1 G": D(potency=200), "2 G": D(potency=300)},
                **(dict(job_resource_spec=(J(name="G", change=-1),)) if snap else {}))
    lib = kit.library(r, [g, H], resources=(("G", r.JobResourceSettings(max_value=2, skill_allowlist=("H",))),))
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    ks = [env.int(f"k{i}", 0, 80) for i in range(4)]
    env.assume(And(ks[0] <= ks[1], ks[2] < ks[3]))
    off = 0 if not cast else cast - 500
    snaps = [125 * k + off for k in ks[2:]]
    lands = [125 * k + cast + (d if not cast else smax(0, d - 500)) for k in ks[2:]]
    at = snaps if snap else lands
    # a gain at the very moment of a use is not specified
    for i in (0, 1):
        for a in at:
            env.assume(125 * ks[i] != a)
    m = r.SkillModifier(with_condition=env.choice("cond", ("", "other")))
    for i, k in enumerate(ks):
        rb.add(k / 8, "g" if i < 2 else "H", skill_modifier=m)
    hits = r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())
    env.check(len(hits) == 2, "two hits")
    gains = [125 * ks[0], 125 * ks[1]]
    v = [None, None]
    v[0] = ite(gains[0] < at[0], 1, 0) + ite(gains[1] < at[0], 1, 0)
    if snap:
        # events in time order: gains clamp at 2 (never exceeded: two gains), the first use spends one if there is one
        left = smax(0, v[0] - 1)
        v[1] = left + ite(And(gains[0] > at[0], gains[0] < at[1]), 1, 0) + ite(And(gains[1] > at[0], gains[1] < at[1]), 1, 0)
    else:
        v[1] = ite(gains[0] < at[1], 1, 0) + ite(gains[1] < at[1], 1, 0)
    for h, x in zip(hits, v):
        env.check(h[1].get_damage_spec(h[2]).potency == 100 + 100 * x, "the gauge before the own change decides")
    env.cover("rotation")
