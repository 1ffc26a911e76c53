"""C26: rotation analysis: damage snapshotted until a time, at intervals, snapshot times per hit, expected best of k runs."""
from harness.common import *
from harness import kit

BOUNDS = ("up to four hits with any snapshot time -2000..3000000 ms (20000 for intervals and queries off the 125 ms grid) and any expected damage 0..10^5 (hundredths); queries at any ms 0..20000 or any multiple of 125 ms up to 3000000 given in seconds; intervals 1..7 s; "
          "per-hit snapshot times of rotations with casts, delays, follow-ups, DoT ticks and up to three targets at any multiple of 125 ms; best of up to five runs out of three results, two trials")
OUTSIDE = "more hits, runs or trials"
COVERS = ("before", "at", "after", "interval", "last", "prepull", "empty", "snap_cast", "snap_follow", "snap_dot", "snap_aoe", "max", "mean")


def tasks(tier):
    t = [dict(h="h_before", n=n) for n in (0, 1, 2)]
    t += [dict(h="h_before", n=n, long=1) for n in (1, 2)]
    t += [dict(h="h_interval", n=n, iv=i) for n in (1, 2) for i in (1, 2, 5)]
    if tier == "thorough":
        t += [dict(h="h_before", n=3), dict(h="h_before", n=4)]
        t += [dict(h="h_interval", n=n, iv=i) for n in (2, 3) for i in (3, 4, 7)]
    t += [dict(h="h_snap", seq=s) for s in ("c", "f", "d", "a", "ci", "fd", "ac")]
    t += [dict(h="h_best", k=k, trials=n) for k, n in ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2))]
    return t


def rows(env, n, hi=20000):
    from ama_xiv_combat_sim.simulator.damage_simulator import PerInstanceDamage
    out, data = [], []
    for i in range(n):
        t = env.int(f"t{i}", -2000, hi, seeds=(1001, 1003, 4011))
        d = env.int(f"d{i}", 0, 100000)
        out.append(PerInstanceDamage(t + 700, t, "s", 1, set(), None, d, 0, i, "T", None))
        data.append((t, d))
    return out, data


def h_before(env, n, long=0):
    from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as U
    rs, data = rows(env, n, 3000000 if long else 20000)
    if long:
        k = env.int("q", 0, 24000, seeds=(8001, 16003))
        q = k * 125
        got = U.get_all_damage_snapshots_before_timestamp(rs, k / 8)
    else:
        q = env.int("q", 0, 20000, seeds=(1001, 1003, 4011))
        got = U.get_all_damage_snapshots_before_timestamp(rs, q / 1000)
    env.check(got == ssum(ite(t <= q, d, 0) for t, d in data), "the damage snapshotted up to and including that time")
    if not data:
        return env.cover("empty")
    t = data[0][0]
    env.cover("before" if bool(t < q) else "at" if bool(t == q) else "after")


def h_interval(env, n, iv):
    from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as U
    rs, data = rows(env, n)
    env.assume(And(*[t <= 6 * iv * 1000 for t, _ in data]))
    last = data[0][0]
    for t, _ in data[1:]:
        last = smax(last, t)
    res = U.get_dps_at_intervals(rs, iv)
    ts, ds = res["snapshot_time"], res["total_snapshotted_damage"]
    env.check(len(ts) == len(ds), "one total per time")
    if bool(last < 0):
        env.cover("prepull")
        env.check(abs(ds[-1] - ssum(d for _, d in data)) < 0.011, "the last total is all damage")
        return
    for i, t in enumerate(ts[:-1]):
        env.check(t == (i + 1) * iv, "a row every interval")
        env.check(t * 1000 < last, "before the last hit")
        env.cover("interval")
    env.check(abs(ts[-1] * 1000 - last) < 0.001, "the last row is at the last hit")
    env.check(last <= (len(ts)) * iv * 1000, "no interval is missing")
    for i, v in enumerate(ds):
        lim = last if i == len(ds) - 1 else (i + 1) * iv * 1000
        env.check(abs(v - ssum(ite(t <= lim, d, 0) for t, d in data)) < 0.011, "total until that time")
    env.cover("last")


def h_snap(env, seq):
    """each hit reports the time its effects were decided"""
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    c, d = env.int("cast", 0, 3000), env.int("delay", 0, 3000)
    ts = r.TimingSpec(base_cast_time=c, animation_lock=0, application_delay=d, affected_by_speed_stat=False, affected_by_haste_buffs=False)
    ts0 = r.TimingSpec(base_cast_time=0, animation_lock=0)
    import functools
    D = functools.partial(r.DamageSpec, guaranteed_crit=r.NO, guaranteed_dh=r.NO)
    env.share_draws("u")
    F = r.Skill(name="F", damage_spec=D(potency=11))
    tick = r.Skill(name="tick", damage_spec=D(potency=17, damage_class=r.DamageClass.MAGICAL_DOT))
    lib = kit.library(r, [
        r.Skill(name="i", is_GCD=True, timing_spec=ts0, damage_spec=D(potency=1)),
        r.Skill(name="c", is_GCD=True, timing_spec=ts, damage_spec=D(potency=3)),
        r.Skill(name="a", is_GCD=True, timing_spec=ts, has_aoe=True, aoe_dropoff=0.5, damage_spec=D(potency=9)),
        r.Skill(name="f", is_GCD=True, timing_spec=ts, damage_spec=D(potency=5), follow_up_skills=(r.FollowUp(skill=F, delay_after_parent_application=700),)),
        r.Skill(name="d", is_GCD=True, timing_spec=ts, follow_up_skills=(
            r.FollowUp(skill=tick, delay_after_parent_application=0, dot_duration=6000),))])
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib, fight_start_time=0)
    k = env.int("t", 0, 16)
    want = []
    sh, land = smax(0, c - 500), c + ite(c > 0, smax(0, d - 500), d)
    for i, n in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 40)
        rb.add(k / 8, n, **(dict(targets="A, B, C") if n == "a" else {}))
        t = k * 125
        if n == "i":
            want.append(("i", t, t))
        elif n == "c":
            want.append(("c", t + sh, t + land))
            env.cover("snap_cast")
        elif n == "a":
            want += [("a", t + sh, t + land + 135 * j) for j in range(3)]
            env.cover("snap_aoe")
        elif n == "f":
            want += [("f", t + sh, t + land), ("F", t + sh, t + land + 700)]
            env.cover("snap_follow")
        else:
            want += [("tick", t + sh, t + land + 3000 * j) for j in range(2)]
            env.cover("snap_dot")
    sim = DamageSimulator(s, r.DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing()), 1)
    out = sim.get_per_skill_damage(rb=rb)
    env.check(len(out) == len(want), "a row per hit")
    for n in dict.fromkeys(w[0] for w in want):
        got = [x for x in out if x.skill_name == n]
        w = [x for x in want if x[0] == n]
        env.check(len(got) == len(w), "rows of " + n)
        for x, y in zip(got, w):
            env.check(x.snapshot_time == y[1], "snapshot time of " + n)
            env.check(x.application_time == y[2], "application time of " + n)


def h_best(env, k, trials):
    from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils as U
    xs = [env.int("x%d" % i, 0, 100000) for i in range(3)]
    got = U.get_expected_max_in_k_runs(xs, k, num_trials=trials)
    dr = env.drawn
    env.check(len(dr) == k * trials, "k runs per trial")
    v = [xs[i] for i in dr]
    if trials == 1:
        m = v[0]
        for x in v[1:]:
            m = smax(m, x)
        env.check(abs(got - m) < 1e-6, "the best of k runs")
        return env.cover("max")
    if k == 1:
        env.check(abs(got - (v[0] + v[1]) / 2) < 1e-6, "average over the trials")
        return env.cover("mean")
    a = (smax(v[0], v[1]) + smax(v[2], v[3])) / 2
    b = (smax(v[0], v[2]) + smax(v[1], v[3])) / 2
    env.check(Or(abs(got - a) < 1e-6, abs(got - b) < 1e-6), "average of the best")
