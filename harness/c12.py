"""C12: combo success and failure over arbitrary press histories."""
from harness.common import *
from harness import kit
import itertools

BOUNDS = "every sequence of up to 4 (quick) or 5 (thorough) presses out of {starter, second step, third step, other-group starter and finisher, two-group skill, auto-succeeding skill, forced combo, combo reset, starter that also resets, neutral skill}, with arbitrary gaps 0..40000 ms, with and without group-breaking rules (tracker); the same through rotation and damage builder for sequences of 2-4 presses at any multiple of 125 ms, in a library of three jobs with different breaking rules"
OUTSIDE = "longer sequences (the state kept per group is one pair); more than two groups"
COVERS = ("ok", "fail_time", "fail_order", "boundary", "broken", "forced", "auto", "reset", "multi", "e2e_ok", "e2e_fail")

OPS = ("A", "B", "C", "D", "E", "M", "S", "F", "X", "N", "R")
EXP = 30000


def tasks(tier):
    t = []
    n = 4 if tier == "quick" else 5
    for brk in (0, 1):
        for k in range(2, n + 1):
            for seq in itertools.product(OPS, repeat=k):
                # the last press is the one judged; a neutral press or reset is not worth judging
                if seq[-1] in ("N", "X", "A", "D", "S", "F", "R"):
                    continue
                if k >= 3 and (seq.count("N") + seq.count("X") + seq.count("R") > 1 or seq[0] in ("N", "X", "E", "C")):
                    continue
                if k >= 4 and (seq[0] not in ("A", "D") or seq.count("S") + seq.count("M") > 1):
                    continue
                if k >= 4 and tier == "quick" and (seq[0] != "A" or seq[-1] == "M"):
                    continue
                t.append((brk, seq))
    # one task per (brk, length, last op) with the rest chosen inside keeps process overhead low
    groups = {}
    for brk, seq in t:
        groups.setdefault((brk, len(seq), seq[-1], seq[0]), []).append("".join(seq))
    out = [dict(h="h_tracker", brk=b, seqs=v[i:i + 40]) for (b, _, _, _), v in sorted(groups.items()) for i in range(0, len(v), 40)]
    for seq in ("AB", "ABC", "AxB", "DBA", "AEB", "ANB", "ACB", "ABB", "DRC", "DRE"):
        for brk in (0, 1):
            out.append(dict(h="h_e2e", seq=seq.replace("x", "X"), brk=brk))
    for seq in ("ADB", "ADEB", "DABE"):
        for brk in (0, 1):
            out.append(dict(h="h_e2e", seq=seq, brk=brk))
    return out


def skills(r, dmg=False):
    CS = r.ComboSpec

    def mk(name, *cs, i=1, **kw):
        d = {}
        if dmg:
            d = dict(is_GCD=True, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0, gcd_base_recast_time=0, affected_by_speed_stat=False),
                     damage_spec={"": r.DamageSpec(potency=1000), "No Combo": r.DamageSpec(potency=100)})
        return r.Skill(name=name, combo_spec=tuple(cs), **d)
    return dict(A=mk("A", CS()), B=mk("B", CS(("A",))), C=mk("C", CS(("B", "S", "R"))), D=mk("D", CS((), 1)), E=mk("E", CS(("D",), 1)),
                M=mk("M", CS(("A", "B"), 0), CS(("D",), 1)), S=mk("S", CS(("zzz",), 0, True)), F=None, N=mk("N"),
                X=mk("X", CS(break_all_combos_only=True)), R=mk("R", CS(break_all_combos_only=True), CS()))


GROUP = dict(A=[(0, ())], B=[(0, ("A",))], C=[(0, ("B", "S", "R"))], D=[(1, ())], E=[(1, ("D",))], M=[(0, ("A", "B")), (1, ("D",))],
             S=[(0, None)], N=[], X=None, R=[(0, ())])


class Ref:
    def __init__(self, brk):
        self.last, self.brk = {}, brk

    def press(self, env, t, op):
        forced = op == "F"
        name = "B" if forced else op
        g = GROUP[name]
        if g is None:
            self.last = {}
            env.cover("reset")
            return True
        if op == "R":
            self.last = {}
        ok = True
        for grp, acts in g:
            if forced or acts is None or acts == ():
                good = True
            else:
                prev = self.last.get(grp)
                if prev is None or prev[1] not in acts:
                    good = False
                    env.cover("fail_order")
                else:
                    good = bool(t <= prev[0] + EXP)
                    env.cover("ok" if good else "fail_time")
                    if good and bool(t == prev[0] + EXP):
                        env.cover("boundary")
            if good:
                self.last[grp] = (t, name)
            else:
                self.last.pop(grp, None)
            if self.brk and grp == 1:
                if self.last.pop(0, None) is not None:
                    env.cover("broken")
            ok = ok and good
        if forced:
            env.cover("forced")
        if op == "S":
            env.cover("auto")
        if op == "M":
            env.cover("multi")
        return ok


def h_tracker(env, brk, seqs):
    r = kit.imp()
    from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
    seq = env.choice("seq", seqs)
    sk = skills(r)
    tr = ComboTracker({0: (1,)} if brk else {})
    ref = Ref(brk)
    t = env.int("t0", -5000, 5000)
    for i, op in enumerate(seq):
        if i:
            t = t + env.int(f"g{i}", 0, 40000)
        got = tr.compile_and_update_combo(t, sk["B" if op == "F" else op], r.SkillModifier(force_combo=op == "F"))
        want = ref.press(env, t, op)
        env.check(got == (r.SimConsts.COMBO_SUCCESS if want else r.SimConsts.COMBO_FAIL), "combo succeeds exactly when it should")


def h_e2e(env, seq, brk):
    r = kit.imp()
    sk = skills(r, True)
    # a library of several jobs: only the player's own breaking rules count
    lib = r.SkillLibrary(version="test")
    for job, b in (("test_job2", not brk), ("test_job", brk), ("test_healer_job", not brk)):
        lib.set_current_job_class(job)
        if b:
            lib.add_combo_breaker(0, (1,))
        for x in sk.values():
            if x is not None:
                lib.add_skill(x)
    s = kit.stats(r)
    rb = r.RotationBuilder(s, lib)
    ref = Ref(brk)
    k, want = 0, []
    for i, op in enumerate(seq):
        if i:
            k = k + env.int(f"g{i}", 1, 320)
        rb.add(k / 8, op)
        want.append((op, k * 125, ref.press(env, k * 125, op)))
    q = rb.get_skill_timing()
    dmg = r.DamageBuilder(s, lib).get_damage_instances(q)
    env.check(len(dmg) == len(want), "one hit per press")
    for (op, t, ok), d in zip(want, dmg):
        env.check(d[1].name == op, "hits in press order")
        env.check(d[0] == t, "hit time")
        env.check(d[1].get_damage_spec(d[2]).potency == (1000 if ok else 100), "combo decides the potency")
        env.cover("e2e_ok" if ok else "e2e_fail")
