PRE = '''
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
from ama_xiv_combat_sim.simulator.stats import Stats
def mk(job="test_job", **kw):
    d = dict(wd=126, weapon_delay=3.0, main_stat=2945, det_stat=1620, crit_stat=2377, dh_stat=1048, speed_stat=400, job_class=job, version="test")
    d.update(kw)
    return Stats(**d)
'''
BUGS = [
 dict(id="c08-extension-cap-uses-old-spec", property="C08", file="trackers/status_effect_tracker.py",
  old="""                new_duration = min(
                    status_effect_spec.max_duration,
                    time_left + status_effect_spec.duration,
                )""",
  new="""                new_duration = min(
                    max(
                        status_effect_spec.max_duration,
                        prev_status_effect_spec.max_duration,
                    ),
                    time_left + status_effect_spec.duration,
                )""",
  needs="the same effect applied under two conditions with different maximum durations, the second smaller than time left plus duration",
  breaks="an effect refreshed by an application with a smaller cap outlives its maximum duration",
  demo=PRE + '''
sk = Skill(name="A", buff_spec={"": StatusEffectSpec(duration=20000, max_duration=60000, damage_mult=1.1),
                                "short": StatusEffectSpec(duration=20000, max_duration=30000, damage_mult=1.1)})
t = StatusEffectTracker()
t.add_to_status_effects(0, sk, SkillModifier())
t.expire_status_effects(1000)
t.add_to_status_effects(1000, sk, SkillModifier(with_condition="short"))
for at, want in ((31000, True), (31001, False), (38000, False)):
    t.expire_status_effects(at)
    got, _ = t.compile_buffs(at, Skill(name="x"))
    assert (got.damage_mult > 1) == want, (at, got.damage_mult)
'''),
 dict(id="c09-reapply-loses-uses", property="C09", file="trackers/status_effect_tracker.py",
  old="""            new_num_uses = min(
                prev_num_uses + status_effect_spec.num_uses,
                status_effect_spec.max_num_uses,
            )""",
  new="""            new_num_uses = min(
                max(prev_num_uses, 0) + max(status_effect_spec.num_uses - 1, 1),
                status_effect_spec.max_num_uses,
            )""",
  needs="an effect with several uses per application that is reapplied before its uses are gone",
  breaks="the reapplication adds one use too few",
  demo=PRE + '''
sk = Skill(name="A", buff_spec=StatusEffectSpec(duration=20000, num_uses=3, max_num_uses=6, damage_mult=1.1))
t = StatusEffectTracker()
t.add_to_status_effects(0, sk, SkillModifier())
t.compile_buffs(10, Skill(name="x"))
t.add_to_status_effects(20, sk, SkillModifier())
n = 0
for i in range(10):
    t.expire_status_effects(30 + i)
    n += t.compile_buffs(30 + i, Skill(name="x"))[0].damage_mult > 1
assert n == 5, n
'''),
 dict(id="c05-buff-forced-no-dh-ignored", property="C05", file="calcs/compute_damage_utils.py",
  old="""            damage_spec.guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or skill_modifier.guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or status_effects[1].guaranteed_dh is ForcedCritOrDH.FORCE_NO""",
  new="""            damage_spec.guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or skill_modifier.guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_dh is ForcedCritOrDH.FORCE_NO
            or status_effects[0].guaranteed_dh is ForcedCritOrDH.FORCE_NO""",
  needs="a debuff that forbids direct hits", breaks="a debuff forcing no direct hit is ignored; the contradiction with a forced direct hit is not rejected",
  demo=PRE + '''
sk = Skill(name="x", damage_spec=DamageSpec(potency=100))
r = ComputeDamageUtils.compute_crit_rates_and_bonuses(mk(), sk, SkillModifier(), (StatusEffects(), StatusEffects(guaranteed_dh=ForcedCritOrDH.FORCE_NO)))
assert r[0] == 0, r
'''),
 dict(id="c03-tank-physical-dot-order", property="C03", file="calcs/compute_damage_utils.py",
  old="""        base_damage = np.floor(potency * ap * det_dh / 100) / 1000
        if is_tank:
            base_damage = np.floor(
                base_damage
                * StatFns.fTnc(stats.tenacity, stats.version, stats.level)
                / 1000
            )
        base_damage = np.floor(np.floor(base_damage * spd) / 1000)""",
  new="""        base_damage = np.floor(potency * ap * det_dh / 100) / 1000
        base_damage = np.floor(np.floor(base_damage * spd) / 1000)
        if is_tank:
            base_damage = np.floor(
                base_damage
                * StatFns.fTnc(stats.tenacity, stats.version, stats.level)
                / 1000
            )""",
  needs="a tank's physical DoT with stats where the order of the floors matters", breaks="tenacity and speed floors in the wrong order give a base damage off by a little",
  demo=PRE + '''
import math
sk = Skill(name="x", damage_spec=DamageSpec(potency=30, damage_class=DamageClass.PHYSICAL_DOT))
bad = 0
for ten in range(400, 2500, 7):
    for spd in (400, 1000, 2000):
        s = mk("test_tank_job", tenacity=ten, speed_stat=spd)
        got = ComputeDamageUtils.get_base_damage(sk, SkillModifier(), s, (StatusEffects(), StatusEffects()))
        ap = StatFns.fAP(math.floor(2945 * 1.05) if s.num_roles_in_party == 5 else 2945 * (1 + 0.01 * s.num_roles_in_party) // 1, True, "test", s.level)
        d = math.floor(30 * ap * s.processed_stats.det_bonus / 100) / 1000
        d = math.floor(d * StatFns.fTnc(ten, "test", s.level) / 1000)
        d = math.floor(math.floor(d * StatFns.fSpd(spd, "test", s.level)) / 1000)
        d = math.floor(math.floor(d * StatFns.fWD(126, s.processed_stats.job_mod, "test", s.level)) / 100)
        bad += d != got
assert bad == 0, bad
'''),
 dict(id="c11-debuff-expire-all-targets", property="C11", file="trackers/status_effect_tracker.py",
  old="""                for expired_effect_name in debuff_spec.expires_status_effects:
                    self.__expire_named_effect(expired_effect_name, t, target)""",
  new="""                for expired_effect_name in debuff_spec.expires_status_effects:
                    for debuffed_target in (
                        self.debuffs if len(targets) > 1 else (target,)
                    ):
                        self.__expire_named_effect(
                            expired_effect_name, t, debuffed_target
                        )""",
  needs="three targets, and a debuff that removes another one used on two of them", breaks="removing a debuff from two targets also removes it from the third",
  demo=PRE + '''
A = Skill(name="A", debuff_spec=StatusEffectSpec(duration=20000, damage_mult=1.1))
R = Skill(name="R", debuff_spec=StatusEffectSpec(duration=1, expires_status_effects=("A",)))
t = StatusEffectTracker()
t.add_to_status_effects(0, A, SkillModifier(), targets=("T1", "T2", "T3"))
t.add_to_status_effects(10, R, SkillModifier(), targets=("T1", "T2"))
t.expire_status_effects(5000)
m = [t.compile_debuffs(5000, Skill(name="x"), x)[0].damage_mult for x in ("T1", "T2", "T3")]
assert m == [1, 1, 1.1], m
'''),
 dict(id="c10-priority-drops-unlisted", property="C10", file="trackers/status_effect_tracker.py",
  old="""                for j in range(i + 1, len(self.__status_effects_priority)):""",
  new="""                for j in range(i + 1, min(i + 2, len(self.__status_effects_priority))):""",
  needs="a priority list of three effects with the first and the third active at the same time", breaks="an effect two ranks lower in the priority list still counts",
  demo=PRE + '''
t = StatusEffectTracker(("A", "B", "C"))
for n in "AC":
    t.add_to_status_effects(0, Skill(name=n, buff_spec=StatusEffectSpec(duration=20000, num_uses=1, damage_mult=1.5)), SkillModifier())
g, _ = t.compile_buffs(10, Skill(name="x"))
assert g.damage_mult == 1.5, g.damage_mult
'''),
]
