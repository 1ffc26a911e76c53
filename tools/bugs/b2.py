PRE = '''
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
from ama_xiv_combat_sim.simulator.stats import Stats
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder
def mk(job="test_job", **kw):
    d = dict(wd=126, weapon_delay=3.0, main_stat=2945, det_stat=1620, crit_stat=2377, dh_stat=1048, speed_stat=400, job_class=job, version="test")
    d.update(kw)
    return Stats(**d)
def library(skills, jobs=("test_job",), resources=()):
    lib = SkillLibrary(version="test")
    for j in jobs:
        lib.set_current_job_class(j)
        for n, c in resources:
            lib.add_resource(n, c)
        for s in skills:
            lib.add_skill(s)
    return lib
def hits(rb, s, lib):
    return [(d[0], d[1].name, d[1].get_damage_spec(d[2]).potency, d[5]) for d in DamageBuilder(s, lib).get_damage_instances(rb.get_skill_timing())]
T0 = TimingSpec(base_cast_time=0, animation_lock=0)
'''
RB = "timeline_builders/rotation_builder.py"
BUGS = [
 dict(id="c07-target-of-shared-press", property="C07", file="simulator/damage_simulator.py",
  old="                self.__target[i],", new="                self.__target[self.__event_ids.index(self.__event_ids[i])],",
  needs="one press hitting two targets (its hits share an event id)", breaks="the per-hit report names the first target for all of them",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
s = mk()
no = (StatusEffects(), StatusEffects())
a = Skill(name="a", damage_spec=DamageSpec(potency=100))
x = DamageSimulator(s, [(0, a, SkillModifier(), no, 1, "P"), (0, a, SkillModifier(), no, 1, "Q"), (5, a, SkillModifier(), no, 2, "R")], 2)
assert sorted(p.target for p in x.get_per_skill_damage()) == ["P", "Q", "R"]
'''),
 dict(id="c08-remove-one-half", property="C08", file="trackers/status_effect_tracker.py",
  old="        if expired_effect_name in self.__get_debuffs(target):", new="        elif expired_effect_name in self.__get_debuffs(target):",
  needs="an effect that is a buff and a debuff at once, removed by name", breaks="the debuff half of a removed effect stays",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.trackers.status_effect_tracker import StatusEffectTracker
S = StatusEffectSpec
a = Skill(name="a", buff_spec=S(duration=20000, damage_mult=1.1), debuff_spec=S(duration=20000, damage_mult=1.2))
b = Skill(name="b", buff_spec=S(duration=1000, expires_status_effects=("a",)))
t = StatusEffectTracker()
t.add_to_status_effects(0, a, SkillModifier())
t.expire_status_effects(1000)
t.add_to_status_effects(1000, b, SkillModifier())
t.expire_status_effects(1500)
assert t.compile_buffs(1500, Skill(name="x"))[0].damage_mult == 1
assert t.compile_debuffs(1500, Skill(name="x"))[0].damage_mult == 1
'''),
 dict(id="c12-reset-then-start", property="C12", file="trackers/combo_tracker.py",
  old="""        self.last_combo_skill_used = {}
        continue""", new="""        self.last_combo_skill_used = {}
        break""",
  needs="a skill that resets all combos and also starts one, followed by its continuation", breaks="the combo that such a skill starts is lost",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.trackers.combo_tracker import ComboTracker
t = ComboTracker({})
a = Skill(name="a", combo_spec=(ComboSpec(break_all_combos_only=True), ComboSpec()))
b = Skill(name="b", combo_spec=(ComboSpec(combo_actions=("a",)),))
t.compile_and_update_combo(0, a, SkillModifier())
assert t.compile_and_update_combo(2500, b, SkillModifier()) == ""
'''),
 dict(id="c12-breakers-of-another-job", property="C12", file="skills/skill_library.py",
  old="        return copy.deepcopy(self.__combo_breakers[job_class])",
  new="        return self.__combo_breakers[job_class] if job_class == self.__current_job_class else {}",
  needs="a library of several jobs, where the player's job was not the last one set up, and a combo broken by another group",
  breaks="the combo-breaking rules of the player's job are ignored",
  demo=PRE + '''
d = {"": DamageSpec(potency=500), "No Combo": DamageSpec(potency=100)}
sk = [Skill(name="a", is_GCD=True, timing_spec=T0, damage_spec=d, combo_spec=(ComboSpec(),)),
      Skill(name="b", is_GCD=True, timing_spec=T0, damage_spec=d, combo_spec=(ComboSpec(combo_actions=("a",)),)),
      Skill(name="c", is_GCD=True, timing_spec=T0, damage_spec=d, combo_spec=(ComboSpec(combo_group=1),))]
lib = SkillLibrary(version="test")
for j in ("test_job", "test_job2"):
    lib.set_current_job_class(j)
    if j == "test_job":
        lib.add_combo_breaker(0, (1,))
    for x in sk:
        lib.add_skill(x)
s = mk()
rb = RotationBuilder(s, lib)
for t, n in ((0, "a"), (2.5, "c"), (5, "b")):
    rb.add(t, n)
assert [h[2] for h in hits(rb, s, lib)] == [500, 500, 100]
'''),
 dict(id="c14-channel-min-length", property="C14", file="trackers/channeling_tracker.py",
  old="""                        return

                channel_end_time = min(
                    self.__start_channeling_time + self.__curr_channeling_spec.duration,
                    t,
                )
""", new="""                        return

                channel_end_time = max(
                    self.__start_channeling_time + 1000,
                    min(
                        self.__start_channeling_time
                        + self.__curr_channeling_spec.duration,
                        t,
                    ),
                )
""",
  needs="a channel that is interrupted within its first second", breaks="such a channel counts on past the press that ended it",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.trackers.channeling_tracker import ChannelingTracker
c = ChannelingTracker()
a = Skill(name="a", is_GCD=True, channeling_spec=ChannelingSpec(duration=8000))
b = Skill(name="b", is_GCD=True)
c.process_channeling(1000, a, SkillModifier())
c.process_channeling(1600, b, SkillModifier())
c.finalize()
w = [tuple(x)[:2] for x in c.get_channeling_windows()]
assert w == [(1000, 1600)], w
'''),
 dict(id="c17-snapshot-of-first-target", property="C17", file=RB,
  old="""                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, target, skill_damage_spec.damage_class
                    )""", new="""                    or self.__filter_by_downtime_range_and_damage_class(
                        snapshot_time, targets[0], skill_damage_spec.damage_class
                    )""",
  needs="a hit on two targets, snapshotted in the downtime of the second one and landing after it", breaks="the second target is hit although it was away at the snapshot",
  demo=PRE + '''
h = Skill(name="h", is_GCD=True, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=2000), damage_spec=DamageSpec(potency=100), has_aoe=True)
lib = library([h])
s = mk()
rb = RotationBuilder(s, lib, fight_start_time=0, downtime_windows={"Q": ((4, 6),)})
rb.add(5, "h", targets="P, Q")
assert [x[3] for x in hits(rb, s, lib)] == ["P"]
rb = RotationBuilder(s, lib, fight_start_time=0, downtime_windows={"P": ((4, 6),)})
rb.add(5, "h", targets="P, Q")
assert [x[3] for x in hits(rb, s, lib)] == ["Q"]
'''),
 dict(id="c17-first-window-decides", property="C17", file=RB,
  old="""            if (r[0] <= t < r[1]) and is_filtered_damage_type:
                return True
        return False""", new="""            if r[0] <= t < r[1]:
                return is_filtered_damage_type
        return False""",
  needs="two overlapping windows of one target with different damage classes", breaks="a window limited to one damage class hides another window over the same time",
  demo=PRE + '''
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=100, damage_class=DamageClass.DIRECT))
lib = library([h])
s = mk()
for w in (((1, 9, DamageClass.AUTO), (2, 8)), ((2, 8), (1, 9, DamageClass.AUTO))):
    rb = RotationBuilder(s, lib, fight_start_time=0, downtime_windows=w)
    for t in (1.5, 5, 8.5):
        rb.add(t, "h")
    assert [x[0] for x in hits(rb, s, lib)] == [1500, 8500]
'''),
 dict(id="c18-presses-before-zero", property="C18", file=RB,
  old="            self.__q_button_press_timing[i][0] -= first_damage_time",
  new="            self.__q_button_press_timing[i][0] -= max(0, first_damage_time)",
  needs="a rotation whose first damage lies before time 0 as entered", breaks="the reported presses are not counted from the first damage",
  demo=PRE + '''
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=100))
lib = library([h])
rb = RotationBuilder(mk(), lib)
rb.add(-3, "h")
rb.add(2, "h")
rb.get_skill_timing()
assert [p[0] for p in rb.get_button_press_timing()] == [0, 5000]
'''),
 dict(id="c20-shortest-hold", property="C20", file=RB,
  old="            else max(x[1] for x in intersecting_no_auto_periods)            ",
  new="            else min(x[1] for x in intersecting_no_auto_periods)",
  needs="an auto due exactly when one cast ends and the next begins", breaks="the auto fires inside the second cast",
  demo=PRE + '''
F = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False)
c = Skill(name="c", is_GCD=True, timing_spec=TimingSpec(base_cast_time=1500, animation_lock=0, **F))
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=1))
au = Skill(name="Auto", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, application_delay=500), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
s = mk()
lib = library([c, h, au])
rb = RotationBuilder(s, lib, enable_autos=True, fight_start_time=0)
for t, n in ((0, "h"), (1.5, "c"), (3, "c"), (10, "h")):
    rb.add(t, n)
q = rb.get_skill_timing()
got = []
while not q.is_empty():
    e = q.get_next()
    if e.skill.name == "Auto":
        got.append(e.event_times.primary)
assert sorted(got) == [0, 4500, 7500], got
'''),
 dict(id="c20-combo-cast", property="C20", file=RB,
  old="""            skill_modifier.add_to_condition(combo_conditional)

            cast_time""", new="""            cast_time""",
  needs="a skill whose cast time depends on its combo, pressed when an auto is due", breaks="autos are held for the wrong cast time",
  demo=PRE + '''
F = dict(affected_by_speed_stat=False, affected_by_haste_buffs=False, animation_lock=0)
c = Skill(name="c", is_GCD=True, timing_spec={"": TimingSpec(base_cast_time=0, **F), "No Combo": TimingSpec(base_cast_time=2000, **F)}, combo_spec=(ComboSpec(combo_actions=("b",)),))
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=1))
au = Skill(name="Auto", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, application_delay=500), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
s = mk()
lib = library([c, h, au])
rb = RotationBuilder(s, lib, enable_autos=True, fight_start_time=0)
for t, n in ((0, "h"), (2.5, "c"), (10, "h")):
    rb.add(t, n)
q = rb.get_skill_timing()
got = []
while not q.is_empty():
    e = q.get_next()
    if e.skill.name == "Auto":
        got.append(e.event_times.primary)
assert sorted(got) == [0, 4500, 7500], got
'''),
 dict(id="c22-comma-without-space", property="C22", file="simulator/utils.py",
  old="""        tmp = [x.strip() for x in condition.split(",")]""", new="""        tmp = [x.strip() for x in condition.split(", ")]""",
  needs="a condition list written without a space after the comma", breaks="the conditions are taken for one unknown condition and the default variant is used",
  demo=PRE + '''
a = Skill(name="a", damage_spec={"": DamageSpec(potency=1), "x,y": DamageSpec(potency=2), "x": DamageSpec(potency=3)})
for c in ("x,y", "y ,x", "x, y"):
    assert a.get_damage_spec(SkillModifier(with_condition=c)).potency == 2
'''),
 dict(id="c25-close-hits-swapped", property="C25", file="kill_time_estimator/kill_time_estimator.py",
  old="    idx_sort = np.argsort(all_t)", new="    idx_sort = np.argsort(np.round(all_t, -1))",
  needs="hits of two rotations a few milliseconds apart, one of which kills", breaks="damage of slightly later hits is counted first",
  demo=PRE + '''
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
a = Skill(name="LB 1", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=4), damage_spec=DamageSpec(potency=1))
b = Skill(name="LB 2", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=0), damage_spec=DamageSpec(potency=1))
lib = library([a, b])
for order in ((0, 1), (1, 0)):
    k = KillTimeEstimator(boss_hp=100)
    for i in order:
        rb = RotationBuilder(mk(), lib, fight_start_time=0)
        rb.add(1, ("LB 1", "LB 2")[i], skill_modifier=SkillModifier(with_condition=f"Exact Damage: {(1000, 100)[i]}"))
        k.add_rotation(rb)
    kt = k.estimate_kill_time(num_samples=1, verbose=False)[0]
    assert abs(kt[0] - 1.0) < 1e-9, kt
'''),
 dict(id="c28-centisecond-times", property="C28", file="rotation_import_utils/csv_utils.py",
  old="""            t = df["time"][i]""", new="""            t = round(float(df["time"][i]), 2)""",
  needs="a csv with millisecond press times", breaks="imported presses are moved to the nearest hundredth of a second",
  demo=PRE + '''
import os, tempfile
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=100))
lib = library([h])
d = tempfile.mkdtemp()
p = d + "/x.csv"
with open(p, "w") as f:
    f.write("time,skill_name,job_class,skill_conditional\\n1.234,h,,\\n2.504,h,,\\n")
try:
    rb = RotationBuilder(mk(), lib, fight_start_time=0)
    CSVUtils.populate_rotation_from_csv(rb, p)
    s = mk()
    assert [x[0] for x in hits(rb, s, lib)] == [1234, 2504]
finally:
    os.remove(p)
    os.rmdir(d)
'''),
 dict(id="c29-primary-follow-up-of-three", property="C29", file=RB,
  old="""        if follow_up_skill.primary_target_only:
            targets""", new="""        if follow_up_skill.primary_target_only and len(targets) < 3:
            targets""",
  needs="a press on three targets with a follow-up limited to the primary one", breaks="the follow-up hits all targets",
  demo=PRE + '''
f = Skill(name="f", damage_spec=DamageSpec(potency=7))
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=100), has_aoe=True,
          follow_up_skills=(FollowUp(skill=f, delay_after_parent_application=100, primary_target_only=True),))
lib = library([h])
s = mk()
rb = RotationBuilder(s, lib, fight_start_time=0)
rb.add(1, "h", targets="P, Q, R")
assert [x[3] for x in hits(rb, s, lib) if x[1] == "f"] == ["P"]
'''),
 dict(id="c30-party-modifier-dropped", property="C30", file="example_rotations/example_rotation_utils.py",
  old="            if len(party_skill) > 3:", new="            if len(party_skill) > 3 and len(party_skill[3].with_condition) > 0:",
  needs="an example with a party press whose modifier has no conditions but other settings", breaks="the modifier of that press is dropped",
  demo=PRE + '''
from ama_xiv_combat_sim.example_rotations.specific_rotations import SpecificRotations
from ama_xiv_combat_sim.example_rotations.example_rotation_utils import ExampleRotationUtils
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=100))
p = Skill(name="p", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=900), buff_spec=StatusEffectSpec(duration=9000, damage_mult=1.1))
lib = library([h, p], jobs=("test_job", "test_job2"))
a = SpecificRotations()
a.add_rotation_data("x", {90: dict(stats={}, skills=("h",), party_skills=((1.0, "p", "test_job2", SkillModifier(ignore_application_delay=True)),), start_version="6.55")})
a.set_version("6.55")
a.set_level(90)
rb = RotationBuilder(mk(), lib, fight_start_time=0)
_, out = ExampleRotationUtils.get_example_rotation_with_rb("x", rb, a)
q = out.get_skill_timing()
while not q.is_empty():
    e = q.get_next()
    if e.skill.name == "p":
        assert (e.event_times.primary if e.event_times.secondary is None else e.event_times.secondary) == 1000
'''),
]
