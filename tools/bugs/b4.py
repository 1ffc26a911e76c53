ns = {}
exec(open("/verif/tools/bugs/b2.py").read(), ns)
PRE, RB = ns["PRE"], ns["RB"]
BUGS = [
 dict(id="c19-long-lock-after-cast", property="C19", file=RB,
  old="                curr_t += cast_time + timing_spec.animation_lock", new="                curr_t += cast_time + (timing_spec.animation_lock if cast_time <= 0 else min(timing_spec.animation_lock, 650))",
  needs="a cast with an animation lock above 650 ms", breaks="the next action is pressed before the lock is over",
  demo=PRE + '''
c = Skill(name="c", is_GCD=True, damage_spec=DamageSpec(potency=1), timing_spec=TimingSpec(base_cast_time=2000, animation_lock=900, affected_by_speed_stat=False, affected_by_haste_buffs=False))
o = Skill(name="o", is_GCD=False, timing_spec=T0, damage_spec=DamageSpec(potency=1))
rb = RotationBuilder(mk(), library([c, o]), fight_start_time=0)
rb.add_next("c")
rb.add_next("o")
rb.get_skill_timing()
assert [x[0] for x in rb.get_button_press_timing()] == [0, 2900], rb.get_button_press_timing()
'''),
 dict(id="c21-one-millisecond-apart", property="C21", file="timeline_builders/snapshot_and_application_events.py",
  old="        if primary_time == secondary_time:\n", new="        if secondary_time is not None and abs(primary_time - secondary_time) < 2:\n",
  needs="a hit that lands 1 ms after its snapshot", breaks="it is reported at its snapshot time",
  demo=PRE + '''
h = Skill(name="h", is_GCD=True, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=1), damage_spec=DamageSpec(potency=100))
s = mk()
lib = library([h])
rb = RotationBuilder(s, lib, fight_start_time=0)
rb.add(1, "h")
assert [x[0] for x in hits(rb, s, lib)] == [1001]
'''),
 dict(id="c23-given-minimum-only-lowers", property="C23", file="simulator/utils.py",
  old="                min_potency_to_use = damage_spec_to_use[potency_key].use_min_potency\n", new="                min_potency_to_use = min(min_potency, damage_spec_to_use[potency_key].use_min_potency)\n",
  needs="a skill whose listed minimum potency for the log is above its lowest potency", breaks="the percentage of such a skill is explained wrongly",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.utils import Utils
D = DamageSpec
k = Skill(name="k", damage_spec={"": D(potency=600, use_min_potency=450), "No Positional": D(potency=540), "No Combo": D(potency=300), "No Combo, No Positional": D(potency=240)})
assert Utils.get_positional_condition(k, SkillModifier(bonus_percent=25)) == "" , Utils.get_positional_condition(k, SkillModifier(bonus_percent=25))
'''),
 dict(id="c20-slower-of-trait-and-target", property="C20", file=RB,
  old="                * curr_debuffs.auto_attack_delay_mult,\n", new="                * max(curr_debuffs.auto_attack_delay_mult, trait_auto_delay_mult),\n",
  needs="a job with a trait that speeds up autos, attacking a target whose debuff speeds them up more", breaks="the debuff counts only as much as the trait",
  demo=PRE + '''
auto = Skill(name="Auto", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, application_delay=500), damage_spec=DamageSpec(potency=90, damage_class=DamageClass.AUTO))
h = Skill(name="h", is_GCD=True, timing_spec=T0, damage_spec=DamageSpec(potency=1), debuff_spec=StatusEffectSpec(duration=30000, auto_attack_delay_reduction=0.5))
lib = library([auto, h], jobs=("test_job_haste",))
rb = RotationBuilder(mk("test_job_haste", weapon_delay=4.0), lib, enable_autos=True, fight_start_time=0)
rb.add(0, "h")
rb.add(5, "h")
q, t = rb.get_skill_timing(), []
while not q.is_empty():
    e = q.get_next()
    if e.skill.name == "Auto":
        t.append(e.event_times.primary)
assert t == [0, 1600, 3200], t
'''),
 dict(id="c08-reapplied-after-the-end", property="C08", file="trackers/status_effect_tracker.py",
  old="            time_left = max(prev_end_time - start_time, 0)", new="            time_left = prev_end_time - start_time",
  needs="an effect with an application delay pressed again just before it ends, so that it ends before the second application", breaks="the second application is shortened by the gap",
  demo=PRE + '''
b = Skill(name="b", is_GCD=False, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=2000), buff_spec=StatusEffectSpec(duration=4000, flat_cast_time_reduction=1000))
c = Skill(name="c", is_GCD=True, timing_spec=TimingSpec(base_cast_time=3000, animation_lock=0, affected_by_speed_stat=False, affected_by_haste_buffs=False), damage_spec=DamageSpec(potency=1))
s = mk()
lib = library([b, c])
rb = RotationBuilder(s, lib, fight_start_time=0)
rb.add(0, "b")
rb.add(5.5, "b")
rb.add(11, "c")
assert [x[0] for x in hits(rb, s, lib)] == [13000], hits(rb, s, lib)
'''),
]
