ns = {}
exec(open("/verif/tools/bugs/b2.py").read(), ns)
PRE, RB = ns["PRE"], ns["RB"]
BUGS = [
 dict(id="c13-gain-lost-at-its-end", property="C13", file="trackers/job_resource_tracker.py",
  old="""                if curr_t > end_time:
                    continue
""", new="""                if curr_t >= end_time:
                    continue
""",
  needs="a timed gain looked at in the last millisecond of its duration", breaks="the gain is gone one millisecond early",
  demo=PRE + '''
from ama_xiv_combat_sim.simulator.trackers.job_resource_tracker import JobResourceTracker
t = JobResourceTracker({"G": JobResourceSettings(max_value=9, skill_allowlist=("x",))})
t.add_resource(1000, Skill(name="a", job_resource_spec=(JobResourceSpec(name="G", change=2, duration=5000),)), SkillModifier())
assert t.compile_job_resources(6000, Skill(name="x")) == "2 G"
assert t.compile_job_resources(6001, Skill(name="x")) == ""
'''),
 dict(id="c16-refresh-entered-out-of-order", property="C16", file=RB,
  old="return sorted(app_times, key=lambda x: x[0])", new="return app_times",
  needs="a DoT applied by a sequence and, earlier in time, by a timed press", breaks="the applications are not taken in time order and ticks are lost or doubled",
  demo=PRE + '''
d = Skill(name="d", is_GCD=True, timing_spec=T0, follow_up_skills=(FollowUp(skill=Skill(name="tick", damage_spec=DamageSpec(potency=10, damage_class=DamageClass.PHYSICAL_DOT)),
          delay_after_parent_application=0, dot_duration=9000, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True),))
w = Skill(name="w", is_GCD=True, timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, gcd_base_recast_time=6000, affected_by_speed_stat=False))
s = mk()
lib = library([d, w])
a = RotationBuilder(s, lib, fight_start_time=0)
a.add_next("w")
a.add_next("d")
a.add(2, "d")
b = RotationBuilder(s, lib, fight_start_time=0)
b.add(0, "w")
b.add(2, "d")
b.add(6, "d")
x, y = hits(a, s, lib), hits(b, s, lib)
assert [h[0] for h in x] == [h[0] for h in y] == [2000, 5000, 6000, 9000, 12000], (x, y)
'''),
 dict(id="c26-last-whole-second", property="C26", file="rotation_analysis/rotation_analysis_utils.py",
  old="int(np.ceil(max_t / 1000))", new="int(np.floor(max_t / 1000))",
  needs="a last snapshot that is not at a whole second", breaks="the interval row just before the last snapshot is missing",
  demo=PRE + '''
from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
class P:
    def __init__(self, t, d):
        self.snapshot_time, self.expected_damage = t, d
r = RotationAnalysisUtils.get_dps_at_intervals([P(0, 10), P(4500, 5), P(5500, 7)], 5)
assert r["snapshot_time"] == [5, 5.5] and r["total_snapshotted_damage"] == [15, 22], r
'''),
 dict(id="c27-builder-keeps-gauge", property="C27", file="timeline_builders/damage_builder.py",
  old="", new="", needs="", breaks="", demo=""),
]
BUGS = [b for b in BUGS if b["old"]]
