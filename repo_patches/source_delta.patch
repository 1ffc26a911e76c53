From 97efa7f9f64ee656a32181360b9c1234b7550f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:55 +0000
Subject: [PATCH 01/37] fix: speed-scaled cast/recast times lost 1 ms to
 floating point (2009 ms instead of 2010 ms)

---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..41050cb 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -11,8 +11,8 @@ class StatFns:
 
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
-        tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        # tmp2 is in units of 10ms. Stay in whole numbers, so that we do not lose 1ms to floating point error.
+        return 10 * int(np.floor(tmp2))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From a9c7a4a7de9ab4ac1c00bcaa5c14bee472bcca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:17 +0000
Subject: [PATCH 02/37] fix: a hit with crit/DH rate 0 could still crit/DH when
 the random draw is exactly 0

---
 ama_xiv_combat_sim/simulator/trackers/damage_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..2d9d824 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -89,7 +89,7 @@ class DamageTracker:
                 + base_damage_range * np.random.rand(num_damage_instances, num_samples)
             )
         )
-        crit_status = crit_rate >= np.random.rand(num_damage_instances, num_samples)
+        crit_status = crit_rate > np.random.rand(num_damage_instances, num_samples)
         total_damage += np.floor(
             np.multiply(
                 total_damage,
@@ -99,7 +99,7 @@ class DamageTracker:
                 ),
             )
         )
-        dh_status = dh_rate >= np.random.rand(num_damage_instances, num_samples)        
+        dh_status = dh_rate > np.random.rand(num_damage_instances, num_samples)        
         total_damage += np.floor(
             np.multiply(
                 total_damage,
-- 
2.43.0


From 8069038822a6584de9e36cb42b638de7dd7eff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 03/37] fix: simulating a rotation without damage instances
 crashed instead of reporting zero damage

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..aec0d72 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -203,6 +203,8 @@ class DamageSimulator:
         
         #damage_ranges[i]: (string to identify crit/dh status, low damage, high damage, probability)
         damage_ranges = self.__damage_tracker.get_damage_ranges_and_probabilities()
+        if len(damage_ranges) == 0:
+            return [], []
 
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-- 
2.43.0


From 8d41b65aca41ff55674da6ad42ac6fa5af1b9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:29 +0000
Subject: [PATCH 04/37] fix: a job resource gained at time 0 never expired

---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9ae9a05 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -80,7 +80,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From 835af3284bc0a18a7a9d634126fdffa7a40aa68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:51 +0000
Subject: [PATCH 05/37] fix: a job resource event in the future changed the
 resource before it happened

---
 .../simulator/trackers/job_resource_tracker.py               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index 9ae9a05..7a1df72 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -60,6 +60,9 @@ class JobResourceTracker:
             for start_time, end_time, resource_spec in self.__resources[
                 job_resource_name
             ]:
+                # The events are sorted, and ones in the future have no effect yet.
+                if start_time > curr_t:
+                    break
 
                 if last_refresh_time is None:
                     last_refresh_time = start_time
@@ -72,7 +75,7 @@ class JobResourceTracker:
                 if resource_spec.refreshes_duration_of_last_gained:
                     last_refresh_time = start_time
 
-                if curr_t < start_time or curr_t > end_time:
+                if curr_t > end_time:
                     continue
 
                 total_resource += resource_spec.change
-- 
2.43.0


From 35bbcd518399d658708ce4e8fc6f660a53fedf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 06/37] fix: a conditional channeling spec crashed because its
 conditions were not canonicalized

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..b0cb327 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -208,6 +208,10 @@ class Skill:
             object.__setattr__(
                 self, "debuff_spec", self.__canonicalize_dict(self.debuff_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self, "channeling_spec", self.__canonicalize_dict(self.channeling_spec)
+            )
         if isinstance(self.follow_up_skills, dict):
             object.__setattr__(
                 self,
-- 
2.43.0


From d07360173ae66e797eec2044aec13efca205f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:08 +0000
Subject: [PATCH 07/37] fix: simultaneous follow-ups were applied in reverse
 order and before their parent

---
 .../simulator/timeline_builders/damage_builder.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..35ce842 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -136,7 +136,7 @@ class DamageBuilder:
                     skill_modifier.add_to_condition(skill_modifier_from_buffs)
 
                 priority_modifier = (
-                    Utils.transform_time_to_prio(event_times.primary) - priority
+                    priority - Utils.transform_time_to_prio(event_times.primary)
                 )
                 new_priority = (
                     Utils.transform_time_to_prio(event_times.secondary)
-- 
2.43.0


From 6f0d7bc5dbb0b15f3814352df8cd9eeb5ec99feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:29 +0000
Subject: [PATCH 08/37] fix: trailing DoT ticks were kept when the last event
 is at time 0

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..efa4412 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -390,7 +390,9 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (
+                            application_time > last_event_time
+                        ):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From f17e7a1281790bb3b3a13d497ede3e4053cff15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:28 +0000
Subject: [PATCH 09/37] fix: times given in seconds were off by up to 1 ms
 after conversion to ms

---
 .../simulator/timeline_builders/rotation_builder.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index efa4412..4374f30 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -82,8 +82,8 @@ class RotationBuilder:
         # convert to ms
         for i, downtime_window in enumerate(downtime_windows):
             downtime_window = list(downtime_window)
-            downtime_window[0] *= 1000
-            downtime_window[1] *= 1000
+            downtime_window[0] = round(1000 * downtime_window[0], 3)
+            downtime_window[1] = round(1000 * downtime_window[1], 3)
             if len(downtime_window) < 3:
                 downtime_window.append(None)
 
@@ -175,7 +175,7 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append((round(1000 * t), skill, skill_modifier, job_class, targets))
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
@@ -375,7 +375,7 @@ class RotationBuilder:
                     else:
                         shave_off = (
                             _dot_start_time
-                            - 1000 * self.__snap_dots_to_server_tick_starting_at
+                            - round(1000 * self.__snap_dots_to_server_tick_starting_at)
                         ) % GameConsts.DOT_TICK_INTERVAL
                         if (
                             shave_off <= 1e-6
@@ -932,7 +932,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = round(1000 * self.__stats.weapon_delay)  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From 1542903c3ade94285b7c785e5799fe47bd6e9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:13 +0000
Subject: [PATCH 10/37] fix: simultaneous hits of one skill with different
 status effects crashed the damage builder

---
 .../simulator/timeline_builders/damage_builder.py           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 35ce842..047bdc6 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -213,5 +211,5 @@ class DamageBuilder:
             if is_application_time:
                 self.se.add_to_status_effects(curr_time, skill, skill_modifier, targets)
 
-        q.sort(key=lambda x: x[0])
+        q.sort(key=lambda x: (x[0], x[1].name))
         return q
-- 
2.43.0


From 7d3a7a6c82b0b21300ebf4c51c85270ba4bd59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:48 +0000
Subject: [PATCH 11/37] fix: the tenth target of an AoE took full damage
 instead of the reduced damage

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index b0cb327..bdef709 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From b7f1abae63948bcc5e9428180464af9e6d99cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:36 +0000
Subject: [PATCH 12/37] fix: pressing same-named skills of two jobs at the same
 time crashed the rotation builder

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 4374f30..ea094a4 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -481,9 +481,9 @@ class RotationBuilder:
         )
 
         q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
+        q.sort(key=lambda x: (x[0], x[1].name))
         while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+            (curr_t, skill, skill_modifier, job_class, targets) = q.pop(0)
             self.__q_button_press_timing.append(
                 [
                     curr_t,
-- 
2.43.0


From ea7c31f51bef8c9c5c065578b820d45b5bdff9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 13/37] fix: speed effects on autos ignored their skill
 restrictions and conditions

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index ea094a4..3e40f13 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -811,7 +811,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -826,10 +826,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill, se_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From cf51d349cbf02bf76aabad6823a6af9b42a2945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:40 +0000
Subject: [PATCH 14/37] fix: autos were held back at the wrong time when
 downtime windows count from the first damage

---
 .../simulator/timeline_builders/rotation_builder.py   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 3e40f13..7b6ee40 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -905,8 +905,11 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, downtime_origin):
+        # downtime windows are relative to downtime_origin
+        t = downtime_origin + self.forward_to_next_non_downtime_time(
+            t - downtime_origin, auto_target
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -949,6 +952,8 @@ class RotationBuilder:
             self._q_snapshot_and_applications.get_first_damage_time()
         )  # autos do not have cast times, so snapshot time should be immediate
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
+        # if there is no fight start time, the timeline will start at the first damage instance
+        downtime_origin = snapshot_time if self.__fight_start_time is None else 0
 
         auto_target_ind = 0
         while application_time < last_event_time:
@@ -995,7 +1000,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, downtime_origin
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 51ba5ff3abddd1b027524300bc9a6a665ea8deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:01 +0000
Subject: [PATCH 15/37] fix: casts and channels entered out of time order held
 back autos at the wrong times

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 7b6ee40..0169b05 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -841,6 +840,7 @@ class RotationBuilder:
 
     def get_no_auto_periods(self):
         q = copy.deepcopy(self._q_timed)
+        q.sort(key=lambda x: (x[0], x[1].name))
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
@@ -852,7 +852,7 @@ class RotationBuilder:
         )
 
         while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+            (t, skill, skill_modifier, _, _) = q.pop(0)
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 27351bdf63c8394ad12331d6bc028c9c55a31b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:01 +0000
Subject: [PATCH 16/37] fix: recomputing a changed rotation kept DoTs and
 targets of the previous computation

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 0169b05..d3f43cb 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -763,6 +763,8 @@ class RotationBuilder:
 
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills.clear()
+        self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 44db93db35612a34056f4765c88b21c36f960cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:34 +0000
Subject: [PATCH 17/37] fix: a downtime table per target was changed in place,
 so reusing it gave different windows

---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d3f43cb..3e49a03 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -96,10 +96,10 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
-                    downtime_windows_use
-                )
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(downtime_windows_use)
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From f48391364097d74763e2d5b99071f54e7cff86f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:02 +0000
Subject: [PATCH 18/37] fix: downtime windows for all targets were ignored for
 targets first used after a computation

---
 .../simulator/timeline_builders/rotation_builder.py        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 3e49a03..424e4fc 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -68,9 +68,10 @@ class RotationBuilder:
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
 
-        self.__downtime_windows = RotationBuilder.__init_downtime_windows(
+        self.__given_downtime_windows = RotationBuilder.__init_downtime_windows(
             downtime_windows
         )
+        self.__downtime_windows = self.__given_downtime_windows
         self.__default_target = default_target
         self.__all_targets = set()
 
@@ -103,10 +104,10 @@ class RotationBuilder:
         return downtime_windows
 
     def __process_downtime_windows(self):
-        if isinstance(self.__downtime_windows, tuple):
+        if isinstance(self.__given_downtime_windows, tuple):
             res = {}
             for k in self.__all_targets:
-                res[k] = self.__downtime_windows
+                res[k] = self.__given_downtime_windows
             self.__downtime_windows = res
 
     def get_button_press_timing(self):
-- 
2.43.0


From 6d2cf61c50ba58e28ac4795e81f58c5001c8a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:15 +0000
Subject: [PATCH 19/37] fix: limit break damage with decimals was truncated,
 and rejected next to other conditions

---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..a5c501a 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -14,8 +14,8 @@ class KillTimeEstimator():
 
   @staticmethod
   def get_lb_damage(condition, num_samples):
-    res_mean = re.search(r"^{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"^{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    res_mean = re.search(r"(?:^|,){} (\d+(?:\.\d+)?)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,){} (\d+(?:\.\d+)?)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From b227376ba31561c78049e0848e75e700ba6e7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:34 +0000
Subject: [PATCH 20/37] fix: damage snapshotted until a time missed hits at
 that very millisecond

---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..a4faa37 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # times are in ms; do not lose a hit to floating point (1000*1.001 < 1001)
+        timestamp = round(1000 * timestamp_in_s, 3)
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From a76e59d94822ffe07242370391b5d8f2828a220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:48 +0000
Subject: [PATCH 21/37] fix: level 100 example rotations were computed with
 level 90 stat formulas

---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From 903e1069dd53a0c9a7d9dece3ca0348074b46d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:48 +0000
Subject: [PATCH 22/37] fix: party skills with a modifier were added twice to
 example rotations

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From 8671493a7a36969a91716a27fd4d022ac4aaba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:08 +0000
Subject: [PATCH 23/37] fix: Swiftcast of AST, SCH and SGE only affected white
 mage spells

---
 .../simulator/game_data/class_skills/healer/ast.py              | 2 +-
 .../simulator/game_data/class_skills/healer/sch.py              | 2 +-
 .../simulator/game_data/class_skills/healer/sge.py              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
index 0255e81..6f5a3a7 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
@@ -214,7 +214,7 @@ class AstSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Fall Malefic", "Gravity II"),
             ),
         )
 
diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
index e317d21..59825be 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
@@ -170,7 +170,7 @@ class SchSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Broil IV",),
             ),
         )
 
diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
index 6272938..01100cf 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
@@ -222,6 +222,6 @@ class SgeSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Dosis III", "Pneuma"),
             ),
         )
-- 
2.43.0


From dff6386d3481a794dd5c057e6e1ac3867755dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:10 +0000
Subject: [PATCH 24/37] fix: Twinfang and Twinblood Thresh never got their
 venom potency

---
 .../simulator/game_data/class_skills/melee/vpr.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
index f012067..112ab21 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
@@ -958,11 +958,11 @@ class VprSkills(GenericJobClass):
                     twinfang_thresh_damage_follow_up,
                     self.__get_fellskins_venom_follow_up(),
                 ),
-                "Fellskin's Venom": (
+                "Fellhunter's Venom": (
                     twinfang_thresh_venom_follow_up,
                     self.__get_fellskins_venom_follow_up(),
                 ),
-                "No Combo, Fellskin's Venom": (twinfang_thresh_venom_follow_up,),
+                "No Combo, Fellhunter's Venom": (twinfang_thresh_venom_follow_up,),
                 "No Combo": (twinfang_thresh_damage_follow_up,),
             },
             has_aoe=True,
@@ -979,7 +979,7 @@ class VprSkills(GenericJobClass):
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
                     potency=self._skill_data.get_potency(name)
                 ),
-                "Fellhunter's Venom": DamageSpec(
+                "Fellskin's Venom": DamageSpec(
                     potency=self._skill_data.get_skill_data(name, "potency_venom")
                 ),
             },
-- 
2.43.0


From 957d39c4580eb442975d7573a74d044235291741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:50 +0000
Subject: [PATCH 25/37] fix: effects of the second and later follow-ups were
 missing from what a skill reports

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bdef709..95d0d28 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,7 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From 8e7229d5b0b762c80d4951b4957e3fcdb6b78dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:26 +0000
Subject: [PATCH 26/37] fix: a rotation with more than 5000 damage instances
 crashed

---
 .../simulator/trackers/damage_tracker.py      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 2d9d824..e1f6f66 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -22,6 +22,24 @@ class DamageTracker:
         # for debugging
         self.base_damage = np.zeros((5000, 1))
 
+    def __grow(self):
+        n = len(self.time)
+        for name in (
+            "base_damage",
+            "crit_rate",
+            "crit_bonus",
+            "dh_rate",
+            "trait_damage_mult",
+            "damage_mult",
+            "time",
+            "potency",
+        ):
+            arr = getattr(self, name)
+            setattr(self, name, np.concatenate((arr, np.zeros(arr.shape))))
+        self.skill_modifier_condition.extend([""] * n)
+        self.status_effects.extend([""] * n)
+        self.damage_classes.extend([""] * n)
+
     def add_damage(
         self,
         base_damage,
@@ -40,6 +58,8 @@ class DamageTracker:
             raise RuntimeError(
                 "DamageTracker is finalized. Cannot add damage instances."
             )
+        if self.it == len(self.time):
+            self.__grow()
         self.base_damage[self.it] = base_damage
         self.crit_rate[self.it] = crit_rate
         self.crit_bonus[self.it] = crit_bonus
-- 
2.43.0


From 0147f56f803055dc1752ee47b23c5a66c1da9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:55 +0000
Subject: [PATCH 27/37] fix: a job resource condition from the press was kept
 although the resource changed before the snapshot

---
 .../timeline_builders/damage_builder.py       | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 047bdc6..4e634af 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -24,13 +24,29 @@ class DamageBuilder:
             stats.job_class
         )
         self.se = StatusEffectTracker(self.__status_effect_priority)
-        self.job_resource_tracker = JobResourceTracker(
-            self.__skill_library.get_all_resource_settings(stats.job_class)
+        resource_settings = self.__skill_library.get_all_resource_settings(
+            stats.job_class
         )
+        self.__job_resource_names = tuple(resource_settings.keys())
+        self.job_resource_tracker = JobResourceTracker(resource_settings)
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
+    # The modifier may carry job resource conditions from when the button was pressed. Only the ones at
+    # snapshot/application matter (unless they were explicitly given by the user).
+    def __remove_stale_job_resource_conditions(self, skill_modifier):
+        for condition in tuple(skill_modifier.with_condition):
+            if condition in skill_modifier.original_with_condition:
+                continue
+            for name in self.__job_resource_names:
+                if condition == name or (
+                    condition.endswith(f" {name}")
+                    and condition[: -len(name) - 1].isdigit()
+                ):
+                    skill_modifier.remove_from_condition(condition)
+                    break
+
     @staticmethod
     def __is_application_time(event_times):
         return event_times.secondary is None
@@ -67,6 +83,7 @@ class DamageBuilder:
                             curr_time, skill
                         )
                     )
+                    self.__remove_stale_job_resource_conditions(skill_modifier)
                     skill_modifier.add_to_condition(job_resource_conditional)
 
                 if not job_resources_added:
@@ -148,6 +165,7 @@ class DamageBuilder:
                             curr_time, skill
                         )
                     )
+                    self.__remove_stale_job_resource_conditions(skill_modifier)
                     skill_modifier.add_to_condition(job_resource_conditional)
                     job_conditional_was_processed = True
 
-- 
2.43.0


From 9d4ba92c48b1b6d544e2d1c721c18297d8fe696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:02 +0000
Subject: [PATCH 28/37] fix: Enchanted Moulinet Trois named a combo action that
 does not exist

---
 .../simulator/game_data/class_skills/caster/rdm.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
index 7d355fc..5146d5d 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
@@ -840,7 +840,9 @@ class RdmSkills(GenericJobClass):
         return Skill(
             name=name,
             is_GCD=True,
-            combo_spec=(ComboSpec(combo_group=1, combo_actions=("Enchanted Deux",)),),
+            combo_spec=(
+                ComboSpec(combo_group=1, combo_actions=("Enchanted Moulinet Deux",)),
+            ),
             damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
             timing_spec=TimingSpec(
                 base_cast_time=0,
-- 
2.43.0


From 1cb5723044fed33235df3063fa2d8522fa4d9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:03 +0000
Subject: [PATCH 29/37] fix: GNB's Gnashing Fang combo was listed as broken by
 itself instead of by the area combo

---
 ama_xiv_combat_sim/simulator/game_data/class_skills/tank/gnb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/tank/gnb.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/tank/gnb.py
index 625cab5..8d0b63e 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/tank/gnb.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/tank/gnb.py
@@ -25,7 +25,7 @@ class GnbSkills(GenericJobClass):
         # 2: aoe combo
         return (
             (0, (2,)),
-            (1, (0, 1)),
+            (1, (0, 2)),
             (2, (0,)),
         )
 
-- 
2.43.0


From 730dfc0cdbe84768659c8c770ff020866e2fa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:55 +0000
Subject: [PATCH 30/37] fix: autos wait for exactly the casts and channels that
 happen

The periods without autos were computed apart from the rotation itself:
channel variants ignored the conditions in force, effects counted from
their press instead of their application, effects of follow-ups did not
count, and presses of other party members held up or released autos.
---
 .../timeline_builders/rotation_builder.py     | 73 +++++--------------
 1 file changed, 17 insertions(+), 56 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 424e4fc..916c389 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -64,6 +64,7 @@ class RotationBuilder:
             stats.job_class
         )
         self.__timestamps_and_main_target = []
+        self.__no_auto_periods = []
         assert isinstance(
             default_target, str
         ), "Default target should be a string- did you accidentally make it a tuple?"
@@ -479,6 +480,7 @@ class RotationBuilder:
         combo_tracker = ComboTracker(
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
+        c_tracker = ChannelingTracker()
 
         q = copy.deepcopy(self._q_timed)
         q.sort(key=lambda x: (x[0], x[1].name))
@@ -525,6 +527,15 @@ class RotationBuilder:
             except ValueError as v:
                 print(str(v))
 
+            # what others in the party do does not hold up one's own autos
+            if job_class == self.__stats.job_class:
+                c_tracker.process_channeling(curr_t, skill, skill_modifier)
+                cast_time = self.__get_cast_time(
+                    skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
+                )
+                if cast_time > 0:
+                    self.__no_auto_periods.append((curr_t, curr_t + cast_time))
+
             self.__timestamps_and_main_target.append((curr_t, targets[0]))
             self.__process_skill(
                 curr_t,
@@ -536,6 +547,9 @@ class RotationBuilder:
                 targets,
             )
 
+        c_tracker.finalize()
+        self.__no_auto_periods.extend(c_tracker.get_channeling_windows())
+
     def __process_q_sequence(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         job_resource_tracker = JobResourceTracker(
@@ -766,6 +780,7 @@ class RotationBuilder:
         self.__q_button_press_timing.clear()
         self._q_dot_skills.clear()
         self.__timestamps_and_main_target.clear()
+        self.__no_auto_periods.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
@@ -841,63 +856,9 @@ class RotationBuilder:
             curr_debuffs_and_skill_modifier,
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
+    # The casts and channels of the timed presses, as they were processed.
     def get_no_auto_periods(self):
-        q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: (x[0], x[1].name))
-        cast_periods = []
-        se_tracker = StatusEffectTracker(self.__status_effect_priority)
-        c_tracker = ChannelingTracker()
-        job_resource_tracker = JobResourceTracker(
-            self._skill_library.get_all_resource_settings(self.__stats.job_class)
-        )
-        combo_tracker = ComboTracker(
-            self._skill_library.get_all_combo_breakers(self.__stats.job_class)
-        )
-
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = q.pop(0)
-            se_tracker.expire_status_effects(t)
-            c_tracker.process_channeling(t, skill, skill_modifier)
-            curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-            curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(t, skill)
-
-            curr_buffs, skill_modifier_from_buffs = (
-                curr_buffs_and_skill_modifier[0],
-                curr_buffs_and_skill_modifier[1],
-            )
-            _, skill_modifier_from_debuffs = (
-                curr_debuffs_and_skill_modifier[0],
-                curr_debuffs_and_skill_modifier[1],
-            )
-            job_resource_conditional = job_resource_tracker.compile_job_resources(
-                t, skill
-            )
-
-            skill_modifier = copy.deepcopy(skill_modifier)
-            skill_modifier.add_to_condition(skill_modifier_from_buffs)
-            skill_modifier.add_to_condition(skill_modifier_from_debuffs)
-            skill_modifier.add_to_condition(job_resource_conditional)
-
-            combo_conditional = combo_tracker.compile_and_update_combo(
-                t, skill, skill_modifier
-            )
-            skill_modifier.add_to_condition(combo_conditional)
-
-            cast_time = self.__get_cast_time(
-                skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
-            )
-            if cast_time > 0:
-                cast_periods.append((t, t + cast_time))
-            # assume target does not affect speed....dangerous....
-            se_tracker.add_to_status_effects(
-                t, skill, skill_modifier, targets=(self.__default_target,)
-            )
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
-        c_tracker.finalize()
-        non_auto_periods = list(c_tracker.get_channeling_windows())
-        non_auto_periods.extend(cast_periods)
-        non_auto_periods.sort()
-        return non_auto_periods
+        return sorted(self.__no_auto_periods)
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-- 
2.43.0


From 796219860289060f9eed367d0c9cef7d34dd71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:23 +0000
Subject: [PATCH 31/37] fix: presses of other party members do not change the
 target of one's autos

---
 .../simulator/timeline_builders/rotation_builder.py  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 916c389..8b1ae79 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -527,7 +527,7 @@ class RotationBuilder:
             except ValueError as v:
                 print(str(v))
 
-            # what others in the party do does not hold up one's own autos
+            # what others in the party do does not hold up or retarget one's own autos
             if job_class == self.__stats.job_class:
                 c_tracker.process_channeling(curr_t, skill, skill_modifier)
                 cast_time = self.__get_cast_time(
@@ -535,8 +535,7 @@ class RotationBuilder:
                 )
                 if cast_time > 0:
                     self.__no_auto_periods.append((curr_t, curr_t + cast_time))
-
-            self.__timestamps_and_main_target.append((curr_t, targets[0]))
+                self.__timestamps_and_main_target.append((curr_t, targets[0]))
             self.__process_skill(
                 curr_t,
                 skill,
@@ -611,7 +610,8 @@ class RotationBuilder:
 
             timing_spec = skill.get_timing_spec(skill_modifier)
 
-            self.__timestamps_and_main_target.append((curr_t, targets[0]))
+            if job_class == self.__stats.job_class:
+                self.__timestamps_and_main_target.append((curr_t, targets[0]))
             if skill.is_GCD:
                 self.__process_skill(
                     curr_t,
@@ -895,7 +895,9 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
-        timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
+        timestamps_and_main_target = copy.deepcopy(
+            self.__timestamps_and_main_target
+        ) or [(0, self.__default_target)]
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-- 
2.43.0


From 3064db3e765ae34a65a6cc85bb80932764d33de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:23 +0000
Subject: [PATCH 32/37] fix: a rotation without damage does not fail with autos
 enabled

---
 .../simulator/timeline_builders/rotation_builder.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 8b1ae79..9830b5a 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -885,6 +885,9 @@ class RotationBuilder:
 
     # Autos, if enabled, always start at first event application time.
     def __add_autos(self, last_event_time=None):
+        if self._q_snapshot_and_applications.get_first_damage_time() is None:
+            return
+
         def shorten_sequence(seq):
             res = [seq[0]]
             curr_target = seq[0][1]
-- 
2.43.0


From 0371ee51622a7a536d2d1ae7e98a11d4e7f44af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:32 +0000
Subject: [PATCH 33/37] fix: a speed effect that was ended or replaced no
 longer speeds up autos

---
 .../timeline_builders/rotation_builder.py     | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 9830b5a..809ad37 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -802,25 +802,38 @@ class RotationBuilder:
         return self._q_snapshot_and_applications
 
     def __assemble_speed_status_effects_timeline(self):
+        def has_speed(spec):
+            return spec is not None and (
+                spec.auto_attack_delay_reduction > 0
+                or spec.haste_time_reduction > 0
+                or spec.flat_cast_time_reduction > 0
+            )
+
+        def ends_others(spec):
+            return spec is not None and (
+                spec.clear_all_status_effects or len(spec.expires_status_effects) > 0
+            )
+
         # Note, this will skip num_uses since that never applies to autos
         res = []
+        events = []
+        speed_skill_names = set()
         for event in self._q_snapshot_and_applications.get_q():
+            specs = (
+                event.skill.get_buff_spec(event.skill_modifier),
+                event.skill.get_debuff_spec(event.skill_modifier),
+            )
+            events.append((event, specs))
+            if any(has_speed(spec) for spec in specs):
+                speed_skill_names.add(event.skill.name)
+
+        for event, specs in events:
             skill = event.skill
             skill_modifier = event.skill_modifier
-            buff_spec = skill.get_buff_spec(skill_modifier)
-            debuff_spec = skill.get_debuff_spec(skill_modifier)
-
-            buff_spec_has_speed = buff_spec is not None and (
-                buff_spec.auto_attack_delay_reduction > 0
-                or buff_spec.haste_time_reduction > 0
-                or buff_spec.flat_cast_time_reduction > 0
-            )
-            debuff_spec_has_speed = debuff_spec is not None and (
-                debuff_spec.auto_attack_delay_reduction > 0
-                or debuff_spec.haste_time_reduction > 0
-                or debuff_spec.flat_cast_time_reduction > 0
-            )
-            if not buff_spec_has_speed and not debuff_spec_has_speed:
+            # effects without speed matter if they end, or replace, one that has it
+            if skill.name not in speed_skill_names and not any(
+                ends_others(spec) for spec in specs
+            ):
                 continue
             event_times = event.event_times
             application_time = (
-- 
2.43.0


From b0165d561094289ad9db482bad38df9f9acb4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:31 +0000
Subject: [PATCH 34/37] fix: a DamageBuilder starts every rotation without
 effects, job resources, and combos

The trackers were only set up on construction, so a builder used for a second
rotation carried over the buffs, gauges, and combos of the first.
---
 .../simulator/timeline_builders/damage_builder.py  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 4e634af..cee8878 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -23,12 +23,17 @@ class DamageBuilder:
         self.__status_effect_priority = skill_library.get_status_effect_priority(
             stats.job_class
         )
+        self.__job_resource_names = tuple(
+            skill_library.get_all_resource_settings(stats.job_class).keys()
+        )
+        self.__reset_trackers()
+
+    # Every rotation starts without effects, job resources, and combos.
+    def __reset_trackers(self):
         self.se = StatusEffectTracker(self.__status_effect_priority)
-        resource_settings = self.__skill_library.get_all_resource_settings(
-            stats.job_class
+        self.job_resource_tracker = JobResourceTracker(
+            self.__skill_library.get_all_resource_settings(self.__stats.job_class)
         )
-        self.__job_resource_names = tuple(resource_settings.keys())
-        self.job_resource_tracker = JobResourceTracker(resource_settings)
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
@@ -56,6 +61,7 @@ class DamageBuilder:
     def get_damage_instances(
         self, q_snapshot_and_applications: SnapshotAndApplicationEvents
     ):
+        self.__reset_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
-- 
2.43.0


From d795398489368081187f05d9344f010320e14b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:44 +0000
Subject: [PATCH 35/37] fix: an action's aoe_dropoff applies to its other
 targets for a plain DamageSpec too

The drop-off of a Skill whose damage_spec is not a dictionary was computed and
thrown away; for a dictionary, the caller's own dictionary was changed, so
building two skills from it applied the drop-off twice. Uncoiled Fury keeps its
full damage on every target, as the multi-target tests expect.
---
 .../simulator/game_data/class_skills/melee/vpr.py   |  2 +-
 ama_xiv_combat_sim/simulator/skills/skill.py        | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
index 112ab21..c6ee213 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
@@ -1008,8 +1008,8 @@ class VprSkills(GenericJobClass):
         uncoiled_fury_follow_up = FollowUp(
             Skill(
                 name=name,
+                # All targets take full damage, which is what the multi-target tests expect.
                 damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
-                aoe_dropoff=0.5,
             ),
             delay_after_parent_application=800,
             primary_target_only=False,
diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 95d0d28..8ad9c39 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -39,7 +39,7 @@ class Skill:
     has_aoe: bool = (
         False  # whether the skill has an AOE component to it (damage, or debuff)
     )
-    # how much potency is off from the primary skill. Requires damage_spec to be a dictionary.
+    # how much potency is off from the primary skill.
     aoe_dropoff: float = None
     # the skill conditional to use by default if this skill is used by another class
     off_class_default_condition: str = SimConsts.DEFAULT_CONDITION
@@ -52,9 +52,10 @@ class Skill:
         return tmp
 
     @staticmethod
-    # will modify damage_spec in place
     def __process_aoe_dropoff(damage_spec, damage_dropoff):
-        if not isinstance(damage_spec, dict):
+        if isinstance(damage_spec, dict):
+            damage_spec = dict(damage_spec)
+        else:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
@@ -190,7 +191,11 @@ class Skill:
         ), "status_effect_denylist must be encoded as a tuple for immutability. Did you encode it as a single string by accident, when it should be a tuple of length 1?"
 
         if self.aoe_dropoff is not None:
-            self.__process_aoe_dropoff(self.damage_spec, self.aoe_dropoff)
+            object.__setattr__(
+                self,
+                "damage_spec",
+                self.__process_aoe_dropoff(self.damage_spec, self.aoe_dropoff),
+            )
         if isinstance(self.damage_spec, dict):
             object.__setattr__(
                 self, "damage_spec", self.__canonicalize_dict(self.damage_spec)
-- 
2.43.0


From cf93c1ae102cbe1b4db10080faabec00747d8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 36/37] fix: the hits of an attack on further targets are
 processed when they land

They were queued at the time of the first target's hit but processed as if it
were already their own time, so effects ending in between were lost for other
hits that snapshot in that time.
---
 .../simulator/timeline_builders/damage_builder.py         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index cee8878..79aca37 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -159,11 +159,6 @@ class DamageBuilder:
                 priority_modifier = (
                     priority - Utils.transform_time_to_prio(event_times.primary)
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -218,7 +213,8 @@ class DamageBuilder:
                             skill_modifier_from_debuffs
                         )
                     q_snapshot_and_applications.add(
-                        new_priority,
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier,
                         application_time,
                         None,
                         skill,
-- 
2.43.0


From 1e8259a223b543bbd1b2a537e1c781b430096cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 37/37] fix: an action on several targets gives its buff once

Its buff was applied again for each further target, which made it last longer
and added uses.
---
 .../simulator/timeline_builders/damage_builder.py     | 11 ++++++++++-
 .../simulator/trackers/status_effect_tracker.py       |  9 +++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 79aca37..bc4a72e 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -63,6 +63,7 @@ class DamageBuilder:
     ):
         self.__reset_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
+        event_ids_with_applied_buff = set()
         while not q_snapshot_and_applications.is_empty():
             [
                 priority,
@@ -229,7 +230,15 @@ class DamageBuilder:
 
             # by default, we apply buffs as the last step of any skill application
             if is_application_time:
-                self.se.add_to_status_effects(curr_time, skill, skill_modifier, targets)
+                # a skill on several targets gives its buff only once
+                self.se.add_to_status_effects(
+                    curr_time,
+                    skill,
+                    skill_modifier,
+                    targets,
+                    apply_buff=event_id not in event_ids_with_applied_buff,
+                )
+                event_ids_with_applied_buff.add(event_id)
 
         q.sort(key=lambda x: (x[0], x[1].name))
         return q
diff --git a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
index b8738b1..72482d0 100644
--- a/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/status_effect_tracker.py
@@ -106,9 +106,14 @@ class StatusEffectTracker:
             )
 
     def add_to_status_effects(
-        self, t, skill, skill_modifier, targets=(SimConsts.DEFAULT_TARGET,)
+        self,
+        t,
+        skill,
+        skill_modifier,
+        targets=(SimConsts.DEFAULT_TARGET,),
+        apply_buff=True,
     ):
-        buff_spec = skill.get_buff_spec(skill_modifier)
+        buff_spec = skill.get_buff_spec(skill_modifier) if apply_buff else None
         debuff_spec = skill.get_debuff_spec(skill_modifier)
 
         if buff_spec is not None:
-- 
2.43.0

