From 60b7300684cf6d18f81c9fd223baaf9c2a4b9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:57 +0000
Subject: [PATCH 01/35] fix: keep follow-ups after their parent, in the listed
 order, when they are applied

The priority offset of a queued follow-up was negated when its snapshot was
turned into its application, so delayed follow-ups took effect before their
parent and in reverse order.
---
 .../simulator/timeline_builders/damage_builder.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..4eefa18 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -135,8 +135,8 @@ class DamageBuilder:
                     )
                     skill_modifier.add_to_condition(skill_modifier_from_buffs)
 
-                priority_modifier = (
-                    Utils.transform_time_to_prio(event_times.primary) - priority
+                priority_modifier = priority - Utils.transform_time_to_prio(
+                    event_times.primary
                 )
                 new_priority = (
                     Utils.transform_time_to_prio(event_times.secondary)
-- 
2.43.0


From 49ae132a2b4b3c67e7f9e6adc5123cc72a7fac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 02/35] fix: order damage instances by time and skill name only

Pushing whole instances on a heap compared StatusEffects with each other when
two targets were hit by the same skill at the same time, which raises a
TypeError.
---
 .../simulator/timeline_builders/damage_builder.py          | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 4eefa18..f82e43c 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -213,5 +211,6 @@ class DamageBuilder:
             if is_application_time:
                 self.se.add_to_status_effects(curr_time, skill, skill_modifier, targets)
 
-        q.sort(key=lambda x: x[0])
+        # Only times and skill names are comparable; the rest of an instance is not.
+        q.sort(key=lambda x: (x[0], x[1].name))
         return q
-- 
2.43.0


From 3958633fbc003d3103888f5a2bb12f2670cb54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 03/35] fix: process the hits of a multi-target skill at their
 own application times

The hits on the second and later targets were queued with the priority of the
first one, so the status effect tracker saw time run backwards: effects that
end in between were dropped from events that happen before their end.
---
 .../simulator/timeline_builders/damage_builder.py         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index f82e43c..c80947d 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -136,11 +136,6 @@ class DamageBuilder:
                 priority_modifier = priority - Utils.transform_time_to_prio(
                     event_times.primary
                 )
-                new_priority = (
-                    Utils.transform_time_to_prio(event_times.secondary)
-                    + priority_modifier
-                )
-
                 job_conditional_was_processed = False
                 if not job_conditional_processed and skill.job_resources_snapshot:
                     job_resource_conditional = (
@@ -194,7 +189,8 @@ class DamageBuilder:
                             skill_modifier_from_debuffs
                         )
                     q_snapshot_and_applications.add(
-                        new_priority,
+                        Utils.transform_time_to_prio(application_time)
+                        + priority_modifier,
                         application_time,
                         None,
                         skill,
-- 
2.43.0


From 5bcd66aab8e20ca7c2a91028e60c13d99477dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:55 +0000
Subject: [PATCH 04/35] fix: do not share version and level between skill
 libraries under construction

Every library set its own version/level on the same module-level skill data, so
libraries of different patches built at the same time mixed their potencies.
---
 .../game_data/class_skills/healer/sge.py         | 16 ++++++++--------
 .../simulator/game_data/generic_job_class.py     |  5 ++++-
 .../add_generic_skills_to_library.py             | 11 +++++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
index 6272938..55b67e9 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
@@ -41,7 +41,7 @@ class SgeSkills(GenericJobClass):
             timing_spec=TimingSpec(
                 base_cast_time=1500, animation_lock=100, application_delay=670
             ),
-            damage_spec=DamageSpec(potency=all_sge_skills.get_potency(name)),
+            damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
         )
 
     @GenericJobClass.is_a_skill
@@ -55,7 +55,7 @@ class SgeSkills(GenericJobClass):
             ),
             damage_spec={
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
-                    potency=all_sge_skills.get_potency(name)
+                    potency=self._skill_data.get_potency(name)
                 )
             },
             has_aoe=True,
@@ -73,7 +73,7 @@ class SgeSkills(GenericJobClass):
             ),
             damage_spec={
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
-                    potency=all_sge_skills.get_potency(name)
+                    potency=self._skill_data.get_potency(name)
                 )
             },
             has_aoe=True,
@@ -89,7 +89,7 @@ class SgeSkills(GenericJobClass):
             timing_spec=TimingSpec(
                 base_cast_time=0, animation_lock=650, application_delay=760
             ),
-            damage_spec=DamageSpec(potency=all_sge_skills.get_potency(name)),
+            damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
             has_aoe=True,
         )
 
@@ -104,7 +104,7 @@ class SgeSkills(GenericJobClass):
             ),
             damage_spec={
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
-                    potency=all_sge_skills.get_potency(name)
+                    potency=self._skill_data.get_potency(name)
                 )
             },
             has_aoe=True,
@@ -130,7 +130,7 @@ class SgeSkills(GenericJobClass):
         e_dosis_iii = Skill(
             name=name,
             damage_spec=DamageSpec(
-                potency=all_sge_skills.get_potency(name),
+                potency=self._skill_data.get_potency(name),
                 damage_class=DamageClass.MAGICAL_DOT,
             ),
         )
@@ -164,7 +164,7 @@ class SgeSkills(GenericJobClass):
         e_dysk = Skill(
             name=name,
             damage_spec=DamageSpec(
-                potency=all_sge_skills.get_skill_data(name, "potency_dysk"),
+                potency=self._skill_data.get_skill_data(name, "potency_dysk"),
                 damage_class=DamageClass.MAGICAL_DOT,
             ),
         )
@@ -204,7 +204,7 @@ class SgeSkills(GenericJobClass):
             ),
             damage_spec={
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
-                    potency=all_sge_skills.get_potency(name)
+                    potency=self._skill_data.get_potency(name)
                 )
             },
             has_aoe=True,
diff --git a/ama_xiv_combat_sim/simulator/game_data/generic_job_class.py b/ama_xiv_combat_sim/simulator/game_data/generic_job_class.py
index 08287b7..c15c7f6 100644
--- a/ama_xiv_combat_sim/simulator/game_data/generic_job_class.py
+++ b/ama_xiv_combat_sim/simulator/game_data/generic_job_class.py
@@ -1,3 +1,5 @@
+import copy
+
 from ama_xiv_combat_sim.simulator.game_data.convenience_timings import (
     get_auto_timing,
     get_shot_timing,
@@ -17,7 +19,8 @@ class GenericJobClass:
         self._version = version
         self._level = level
 
-        self._skill_data = skill_data
+        # The skill data is shared by all libraries, which may be of different versions/levels.
+        self._skill_data = copy.copy(skill_data)
         self._skill_data.set_version(version)
         self._skill_data.set_level(level)
 
diff --git a/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py b/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
index 562ff1d..7d18879 100644
--- a/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
+++ b/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
@@ -1,3 +1,5 @@
+import copy
+
 from ama_xiv_combat_sim.simulator.game_data.lb_skills.add_lbs_to_skill_library import (
     add_lbs_to_skill_library,
 )
@@ -129,15 +131,16 @@ def __add_wait(skill_library):
 
 
 def __get_pot(name, main_stat_add, version, level):
-    all_generic_skills.set_version(version)
-    all_generic_skills.set_level(level)
+    generic_skills = copy.copy(all_generic_skills)
+    generic_skills.set_version(version)
+    generic_skills.set_level(level)
     res = Skill(
         name=name,
         is_GCD=False,
         timing_spec=TimingSpec(
             base_cast_time=0,
-            animation_lock=all_generic_skills.get_skill_data(name, "animation_lock"),
-            application_delay=all_generic_skills.get_skill_data(name, "application_delay"),
+            animation_lock=generic_skills.get_skill_data(name, "animation_lock"),
+            application_delay=generic_skills.get_skill_data(name, "application_delay"),
         ),
         buff_spec=StatusEffectSpec(
             duration=int(29.97 * 1000), main_stat_add=main_stat_add
-- 
2.43.0


From f6cc23c9256d98bf182a68d575e69841bd20f318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 05/35] fix: leave the caller's downtime_windows as they were

The dict was converted to ms in place, so a second builder given the same dict
scaled the windows again.
---
 .../simulator/timeline_builders/rotation_builder.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..a517658 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -97,10 +97,10 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
-                    downtime_windows_use
-                )
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(downtime_windows_use)
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From e5a11b7fa08f10f65c5c06a6431d3733237afc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:59 +0000
Subject: [PATCH 06/35] fix: apply tuple downtime_windows to targets added
 after the first get_skill_timing

The windows were frozen onto the targets known at the first call.
---
 .../timeline_builders/rotation_builder.py         | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a517658..ea82141 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -103,12 +103,11 @@ class RotationBuilder:
             }
         return downtime_windows
 
-    def __process_downtime_windows(self):
+    def __get_downtime_windows(self, target):
+        # A tuple of windows applies to every target.
         if isinstance(self.__downtime_windows, tuple):
-            res = {}
-            for k in self.__all_targets:
-                res[k] = self.__downtime_windows
-            self.__downtime_windows = res
+            return self.__downtime_windows
+        return self.__downtime_windows.get(target, tuple())
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
@@ -695,7 +694,7 @@ class RotationBuilder:
         return res
 
     def __filter_by_downtime_range_and_damage_class(self, t, target, damage_class):
-        for r in self.__downtime_windows.get(target, tuple()):
+        for r in self.__get_downtime_windows(target):
             # None indicates filtering all damage types
             is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
             if (r[0] <= t < r[1]) and is_filtered_damage_type:
@@ -758,8 +757,6 @@ class RotationBuilder:
         # Each downtime range is the semi-open interval [start_time, end_time). In other
         # words, boss cannot be hit at start_time, but can be hit immediately at end_time.
         # Windows are assumed to be non-overlapping.
-        self.__process_downtime_windows()
-
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
         self.__process_q_sequence()
@@ -896,7 +893,7 @@ class RotationBuilder:
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-        for r in self.__downtime_windows.get(auto_target, tuple()):
+        for r in self.__get_downtime_windows(auto_target):
             if r[0] <= snapshot_time < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-- 
2.43.0


From 6abdac0648c73c4dd4f1fa4d4516652a5d096aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:12 +0000
Subject: [PATCH 07/35] fix: forget the dots and main targets of earlier
 get_skill_timing calls

They accumulated, so that after adding skills the dot refreshes and auto
targets of the previous timeline were still in effect.
---
 .../simulator/timeline_builders/rotation_builder.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index ea82141..a0e9104 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -759,6 +759,8 @@ class RotationBuilder:
         # Windows are assumed to be non-overlapping.
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
         self.__q_button_press_timing.clear()
+        self._q_dot_skills.clear()
+        self.__timestamps_and_main_target.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
 
-- 
2.43.0


From 8ecd13e13c7bf07f4561e2b4f198c44bffedc5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:50 +0000
Subject: [PATCH 08/35] fix: use timed skills in the order of their times,
 whatever the order they were added in

get_no_auto_periods popped an unsorted list as if it were a heap, and popping
(time, skill, ...) tuples raised a TypeError when skills of different jobs had
the same name and time.
---
 .../timeline_builders/rotation_builder.py     | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a0e9104..9fc1dbe 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -477,10 +476,13 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
-        while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+        for (
+            curr_t,
+            skill,
+            skill_modifier,
+            job_class,
+            targets,
+        ) in self.__get_sorted_q_timed():
             self.__q_button_press_timing.append(
                 [
                     curr_t,
@@ -836,8 +838,14 @@ class RotationBuilder:
             curr_debuffs_and_skill_modifier,
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
+    # The timed skills, in the order they are used. This does not depend on the order they were added in.
+    def __get_sorted_q_timed(self):
+        return sorted(
+            copy.deepcopy(self._q_timed),
+            key=lambda x: (x[0], x[1].name, x[3], x[4], sorted(x[2].with_condition)),
+        )
+
     def get_no_auto_periods(self):
-        q = copy.deepcopy(self._q_timed)
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
@@ -848,8 +856,7 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+        for t, skill, skill_modifier, _, _ in self.__get_sorted_q_timed():
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 70415c750472e58d4820c739970ec8076c795e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 09/35] fix: party members' skills neither end our channels nor
 hold back our autos

---
 .../simulator/timeline_builders/rotation_builder.py      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 9fc1dbe..6173d63 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -856,9 +856,12 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        for t, skill, skill_modifier, _, _ in self.__get_sorted_q_timed():
+        for t, skill, skill_modifier, job_class, _ in self.__get_sorted_q_timed():
+            # what the rest of the party casts or channels does not stop our autos
+            is_own_skill = job_class == self.__stats.job_class
             se_tracker.expire_status_effects(t)
-            c_tracker.process_channeling(t, skill, skill_modifier)
+            if is_own_skill:
+                c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
             curr_debuffs_and_skill_modifier = se_tracker.compile_debuffs(t, skill)
 
@@ -887,7 +890,7 @@ class RotationBuilder:
             cast_time = self.__get_cast_time(
                 skill.get_timing_spec(skill_modifier), skill_modifier, curr_buffs
             )
-            if cast_time > 0:
+            if is_own_skill and cast_time > 0:
                 cast_periods.append((t, t + cast_time))
             # assume target does not affect speed....dangerous....
             se_tracker.add_to_status_effects(
-- 
2.43.0


From 5fdaa7e9016ca060b1b352cd4379082437736032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:50 +0000
Subject: [PATCH 10/35] fix: start every get_damage_instances call without
 effects, combos and resources

A DamageBuilder used for a second rotation carried over the state of the first.
---
 .../simulator/timeline_builders/damage_builder.py           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index c80947d..d9d4e5f 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -23,9 +23,12 @@ class DamageBuilder:
         self.__status_effect_priority = skill_library.get_status_effect_priority(
             stats.job_class
         )
+        self.__reset_trackers()
+
+    def __reset_trackers(self):
         self.se = StatusEffectTracker(self.__status_effect_priority)
         self.job_resource_tracker = JobResourceTracker(
-            self.__skill_library.get_all_resource_settings(stats.job_class)
+            self.__skill_library.get_all_resource_settings(self.__stats.job_class)
         )
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
@@ -40,6 +43,7 @@ class DamageBuilder:
     def get_damage_instances(
         self, q_snapshot_and_applications: SnapshotAndApplicationEvents
     ):
+        self.__reset_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
-- 
2.43.0


From 24b3aa5a4be06912fbd6a096046bd137f7beafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:02 +0000
Subject: [PATCH 11/35] fix: a hit that cannot crit or direct hit never does

np.random.rand() may return exactly 0, and 0 >= 0.
---
 ama_xiv_combat_sim/simulator/trackers/damage_tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..2d9d824 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -89,7 +89,7 @@ class DamageTracker:
                 + base_damage_range * np.random.rand(num_damage_instances, num_samples)
             )
         )
-        crit_status = crit_rate >= np.random.rand(num_damage_instances, num_samples)
+        crit_status = crit_rate > np.random.rand(num_damage_instances, num_samples)
         total_damage += np.floor(
             np.multiply(
                 total_damage,
@@ -99,7 +99,7 @@ class DamageTracker:
                 ),
             )
         )
-        dh_status = dh_rate >= np.random.rand(num_damage_instances, num_samples)        
+        dh_status = dh_rate > np.random.rand(num_damage_instances, num_samples)        
         total_damage += np.floor(
             np.multiply(
                 total_damage,
-- 
2.43.0


From ba52f09d0c5f8f581df4ea75f1add17e6be8e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:14 +0000
Subject: [PATCH 12/35] fix: find the LB damage among several conditions

The conditions are a set, so which of them was first, and with it whether the
estimate failed, depended on the hash seed.
---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..9f86863 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -14,8 +14,8 @@ class KillTimeEstimator():
 
   @staticmethod
   def get_lb_damage(condition, num_samples):
-    res_mean = re.search(r"^{} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
-    res_exact = re.search(r"^{} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
+    res_mean = re.search(r"(?:^|,){} (\d+)".format(SimConsts.LB_MEAN_DAMAGE), condition)
+    res_exact = re.search(r"(?:^|,){} (\d+)".format(SimConsts.LB_EXACT_DAMAGE), condition)
 
     if res_mean is None and res_exact is None:
       raise RuntimeError('LB conditional must be "Mean Damage: number", or "Exact Damage: number". Instead, got: {}'.format(condition))
-- 
2.43.0


From 9447cbc405708bf96c7bcfffc451a0a6c823d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:26 +0000
Subject: [PATCH 13/35] fix: list the conditions of a button press in a fixed
 order

They come from a set, whose order depends on the hash seed.
---
 .../simulator/timeline_builders/rotation_builder.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 6173d63..c66dd98 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -488,7 +488,7 @@ class RotationBuilder:
                     curr_t,
                     skill.name,
                     job_class if job_class != self.__stats.job_class else "",
-                    ",".join(skill_modifier.with_condition),
+                    ",".join(sorted(skill_modifier.with_condition)),
                 ]
             )
 
@@ -558,7 +558,7 @@ class RotationBuilder:
                     curr_t,
                     skill.name,
                     job_class if job_class != self.__stats.job_class else "",
-                    ",".join(skill_modifier.with_condition),
+                    ",".join(sorted(skill_modifier.with_condition)),
                 ]
             )
 
-- 
2.43.0


From 8fae5260851bea50b1b49814d28c07eb0f661d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:38 +0000
Subject: [PATCH 14/35] fix: let job resources last gained at time 0 expire

---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9ae9a05 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -80,7 +80,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From a55500dc14e8ed772d117f4eb6b06776b708a12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:48 +0000
Subject: [PATCH 15/35] fix: simulate rotations that do no damage

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..507e07b 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -206,13 +206,13 @@ class DamageSimulator:
 
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )
+        ).reshape(-1, 4)
         all_means = np.asarray(
             list(get_all_sums(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )/2
+        ).reshape(-1, 4)/2
         all_diffs = np.asarray(
             list(get_all_diffs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-        )
+        ).reshape(-1, 4)
         
         expected_damage = np.sum(all_probs * all_means, axis=1)
         
-- 
2.43.0


From 9183115a11872bef5f4210078c678238d6f1b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 16/35] fix: ignore trailing dots also when the last event is
 at time 0

---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index c66dd98..e4c2dca 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -388,7 +388,9 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (
+                            application_time > last_event_time
+                        ):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From 942a78ae55d79812ca9b73a699ff7c9c5556c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:12 +0000
Subject: [PATCH 17/35] fix: count the last snapshot in the total of
 get_dps_at_intervals

1000*(t/1000) may be a bit less than t.
---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..868b004 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -14,7 +14,8 @@ class RotationAnalysisUtils:
         timestamp = 1000 * timestamp_in_s
         res = 0
         for sk in per_skill_damage:
-            if sk.snapshot_time <= timestamp:
+            # allow some tolerance for floating point precision
+            if sk.snapshot_time <= timestamp + 1e-6:
                 res += sk.expected_damage
         return res
 
-- 
2.43.0


From a52256d1f9b646de1e9be872d6d1407f0465b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:22 +0000
Subject: [PATCH 18/35] fix: hold back autos during downtime when the fight
 starts at the first damage

The downtime windows are relative to the first damage then, but were compared
with times that are only shifted later.
---
 .../simulator/timeline_builders/rotation_builder.py   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index e4c2dca..d35535b 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -914,8 +914,10 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, fight_start_time):
+        t = fight_start_time + self.forward_to_next_non_downtime_time(
+            t - fight_start_time, auto_target
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -959,6 +961,9 @@ class RotationBuilder:
         )  # autos do not have cast times, so snapshot time should be immediate
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
+        # downtime windows are relative to the first damage if the timeline will be shifted to it
+        downtime_start_time = snapshot_time if self.__fight_start_time is None else 0
+
         auto_target_ind = 0
         while application_time < last_event_time:
             while (
@@ -1004,7 +1009,7 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time, no_auto_periods, auto_target, downtime_start_time
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 1dfe44e1683eaad686ef45d637d5c46a5b134db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:33 +0000
Subject: [PATCH 19/35] fix: account for the delay between the targets of a
 skill in downtime windows

Hits on the second and later targets land later than the first one, possibly
within a downtime window that the first one is not in.
---
 .../simulator/timeline_builders/rotation_builder.py         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index d35535b..63f1ded 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -731,7 +731,11 @@ class RotationBuilder:
                 skill_damage_spec = skill.get_damage_spec(skill_modifier)
                 if skill_damage_spec is not None and (
                     self.__filter_by_downtime_range_and_damage_class(
-                        application_time, target, skill_damage_spec.damage_class
+                        application_time
+                        + len(all_valid_targets)
+                        * GameConsts.MULTI_TARGET_DELAY_PER_TARGET,
+                        target,
+                        skill_damage_spec.damage_class,
                     )
                     or self.__filter_by_downtime_range_and_damage_class(
                         snapshot_time, target, skill_damage_spec.damage_class
-- 
2.43.0


From 7a70cc4875c890152552cda933fe98a0735872b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 20/35] fix: time autos with the speed effects that are in
 force

Effects that end or clear speed effects were left out, conditional effects were
looked up without their conditions, and the allow- and denylists were checked
against the last skill that applied an effect instead of the auto.
---
 .../timeline_builders/rotation_builder.py     | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 63f1ded..f319e50 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -798,17 +798,8 @@ class RotationBuilder:
             buff_spec = skill.get_buff_spec(skill_modifier)
             debuff_spec = skill.get_debuff_spec(skill_modifier)
 
-            buff_spec_has_speed = buff_spec is not None and (
-                buff_spec.auto_attack_delay_reduction > 0
-                or buff_spec.haste_time_reduction > 0
-                or buff_spec.flat_cast_time_reduction > 0
-            )
-            debuff_spec_has_speed = debuff_spec is not None and (
-                debuff_spec.auto_attack_delay_reduction > 0
-                or debuff_spec.haste_time_reduction > 0
-                or debuff_spec.flat_cast_time_reduction > 0
-            )
-            if not buff_spec_has_speed and not debuff_spec_has_speed:
+            # effects without speed matter too: they may end effects with speed
+            if buff_spec is None and debuff_spec is None:
                 continue
             event_times = event.event_times
             application_time = (
@@ -816,7 +807,7 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
@@ -831,10 +822,10 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, se_skill, se_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(t, se_skill, se_skill_modifier, targets)
+            job_resource_tracker.add_resource(t, se_skill, se_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
-- 
2.43.0


From b6893d6b4267aa2613c881e8e65ad2553531cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:25 +0000
Subject: [PATCH 21/35] fix: no autos, instead of an error, for rotations
 without damage

---
 .../simulator/timeline_builders/rotation_builder.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index f319e50..cecf5dc 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -925,8 +925,8 @@ class RotationBuilder:
     # Autos, if enabled, always start at first event application time.
     def __add_autos(self, last_event_time=None):
         def shorten_sequence(seq):
-            res = [seq[0]]
-            curr_target = seq[0][1]
+            res = seq[:1]
+            curr_target = seq[0][1] if seq else None
             for i in range(1, len(seq)):
                 if seq[i][1] == curr_target:
                     continue
@@ -954,6 +954,8 @@ class RotationBuilder:
         snapshot_time = (
             self._q_snapshot_and_applications.get_first_damage_time()
         )  # autos do not have cast times, so snapshot time should be immediate
+        if snapshot_time is None:
+            return
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
         # downtime windows are relative to the first damage if the timeline will be shifted to it
-- 
2.43.0


From 486742a5e3063aef347418ad63dcd63e8f91fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:36 +0000
Subject: [PATCH 22/35] fix: auto-attack the player's own target, not that of
 the rest of the party

---
 .../simulator/timeline_builders/rotation_builder.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index cecf5dc..7ca38fb 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -526,7 +526,8 @@ class RotationBuilder:
             except ValueError as v:
                 print(str(v))
 
-            self.__timestamps_and_main_target.append((curr_t, targets[0]))
+            if job_class == self.__stats.job_class:
+                self.__timestamps_and_main_target.append((curr_t, targets[0]))
             self.__process_skill(
                 curr_t,
                 skill,
@@ -598,7 +599,8 @@ class RotationBuilder:
 
             timing_spec = skill.get_timing_spec(skill_modifier)
 
-            self.__timestamps_and_main_target.append((curr_t, targets[0]))
+            if job_class == self.__stats.job_class:
+                self.__timestamps_and_main_target.append((curr_t, targets[0]))
             if skill.is_GCD:
                 self.__process_skill(
                     curr_t,
@@ -969,7 +971,11 @@ class RotationBuilder:
             ):
                 auto_target_ind += 1
             auto_target_ind = max(0, auto_target_ind - 1)
-            auto_target = timestamps_and_main_target[auto_target_ind][1]
+            auto_target = (
+                timestamps_and_main_target[auto_target_ind][1]
+                if timestamps_and_main_target
+                else self.__default_target
+            )
 
             self._q_snapshot_and_applications.add(
                 Utils.transform_time_to_prio(snapshot_time),
-- 
2.43.0


From 0c0dc1f8b80febea76021a3fec8c9884bdb71af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:08 +0000
Subject: [PATCH 23/35] fix: order of simultaneous uses of a skill does not
 depend on the order they were added in

---
 .../simulator/skills/skill_modifier.py               | 12 ++++++++++++
 .../simulator/timeline_builders/rotation_builder.py  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill_modifier.py b/ama_xiv_combat_sim/simulator/skills/skill_modifier.py
index e841e0c..2709ca0 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill_modifier.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill_modifier.py
@@ -42,6 +42,18 @@ class SkillModifier:
         self.with_condition.update(Utils.canonicalize_condition(condition_to_add))
         return self
 
+    # Tells apart all modifiers that can lead to different results.
+    def get_sort_key(self):
+        return (
+            sorted(self.with_condition),
+            self.guaranteed_crit.name,
+            self.guaranteed_dh.name,
+            self.force_combo,
+            self.ignore_cast_times,
+            self.ignore_application_delay,
+            str(self.bonus_percent),
+        )
+
     def __eq__(self, other):
         return (
             (self.guaranteed_crit == other.guaranteed_crit)
diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 7ca38fb..12ad5fb 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -841,7 +841,7 @@ class RotationBuilder:
     def __get_sorted_q_timed(self):
         return sorted(
             copy.deepcopy(self._q_timed),
-            key=lambda x: (x[0], x[1].name, x[3], x[4], sorted(x[2].with_condition)),
+            key=lambda x: (x[0], x[1].name, x[3], x[4], x[2].get_sort_key()),
         )
 
     def get_no_auto_periods(self):
-- 
2.43.0


From d8a87043b98d93cc64767633f917e4e4a3fa130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:29 +0000
Subject: [PATCH 24/35] fix: a crit or direct hit is at most certain

Rates above one gave negative probabilities, a wrong expected damage and a
variance of nan, unlike the samples.
---
 .../simulator/calcs/compute_damage_utils.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
index 1bbe510..277f85d 100644
--- a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
+++ b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
@@ -118,10 +118,11 @@ class ComputeDamageUtils:
         elif forced_no_dh:
             dh_rate = 0
         else:
-            dh_rate = (
+            dh_rate = min(
+                1,
                 stats.processed_stats.dh_rate
                 + status_effects[0].dh_rate_add
-                + status_effects[1].dh_rate_add
+                + status_effects[1].dh_rate_add,
             )
 
         crit_bonus = stats.processed_stats.crit_bonus
@@ -130,10 +131,11 @@ class ComputeDamageUtils:
         elif forced_no_crit:
             crit_rate = 0
         else:
-            crit_rate = (
+            crit_rate = min(
+                1,
                 stats.processed_stats.crit_rate
                 + status_effects[0].crit_rate_add
-                + status_effects[1].crit_rate_add
+                + status_effects[1].crit_rate_add,
             )
 
         return (dh_rate, crit_rate, crit_bonus)
-- 
2.43.0


From fac0eff1dd584d212bfcc442e806ebaa2e30f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 25/35] fix: standard deviation of constant damage is zero, not
 nan

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index 507e07b..fd65e50 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -219,7 +219,8 @@ class DamageSimulator:
         # See: law of total variance, variance of a uniform
         unexplained_variances = np.sum(all_probs * np.power(all_diffs, 2), axis=1)/12
         explained_variances = np.sum(all_probs*np.power(all_means, 2), axis=1) - np.power(np.sum(all_probs*all_means,axis=1), 2)
-        variances = unexplained_variances + explained_variances
+        # rounding errors could make the variance of constant damage negative
+        variances = np.maximum(unexplained_variances + explained_variances, 0)
     
         return list(expected_damage), list(variances)
 
-- 
2.43.0


From 1e171c29dcfa46aad709fdf796e0a3c8b9f8a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:22 +0000
Subject: [PATCH 26/35] fix: CSV import keeps conditions and targets that look
 like numbers as text

---
 .../simulator/rotation_import_utils/csv_utils.py             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
index 484e00a..3413daa 100644
--- a/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
+++ b/ama_xiv_combat_sim/simulator/rotation_import_utils/csv_utils.py
@@ -16,7 +16,8 @@ class CSVUtils:
         res = []
 
         try:
-            df = pd.read_csv(filename, keep_default_na=False)
+            # do not guess types: names and conditions that look like numbers are still names and conditions
+            df = pd.read_csv(filename, keep_default_na=False, dtype=str)
             
             #canonicalize column names
             df=df.rename(str.lower, axis='columns')
@@ -27,7 +28,7 @@ class CSVUtils:
             return res
 
         for i in range(0, len(df)):
-            t = df["time"][i]
+            t = float(df["time"][i])
             skill_name = df["skill_name"][i]
             job_class = None if df["job_class"][i] == "" else df["job_class"][i]
             skill_conditional = df["skill_conditional"][i]
-- 
2.43.0


From 1df8a32743cdd1dc2c616d1345a9d5589977f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:02 +0000
Subject: [PATCH 27/35] fix: looking up a skill reports interruptions instead
 of claiming the skill is unknown

---
 ama_xiv_combat_sim/simulator/skills/skill_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill_library.py b/ama_xiv_combat_sim/simulator/skills/skill_library.py
index 897ab4e..c36dfc1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill_library.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill_library.py
@@ -52,7 +52,7 @@ class SkillLibrary:
     def get_skill(self, skill_name, job_class):
         try:
             return self.__skills[job_class][skill_name]
-        except:
+        except KeyError:
             raise KeyError(f"Not in skill library: {job_class}/{skill_name}")
 
     def set_current_job_class(self, job_name):
-- 
2.43.0


From 748596160a41e098ba254ce9dc5682ea470d975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:46 +0000
Subject: [PATCH 28/35] fix: AoE dropoff also applies to the tenth target

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..9bd31c1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From 0156382cd9ce47aa9e3b7864c0e0cf2c92bcd014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:56 +0000
Subject: [PATCH 29/35] fix: a cast that is not a GCD also delays the next
 skill of a sequence

Limit breaks and Flamethrower have cast times but are not GCDs; in a sequence the next skill was pressed while they were still being cast.
---
 .../simulator/timeline_builders/rotation_builder.py          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 12ad5fb..5d630ba 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -657,7 +657,10 @@ class RotationBuilder:
                     curr_buffs,
                     targets,
                 )
-                curr_t += timing_spec.animation_lock
+                cast_time = self.__get_cast_time(
+                    timing_spec, skill_modifier, curr_buffs
+                )
+                curr_t += cast_time + timing_spec.animation_lock
 
     def shift_timelines_for_first_damage_instance(self):
         res = SnapshotAndApplicationEvents()
-- 
2.43.0


From 28aec59167a224b6d55175f3cbd9be6e679cb4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:07 +0000
Subject: [PATCH 30/35] fix: autos wait until neither a cast nor a downtime
 window is in the way

An auto held back by a cast that ends in a downtime window (or by a window that ends in another one) was started in that window and so lost.
---
 .../timeline_builders/rotation_builder.py     | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 5d630ba..bda5b07 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -915,17 +915,19 @@ class RotationBuilder:
         return snapshot_time
 
     def __get_next_auto_time(self, t, no_auto_periods, auto_target, fight_start_time):
-        t = fight_start_time + self.forward_to_next_non_downtime_time(
-            t - fight_start_time, auto_target
-        )
-        intersecting_no_auto_periods = list(
-            filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
-        )
-        return (
-            t
-            if len(intersecting_no_auto_periods) == 0
-            else max(x[1] for x in intersecting_no_auto_periods)            
-        )
+        # A cast may end in a downtime window and vice versa, so wait until neither is in the way.
+        while True:
+            next_t = fight_start_time + self.forward_to_next_non_downtime_time(
+                t - fight_start_time, auto_target
+            )
+            intersecting_no_auto_periods = list(
+                filter(lambda x: x[0] <= next_t <= x[1], no_auto_periods)
+            )
+            if len(intersecting_no_auto_periods) > 0:
+                next_t = max(x[1] for x in intersecting_no_auto_periods)
+            if next_t == t:
+                return t
+            t = next_t
 
     # Autos, if enabled, always start at first event application time.
     def __add_autos(self, last_event_time=None):
-- 
2.43.0


From b2bfd24e782a422a062aef4f45818a6b67305603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:39 +0000
Subject: [PATCH 31/35] fix: look up a conditional channeling_spec like the
 other conditional specs

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 9bd31c1..9c3a399 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -224,6 +224,12 @@ class Skill:
             object.__setattr__(
                 self, "combo_spec", self.__canonicalize_dict(self.combo_spec)
             )
+        if isinstance(self.channeling_spec, dict):
+            object.__setattr__(
+                self,
+                "channeling_spec",
+                self.__canonicalize_dict(self.channeling_spec),
+            )
 
         self.__set_party_status_effect_stats()
         self.__set_status_effect_stats()
-- 
2.43.0


From 90284567eeaa7e02b0d65197476a33a9acf66f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:50 +0000
Subject: [PATCH 32/35] fix: example rotations use the statistics of their
 level

---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From b61543b2c275597330ab38f7d2ae14e98aaaa895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:50 +0000
Subject: [PATCH 33/35] fix: add an example rotation's modified party skill
 once

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From d10ceafffd056bbe071948a8c546d640ec100f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 34/35] fix: keep the version and level of example rotations
 per thread

---
 .../example_rotations/specific_rotations.py   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 01e6894..924b8c6 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -1,3 +1,5 @@
+import threading
+
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.stats import Stats
 
@@ -5,14 +7,23 @@ from ama_xiv_combat_sim.simulator.stats import Stats
 class SpecificRotations:
     def __init__(self):
         self.rotations = {}
-        self.version = None
-        self.level = -1
+        # The rotations are shared by all threads, which may be using different
+        # versions/levels.
+        self.__local = threading.local()
+
+    @property
+    def version(self):
+        return getattr(self.__local, "version", None)
+
+    @property
+    def level(self):
+        return getattr(self.__local, "level", -1)
 
     def set_version(self, version):
-        self.version = version
+        self.__local.version = version
 
     def set_level(self, level):
-        self.level = level
+        self.__local.level = level
 
     def add_rotation_data(self, rotation_key, vals):
         assert (
-- 
2.43.0


From d761f563e065968a5b009f74c793fd176572fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:04 +0000
Subject: [PATCH 35/35] fix: an interrupted add_next adds all of its
 repetitions or none

---
 .../simulator/timeline_builders/rotation_builder.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index bda5b07..9b92cd6 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -156,8 +156,9 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)
-        for _ in range(num_times):
-            self._q_sequence.append((skill, skill_modifier, job_class, targets))
+        self._q_sequence.extend(
+            [(skill, skill_modifier, job_class, targets)] * num_times
+        )
 
     def add(
         self,
-- 
2.43.0

