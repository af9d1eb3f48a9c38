From d01e65a3b790a361fb9c4b29a2fc33a2ad1626d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 01/23] fix: compare link endpoint names by value, not
 identity, when removing or reopening links

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index c78e94c..5aa6151 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -985,7 +985,7 @@ class Ecosystem:
         removed = False
 
         for i in range(0, len(self.locations[x].links)):
-            if self.locations[x].links[i].endpoint.name is not endpoint:
+            if self.locations[x].links[i].endpoint.name != endpoint:
                 new_links += [self.locations[x].links[i]]
                 continue
 
@@ -1039,7 +1039,7 @@ class Ecosystem:
         #       )
 
         for i in range(0, len(self.locations[x].closed_links)):
-            if self.locations[x].closed_links[i].endpoint.name is not endpoint:
+            if self.locations[x].closed_links[i].endpoint.name != endpoint:
                 # print("[{}] to [{}] ({})".format(
                 #     startpoint,
                 #     self.locations[x].closed_links[i].endpoint.name,
-- 
2.43.0


From 7dc1045cd4d8e32c2a619430b035b15dc9816ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 02/23] fix: two-way removal and reopening of a link handles
 both directions

---
 flee/flee.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 5aa6151..8cd7141 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1086,14 +1086,16 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        removed = self._remove_link_1way(
+            startpoint=startpoint, endpoint=endpoint, close_only=close_only
+        )
         if twoway:
-            return self._remove_link_1way(
+            removed_reverse = self._remove_link_1way(
                 startpoint=endpoint, endpoint=startpoint, close_only=close_only
             )
+            removed = removed and removed_reverse
 
-        return self._remove_link_1way(
-            startpoint=startpoint, endpoint=endpoint, close_only=close_only
-        )
+        return removed
 
 
     @check_args_type
@@ -1111,10 +1113,12 @@ class Ecosystem:
         Returns:
             bool: Description
         """
+        reopened = self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
         if twoway:
-            return self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened_reverse = self._reopen_link_1way(startpoint=endpoint, endpoint=startpoint)
+            reopened = reopened and reopened_reverse
 
-        return self._reopen_link_1way(startpoint=startpoint, endpoint=endpoint)
+        return reopened
 
 
     @check_args_type
-- 
2.43.0


From f09d0a01c49590b2145e34a309ffb5b3513ba69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:25 +0000
Subject: [PATCH 03/23] fix: an unknown location name no longer acts on the
 first location

---
 flee/flee.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 8cd7141..20db293 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -959,7 +959,6 @@ class Ecosystem:
 
         if x < 0:
             print("#Warning: location not found in remove_link", file=sys.stderr)
-            return False
 
         return x
 
@@ -983,6 +982,8 @@ class Ecosystem:
         new_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         removed = False
+        if x < 0:
+            return removed
 
         for i in range(0, len(self.locations[x].links)):
             if self.locations[x].links[i].endpoint.name != endpoint:
@@ -1031,6 +1032,8 @@ class Ecosystem:
         new_closed_links = []
         x = self._convert_location_name_to_index(name=startpoint)
         reopened = False
+        if x < 0:
+            return reopened
         # print("Reopening link from {} to {}, "
         #       "closed link list length = {}.".format(
         #           startpoint, endpoint,
@@ -1375,7 +1378,10 @@ class Ecosystem:
         Returns:
             None.
         """     
-        self.locations[self._convert_location_name_to_index(location_name)].close_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].close_camp(IDP)
         print("Time = {}. Close camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1393,7 +1399,10 @@ class Ecosystem:
             None.
         """
 
-        l = self.locations[self._convert_location_name_to_index(location_name)]
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        l = self.locations[x]
 
         l.town = False
         l.camp = False
@@ -1449,7 +1458,10 @@ class Ecosystem:
         Returns:
             None.
         """
-        self.locations[self._convert_location_name_to_index(location_name)].open_camp(IDP)
+        x = self._convert_location_name_to_index(location_name)
+        if x < 0:
+            return
+        self.locations[x].open_camp(IDP)
         print("Time = {}. Open camp {}, IDP: {}.".format(self.time, location_name, IDP), file=sys.stderr)
 
 
@@ -1468,6 +1480,8 @@ class Ecosystem:
             None.
         """
         id1 = self._convert_location_name_to_index(loc1_name)
+        if id1 < 0:
+            return
         for i in range(0, len(self.locations[id1].links)):
             if self.locations[id1].links[i].endpoint.name == loc2_name:
                 old_val = self.locations[id1].links[i].forced_redirection
-- 
2.43.0


From 4f3ca70b5c5afcf782f2397163dfa13360001fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 04/23] fix: change_location_type to a conflict zone or an
 unknown type no longer crashes

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 20db293..d341d75 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1420,7 +1420,7 @@ class Ecosystem:
                     l.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
         elif "conflict" in location_type.lower():
             l.movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-            l.conflict = float(self.attributes.get("conflict_intensity",1.0))
+            l.conflict = float(l.attributes.get("conflict_intensity",1.0))
         elif "forward" in location_type.lower():
             l.movechance = 1.0
             l.forward = True
@@ -1438,7 +1438,7 @@ class Ecosystem:
         else:
             print(
                 "Error in creating Location() object: cannot parse location_type value of"
-                " {} for location object with name {}".format(location_type, name),
+                " {} for location object with name {}".format(location_type, location_name),
                 file=sys.stderr
             )
 
-- 
2.43.0


From 2caf9a6b3af6fb79c8cf7eeead477ab999dad696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 05/23] fix: SetCampMoveChance reads the move chance from the
 move rules

---
 flee/flee.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/flee.py b/flee/flee.py
index d341d75..dfdb7a2 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -601,7 +601,7 @@ class Location:
             None.
 
         """
-        self.movechance = SimulationSettings.CampMoveChance
+        self.movechance = SimulationSettings.move_rules["CampMoveChance"]
 
 
     @check_args_type
-- 
2.43.0


From 7ed6dac97647474df66d04cc4f2fd0761ed035d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 06/23] fix: opening a regular camp clears the IDP camp flag

---
 flee/flee.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/flee.py b/flee/flee.py
index dfdb7a2..17aeb62 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -458,6 +458,7 @@ class Location:
         self.forward = False
         self.marker = False
         self.flood_zone = False
+        self.idpcamp = False
         if IDP:
             self.idpcamp = True
             self.movechance = SimulationSettings.move_rules["IDPCampMoveChance"]
-- 
2.43.0


From 6da8a575f361caee4610ee2027655ad41e47a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 07/23] fix: clearLocationsFromAgents keeps the agents at other
 locations and deactivated agents

---
 flee/flee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 17aeb62..aedb832 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1844,8 +1844,8 @@ class Ecosystem:
         """
         new_agents = []
         for i in range(0, len(self.agents)):
-            if self.agents[i].location.name not in location_names:
-                new_agents += self.agents[i]  # agent is preserved in ecosystem
+            if self.agents[i].location is None or self.agents[i].location.name not in location_names:
+                new_agents.append(self.agents[i])  # agent is preserved in ecosystem
             else:
                 # agent is removed from the ecosystem and number of agents
                 # drops by one.
-- 
2.43.0


From 0e7ebee4b4ec53cca9e92b041a6640bd9caca221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 08/23] fix: import spawning in moving, for the ethnicity
 matching rules

---
 flee/moving.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flee/moving.py b/flee/moving.py
index 41fbd30..22f0fcd 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -4,6 +4,7 @@ import numpy as np
 import random
 from beartype.typing import List, Optional, Tuple
 from flee.SimulationSettings import SimulationSettings
+from flee import spawning
 
 if os.getenv("FLEE_TYPE_CHECK") is not None and os.environ["FLEE_TYPE_CHECK"].lower() == "true":
     from beartype import beartype as check_args_type
-- 
2.43.0


From 78e3a612b0904def944514bbefb4b6248287dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 09/23] fix: BoysTakeRisk returns a float score

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 22f0fcd..104c582 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -44,7 +44,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["BoysTakeRisk"]:
             if agent.attributes["gender"]=="male" and agent.attributes["age"]>14:
                 # Hypothesis that perceived safety does not affect routing decisions for teenage boys.
-                base = 1 
+                base = 1.0
 
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
-- 
2.43.0


From 375841e95b5a592aa3d91baa2aedc5dcf85bd50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 10/23] fix: pruning removes the route that belongs to the
 removed weight

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 104c582..147ea46 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -458,8 +458,8 @@ def pruneRoutes(weights, routes):
     i = 0
     while i < len(weights):
         if weights[i] < min_weight_threshold:
-            weights.remove(weights[i])
-            routes.remove(routes[i])
+            del weights[i]
+            del routes[i]
             i -= 1
         i += 1
 
-- 
2.43.0


From 49623aefb4e942dc358708d1490cbb43f20b2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 11/23] fix: pruning an empty set of routes returns it
 unchanged

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 147ea46..3b4af42 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -450,7 +450,7 @@ def pruneRoutes(weights, routes):
     #check_routes(weights, routes, "START")
 
     threshold = SimulationSettings.move_rules["PruningThreshold"]
-    if threshold < 1.001:
+    if threshold < 1.001 or len(weights) == 0:
         #check_routes(weights, routes, "LOTHRESHOLD")
         return weights, routes
 
-- 
2.43.0


From 2eef1a5605b98dfbe22ea8170165a6534f6f9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 12/23] fix: AwarenessLevel 0 selects the name of a random
 neighbouring location

---
 flee/moving.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 3b4af42..4e74670 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -486,7 +486,9 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
 
   if SimulationSettings.move_rules["AwarenessLevel"] == 0:
       linklen = len(a.location.links)
-      return [np.random.randint(0, linklen)]
+      if linklen == 0:
+          return []
+      return [a.location.links[np.random.randint(0, linklen)].endpoint.name]
 
   if SimulationSettings.move_rules["FixedRoutes"] is True:
       for l in a.location.routes.keys():
-- 
2.43.0


From 2a526a6f7452e83f04117353c03db50635980f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 13/23] fix: an agent without any viable route stays where it
 is instead of crashing

---
 flee/flee.py   | 3 +++
 flee/moving.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/flee/flee.py b/flee/flee.py
index aedb832..623d892 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -140,6 +140,9 @@ class Person:
             or `None` if the agent's route is empty 
             or the next link is invalid.
         """
+        if len(self.route) == 0:
+            return None
+
         for l in self.location.links:
             # If the name of the destination on the current link is same as the agents current waypoint on the route:
             if l.endpoint.name == self.route[0]:
diff --git a/flee/moving.py b/flee/moving.py
index 4e74670..7764b96 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -526,6 +526,7 @@ def selectRoute(a, time: int, debug: bool = False, return_all_routes: bool = Fal
   if route == None:
       print("WARNING: Empty route (None type) generated in selectRoute.", file=sys.stderr)
       print(f"Location: {a.location.name}, {weights}, {routes}", file=sys.stderr)
+      route = []
       #sys.exit()
   elif len(route) == 0:
       print(f"ERROR: Empty route {route} generated in selectRoute.", file=sys.stderr)
-- 
2.43.0


From a48f9fd85868913816016503cedcba2c9d6f39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 14/23] fix: close/reopen a location by all its links, also
 inbound-only ones and when reopening one way

---
 flee/flee.py | 73 ++++++++++++----------------------------------------
 1 file changed, 16 insertions(+), 57 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 623d892..65716ac 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1186,63 +1186,22 @@ class Ecosystem:
             if self.locationNames[i] == location_name:
                 changed_anything = True
 
-                link_set = self.locations[i].links
-                if mode == "reopen":
-                    link_set = self.locations[i].closed_links
-
-                j = 0
-                while j < len(link_set):
-                    if Debug:
-                        print(
-                            "starting to {} link "
-                            "[{}] [{}] in direction {}".format(
-                                mode, location_name, link_set[j].endpoint.name, direction
-                            ),
-                            file=sys.stderr,
-                        )
-                    if mode == "close":
-
-                        if dir_mode % 2 == 0:
-                            self.close_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.close_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].links
-                        else:
-                            j += 1
-
-                    elif mode == "reopen":
-
-                        if dir_mode % 2 == 0:
-                            self.reopen_link(
-                                startpoint=link_set[j].endpoint.name,
-                                endpoint=self.locationNames[i],
-                                twoway=False,
-                            )
-
-                        if dir_mode > 0:
-                            if self.reopen_link(
-                                startpoint=self.locationNames[i],
-                                endpoint=link_set[j].endpoint.name,
-                                twoway=False,
-                            ):
-                                # shrink the closed link list. # This operation
-                                # affects the overall loop, so no major
-                                # operations should take place after this.
-                                link_set = self.locations[i].closed_links
-                            else:
-                                j += 1
+                if mode == "close":
+                    for loc in self.locations:
+                        # inbound links: these need not be matched by an outbound link.
+                        if dir_mode % 2 == 0 and any(l.endpoint.name == location_name for l in loc.links):
+                            self.close_link(startpoint=loc.name, endpoint=location_name, twoway=False)
+
+                        if dir_mode > 0 and any(l.endpoint.name == loc.name for l in self.locations[i].links):
+                            self.close_link(startpoint=location_name, endpoint=loc.name, twoway=False)
+
+                elif mode == "reopen":
+                    for loc in self.locations:
+                        if dir_mode % 2 == 0 and any(l.endpoint.name == location_name for l in loc.closed_links):
+                            self.reopen_link(startpoint=loc.name, endpoint=location_name, twoway=False)
+
+                        if dir_mode > 0 and any(l.endpoint.name == loc.name for l in self.locations[i].closed_links):
+                            self.reopen_link(startpoint=location_name, endpoint=loc.name, twoway=False)
 
         return changed_anything
 
-- 
2.43.0


From 36452fd9d7f3a70074c7bc57ad1dae4ec50bdd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 15/23] fix: weigh destinations by their distance to a person's
 home when staying close to home is favoured

---
 flee/moving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/moving.py b/flee/moving.py
index 7764b96..78e6e71 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -49,7 +49,7 @@ def getEndPointScore(agent, endpoint, time) -> float:
 
     if SimulationSettings.move_rules["StayCloseToHome"]:
         power_factor = SimulationSettings.move_rules["HomeDistancePower"]
-        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.location))**power_factor)
+        base *= 1.0/(max(1.0,endpoint.calculateDistance(agent.home_location))**power_factor)
 
     # DFlee Flood Location Weight implementation
     if SimulationSettings.move_rules["FloodRulesEnabled"] is True:
-- 
2.43.0


From 7d51786977e018210685fce3599b088c69bada52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:49 +0000
Subject: [PATCH 16/23] fix: let use_pop_for_loc_weight scale with population

---
 flee/moving.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flee/moving.py b/flee/moving.py
index 78e6e71..8e9c66a 100644
--- a/flee/moving.py
+++ b/flee/moving.py
@@ -142,12 +142,12 @@ def getEndPointScore(agent, endpoint, time) -> float:
         if SimulationSettings.move_rules["MatchConflictEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
     else:
         if SimulationSettings.move_rules["MatchTownEthnicity"]:
             base *= (spawning.getAttributeRatio(endpoint, agent.attributes["ethnicity"]) * 10.0)
         if SimulationSettings.move_rules["UsePopForLocWeight"]:
-            base *= min(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
+            base *= max(1.0,endpoint.pop)**float(SimulationSettings.move_rules["PopPowerForLocWeight"])
 
     return base
 
-- 
2.43.0


From 3398251fdbcc388fb82f36589ac796df2c01eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:00 +0000
Subject: [PATCH 17/23] fix: read the camps_are_sinks setting

---
 flee/SimulationSettings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/SimulationSettings.py b/flee/SimulationSettings.py
index ba12563..2720e4e 100644
--- a/flee/SimulationSettings.py
+++ b/flee/SimulationSettings.py
@@ -143,7 +143,7 @@ class SimulationSettings:
             print("NOTE: conflict_zone_spawning_only is enabled by default, and needs to be disabled when you define flood_zone_spawning_only to be true.", file=sys.stderr)
             sys.exit()
 
-        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sicks", False)) # Camps can deactivate agents.
+        SimulationSettings.spawn_rules["camps_are_sinks"] = bool(fetchss(dps, "camps_are_sinks", False)) # Camps can deactivate agents.
         SimulationSettings.spawn_rules["read_from_agents_csv_file"] = bool(fetchss(dps, "read_from_agents_csv_file", False)) # Load agents from agents.csv file.
 
         SimulationSettings.spawn_rules["sum_from_camps"] = bool(fetchss(dps, "sum_from_camps", True)) #Sum total migrant numbers from camp data numbers, instead of from refugees.csv.
-- 
2.43.0


From b38a3cf6ac21871374c6e9d3db69f5d34f50ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:38 +0000
Subject: [PATCH 18/23] fix: mark a location as a conflict zone whether or not
 its move chance changes

---
 flee/flee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flee/flee.py b/flee/flee.py
index 65716ac..79beb41 100644
--- a/flee/flee.py
+++ b/flee/flee.py
@@ -1517,8 +1517,9 @@ class Ecosystem:
             if self.locationNames[i] == name:
                 if change_movechance:
                     self.locations[i].movechance = SimulationSettings.move_rules["ConflictMoveChance"]
-                    self.locations[i].conflict = conflict_intensity
-                    self.locations[i].town = False
+
+                self.locations[i].conflict = conflict_intensity
+                self.locations[i].town = False
 
                 self.locations[i].time_of_conflict = self.time                  
                 spawning.refresh_spawn_weights(self)
-- 
2.43.0


From 5104bb12c8dcf9d0189c9787b39c6ae3d23bbeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 19/23] fix: level 1 correction dates without earlier entries
 correct nothing

---
 flee/datamanager/handle_refugee_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flee/datamanager/handle_refugee_data.py b/flee/datamanager/handle_refugee_data.py
index bda8141..5118e9b 100644
--- a/flee/datamanager/handle_refugee_data.py
+++ b/flee/datamanager/handle_refugee_data.py
@@ -71,6 +71,9 @@ class RefugeeTable(DataTable.DataTable):
             #If the wrong data is before the simulation period, then ignore the correction altogether.
             return 1.0
 
+        # No correction if there is no earlier entry to correct.
+        first_level_2_value = last_level_1_value = 1.0
+
         for i in range(0, len(ref_table)):
             if int(ref_table[i][0]) == int(days):
                 # then scale all previous entries by ref_table[i][1]/ref_table[i-1][1]
-- 
2.43.0


From fd566000554832dbfaf214bf988f05df56500261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:30 +0000
Subject: [PATCH 20/23] fix: spawn_agents picks its spawn locations with
 pick_spawn_locations

---
 flee/spawning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/spawning.py b/flee/spawning.py
index 512f11a..4763056 100644
--- a/flee/spawning.py
+++ b/flee/spawning.py
@@ -339,7 +339,7 @@ def spawn_agents(e, number):
     """
     #Insert refugee agents
     for i in range(0, number):
-        loc = e.pick_spawn_location()
+        loc = e.pick_spawn_locations(1)[0]
         attributes = draw_samples(e, loc)
         e.addAgent(location=loc, attributes=attributes) # Parallelization is incorporated *inside* the addAgent function.
 
-- 
2.43.0


From 4035d01ea27d60a77488ec2cbcf38b820091a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 21/23] fix: conflict zones that start on a later day in
 locations.csv never started (old column numbers)

---
 flee/InputGeography.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index bfdbe6e..a68becc 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -124,7 +124,7 @@ class InputGeography:
         if len(SimulationSettings.ConflictInputFile) == 0:
             conflict_names = []
             for loc in self.locations:
-                if "conflict" in loc[4].lower():
+                if "conflict" in loc[5].lower():
                     conflict_names += [loc[0]]
             print(conflict_names, file=sys.stderr)
             return conflict_names
@@ -658,12 +658,12 @@ class InputGeography:
 
         elif len(SimulationSettings.ConflictInputFile) == 0:
             for loc in self.locations:
-                if "conflict" in loc[4].lower() and int(loc[5]) == time:
+                if "conflict" in loc[5].lower() and int(loc[6]) == time:
                     conflict_intensity = 1.0
                     if e.print_location_output:
                         print(
                             "Time = {}. Adding a new conflict zone [{}] with pop. {} and intensity {}".format(
-                                time, loc[0], int(loc[1]), conflict_intensity
+                                time, loc[0], loc[7], conflict_intensity
                             ),
                             file=sys.stderr,
                         )
-- 
2.43.0


From 38db87a70d48341dc39cb7b4d7a0483ad4fcbc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 22/23] fix: links with forced redirection from their first to
 their second place were added twice

---
 flee/InputGeography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/InputGeography.py b/flee/InputGeography.py
index a68becc..525f1e5 100644
--- a/flee/InputGeography.py
+++ b/flee/InputGeography.py
@@ -534,7 +534,7 @@ class InputGeography:
                         forced_redirection=True,
                         attributes=attributes,
                     )
-                if int(l3) == 2:
+                elif int(l3) == 2:
                     e.linkUp(
                         endpoint1=link[1],
                         endpoint2=link[0],
-- 
2.43.0


From 7504e7c296774298d78436ac46ffecfba62491dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:51 +0000
Subject: [PATCH 23/23] fix: a stored route was replaced by a worse one found
 later

---
 flee/crawling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flee/crawling.py b/flee/crawling.py
index c1f2d30..859958b 100644
--- a/flee/crawling.py
+++ b/flee/crawling.py
@@ -72,7 +72,7 @@ def _addLocationRoute(
     weight = weight**SimulationSettings.move_rules["WeightPower"]
 
     #print("Adding loc route:", origin_names[1:], link.endpoint.name, file=sys.stderr)
-    if weight > loc.routes.get(link.endpoint.name, [0,None])[0]:
+    if weight > source_loc.routes.get(link.endpoint.name, [0,None])[0]:
         source_loc.routes[link.endpoint.name] = [weight, origin_names[1:] + [link.endpoint.name], link.endpoint]
 
 
-- 
2.43.0

