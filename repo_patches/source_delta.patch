From b167773d53885ddedd8fc827b2e409fc2d313b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 01/62] fix: rotate points by minus the rectangle angle when
 testing whether they lie inside

---
 highway_env/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 0ef7112..3ce997a 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -64,7 +64,7 @@ def point_in_rotated_rectangle(point: np.ndarray, center: np.ndarray, length: fl
     :return: is the point inside the rectangle
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.array([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return point_in_rectangle(ru, (-length/2, -width/2), (length/2, width/2))
 
@@ -81,7 +81,7 @@ def point_in_ellipse(point: Vector, center: Vector, angle: float, length: float,
     :return: is the point inside the ellipse
     """
     c, s = np.cos(angle), np.sin(angle)
-    r = np.matrix([[c, -s], [s, c]])
+    r = np.array([[c, s], [-s, c]])
     ru = r.dot(point - center)
     return np.sum(np.square(ru / np.array([length, width]))) < 1
 
-- 
2.43.0


From 71e8773517b8c6c4caa10163207cd5f4425ace99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 02/62] fix: detect intersecting rectangles that contain none
 of each other's corners

---
 highway_env/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 3ce997a..b5cfc3b 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -95,7 +95,19 @@ def rotated_rectangles_intersect(rect1: Tuple[Vector, float, float, float],
     :param rect2: (center, length, width, angle)
     :return: do they?
     """
-    return has_corner_inside(rect1, rect2) or has_corner_inside(rect2, rect1)
+    # Two convex shapes are disjoint if and only if their projections on one of their edge normals are.
+    corners = []
+    for center, length, width, angle in (rect1, rect2):
+        direction = np.array([np.cos(angle), np.sin(angle)])
+        normal = np.array([-direction[1], direction[0]])
+        corners.append(np.array([np.array(center) + i * length/2 * direction + j * width/2 * normal
+                                 for i in (-1, 1) for j in (-1, 1)]))
+    for _, _, _, angle in (rect1, rect2):
+        for axis in (np.array([np.cos(angle), np.sin(angle)]), np.array([-np.sin(angle), np.cos(angle)])):
+            projections = [points.dot(axis) for points in corners]
+            if projections[0].max() < projections[1].min() or projections[1].max() < projections[0].min():
+                return False
+    return True
 
 
 def has_corner_inside(rect1: Tuple[Vector, float, float, float],
-- 
2.43.0


From 7e5fb8193098fc4e3ec709a541498067486c9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 03/62] fix: collision pre-check missed contacts with bodies
 larger than the vehicle

---
 highway_env/vehicle/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 22f81ed..7dde674 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -198,7 +198,8 @@ class Vehicle(object):
 
     def _is_colliding(self, other):
         # Fast spherical pre-check
-        if np.linalg.norm(other.position - self.position) > self.LENGTH:
+        radius = 0.5 * (np.hypot(self.LENGTH, self.WIDTH) + np.hypot(other.LENGTH, other.WIDTH))
+        if np.linalg.norm(other.position - self.position) > radius:
             return False
         # Accurate rectangular check
         return utils.rotated_rectangles_intersect((self.position, 0.9*self.LENGTH, 0.9*self.WIDTH, self.heading),
-- 
2.43.0


From ca8c560230ab5815d1b335bdd34e031638e6f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 04/62] fix: limit reverse overspeed towards minus the maximum
 speed

---
 highway_env/vehicle/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index 7dde674..feea310 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -146,7 +146,7 @@ class Vehicle(object):
         if self.speed > self.MAX_SPEED:
             self.action['acceleration'] = min(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
         elif self.speed < -self.MAX_SPEED:
-            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (self.MAX_SPEED - self.speed))
+            self.action['acceleration'] = max(self.action['acceleration'], 1.0 * (-self.MAX_SPEED - self.speed))
 
     def on_state_update(self) -> None:
         if self.road:
-- 
2.43.0


From 63374b4c775fe937cbe7f8ce3ff67334268e17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 05/62] fix: linear drivers can reason about followers without
 a target speed

---
 highway_env/vehicle/behavior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 122c82e..41687a0 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -358,8 +358,8 @@ class LinearVehicle(IDMVehicle):
                               front_vehicle: Vehicle = None,
                               rear_vehicle: Vehicle = None) -> np.ndarray:
         vt, dv, dp = 0, 0, 0
-        if ego_vehicle:
-            vt = ego_vehicle.target_speed - ego_vehicle.speed
+        if ego_vehicle and not isinstance(ego_vehicle, RoadObject):
+            vt = getattr(ego_vehicle, "target_speed", ego_vehicle.speed) - ego_vehicle.speed
             d_safe = self.DISTANCE_WANTED + np.maximum(ego_vehicle.speed, 0) * self.TIME_WANTED
             if front_vehicle:
                 d = ego_vehicle.lane_distance_to(front_vehicle)
-- 
2.43.0


From 67d486b547f55df08e0f66e73b608af618b78ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 06/62] fix: missing factor two in the linearised yaw response
 to steering

---
 highway_env/vehicle/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/dynamics.py b/highway_env/vehicle/dynamics.py
index 455d096..288153a 100644
--- a/highway_env/vehicle/dynamics.py
+++ b/highway_env/vehicle/dynamics.py
@@ -113,7 +113,7 @@ class BicycleVehicle(Vehicle):
         """
         B = np.array([
             [2*self.FRICTION_FRONT / self.MASS],
-            [self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
+            [2*self.FRICTION_FRONT * self.LENGTH_A / self.INERTIA_Z]
         ])
 
         speed_body_x = self.speed
-- 
2.43.0


From b4b4a9bc5bb7bebfabc80930fafbcbc97b0383db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 07/62] fix: return no close vehicles when none are requested

---
 highway_env/road/road.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index dcc3fbc..2e56e3f 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -263,7 +263,7 @@ class Road(object):
                     and (see_behind or -2 * vehicle.LENGTH < vehicle.lane_distance_to(v))]
 
         vehicles = sorted(vehicles, key=lambda v: abs(vehicle.lane_distance_to(v)))
-        if count:
+        if count is not None:
             vehicles = vehicles[:count]
         return vehicles
 
-- 
2.43.0


From 29ce92a4aa5ea4b57dbd0cc17c600c4f1aa22034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 08/62] fix: explore road network nodes in a reproducible order

---
 highway_env/road/road.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/road/road.py b/highway_env/road/road.py
index 2e56e3f..ae163e2 100644
--- a/highway_env/road/road.py
+++ b/highway_env/road/road.py
@@ -119,9 +119,9 @@ class RoadNetwork(object):
         queue = [(start, [start])]
         while queue:
             (node, path) = queue.pop(0)
-            if node not in self.graph:
-                yield []
-            for _next in set(self.graph[node].keys()) - set(path):
+            for _next in self.graph.get(node, {}).keys():
+                if _next in path:
+                    continue
                 if _next == goal:
                     yield path + [_next]
                 elif _next in self.graph:
-- 
2.43.0


From 020f78a956b36b957d3d748e395f8834766bb340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 09/62] fix: set the roundabout's ego speeds on the ego
 vehicle, not on its class

---
 highway_env/envs/roundabout_env.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 5c1fa97..4f03229 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -39,8 +39,9 @@ class RoundaboutEnv(AbstractEnv):
 
     def _reward(self, action: int) -> float:
         lane_change = action == 0 or action == 2
+        speed_index = getattr(self.vehicle, "speed_index", MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed))
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
-                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) / max(MDPVehicle.SPEED_COUNT - 1, 1) \
+                 + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
                  + self.LANE_CHANGE_REWARD * lane_change
         return utils.lmap(reward, [self.COLLISION_REWARD + self.LANE_CHANGE_REWARD, self.HIGH_SPEED_REWARD], [0, 1])
 
@@ -138,9 +139,12 @@ class RoundaboutEnv(AbstractEnv):
             ego_vehicle.plan_route_to("nxs")
         except AttributeError:
             pass
-        MDPVehicle.SPEED_MIN = 0
-        MDPVehicle.SPEED_MAX = 16
-        MDPVehicle.SPEED_COUNT = 3
+        ego_vehicle.SPEED_MIN = 0
+        ego_vehicle.SPEED_MAX = 16
+        ego_vehicle.SPEED_COUNT = 3
+        if isinstance(ego_vehicle, MDPVehicle):
+            ego_vehicle.speed_index = ego_vehicle.speed_to_index(ego_vehicle.speed)
+            ego_vehicle.target_speed = ego_vehicle.index_to_speed(ego_vehicle.speed_index)
         self.road.vehicles.append(ego_vehicle)
         self.vehicle = ego_vehicle
 
-- 
2.43.0


From 0f9a40a4fe351ce3ec7c36ed38f5b66d24ac0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 10/62] fix: charge the lane change reward to lane changes
 only, for every action type

---
 highway_env/envs/merge_env.py      | 12 ++++++------
 highway_env/envs/roundabout_env.py |  4 +++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/highway_env/envs/merge_env.py b/highway_env/envs/merge_env.py
index ec637ac..c8a0c69 100644
--- a/highway_env/envs/merge_env.py
+++ b/highway_env/envs/merge_env.py
@@ -34,11 +34,11 @@ class MergeEnv(AbstractEnv):
         :param action: the action performed
         :return: the reward of the state-action transition
         """
-        action_reward = {0: self.LANE_CHANGE_REWARD,
-                         1: 0,
-                         2: self.LANE_CHANGE_REWARD,
-                         3: 0,
-                         4: 0}
+        action_reward = {"LANE_LEFT": self.LANE_CHANGE_REWARD,
+                         "IDLE": 0,
+                         "LANE_RIGHT": self.LANE_CHANGE_REWARD,
+                         "FASTER": 0,
+                         "SLOWER": 0}
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.RIGHT_LANE_REWARD * self.vehicle.lane_index[2] / 1 \
                  + self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1)
@@ -49,7 +49,7 @@ class MergeEnv(AbstractEnv):
                 reward += self.MERGING_SPEED_REWARD * \
                           (vehicle.target_speed - vehicle.speed) / vehicle.target_speed
 
-        return utils.lmap(action_reward[action] + reward,
+        return utils.lmap(action_reward[self.action_type.actions[action]] + reward,
                           [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD,
                             self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],
                           [0, 1])
diff --git a/highway_env/envs/roundabout_env.py b/highway_env/envs/roundabout_env.py
index 4f03229..1534282 100644
--- a/highway_env/envs/roundabout_env.py
+++ b/highway_env/envs/roundabout_env.py
@@ -5,6 +5,7 @@ import numpy as np
 
 from highway_env import utils
 from highway_env.envs.common.abstract import AbstractEnv
+from highway_env.envs.common.action import DiscreteMetaAction
 from highway_env.road.lane import LineType, StraightLane, CircularLane, SineLane
 from highway_env.road.road import Road, RoadNetwork
 from highway_env.vehicle.controller import MDPVehicle
@@ -38,7 +39,8 @@ class RoundaboutEnv(AbstractEnv):
         return config
 
     def _reward(self, action: int) -> float:
-        lane_change = action == 0 or action == 2
+        lane_change = isinstance(self.action_type, DiscreteMetaAction) \
+            and self.action_type.actions.get(action) in ["LANE_LEFT", "LANE_RIGHT"]
         speed_index = getattr(self.vehicle, "speed_index", MDPVehicle.speed_to_index(self.vehicle, self.vehicle.speed))
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.HIGH_SPEED_REWARD * speed_index / max(self.vehicle.SPEED_COUNT - 1, 1) \
-- 
2.43.0


From 573ca9b3e01a09406dec51e2dd94e97569a40f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 11/62] fix: leave the ego vehicle out of set_vehicle_field

---
 highway_env/envs/common/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index ccbcf9a..35e37fd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -360,7 +360,7 @@ class AbstractEnv(gym.Env):
         field, value = args
         env_copy = copy.deepcopy(self)
         for v in env_copy.road.vehicles:
-            if v is not self.vehicle:
+            if v is not env_copy.vehicle:
                 setattr(v, field, value)
         return env_copy
 
-- 
2.43.0


From 1e2445788083682f2c7311b038fdb34e6489a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 12/62] fix: set a preferred lane for vehicles without a route,
 and for lane 0

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 35e37fd..0288158 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -341,10 +341,10 @@ class AbstractEnv(gym.Env):
 
     def set_preferred_lane(self, preferred_lane: int = None) -> 'AbstractEnv':
         env_copy = copy.deepcopy(self)
-        if preferred_lane:
+        if preferred_lane is not None:
             for v in env_copy.road.vehicles:
                 if isinstance(v, IDMVehicle):
-                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route]
+                    v.route = [(lane[0], lane[1], preferred_lane) for lane in v.route or [v.lane_index]]
                     # Vehicle with lane preference are also less cautious
                     v.LANE_CHANGE_MAX_BRAKING_IMPOSED = 1000
         return env_copy
-- 
2.43.0


From d58837b9aab5a74f442f18cd3c1f308fade6aed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 13/62] fix: keep the vehicles whose called method returns
 nothing

---
 highway_env/envs/common/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 0288158..4baa0f8 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -369,7 +369,9 @@ class AbstractEnv(gym.Env):
         env_copy = copy.deepcopy(self)
         for i, v in enumerate(env_copy.road.vehicles):
             if hasattr(v, method):
-                env_copy.road.vehicles[i] = getattr(v, method)(*method_args)
+                result = getattr(v, method)(*method_args)
+                if isinstance(result, Vehicle):
+                    env_copy.road.vehicles[i] = result
         return env_copy
 
     def randomize_behaviour(self) -> 'AbstractEnv':
-- 
2.43.0


From f0a5f35530d12a0b4a780a7c6a191ab634963107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 14/62] fix: convert plain vehicles, and keep a null target
 speed

---
 highway_env/vehicle/behavior.py   | 7 ++++---
 highway_env/vehicle/controller.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index 41687a0..ea5ea4c 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -55,7 +55,7 @@ class IDMVehicle(ControlledVehicle):
                  timer: float = None):
         super().__init__(road, position, heading, speed, target_lane_index, target_speed, route)
         self.enable_lane_change = enable_lane_change
-        self.timer = timer or (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
+        self.timer = timer if timer is not None else (np.sum(self.position)*np.pi) % self.LANE_CHANGE_DELAY
 
     def randomize_behavior(self):
         pass
@@ -71,8 +71,9 @@ class IDMVehicle(ControlledVehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route, timer=getattr(vehicle, 'timer', None))
+                target_lane_index=getattr(vehicle, 'target_lane_index', None),
+                target_speed=getattr(vehicle, 'target_speed', None),
+                route=getattr(vehicle, 'route', None), timer=getattr(vehicle, 'timer', None))
         return v
 
     def act(self, action: Union[dict, str] = None):
diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fdbc86c..fd6aaa4 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -38,7 +38,7 @@ class ControlledVehicle(Vehicle):
                  route: Route = None):
         super().__init__(road, position, heading, speed)
         self.target_lane_index = target_lane_index or self.lane_index
-        self.target_speed = target_speed or self.speed
+        self.target_speed = target_speed if target_speed is not None else self.speed
         self.route = route
 
     @classmethod
@@ -52,8 +52,9 @@ class ControlledVehicle(Vehicle):
         :return: a new vehicle at the same dynamical state
         """
         v = cls(vehicle.road, vehicle.position, heading=vehicle.heading, speed=vehicle.speed,
-                target_lane_index=vehicle.target_lane_index, target_speed=vehicle.target_speed,
-                route=vehicle.route)
+                target_lane_index=getattr(vehicle, 'target_lane_index', None),
+                target_speed=getattr(vehicle, 'target_speed', None),
+                route=getattr(vehicle, 'route', None))
         return v
 
     def plan_route_to(self, destination: str) -> "ControlledVehicle":
-- 
2.43.0


From 0f1b29b860ac37f46b9e1d93834b7f7ab54f8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 15/62] fix: destination of vehicles whose planned route does
 not tell the last lane

---
 highway_env/vehicle/controller.py | 6 +++---
 highway_env/vehicle/kinematics.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index fd6aaa4..42fa408 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -165,9 +165,9 @@ class ControlledVehicle(Vehicle):
                 break
         else:
             return [self.route]
-        next_destinations_from = list(next_destinations.keys())
-        routes = [self.route[0:index+1] + [(self.route[index][1], destination, self.route[index][2])]
-                  for destination in next_destinations_from]
+        _, node, _id = self.route[index]
+        routes = [self.route[0:index+1] + [(node, destination, _id if _id is None or _id < len(lanes) else None)]
+                  for destination, lanes in next_destinations.items()]
         return routes
 
     def set_route_at_intersection(self, _to: int) -> None:
diff --git a/highway_env/vehicle/kinematics.py b/highway_env/vehicle/kinematics.py
index feea310..798d4ca 100644
--- a/highway_env/vehicle/kinematics.py
+++ b/highway_env/vehicle/kinematics.py
@@ -216,7 +216,8 @@ class Vehicle(object):
     @property
     def destination(self) -> np.ndarray:
         if getattr(self, "route", None):
-            last_lane = self.road.network.get_lane(self.route[-1])
+            _from, _to, _id = self.route[-1]
+            last_lane = self.road.network.get_lane((_from, _to, _id if _id is not None else 0))
             return last_lane.position(last_lane.length, 0)
         else:
             return self.position
-- 
2.43.0


From 29bcc31c1242d5e2216506a6fbcacb86763fb317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 16/62] fix: compute the merge and two-way rewards for
 continuously controlled vehicles

---
 highway_env/envs/merge_env.py   | 9 +++++++--
 highway_env/envs/two_way_env.py | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/highway_env/envs/merge_env.py b/highway_env/envs/merge_env.py
index c8a0c69..a37b3a3 100644
--- a/highway_env/envs/merge_env.py
+++ b/highway_env/envs/merge_env.py
@@ -3,6 +3,7 @@ from gym.envs.registration import register
 
 from highway_env import utils
 from highway_env.envs.common.abstract import AbstractEnv
+from highway_env.envs.common.action import DiscreteMetaAction
 from highway_env.road.lane import LineType, StraightLane, SineLane
 from highway_env.road.road import Road, RoadNetwork
 from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
@@ -41,7 +42,8 @@ class MergeEnv(AbstractEnv):
                          "SLOWER": 0}
         reward = self.COLLISION_REWARD * self.vehicle.crashed \
                  + self.RIGHT_LANE_REWARD * self.vehicle.lane_index[2] / 1 \
-                 + self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1)
+                 + self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) \
+                 / (getattr(self.vehicle, "SPEED_COUNT", MDPVehicle.SPEED_COUNT) - 1)
 
         # Altruistic penalty
         for vehicle in self.road.vehicles:
@@ -49,7 +51,10 @@ class MergeEnv(AbstractEnv):
                 reward += self.MERGING_SPEED_REWARD * \
                           (vehicle.target_speed - vehicle.speed) / vehicle.target_speed
 
-        return utils.lmap(action_reward[self.action_type.actions[action]] + reward,
+        if isinstance(self.action_type, DiscreteMetaAction):
+            reward += action_reward[self.action_type.actions[action]]
+
+        return utils.lmap(reward,
                           [self.COLLISION_REWARD + self.MERGING_SPEED_REWARD,
                             self.HIGH_SPEED_REWARD + self.RIGHT_LANE_REWARD],
                           [0, 1])
diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index 7d05371..a24ad24 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -5,7 +5,7 @@ from highway_env import utils
 from highway_env.envs.common.abstract import AbstractEnv
 from highway_env.road.lane import LineType, StraightLane
 from highway_env.road.road import Road, RoadNetwork
-from highway_env.vehicle.controller import MDPVehicle
+from highway_env.vehicle.controller import ControlledVehicle, MDPVehicle
 
 
 class TwoWayEnv(AbstractEnv):
@@ -46,8 +46,11 @@ class TwoWayEnv(AbstractEnv):
         """
         neighbours = self.road.network.all_side_lanes(self.vehicle.lane_index)
 
-        reward = self.HIGH_SPEED_REWARD * self.vehicle.speed_index / (self.vehicle.SPEED_COUNT - 1) \
-                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - self.vehicle.target_lane_index[2]) / (len(neighbours) - 1)
+        lane = self.vehicle.target_lane_index[2] if isinstance(self.vehicle, ControlledVehicle) \
+            else self.vehicle.lane_index[2]
+        reward = self.HIGH_SPEED_REWARD * MDPVehicle.get_speed_index(self.vehicle) \
+                 / (getattr(self.vehicle, "SPEED_COUNT", MDPVehicle.SPEED_COUNT) - 1) \
+                 + self.LEFT_LANE_REWARD * (len(neighbours) - 1 - lane) / max(len(neighbours) - 1, 1)
         return reward
 
     def _is_terminal(self) -> bool:
-- 
2.43.0


From 859972f503455c9f6b9e2441fd0dd0fbbb91c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 17/62] fix: declare unbounded spaces for kinematics
 observations that are not normalized and clipped

---
 highway_env/envs/common/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index db0571a..d2b6df3 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -159,7 +159,9 @@ class KinematicObservation(ObservationType):
         self.observe_intentions = observe_intentions
 
     def space(self) -> spaces.Space:
-        return spaces.Box(shape=(self.vehicles_count, len(self.features)), low=-1, high=1, dtype=np.float32)
+        unit_features = {"presence", "cos_h", "sin_h", "cos_d", "sin_d"}.union(self.features_range or ["x", "y", "vx", "vy"])
+        bound = 1 if self.normalize and self.clip and unit_features.issuperset(self.features) else np.inf
+        return spaces.Box(shape=(self.vehicles_count, len(self.features)), low=-bound, high=bound, dtype=np.float32)
 
     def normalize_obs(self, df: pd.DataFrame) -> pd.DataFrame:
         """
-- 
2.43.0


From 8eab92c0b146a8a6e3e78bcadce7372e65384102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 18/62] fix: range and orientation of grayscale observations

---
 highway_env/envs/common/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index d2b6df3..a4bcfc9 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -69,13 +69,13 @@ class GrayscaleObservation(ObservationType):
     def space(self) -> spaces.Space:
         try:
             return spaces.Box(shape=self.shape,
-                              low=0, high=1,
+                              low=0, high=255,
                               dtype=np.float32)
         except AttributeError:
             return spaces.Space()
 
     def observe(self) -> np.ndarray:
-        new_obs = self._record_to_grayscale()
+        new_obs = self._record_to_grayscale().T  # From (H, W) to (W, H)
         new_obs = np.reshape(new_obs, self.observation_shape)
         self.state = np.roll(self.state, -1, axis=-1)
         self.state[:, :, -1] = new_obs
-- 
2.43.0


From 64e1286840ea85a277978f711a36360511cf6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 19/62] fix: make HighwayEnv.default_config a class method

---
 highway_env/envs/highway_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index b723ddd..1bf2a93 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -26,7 +26,8 @@ class HighwayEnv(AbstractEnv):
     LANE_CHANGE_REWARD: float = 0
     """The reward received at each lane change action."""
 
-    def default_config(self) -> dict:
+    @classmethod
+    def default_config(cls) -> dict:
         config = super().default_config()
         config.update({
             "observation": {
-- 
2.43.0


From 1df784378f57eb4567766c120bbb1c88dd3133f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 20/62] fix: make the tuple multi-agent intersection
 environment a class that gym can instantiate

---
 highway_env/envs/intersection_env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 5e54e2a..7e79eda 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -262,7 +262,9 @@ class MultiAgentIntersectionEnv(IntersectionEnv):
         return config
 
 
-TupleMultiAgentIntersectionEnv = MultiAgentWrapper(MultiAgentIntersectionEnv)
+class TupleMultiAgentIntersectionEnv(MultiAgentWrapper):
+    def __init__(self, config: dict = None) -> None:
+        super().__init__(MultiAgentIntersectionEnv(config))
 
 
 register(
-- 
2.43.0


From 1e56d16b473136e47468de0c25c33adc40a3d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 21/62] fix: default step, axes and low borders of occupancy
 grids

---
 highway_env/envs/common/observation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/common/observation.py b/highway_env/envs/common/observation.py
index a4bcfc9..c9d359c 100644
--- a/highway_env/envs/common/observation.py
+++ b/highway_env/envs/common/observation.py
@@ -244,8 +244,8 @@ class OccupancyGridObservation(ObservationType):
         self.features = features if features is not None else self.FEATURES
         self.grid_size = np.array(grid_size) if grid_size is not None else np.array(self.GRID_SIZE)
         self.grid_step = np.array(grid_step) if grid_step is not None else np.array(self.GRID_STEP)
-        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / grid_step), dtype=np.int)
-        self.grid = np.zeros((len(self.features), *grid_shape))
+        grid_shape = np.asarray(np.floor((self.grid_size[:, 1] - self.grid_size[:, 0]) / self.grid_step), dtype=np.int)
+        self.grid = np.zeros((len(self.features), *np.flip(grid_shape)))  # Indexed by (feature, y, x)
         self.features_range = features_range
         self.absolute = absolute
 
@@ -291,8 +291,8 @@ class OccupancyGridObservation(ObservationType):
                         x = utils.lmap(x, [-1, 1], [self.features_range["x"][0], self.features_range["x"][1]])
                     if "y" in self.features_range:
                         y = utils.lmap(y, [-1, 1], [self.features_range["y"][0], self.features_range["y"][1]])
-                    cell = (int((x - self.grid_size[0, 0]) / self.grid_step[0]),
-                            int((y - self.grid_size[1, 0]) / self.grid_step[1]))
+                    cell = (int(np.floor((x - self.grid_size[0, 0]) / self.grid_step[0])),
+                            int(np.floor((y - self.grid_size[1, 0]) / self.grid_step[1])))
                     if 0 <= cell[1] < self.grid.shape[-2] and 0 <= cell[0] < self.grid.shape[-1]:
                         self.grid[layer, cell[1], cell[0]] = vehicle[feature]
             # Clip
-- 
2.43.0


From d0c0cbc017e5a5e2998f08c296a0f29eeee2a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 22/62] fix: observer lanes and oncoming vehicles in
 time-to-collision grids

---
 highway_env/envs/common/finite_mdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 938e9ac..56a07de 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -95,18 +95,18 @@ def compute_ttc_grid(env: 'AbstractEnv',
     :return: the time-co-collision grid, with axes SPEED x LANES x TIME
     """
     vehicle = vehicle or env.vehicle
-    road_lanes = env.road.network.all_side_lanes(env.vehicle.lane_index)
+    road_lanes = env.road.network.all_side_lanes(vehicle.lane_index)
     grid = np.zeros((vehicle.SPEED_COUNT, len(road_lanes), int(horizon / time_quantization)))
     for speed_index in range(grid.shape[0]):
         ego_speed = vehicle.index_to_speed(speed_index)
         for other in env.road.vehicles:
-            if (other is vehicle) or (ego_speed == other.speed):
+            other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)
+            if (other is vehicle) or (ego_speed == other_projected_speed):
                 continue
             margin = other.LENGTH / 2 + vehicle.LENGTH / 2
             collision_points = [(0, 1), (-margin, 0.5), (margin, 0.5)]
             for m, cost in collision_points:
                 distance = vehicle.lane_distance_to(other) + m
-                other_projected_speed = other.speed * np.dot(other.direction, vehicle.direction)
                 time_to_collision = distance / utils.not_zero(ego_speed - other_projected_speed)
                 if time_to_collision < 0:
                     continue
-- 
2.43.0


From 1337351a64912ac5a0decbeacdbf7541307d3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 23/62] fix: finite MDPs of environments with a restricted set
 of meta-actions

---
 highway_env/envs/common/finite_mdp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/highway_env/envs/common/finite_mdp.py b/highway_env/envs/common/finite_mdp.py
index 56a07de..b2c5f3d 100644
--- a/highway_env/envs/common/finite_mdp.py
+++ b/highway_env/envs/common/finite_mdp.py
@@ -45,10 +45,12 @@ def finite_mdp(env: 'AbstractEnv',
     grid_state = (env.vehicle.speed_index, env.vehicle.lane_index[2], 0)
     state = np.ravel_multi_index(grid_state, grid.shape)
 
-    # Compute transition function
+    # Compute transition function, for the available meta-actions among all of them
+    all_actions = list(env.action_type.ACTIONS_ALL.values())
+    actions = [all_actions.index(action) for action in env.action_type.actions.values()]
     transition_model_with_grid = partial(transition_model, grid=grid)
-    transition = np.fromfunction(transition_model_with_grid, grid.shape + (env.action_space.n,), dtype=int)
-    transition = np.reshape(transition, (np.size(grid), env.action_space.n))
+    transition = np.fromfunction(transition_model_with_grid, grid.shape + (len(all_actions),), dtype=int)
+    transition = np.reshape(transition, (np.size(grid), len(all_actions)))[:, actions]
 
     # Compute reward function
     v, l, t = grid.shape
@@ -61,7 +63,7 @@ def finite_mdp(env: 'AbstractEnv',
         + env.HIGH_SPEED_REWARD * np.tile(speeds[:, np.newaxis, np.newaxis], (1, l, t))
     
     state_reward = np.ravel(state_reward)
-    action_reward = [env.LANE_CHANGE_REWARD, 0, env.LANE_CHANGE_REWARD, 0, 0]
+    action_reward = np.array([env.LANE_CHANGE_REWARD, 0, env.LANE_CHANGE_REWARD, 0, 0])[actions]
     reward = np.fromfunction(np.vectorize(lambda s, a: state_reward[s] + action_reward[a]),
                              (np.size(state_reward), np.size(action_reward)),  dtype=int)
 
-- 
2.43.0


From 2eeedb34887b5cfbaa2c89637afd9e491bdb47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 24/62] fix: labels of the action sequences displayed by the
 viewer

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c64ec74..c0ec378 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -73,7 +73,7 @@ class EnvViewer(object):
         :param actions: list of action, following the env's action space specification
         """
         if isinstance(self.env.action_space, Discrete):
-            actions = [self.env.ACTIONS[a] for a in actions]
+            actions = [self.env.action_type.actions[a] for a in actions]
         if len(actions) > 1:
             self.vehicle_trajectory = self.env.vehicle.predict_trajectory(actions,
                                                                           1 / self.env.config["policy_frequency"],
-- 
2.43.0


From f69a232ec2263da405476a421656d1055f8b0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 25/62] fix: only act on the keyboard events that change the
 continuous action

---
 highway_env/envs/common/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index c0ec378..e8ff39f 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -199,4 +199,5 @@ class EventHandler(object):
                 action[0] = 0
             if event.key == pygame.K_UP and action_type.longitudinal:
                 action[0] = 0
-        action_type.act(action)
+        if not np.array_equal(action, action_type.last_action):
+            action_type.act(action)
-- 
2.43.0


From 09c096a5e21e9d164d8ad1d7a8ce32a53b0c25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 26/62] fix: predicted trajectories sampled at most once per
 time step

---
 highway_env/vehicle/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 42fa408..6ea24be 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -295,6 +295,6 @@ class MDPVehicle(ControlledVehicle):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % int(trajectory_timestep / dt)) == 0:
+                if (t % max(int(trajectory_timestep / dt), 1)) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From 610904192e3c4618b769969622effef0d3ee3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 27/62] fix: display histories at low simulation frequencies

---
 highway_env/vehicle/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/graphics.py b/highway_env/vehicle/graphics.py
index 17ced80..82ed57b 100644
--- a/highway_env/vehicle/graphics.py
+++ b/highway_env/vehicle/graphics.py
@@ -136,7 +136,7 @@ class VehicleGraphics(object):
         for v in itertools.islice(vehicle.history,
                                   None,
                                   int(simulation * duration),
-                                  int(simulation / frequency)):
+                                  max(int(simulation / frequency), 1)):
             cls.display(v, surface, transparent=True, offscreen=offscreen)
 
     @classmethod
-- 
2.43.0


From 7a8b37124dc386a912f4ee0f2bf8015517423827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 28/62] fix: available lane changes are relative to the target
 lane, like the actions

---
 highway_env/envs/common/abstract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 4baa0f8..047cb72 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -276,12 +276,12 @@ class AbstractEnv(gym.Env):
         if not isinstance(self.action_type, DiscreteMetaAction):
             raise ValueError("Only discrete meta-actions can be unavailable.")
         actions = [self.action_type.actions_indexes['IDLE']]
-        for l_index in self.road.network.side_lanes(self.vehicle.lane_index):
-            if l_index[2] < self.vehicle.lane_index[2] \
+        for l_index in self.road.network.side_lanes(self.vehicle.target_lane_index):
+            if l_index[2] < self.vehicle.target_lane_index[2] \
                     and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \
                     and self.action_type.lateral:
                 actions.append(self.action_type.actions_indexes['LANE_LEFT'])
-            if l_index[2] > self.vehicle.lane_index[2] \
+            if l_index[2] > self.vehicle.target_lane_index[2] \
                     and self.road.network.get_lane(l_index).is_reachable_from(self.vehicle.position) \
                     and self.action_type.lateral:
                 actions.append(self.action_type.actions_indexes['LANE_RIGHT'])
-- 
2.43.0


From 554d0637faa0670e8a0295d7165f9f62501e27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:34 +0000
Subject: [PATCH 29/62] fix: lane-change decisions follow a planned lane of
 index 0

---
 highway_env/vehicle/behavior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/behavior.py b/highway_env/vehicle/behavior.py
index ea5ea4c..aefc23f 100644
--- a/highway_env/vehicle/behavior.py
+++ b/highway_env/vehicle/behavior.py
@@ -250,7 +250,7 @@ class IDMVehicle(ControlledVehicle):
         # Do I have a planned route for a specific lane which is safe for me to access?
         old_preceding, old_following = self.road.neighbour_vehicles(self)
         self_pred_a = self.acceleration(ego_vehicle=self, front_vehicle=new_preceding)
-        if self.route and self.route[0][2]:
+        if self.route and self.route[0][2] is not None:
             # Wrong direction
             if np.sign(lane_index[2] - self.target_lane_index[2]) != np.sign(self.route[0][2] - self.target_lane_index[2]):
                 return False
-- 
2.43.0


From cecf9b9f4087550009ff575601ea90fb906bf79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 30/62] fix: regulate at every step when simulating slower than
 the regulation frequency

---
 highway_env/road/regulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/regulation.py b/highway_env/road/regulation.py
index 0681a61..2c90dcd 100644
--- a/highway_env/road/regulation.py
+++ b/highway_env/road/regulation.py
@@ -20,7 +20,7 @@ class RegulatedRoad(Road):
 
     def step(self, dt: float) -> None:
         self.steps += 1
-        if self.steps % int(1 / dt / self.REGULATION_FREQUENCY) == 0:
+        if self.steps % max(int(1 / dt / self.REGULATION_FREQUENCY), 1) == 0:
             self.enforce_road_rules()
         return super().step(dt)
 
-- 
2.43.0


From 230f2a2ef6f3bc717f758bebbcd24f2da256542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 31/62] fix: compare the highway duration in seconds with the
 elapsed policy time

---
 highway_env/envs/highway_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/highway_env.py b/highway_env/envs/highway_env.py
index 1bf2a93..2fa29f5 100644
--- a/highway_env/envs/highway_env.py
+++ b/highway_env/envs/highway_env.py
@@ -96,7 +96,7 @@ class HighwayEnv(AbstractEnv):
     def _is_terminal(self) -> bool:
         """The episode is over if the ego vehicle crashed or the time is out."""
         return self.vehicle.crashed or \
-            self.steps >= self.config["duration"] or \
+            self.steps >= self.config["duration"] * self.config["policy_frequency"] or \
             (self.config["offroad_terminal"] and not self.vehicle.on_road)
 
     def _cost(self, action: int) -> float:
-- 
2.43.0


From f6a2f5a01d8bdad11f45340e32759104c2dd170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 32/62] fix: remove every vehicle close to the ego when
 building a scene

---
 highway_env/envs/intersection_env.py | 2 +-
 highway_env/envs/summon_env.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index 7e79eda..ed7da9a 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -194,7 +194,7 @@ class IntersectionEnv(AbstractEnv):
 
             self.road.vehicles.append(ego_vehicle)
             self.controlled_vehicles.append(ego_vehicle)
-            for v in self.road.vehicles:  # Prevent early collisions
+            for v in list(self.road.vehicles):  # Prevent early collisions
                 if v is not ego_vehicle and np.linalg.norm(v.position - ego_vehicle.position) < 20:
                     self.road.vehicles.remove(v)
 
diff --git a/highway_env/envs/summon_env.py b/highway_env/envs/summon_env.py
index 08afc8e..405ea7f 100644
--- a/highway_env/envs/summon_env.py
+++ b/highway_env/envs/summon_env.py
@@ -98,7 +98,7 @@ class SummonEnv(ParkingEnv):
                 lane = ("a", "b", i) if self.np_random.rand() >= 0.5 else ("b", "c", i)
                 self.road.vehicles.append(Vehicle.make_on_lane(self.road, lane, 4, speed=0))
 
-        for v in self.road.vehicles:  # Prevent early collisions
+        for v in list(self.road.vehicles):  # Prevent early collisions
             if v is not self.vehicle and np.linalg.norm(v.position - self.vehicle.position) < 20:
                 self.road.vehicles.remove(v)
 
-- 
2.43.0


From 59dbe800d50c61554666708742321f5dd31e21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 33/62] fix: give objects made on a lane the lane's heading
 instead of a speed

---
 highway_env/road/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/objects.py b/highway_env/road/objects.py
index 146e6bd..55f291f 100644
--- a/highway_env/road/objects.py
+++ b/highway_env/road/objects.py
@@ -43,7 +43,7 @@ class RoadObject(ABC):
         :return: An object with at the specified position
         """
         lane = road.network.get_lane(lane_index)
-        return cls(road, lane.position(longitudinal, 0), lane.heading_at(longitudinal))
+        return cls(road, lane.position(longitudinal, 0), heading=lane.heading_at(longitudinal))
 
     # Just added for sake of compatibility
     def to_dict(self, origin_vehicle=None, observe_intentions=True):
-- 
2.43.0


From 9071fd54094921eaebd28da1866e065d3d3d4ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 34/62] fix: keep the initial vehicles of the two-way road from
 overlapping

---
 highway_env/envs/two_way_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/two_way_env.py b/highway_env/envs/two_way_env.py
index a24ad24..357ce58 100644
--- a/highway_env/envs/two_way_env.py
+++ b/highway_env/envs/two_way_env.py
@@ -102,7 +102,7 @@ class TwoWayEnv(AbstractEnv):
             self.road.vehicles.append(
                 vehicles_type(road,
                               position=road.network.get_lane(("a", "b", 1))
-                              .position(70+40*i + 10*self.np_random.randn(), 0),
+                              .position(70+40*i + np.clip(10*self.np_random.randn(), -17, 17), 0),
                               heading=road.network.get_lane(("a", "b", 1)).heading_at(70+40*i),
                               speed=24 + 2*self.np_random.randn(),
                               enable_lane_change=False)
-- 
2.43.0


From 3a5d6dbadeace17d6c45005594d49b4d6316a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 35/62] fix: let interval vehicles without data act

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 79785a7..7b93ee7 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -56,7 +56,7 @@ class IntervalVehicle(LinearVehicle):
                          timer)
         self.theta_a_i = theta_a_i if theta_a_i is not None else LinearVehicle.ACCELERATION_RANGE
         self.theta_b_i = theta_b_i if theta_b_i is not None else LinearVehicle.STEERING_RANGE
-        self.data = data
+        self.data = data if data is not None else {}
         self.interval = VehicleInterval(self)
         self.trajectory = []
         self.interval_trajectory = []
-- 
2.43.0


From 282c1e48fa813f10869af92bb7b874f5e5690309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 36/62] fix: give the default LPV control the shape of a
 control

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 1f227fe..b76185d 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -180,7 +180,7 @@ class LPV(object):
         self.b = np.array(b) if b is not None else np.zeros((*self.x0.shape, 1))
         self.d = np.array(d) if d is not None else np.zeros((*self.x0.shape, 1))
         self.omega_i = np.array(omega_i) if omega_i is not None else np.zeros((2, 1))
-        self.u = np.array(u) if u is not None else np.zeros((1,))
+        self.u = np.array(u) if u is not None else np.zeros((self.b.shape[1], 1))
         self.k = np.array(k) if k is not None else np.zeros((self.b.shape[1], self.b.shape[0]))
         self.center = np.array(center) if center is not None else np.zeros(self.x0.shape)
 
-- 
2.43.0


From 0b2c4407df3c77d4d4c1b4c8213553c34c25fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 37/62] fix: change the coordinates of lists and vectors
 consistently and without side effects

---
 highway_env/interval.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index b76185d..76364c5 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -243,31 +243,32 @@ class LPV(object):
         if self.coordinates is None:
             return value
         transformation, transformation_inv = self.coordinates
-        if interval:
+        if isinstance(value, list):  # List
+            return [self.change_coordinates(v, matrix=matrix, back=back, interval=interval, offset=offset)
+                    for v in value]
+        elif interval:
             if back:
-                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze() + \
+                value = intervals_scaling(transformation, value[:, :, np.newaxis]).squeeze(-1) + \
                         offset * np.array([self.center, self.center])
                 return value
             else:
                 value = value - offset * np.array([self.center, self.center])
-                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze()
+                value = intervals_scaling(transformation_inv, value[:, :, np.newaxis]).squeeze(-1)
                 return value
         elif matrix:  # Matrix
             if back:
                 return transformation @ value @ transformation_inv
             else:
                 return transformation_inv @ value @ transformation
-        elif isinstance(value, list):  # List
-            return [self.change_coordinates(v, back) for v in value]
         else:
             if back:
                 value = transformation @ value
                 if offset:
-                    value += self.center
+                    value = value + self.center
                 return value
             else:
                 if offset:
-                    value -= self.center
+                    value = value - self.center
                 return transformation_inv @ value
 
     def step(self, dt: float) -> None:
-- 
2.43.0


From 8159ea744fae77125875cd3d45564d59d529028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 38/62] fix: express every part of an LPV model in the
 transformed coordinates

---
 highway_env/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 76364c5..40b9bf9 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -220,7 +220,9 @@ class LPV(object):
         self.a0 = self.change_coordinates(self.a0, matrix=True)
         self.da = self.change_coordinates(self.da, matrix=True)
         self.b = self.change_coordinates(self.b, offset=False)
-        self.x_i_t = np.array(self.change_coordinates([x for x in self.x_i]))
+        self.d = self.change_coordinates(self.d, offset=False)
+        self.x_t = self.change_coordinates(self.x_t)
+        self.x_i_t = self.change_coordinates(self.x_i, interval=True)
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-- 
2.43.0


From fdc8675888a302ecaf2ca23e5701f17dff9d6f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:01 +0000
Subject: [PATCH 39/62] fix: keep centring an LPV whose dynamics cannot be
 diagonalised

---
 highway_env/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 40b9bf9..3fc1afb 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -213,7 +213,7 @@ class LPV(object):
                     pass
             if not self.coordinates:
                 print("Non Metzler A0 with eigenvalues: ", eig_v)
-        else:
+        if not self.coordinates:
             self.coordinates = (np.eye(a0.shape[0]), np.eye(a0.shape[0]))
 
         # Forward coordinates change of states and models
-- 
2.43.0


From c680d3fe6e882fb75e37799bfe5ab32faf21a245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 40/62] fix: step LPV systems that have no dynamics deviation

---
 highway_env/interval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index 3fc1afb..d80c620 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -290,7 +290,7 @@ class LPV(object):
         :return: state interval at time t+dt
         """
         a0, da, d, omega_i, b, u = self.a0, self.da, self.d, self.omega_i, self.b, self.u
-        a_i = a0 + sum(intervals_product([0, 1], [da_i, da_i]) for da_i in da)
+        a_i = np.array([a0, a0]) + sum(intervals_product([0, 1], [da_i, da_i]) for da_i in da)
         bu = (b @ u).squeeze(-1)
         dx_i = intervals_product(a_i, x_i) + intervals_product([d, d], omega_i) + np.array([bu, bu])
         return x_i + dx_i*dt
@@ -306,8 +306,8 @@ class LPV(object):
         a0, da, d, omega_i, b, u = self.a0, self.da, self.d, self.omega_i, self.b, self.u
         p = lambda x: np.maximum(x, 0)
         n = lambda x: np.maximum(-x, 0)
-        da_p = sum(p(da_i) for da_i in da)
-        da_n = sum(n(da_i) for da_i in da)
+        da_p = sum((p(da_i) for da_i in da), np.zeros(a0.shape))
+        da_n = sum((n(da_i) for da_i in da), np.zeros(a0.shape))
         x_m, x_M = x_i[0, :, np.newaxis], x_i[1, :, np.newaxis]
         o_m, o_M = omega_i[0, :, np.newaxis], omega_i[1, :, np.newaxis]
         dx_m = a0 @ x_m - da_p @ n(x_m) - da_n @ p(x_M) + p(d) @ o_m - n(d) @ o_M + b @ u
-- 
2.43.0


From cfcb2e67dd6ed18f2d59d20e73e107a4f12df189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 41/62] fix: keep the speed interval of the partial observer
 ordered

---
 highway_env/vehicle/uncertainty/prediction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 7b93ee7..b6af363 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -354,7 +354,8 @@ class IntervalVehicle(LinearVehicle):
         v_plus.observer_step(dt)
         # 3. Merge the resulting intervals together to x_i(t+dt).
         self.interval.position = np.array([v_minus.interval.position[0], v_plus.interval.position[1]])
-        self.interval.speed = np.array([v_minus.interval.speed[0], v_plus.interval.speed[1]])
+        self.interval.speed = np.array([min(v_minus.interval.speed[0], v_plus.interval.speed[0]),
+                                        max(v_minus.interval.speed[1], v_plus.interval.speed[1])])
         self.interval.heading = np.array([min(v_minus.interval.heading[0], v_plus.interval.heading[0]),
                                           max(v_minus.interval.heading[1], v_plus.interval.heading[1])])
 
-- 
2.43.0


From d5c6d06090e6e31e1e1c6370e8a7eeec3e2786fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 42/62] fix: predict the lateral interval in terms of lateral
 speed and return absolute headings

---
 highway_env/vehicle/uncertainty/prediction.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index b6af363..e726bbf 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -192,11 +192,9 @@ class IntervalVehicle(LinearVehicle):
         if self.target_lane_index != self.previous_target_lane_index:
             position_i = self.interval.position
             target_lane = self.road.network.get_lane(self.target_lane_index)
-            previous_target_lane = self.road.network.get_lane(self.previous_target_lane_index)
             longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
-            psi_i = self.interval.heading + \
-                    target_lane.heading_at(longi_i.mean()) - previous_target_lane.heading_at(longi_i.mean())
-            x_i_local_unrotated = np.transpose([lat_i, psi_i])
+            psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
+            x_i_local_unrotated = np.transpose([lat_i, intervals_product(self.interval.speed, psi_i)])
             new_x_i_t = self.lateral_lpv.change_coordinates(x_i_local_unrotated, back=False, interval=True)
             delta = new_x_i_t.mean(axis=0) - self.lateral_lpv.x_i_t.mean(axis=0)
             self.lateral_lpv.x_i_t += delta
@@ -223,7 +221,8 @@ class IntervalVehicle(LinearVehicle):
         position_i = interval_local_to_absolute(x_i_long[:, 0], x_i_lat[:, 0], target_lane)
         self.interval.position = position_i
         self.interval.speed = x_i_long[:, 2]
-        self.interval.heading = x_i_lat[:, 1]
+        self.interval.heading = intervals_product(x_i_lat[:, 1], 1 / np.maximum(np.flip(x_i_long[:, 2]), 0.01)) + \
+            target_lane.heading_at(x_i_long[:, 0].mean())
 
     def predictor_init(self) -> None:
         """Initialize the LPV models used for interval prediction."""
@@ -231,7 +230,7 @@ class IntervalVehicle(LinearVehicle):
         target_lane = self.road.network.get_lane(self.target_lane_index)
         longi_i, lat_i = interval_absolute_to_local(position_i, target_lane)
         v_i = self.interval.speed
-        psi_i = self.interval.heading - self.lane.heading_at(longi_i.mean())
+        psi_i = self.interval.heading - target_lane.heading_at(longi_i.mean())
 
         # Longitudinal predictor
         if not self.longitudinal_lpv:
@@ -260,7 +259,7 @@ class IntervalVehicle(LinearVehicle):
             # Lateral predictor
             if not self.lateral_lpv:
                 # LPV specification
-                x0 = [lat_i[0], psi_i[0]]
+                x0 = [lat_i[0], v_i[0] * psi_i[0]]  # lateral position and speed
                 center = [0, 0]
                 noise = 0.5
                 b = np.identity(2)
-- 
2.43.0


From c401b285b699906e5cc937fc8a2d72a8a2e896d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 43/62] fix: keep the interval observer finite for vehicles at
 rest

---
 highway_env/vehicle/uncertainty/prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index e726bbf..60d079d 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -128,7 +128,7 @@ class IntervalVehicle(LinearVehicle):
             lane_psi = lane.heading_at(longitudinal_pursuit)
             _, lateral_i = interval_absolute_to_local(position_i, lane)
             lateral_i = -np.flip(lateral_i)
-            i_v_i = 1/np.flip(v_i, 0)
+            i_v_i = 1/np.maximum(np.flip(v_i, 0), 0.01)
             phi_b_i_lane = np.transpose(np.array([
                 [0, 0],
                 intervals_product(lateral_i, i_v_i)]))
-- 
2.43.0


From ae9328c8488041111e20ca4a71327bb716c408ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 44/62] fix: keep the position interval of the partial observer
 ordered

---
 highway_env/vehicle/uncertainty/prediction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index 60d079d..bed2090 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -352,7 +352,8 @@ class IntervalVehicle(LinearVehicle):
         v_minus.observer_step(dt)
         v_plus.observer_step(dt)
         # 3. Merge the resulting intervals together to x_i(t+dt).
-        self.interval.position = np.array([v_minus.interval.position[0], v_plus.interval.position[1]])
+        self.interval.position = np.array([np.minimum(v_minus.interval.position[0], v_plus.interval.position[0]),
+                                           np.maximum(v_minus.interval.position[1], v_plus.interval.position[1])])
         self.interval.speed = np.array([min(v_minus.interval.speed[0], v_plus.interval.speed[0]),
                                         max(v_minus.interval.speed[1], v_plus.interval.speed[1])])
         self.interval.heading = np.array([min(v_minus.interval.heading[0], v_plus.interval.heading[0]),
-- 
2.43.0


From e323b15093cbcee6849086299b206cec57b84055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 45/62] fix: bound the velocity of the interval observer for
 every heading

---
 highway_env/vehicle/uncertainty/prediction.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/prediction.py b/highway_env/vehicle/uncertainty/prediction.py
index bed2090..41bc8f3 100644
--- a/highway_env/vehicle/uncertainty/prediction.py
+++ b/highway_env/vehicle/uncertainty/prediction.py
@@ -160,10 +160,12 @@ class IntervalVehicle(LinearVehicle):
         d_psi_i += b_i
 
         # Position interval
-        cos_i = [-1 if psi_i[0] <= np.pi <= psi_i[1] else min(map(np.cos, psi_i)),
-                 1 if psi_i[0] <= 0 <= psi_i[1] else max(map(np.cos, psi_i))]
-        sin_i = [-1 if psi_i[0] <= -np.pi/2 <= psi_i[1] else min(map(np.sin, psi_i)),
-                 1 if psi_i[0] <= np.pi/2 <= psi_i[1] else max(map(np.sin, psi_i))]
+        # Does the heading interval contain a given angle, up to a multiple of 2*pi?
+        contains = lambda angle: (angle - psi_i[0]) % (2*np.pi) <= psi_i[1] - psi_i[0]
+        cos_i = [-1 if contains(np.pi) else min(map(np.cos, psi_i)),
+                 1 if contains(0) else max(map(np.cos, psi_i))]
+        sin_i = [-1 if contains(-np.pi/2) else min(map(np.sin, psi_i)),
+                 1 if contains(np.pi/2) else max(map(np.sin, psi_i))]
         dx_i = intervals_product(v_i, cos_i)
         dy_i = intervals_product(v_i, sin_i)
 
-- 
2.43.0


From 6486e968dfa7996fb1a7552a92450bcf76644b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 46/62] fix: confidence polytope contains the confidence
 ellipsoid within the parameter box

---
 highway_env/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index b5cfc3b..3dc37bd 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -165,15 +165,18 @@ def confidence_polytope(data: dict, parameter_box: np.ndarray) -> Tuple[np.ndarr
     param_bound = np.amax(np.abs(parameter_box))
     theta_n_lambda, g_n_lambda, beta_n = confidence_ellipsoid(data, param_bound=param_bound)
 
-    values, pp = np.linalg.eig(g_n_lambda)
-    radius_matrix = np.sqrt(beta_n) * np.linalg.inv(pp) @ np.diag(np.sqrt(1 / values))
+    values, pp = np.linalg.eigh(g_n_lambda)
+    radius_matrix = beta_n * pp @ np.diag(np.sqrt(1 / values))
     h = np.array(list(itertools.product([-1, 1], repeat=theta_n_lambda.shape[0])))
-    d_theta = np.array([radius_matrix @ h_k for h_k in h])
+    vertices = np.array([theta_n_lambda + radius_matrix @ h_k for h_k in h])
 
     # Clip the parameter and confidence region within the prior parameter box.
+    parameter_box = np.asarray(parameter_box)
     theta_n_lambda = np.clip(theta_n_lambda, parameter_box[0], parameter_box[1])
-    for k, _ in enumerate(d_theta):
-        d_theta[k] = np.clip(d_theta[k], parameter_box[0] - theta_n_lambda, parameter_box[1] - theta_n_lambda)
+    if np.any(vertices < parameter_box[0]) or np.any(vertices > parameter_box[1]):
+        bounds = np.clip([vertices.min(axis=0), vertices.max(axis=0)], parameter_box[0], parameter_box[1])
+        vertices = np.array(list(itertools.product(*bounds.T)))
+    d_theta = vertices - theta_n_lambda
     return theta_n_lambda, d_theta, g_n_lambda, beta_n
 
 
-- 
2.43.0


From 495f5bc3fce822918a72eca96c40bf628da09fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:56 +0000
Subject: [PATCH 47/62] fix: assumed models own their route and data

---
 highway_env/vehicle/uncertainty/estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index ec6a504..26a7ba5 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Callable, Union
 
 import numpy as np
@@ -103,6 +104,6 @@ class MultipleModelVehicle(LinearVehicle):
         route, data = self.data[index]
         vehicle = RegressionVehicle.create_from(self)
         vehicle.target_lane_index = route[0]
-        vehicle.route = route
-        vehicle.data = data
+        vehicle.route = route.copy()
+        vehicle.data = copy.deepcopy(data)
         return vehicle
-- 
2.43.0


From f6fbd5af00d10b5fd4f4d9b1a7d9d1063a6aa814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 48/62] fix: a RegressionVehicle without data uses its
 parameter box

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 26a7ba5..2f003f5 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -15,10 +15,10 @@ class RegressionVehicle(IntervalVehicle):
     """Estimator for the parameter of a LinearVehicle."""
 
     def longitudinal_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["longitudinal"], self.theta_a_i, self.longitudinal_structure)
+        return self.polytope_from_estimation(self.data.get("longitudinal"), self.theta_a_i, self.longitudinal_structure)
 
     def lateral_matrix_polytope(self) -> Polytope:
-        return self.polytope_from_estimation(self.data["lateral"], self.theta_b_i, self.lateral_structure)
+        return self.polytope_from_estimation(self.data.get("lateral"), self.theta_b_i, self.lateral_structure)
 
     def polytope_from_estimation(self, data: dict, parameter_box: np.ndarray, structure: Callable[[], Polytope])\
             -> Polytope:
-- 
2.43.0


From a70855086392f6642b59962eea42172429c10c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 49/62] fix: dataset consistency without a prior parameter box

---
 highway_env/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/highway_env/utils.py b/highway_env/utils.py
index 3dc37bd..49dd3f3 100644
--- a/highway_env/utils.py
+++ b/highway_env/utils.py
@@ -215,7 +215,10 @@ def is_consistent_dataset(data: dict, parameter_box: np.ndarray = None) -> bool:
     y, phi = train_set["outputs"].pop(-1), train_set["features"].pop(-1)
     y, phi = np.array(y)[..., np.newaxis], np.array(phi)[..., np.newaxis]
     if train_set["outputs"] and train_set["features"]:
-        theta, _, gramian, beta = confidence_polytope(train_set, parameter_box=parameter_box)
+        if parameter_box is None:
+            theta, gramian, beta = confidence_ellipsoid(train_set)
+        else:
+            theta, _, gramian, beta = confidence_polytope(train_set, parameter_box=parameter_box)
         return is_valid_observation(y, phi, theta, gramian, beta)
     else:
         return True
-- 
2.43.0


From 9416047b790ccce33979d701ecbd59ce89528d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 50/62] fix: multiple-model drivers keep the last road of a
 route

---
 highway_env/vehicle/uncertainty/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index 2f003f5..e3b5ade 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -82,7 +82,7 @@ class MultipleModelVehicle(LinearVehicle):
 
         # Step the lane being followed in each possible route
         for route, _ in self.data:
-            if self.road.network.get_lane(route[0]).after_end(self.position):
+            if len(route) > 1 and self.road.network.get_lane(route[0]).after_end(self.position):
                 route.pop(0)
 
         # Reject inconsistent hypotheses
-- 
2.43.0


From ba2a20890e115cfe3ef16f2cdabafcb3841730ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 51/62] fix: route hypotheses do not alias the planned route

---
 highway_env/vehicle/uncertainty/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/uncertainty/estimation.py b/highway_env/vehicle/uncertainty/estimation.py
index e3b5ade..782f94a 100644
--- a/highway_env/vehicle/uncertainty/estimation.py
+++ b/highway_env/vehicle/uncertainty/estimation.py
@@ -68,8 +68,8 @@ class MultipleModelVehicle(LinearVehicle):
 
         for route in self.get_routes_at_intersection():  # Candidates
             # Unknown lane -> first lane
-            for i, lane_index in enumerate(route):
-                route[i] = lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+            route = [lane_index if lane_index[2] is not None else (lane_index[0], lane_index[1], 0)
+                     for lane_index in route]
             # Is this route already considered, or a suffix of a route already considered ?
             for known_route, _ in self.data:
                 if known_route == route:
-- 
2.43.0


From b394abcb07283e26b3cc357019883f9d05ca6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 52/62] fix: display panning does not alter the configuration
 or the default centring

---
 highway_env/envs/common/graphics.py | 3 ++-
 highway_env/road/graphics.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index e8ff39f..31ed07d 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -34,7 +34,8 @@ class EnvViewer(object):
             self.screen = pygame.display.set_mode([self.env.config["screen_width"], self.env.config["screen_height"]])
         self.sim_surface = WorldSurface(panel_size, 0, pygame.Surface(panel_size))
         self.sim_surface.scaling = env.config.get("scaling", self.sim_surface.INITIAL_SCALING)
-        self.sim_surface.centering_position = env.config.get("centering_position", self.sim_surface.INITIAL_CENTERING)
+        self.sim_surface.centering_position = list(env.config.get("centering_position",
+                                                                    self.sim_surface.INITIAL_CENTERING))
         self.clock = pygame.time.Clock()
 
         self.enabled = True
diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index 85de007..aac1e05 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -33,7 +33,7 @@ class WorldSurface(pygame.Surface):
         super().__init__(size, flags, surf)
         self.origin = np.array([0, 0])
         self.scaling = self.INITIAL_SCALING
-        self.centering_position = self.INITIAL_CENTERING
+        self.centering_position = list(self.INITIAL_CENTERING)
 
     def pix(self, length: float) -> int:
         """
-- 
2.43.0


From ff01196436b509ad106c0d7aefbda72f67e6b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 53/62] fix: up key is ignored without lateral actions

---
 highway_env/envs/common/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/envs/common/graphics.py b/highway_env/envs/common/graphics.py
index 31ed07d..0c8fb98 100644
--- a/highway_env/envs/common/graphics.py
+++ b/highway_env/envs/common/graphics.py
@@ -175,7 +175,7 @@ class EventHandler(object):
                 action_type.act(action_type.actions_indexes["SLOWER"])
             if event.key == pygame.K_DOWN and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_RIGHT"])
-            if event.key == pygame.K_UP:
+            if event.key == pygame.K_UP and action_type.lateral:
                 action_type.act(action_type.actions_indexes["LANE_LEFT"])
 
     @classmethod
-- 
2.43.0


From a71fbf946bf0b0967fcaca39c84c5fb6da9472c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 54/62] fix: manual control in lane keeping

---
 highway_env/envs/lane_keeping_env.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/envs/lane_keeping_env.py b/highway_env/envs/lane_keeping_env.py
index 89f8fee..3e3b790 100644
--- a/highway_env/envs/lane_keeping_env.py
+++ b/highway_env/envs/lane_keeping_env.py
@@ -59,7 +59,8 @@ class LaneKeepingEnv(AbstractEnv):
                                  state=self.vehicle.state[[1, 2, 4, 5]])
             self.lpv.step(1 / self.config["simulation_frequency"])
 
-        self.action_type.act(action)
+        if not self.config["manual_control"]:
+            self.action_type.act(action)
         obs = self.observation_type.observe()
         self._simulate()
 
-- 
2.43.0


From 7ecfa72a30898ac77867e7bb18295b3528d03d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 55/62] fix: closing the window while rendering arrays

---
 highway_env/envs/common/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 047cb72..6f005a0 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -246,10 +246,10 @@ class AbstractEnv(gym.Env):
         if self.should_update_rendering:
             self.viewer.display()
 
+        image = self.viewer.get_image() if mode == 'rgb_array' else None
         if not self.viewer.offscreen:
-            self.viewer.handle_events()
+            self.viewer.handle_events()  # may close the viewer
         if mode == 'rgb_array':
-            image = self.viewer.get_image()
             return image
         self.should_update_rendering = False
 
-- 
2.43.0


From 683a1e45a23603b0b661d9a29e63d4c063e0d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 56/62] fix: constant-speed predictions start from the current
 lane

---
 highway_env/vehicle/controller.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 6ea24be..22a6814 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -193,7 +193,10 @@ class ControlledVehicle(Vehicle):
         :return: positions, headings
         """
         coordinates = self.lane.local_coordinates(self.position)
-        route = self.route or [self.lane_index]
+        route = list(self.route or [self.lane_index])
+        if route[0][:2] != self.lane_index[:2] and route[0][0] == self.lane_index[1]:
+            # The route starts with the next road when the end of the current one is near
+            route.insert(0, self.lane_index)
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From 6f0d2176ceffbfcc34b8a4e91a469f700d5d0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 57/62] fix: constant-speed predictions along routes of
 unspecified lanes

---
 highway_env/vehicle/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index 22a6814..cbc55fa 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -197,6 +197,10 @@ class ControlledVehicle(Vehicle):
         if route[0][:2] != self.lane_index[:2] and route[0][0] == self.lane_index[1]:
             # The route starts with the next road when the end of the current one is near
             route.insert(0, self.lane_index)
+        # Unknown lanes: keep the current lane id whenever possible
+        _id = self.lane_index[2]
+        route = [(_from, _to, _id if _id < len(self.road.network.graph[_from][_to]) else 0) if lane_id is None
+                 else (_from, _to, lane_id) for _from, _to, lane_id in route]
         return tuple(zip(*[self.road.network.position_heading_along_route(route, coordinates[0] + self.speed * t, 0)
                      for t in times]))
 
-- 
2.43.0


From f1e9361c459f50ab5a001b82c2d2ec3762e0a13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 58/62] fix: rounding of the number of predicted frames

---
 highway_env/vehicle/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/highway_env/vehicle/controller.py b/highway_env/vehicle/controller.py
index cbc55fa..3dcdb4c 100644
--- a/highway_env/vehicle/controller.py
+++ b/highway_env/vehicle/controller.py
@@ -294,14 +294,15 @@ class MDPVehicle(ControlledVehicle):
         :return: the sequence of future states
         """
         states = []
+        eps = 1e-6  # The ratios of durations are subject to rounding errors
         v = copy.deepcopy(self)
         t = 0
         for action in actions:
             v.act(action)  # High-level decision
-            for _ in range(int(action_duration / dt)):
+            for _ in range(int(action_duration / dt + eps)):
                 t += 1
                 v.act()  # Low-level control action
                 v.step(dt)
-                if (t % max(int(trajectory_timestep / dt), 1)) == 0:
+                if (t % max(int(trajectory_timestep / dt + eps), 1)) == 0:
                     states.append(copy.deepcopy(v))
         return states
-- 
2.43.0


From 0484a29cff21a0de94aab03eaeeba33d532cb282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:13 +0000
Subject: [PATCH 59/62] fix: account for the center in the feedback part of a
 known LPV control

---
 highway_env/interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/highway_env/interval.py b/highway_env/interval.py
index d80c620..667e7c7 100644
--- a/highway_env/interval.py
+++ b/highway_env/interval.py
@@ -226,7 +226,8 @@ class LPV(object):
 
     def set_control(self, control: np.ndarray, state: np.ndarray = None) -> None:
         if state is not None:
-            control = control - self.k @ state  # the Kx part of the control is already present in A0.
+            # The K(x - center) part of the control is already present in A0.
+            control = control - self.k @ (state - self.center.reshape(np.shape(state)))
         self.u = control
 
     def change_coordinates(self, value: Union[np.ndarray, List[np.ndarray]], matrix: bool = False, back: bool = False,
-- 
2.43.0


From cdb97839d713fb53249e1437d2e5673f7681d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:25 +0000
Subject: [PATCH 60/62] fix: centre the drawn rectangle of road objects that
 are not square

---
 highway_env/road/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index aac1e05..c8c9b12 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -295,7 +295,7 @@ class RoadObjectGraphics:
         """
         o = object_
         s = pygame.Surface((surface.pix(o.LENGTH), surface.pix(o.LENGTH)), pygame.SRCALPHA)  # per-pixel alpha
-        rect = (0, surface.pix(o.WIDTH) / 2 - surface.pix(o.WIDTH) / 2, surface.pix(o.LENGTH), surface.pix(o.WIDTH))
+        rect = (0, surface.pix(o.LENGTH) / 2 - surface.pix(o.WIDTH) / 2, surface.pix(o.LENGTH), surface.pix(o.WIDTH))
         pygame.draw.rect(s, cls.get_color(o, transparent), rect, 0)
         pygame.draw.rect(s, cls.BLACK, rect, 1)
         if not offscreen:  # convert_alpha throws errors in offscreen mode TODO() Explain why
-- 
2.43.0


From 41acd27f83c813e29fecc2a3340928b6547f5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 61/62] fix: draw lane markings over the whole visible part of
 every lane

---
 highway_env/road/graphics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/highway_env/road/graphics.py b/highway_env/road/graphics.py
index c8c9b12..5fc93a0 100644
--- a/highway_env/road/graphics.py
+++ b/highway_env/road/graphics.py
@@ -3,7 +3,7 @@ from typing import List, Tuple, Union, TYPE_CHECKING
 import numpy as np
 import pygame
 
-from highway_env.road.lane import LineType, AbstractLane
+from highway_env.road.lane import LineType, AbstractLane, CircularLane
 from highway_env.road.road import Road
 from highway_env.types import Vector
 from highway_env.vehicle.graphics import VehicleGraphics
@@ -121,9 +121,11 @@ class LaneGraphics(object):
         :param lane: the lane to be displayed
         :param surface: the pygame surface
         """
-        stripes_count = int(2 * (surface.get_height() + surface.get_width()) / (cls.STRIPE_SPACING * surface.scaling))
+        stripes_count = int(2 * (surface.get_height() + surface.get_width()) / (cls.STRIPE_SPACING * surface.scaling)) + 4
         s_origin, _ = lane.local_coordinates(surface.origin)
         s0 = (int(s_origin) // cls.STRIPE_SPACING - stripes_count // 2) * cls.STRIPE_SPACING
+        if isinstance(lane, CircularLane):  # The origin may project far from the visible part
+            stripes_count, s0 = int(lane.length // cls.STRIPE_SPACING) + 1, 0
         for side in range(2):
             if lane.line_types[side] == LineType.STRIPED:
                 cls.striped_line(lane, surface, stripes_count, s0, side)
-- 
2.43.0


From 16335ca2daa3765b52a8130e779aa3ace9e79d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:46 +0000
Subject: [PATCH 62/62] fix: render the present scene after resets and steps
 that were not rendered automatically

---
 highway_env/envs/common/abstract.py  | 2 ++
 highway_env/envs/intersection_env.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/highway_env/envs/common/abstract.py b/highway_env/envs/common/abstract.py
index 6f005a0..70cdbcd 100644
--- a/highway_env/envs/common/abstract.py
+++ b/highway_env/envs/common/abstract.py
@@ -162,6 +162,7 @@ class AbstractEnv(gym.Env):
         self.define_spaces()  # First, to set the controlled vehicle class depending on action space
         self.time = self.steps = 0
         self.done = False
+        self.should_update_rendering = True
         self._reset()
         self.define_spaces()  # Second, to link the obs and actions to the vehicles once the scene is created
         return self.observation_type.observe()
@@ -218,6 +219,7 @@ class AbstractEnv(gym.Env):
             self.road.act()
             self.road.step(1 / self.config["simulation_frequency"])
             self.time += 1
+            self.should_update_rendering = True
 
             # Automatically render intermediate simulation steps if a viewer has been launched
             # Ignored if the rendering is done offscreen
diff --git a/highway_env/envs/intersection_env.py b/highway_env/envs/intersection_env.py
index ed7da9a..e9546c4 100644
--- a/highway_env/envs/intersection_env.py
+++ b/highway_env/envs/intersection_env.py
@@ -92,6 +92,7 @@ class IntersectionEnv(AbstractEnv):
         obs, reward, done, info = super().step(action)
         self._clear_vehicles()
         self._spawn_vehicle(spawn_probability=self.config["spawn_probability"])
+        self.should_update_rendering = True
         info["agents_rewards"] = tuple(self._agent_reward(action, vehicle) for vehicle in self.controlled_vehicles)
         info["agents_dones"] = tuple(self._agent_is_terminal(vehicle) for vehicle in self.controlled_vehicles)
         return obs, reward, done, info
-- 
2.43.0

