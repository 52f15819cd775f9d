From 2e1171c6850f041f3c7abaa1647f3551fbd84de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 01/36] fix: hand the sensor gate 2 sweep range to response
 distortions in sensor scans

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 2308ef1..9b8f518 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -540,7 +540,7 @@ class Simulation:
         if self.__sensor_response_distortions is not None:
             for i in self.__sensor_response_distortions:
                 scan = i.noise_function(
-                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g1
+                    sensor_response=scan, volt_limits_g1=sweep_range_sensor_g1, volt_limits_g2=sweep_range_sensor_g2
                 )
 
         # create a dictionary containing all the metadata
-- 
2.43.0


From 4eb4d647efbfe948e353db67a7f7f37d1f88bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 02/36] fix: do not compare omitted sensor voltages with the
 sensor voltage limits

---
 simcats/_simulation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 9b8f518..baacd86 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -183,13 +183,15 @@ class Simulation:
             )
 
         if (
-                self.__volt_limits_sensor_g1 is not None
+                volt_sensor_g1 is not None
+                and self.__volt_limits_sensor_g1 is not None
                 and (
                 volt_sensor_g1 < self.__volt_limits_sensor_g1[0]
                 or volt_sensor_g1 > self.__volt_limits_sensor_g1[1]
         )
                 or (
-                self.__volt_limits_sensor_g2 is not None
+                volt_sensor_g2 is not None
+                and self.__volt_limits_sensor_g2 is not None
                 and (
                         volt_sensor_g2 < self.__volt_limits_sensor_g2[0]
                         or volt_sensor_g2 > self.__volt_limits_sensor_g2[1]
-- 
2.43.0


From 17650f898d138feb81c8333a73ab494e0bf2899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 03/36] fix: support all 1D resolutions in sensor scans with
 and without an ideal CSD

---
 simcats/_simulation.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index baacd86..7398e44 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -465,11 +465,16 @@ class Simulation:
                 f"a fixed voltage for the corresponding gate, to perform a single gate sweep."
             )
 
+        # shape of the scan: a single resolution value describes a 1D scan, two values (columns, rows) a 2D scan
+        if type(resolution) == int:
+            scan_shape = (resolution,)
+        elif len(resolution) == 1:
+            scan_shape = (int(resolution[0]),)
+        else:
+            scan_shape = (resolution[1], resolution[0])
+
         if self.ideal_csd_config is None or volt_g1 is None or volt_g2 is None:
-            if type(resolution) == int:
-                occupations = np.zeros((resolution, 2))
-            else:
-                occupations = np.zeros((resolution[1], resolution[0], 2))
+            occupations = np.zeros(scan_shape + (2,))
             undistorted_occupations = deepcopy(occupations)
         else:
             # setup clean data function pointer
@@ -480,17 +485,9 @@ class Simulation:
                 volt_limits_g1=(volt_g1, volt_g1), volt_limits_g2=(volt_g2, volt_g2), resolution=(1)
             )
 
-            if len(resolution) == 1:
-                resolution = int(resolution[0])
-
-            if type(resolution) == int:
-                occupations = np.ones((resolution, 2))
-                occupations[:, 0] = occupations[:, 0] * occupations_csd[0, 0]
-                occupations[:, 1] = occupations[:, 1] * occupations_csd[0, 1]
-            else:
-                occupations = np.ones((resolution[1], resolution[0], 2))
-                occupations[:, :, 0] = occupations[:,:,0] * occupations_csd[0, 0]
-                occupations[:, :, 1] = occupations[:,:,1] * occupations_csd[0, 1]
+            occupations = np.ones(scan_shape + (2,))
+            occupations[..., 0] = occupations[..., 0] * occupations_csd[0, 0]
+            occupations[..., 1] = occupations[..., 1] * occupations_csd[0, 1]
 
             undistorted_occupations = deepcopy(occupations)
 
-- 
2.43.0


From 7d521caa6d90ad1c7f700ba2e35d5b6c875fa162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 04/36] fix: accept voltage limits given as list

---
 simcats/_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index 7398e44..dabae53 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -583,7 +583,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and volt_limits_g1.size == 2)
+                volt_limits_g1 is None or (isinstance(volt_limits_g1, (np.ndarray, list)) and np.size(volt_limits_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g1 configuration is not supported. Must be either None or "
@@ -612,7 +612,7 @@ class Simulation:
         """
         # check datatype of voltage limits
         if not (
-                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and volt_limits_g2.size == 2)
+                volt_limits_g2 is None or (isinstance(volt_limits_g2, (np.ndarray, list)) and np.size(volt_limits_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_g2 configuration is not supported. Must be either None or "
@@ -642,7 +642,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g1 is None or (
-                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and volt_limits_sensor_g1.size == 2)
+                isinstance(volt_limits_sensor_g1, (np.ndarray, list)) and np.size(volt_limits_sensor_g1) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g1 configuration is not supported. Must be either None or "
@@ -672,7 +672,7 @@ class Simulation:
         # check datatype of voltage limits
         if not (
                 volt_limits_sensor_g2 is None or (
-                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and volt_limits_sensor_g2.size == 2)
+                isinstance(volt_limits_sensor_g2, (np.ndarray, list)) and np.size(volt_limits_sensor_g2) == 2)
         ):
             raise ValueError(
                 f"The provided volt_limits_sensor_g2 configuration is not supported. Must be either None or "
-- 
2.43.0


From 1b45464e6284aab7b8e75077e5707fc76a3387cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 05/36] fix: name the voltage of gate 1 in the sensor scan
 warning

---
 simcats/_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index dabae53..bad563a 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -437,7 +437,7 @@ class Simulation:
             )
         if self.ideal_csd_config and ((volt_g1 is None) or (volt_g2 is None)):
             warnings.warn(
-                f"If an ideal_csd_config is specified, it is assumed that the two voltages volt_g1 ({volt_g2}) and "
+                f"If an ideal_csd_config is specified, it is assumed that the two voltages volt_g1 ({volt_g1}) and "
                 f"volt_g2 ({volt_g2}) are specified and are not equal to None. \n"
                 f"The ideal_csd_config is ignored and an occupation of 0 is assumed."
             )
-- 
2.43.0


From 2320733a9913e4dd28fab13608d2dfe7dbc1a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 06/36] fix: accept numpy integers as 1D resolution

---
 simcats/_simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/simcats/_simulation.py b/simcats/_simulation.py
index bad563a..fca1abf 100644
--- a/simcats/_simulation.py
+++ b/simcats/_simulation.py
@@ -144,6 +144,10 @@ class Simulation:
             (lowest index would then map to the highest voltage). In general: axis 0 = y-axis = g2 = V2 and axis 1 =
             x-axis = g1 = V1.
         """
+        # treat numpy integers like python integers
+        if isinstance(resolution, np.integer):
+            resolution = int(resolution)
+
         # Check if charge transitions have been configured for the system
         if self.__ideal_csd_config is None:
             raise ValueError("Clean CSD data configuration missing.")
@@ -360,6 +364,10 @@ class Simulation:
             to the highest voltage). In general: axis 0 = y-axis = sensor_g2 = sensor_V2 and axis 1 = x-axis = sensor_g1
             = sensor_V1.
         """
+        # treat numpy integers like python integers
+        if isinstance(resolution, np.integer):
+            resolution = int(resolution)
+
         if not isinstance(self.__sensor, SensorScanSensorInterface):
             raise ValueError(
                 "The current sensor does not support the measurement of sensor scans. Only sensors that implement the "
-- 
2.43.0


From f971c39f90c4d9e0658a53f8903784ff265ebae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 07/36] fix: mirror dot jumps along both axes if both gates are
 swept backwards

---
 simcats/distortions/_dot_jumps.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 22b6038..cec0bed 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -232,9 +232,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1, :]
             if volt_limits_g1[0] > volt_limits_g1[1]:
-                sorted_occupations = occupations[:, ::-1]
+                sorted_occupations = sorted_occupations[:, ::-1]
                 if lead_transitions is not None:
-                    sorted_transitions = lead_transitions[:, ::-1]
+                    sorted_transitions = sorted_transitions[:, ::-1]
             self._noise_function_2d(
                 sorted_occupations,
                 sorted_transitions,
@@ -245,15 +245,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            # bring back into original order
-            if volt_limits_g2[0] > volt_limits_g2[1]:
-                occupations = sorted_occupations[::-1, :]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1, :]
-            if volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[:, ::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[:, ::-1]
+            # the sorted arrays are views, so occupations and lead_transitions already are in the original order
         return occupations, lead_transitions
 
     def _noise_function_1d(
-- 
2.43.0


From 1eaae66d3c9143bf9b390ad85780402dfb3c0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 08/36] fix: convert dot jump voltages with the pixel density
 of the jump axis

---
 simcats/distortions/_dot_jumps.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index cec0bed..85bd765 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -182,16 +182,12 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam = self.lam.sample_parameter()
             except AttributeError:
                 lam = self.lam
-            if self.axis == 1:  # dot jumps in x direction
-                scale *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-                lam *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
-            elif self.axis == 0:  # dot jumps in y direction
-                if len(occupations.shape) == 3:
-                    scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                else:
-                    scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
-                    lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+            if self.axis == 1:  # dot jumps in x direction (columns)
+                scale *= occupations.shape[-2] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                lam *= occupations.shape[-2] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+            elif self.axis == 0:  # dot jumps in y direction (rows)
+                scale *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
+                lam *= resolution[0] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             if scale < 1:
                 # smallest possible value is 1, so set to 1. As this might not be, what the user wants, warn about it
                 warnings.warn(
-- 
2.43.0


From 2f6509f699719518fb984bd96394774b0e068bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 09/36] fix: use the pixel distance of the scan for data
 fetched by dot jumps

---
 simcats/distortions/_dot_jumps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 85bd765..13c2168 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -305,7 +305,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:
                 # generate the necessary part to the "left" of the CSD and fill into 2d csd
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     left_occupation, left_charge_transitions = generate_csd(
                         volt_limits_g1=(
@@ -331,7 +331,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupations.shape[0]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
@@ -453,7 +453,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
             added_pixels = max_jump
             if self.axis == 1:  # jumps in x direction
                 # generate the necessary part to the "left" of the CSD and stack to CSD
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / occupation.shape[1]
+                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupation.shape[1] - 1, 1)
                 left_occupation, left_charge_transitions = generate_csd(
                     volt_limits_g1=(
                         volt_limits_g1[0] - max_jump * step_size,
@@ -469,7 +469,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                     total_charge_transitions_stacked = np.hstack((left_charge_transitions, lead_transitions))
             elif self.axis == 0:  # jumps in y direction
                 # generate the necessary part to the "top" of the CSD array and stack to CSD
-                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupation.shape[0] - 1, 1)
                 top_occupation, top_charge_transitions = generate_csd(
                     volt_limits_g1=volt_limits_g1,
                     volt_limits_g2=(
-- 
2.43.0


From 5d4d358ce33e3ba4ac4d4257d00e16d696a8a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 10/36] fix: do not store dot jump sizes as 8 bit integers

---
 simcats/distortions/_dot_jumps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 13c2168..2e16e42 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -591,7 +591,7 @@ def generate_dot_jumps_blockwise(
             break
 
     noise = noise[:size]
-    noise = noise.astype("uint8")
+    noise = noise.astype(int)
     return noise
 
 
@@ -725,7 +725,7 @@ def dot_jumps_pixelwise(
 
         noise = noise[:size]
         noise = noise.reshape(original.shape)
-        noise = noise.astype("uint8")
+        noise = noise.astype(int)
 
     shifted = np.empty(original.shape)
     rows = original.shape[0]
-- 
2.43.0


From 9bc6c7dda1b4b4cd6cce24def4b40bc1cdc7678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 11/36] fix: keep the voltages of both gates together when
 sorting 1D scans for dot jumps

---
 simcats/distortions/_dot_jumps.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 2e16e42..28ef988 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -204,7 +204,13 @@ class OccupationDotJumps(OccupationDistortionInterface):
         sorted_occupations = occupations
         sorted_transitions = lead_transitions
         if len(occupations.shape) == 2:  # 1d scan
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
+            # both gates run along the same axis, so both limits are reversed if the gate of the jump axis is descending
+            jump_limits = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            sorted_limits_g1 = volt_limits_g1
+            sorted_limits_g2 = volt_limits_g2
+            if jump_limits[0] > jump_limits[1]:
+                sorted_limits_g1 = volt_limits_g1[::-1]
+                sorted_limits_g2 = volt_limits_g2[::-1]
                 sorted_occupations = occupations[::-1]
                 if lead_transitions is not None:
                     sorted_transitions = lead_transitions[::-1]
@@ -218,10 +224,6 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 lam,
                 freeze,
             )
-            if volt_limits_g2[0] > volt_limits_g2[1] or volt_limits_g1[0] > volt_limits_g1[1]:
-                occupations = sorted_occupations[::-1]
-                if lead_transitions is not None:
-                    lead_transitions = sorted_transitions[::-1]
         if len(occupations.shape) == 3:  # 2d scan
             if volt_limits_g2[0] > volt_limits_g2[1]:
                 sorted_occupations = occupations[::-1, :]
-- 
2.43.0


From 6ac15966231696d184c7d237511552840f7b8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 12/36] fix: use the gate 2 range for the step size of vertical
 dot jumps in 1D scans

---
 simcats/distortions/_dot_jumps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 28ef988..af160ee 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -333,7 +333,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
                         # insert the i-th diagonal there
                         np.fill_diagonal(lead_transitions_2d, left_charge_transitions)
             if self.axis == 0:
-                step_size = (volt_limits_g1[1] - volt_limits_g1[0]) / max(occupations.shape[0] - 1, 1)
+                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / max(occupations.shape[0] - 1, 1)
                 for i in range(max_jump):
                     top_occupation, top_charge_transitions = generate_csd(
                         volt_limits_g1=volt_limits_g1,
-- 
2.43.0


From 9575c77bdc9d396401c53ee3cb2db84565de7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 13/36] fix: do not fail for dot jumps along a gate that is not
 swept

---
 simcats/distortions/_dot_jumps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index af160ee..403a1d0 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -163,7 +163,9 @@ class OccupationDotJumps(OccupationDistortionInterface):
 
         # only resample activation if not frozen
         if not freeze:
-            if not bool(self.rng.binomial(1, self.ratio)):
+            # there are no consecutive pixels to jump along if the gate of the jump axis is not swept
+            jump_limits = volt_limits_g1 if self.axis == 1 else volt_limits_g2
+            if not bool(self.rng.binomial(1, self.ratio)) or jump_limits[0] == jump_limits[1]:
                 self.__activated = False
                 return occupations, lead_transitions
             else:
-- 
2.43.0


From f1a2dabc6c0c2829a0a0b716a208301cc1ba2cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 14/36] fix: convert the blurring width with the number of
 columns in 2D scans

---
 simcats/distortions/_transition_blurring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simcats/distortions/_transition_blurring.py b/simcats/distortions/_transition_blurring.py
index c9550b4..7aa9e33 100644
--- a/simcats/distortions/_transition_blurring.py
+++ b/simcats/distortions/_transition_blurring.py
@@ -103,8 +103,8 @@ class OccupationTransitionBlurringFermiDirac(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (columns)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = fermi_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = fermi_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
@@ -219,8 +219,8 @@ class OccupationTransitionBlurringGaussian(OccupationDistortionInterface):
             if len(occupations.shape) == 3:  # 2d scan
                 resolution = occupations.shape[0:2]
                 # rescale the sigma according to the resolution (as it's defined per volt but must be applied per pixel)
-                # sweeping always happens in x-direction
-                sigma *= resolution[0] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
+                # sweeping always happens in x-direction (columns)
+                sigma *= resolution[1] / (np.max(volt_limits_g1) - np.min(volt_limits_g1))
                 occupations[:, :, 0] = gaussian_filter1d(occupations[:, :, 0], sigma=sigma)
                 occupations[:, :, 1] = gaussian_filter1d(occupations[:, :, 1], sigma=sigma)
             if len(occupations.shape) == 2:  # 1d scan
-- 
2.43.0


From a659a0b0dfd75a9bf14221c68d0f84ea88bc1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 15/36] fix: convert the telegraph burst length with the pixel
 density of the matching gate

---
 simcats/distortions/_random_telegraph_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 8e2fe84..2918129 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -137,7 +137,7 @@ class RandomTelegraphNoise(DistortionInterface):
             scale = self.scale
         # rescale scale according to the resolution per voltage
         if len(original.shape) == 2:
-            resolution = original.shape
+            resolution = original.shape[::-1]  # (columns, rows) = (g1, g2)
             if volt_limits_g1[0] == volt_limits_g1[1]:
                 scale *= resolution[1] / (np.max(volt_limits_g2) - np.min(volt_limits_g2))
             elif volt_limits_g2[0] == volt_limits_g2[1]:
-- 
2.43.0


From feaad9558a8226eaac2659731c59745916b972e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 16/36] fix: do not fail for telegraph bursts shorter than one
 pixel

---
 simcats/distortions/_random_telegraph_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 2918129..1f63c5c 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -151,6 +151,9 @@ class RandomTelegraphNoise(DistortionInterface):
             resolution = (original.shape[0], original.shape[0])
             # sweep between starting and ending point
             scale *= resolution[0] / np.maximum(np.max(volt_limits_g1) - np.min(volt_limits_g1), np.max(volt_limits_g2) - np.min(volt_limits_g2))
+        # bursts have a length of at least one pixel
+        if 0 < scale < 1:
+            scale = 1
 
         try:
             std = self.std.sample_parameter()
-- 
2.43.0


From 3d4305e8a0edc2d379eb4322c548140197b3e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 17/36] fix: do not report zero electrons above the last TCT in
 1D scans

---
 simcats/ideal_csd/geometric/_get_electron_occupation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/ideal_csd/geometric/_get_electron_occupation.py b/simcats/ideal_csd/geometric/_get_electron_occupation.py
index 53af5db..029990f 100644
--- a/simcats/ideal_csd/geometric/_get_electron_occupation.py
+++ b/simcats/ideal_csd/geometric/_get_electron_occupation.py
@@ -184,6 +184,8 @@ def get_electron_occupation(
     # if the sweep is along the TCT, iterating between the total number
     # of n and n-1 electrons.
     elif csd.ndim == 1:
+        # points that are not below any TCT belong to the region above the last TCT
+        csd_mask[:] = max(tct_functions)
         csd_points = np.vstack((col_values, row_values)).T
         csd_points_rot = rotate_points(points=csd_points, angle=-rotation)
         # iterate TCTs
-- 
2.43.0


From a6974493f54f0c81ba4f8495154bf69f47c51cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 18/36] fix: use the occupation of dot 2 for the second lever
 arm of barrier 1

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 03652aa..0a1f9c6 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -620,7 +620,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         offset1 = (gate_offset[0] +
                    self.offset_mu_sens[1] +
                    self.alpha_dot[1, 0] * occ[0] +
-                   self.alpha_dot[1, 1] * occ[0])
+                   self.alpha_dot[1, 1] * occ[1])
 
         offset2 = (gate_offset[1] +
                    self.offset_mu_sens[2] +
-- 
2.43.0


From ba8132d0f053ac0427a4ee35f4ee2b2cc8dd2225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 19/36] fix: use the voltage of sensor gate 2 for its lever arm

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0a1f9c6..6259465 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -613,7 +613,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             voltages = np.array([self._volt_limits_g1[0], self._volt_limits_g2[0]])
             gate_offset = np.dot(self.alpha_gate[1:], voltages)
         else:
-            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g1[0]])
+            voltages = np.array([self._volt_limits_sensor_g1[0], self._volt_limits_sensor_g2[0]])
             gate_offset = np.dot(self.alpha_sensor_gate[1:], voltages)
 
         # Calculate potential offsets for both barriers
-- 
2.43.0


From 7bc7245a159112d1b5ea97d43695edeef1b0bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 20/36] fix: use the voltage of gate 2 for the fully conductive
 point of sensor scan labels

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 6259465..090ce56 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -830,7 +830,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         fully_conductive_potential = self.sensor_potential(
             occupations=np.array((occ,)),
             volt_limits_g1=volt_limits_g1,
-            volt_limits_g2=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
             volt_limits_sensor_g1=fully_conductive_point[0],
             volt_limits_sensor_g2=fully_conductive_point[1],
         )
-- 
2.43.0


From 3298bbd7577c7945fe4515868179bf187e37d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 21/36] fix: accept integer voltages for sensor scan labels

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 090ce56..047bf98 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -818,8 +818,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         apply_deformations = len(self.sensor_peak_deformations) != 0
 
-        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, float)) and
-                (volt_limits_g2 is None or isinstance(volt_limits_g2, float))):
+        if not ((volt_limits_g1 is None or isinstance(volt_limits_g1, numbers.Real)) and
+                (volt_limits_g2 is None or isinstance(volt_limits_g2, numbers.Real))):
             raise ValueError("The volt limits have to be fixed values or None when sensor scan labels are generated!")
 
         fully_conductive_point = self._calc_point_from_barrier_potentials(
-- 
2.43.0


From a7df62dfcf589148a7e64493cb3ef1d9ce364cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 22/36] fix: label peaks with their own deformation if they are
 not sorted by potential

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 047bf98..477a93d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -881,10 +881,10 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
 
         for idx, peak, peak_id in reversed(list(peaks_sorted_with_id)):
             distorted_pot: np.ndarray
-            if idx in self.sensor_peak_deformations.keys():
-                deformation = self.sensor_peak_deformations[idx]
+            if peak_id in self.sensor_peak_deformations.keys():
+                deformation = self.sensor_peak_deformations[peak_id]
                 distorted_pot = sensor_pot + (
-                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=self.sensor_peak_function[idx].mu0))
+                        peak.mu0 - deformation.calc_mu(dist=dist_array, mu0=peak.mu0))
             else:
                 distorted_pot = sensor_pot
 
-- 
2.43.0


From 8a1909ec9b724977ab13ea1a949cb3835355d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 23/36] fix: support sensor scan labels without configured
 peaks

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 477a93d..0bf0b1e 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -872,6 +872,8 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         all_peaks = copy.deepcopy(self.sensor_peak_function)
         if isinstance(all_peaks, SensorPeakInterface):
             all_peaks = [all_peaks]
+        elif all_peaks is None:
+            all_peaks = []
 
         # Sensor peaks are sorted according to their mu0 so that the increases in the masks function correctly
         # Peaks with a smaller mu0 overwrite the range of the previous peaks. The peaks, relating to the mu0, must
-- 
2.43.0


From 2bfac78a6d26e89884b721ca9d27c13b4c0c5055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 24/36] fix: keep the remembered sweep when the sensor response
 evaluates the final rise

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0bf0b1e..0e929e8 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -546,7 +546,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                     sensor_swept=sensor_swept
                 )
 
-                fully_conductive_potential = self.sensor_potential(
+                fully_conductive_potential = self._calc_point_potential(
                     occupations=np.array((occ,)),
                     volt_limits_g1=g1_voltage,
                     volt_limits_g2=g2_voltage,
@@ -573,6 +573,39 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             denominator = barrier1_resp * barrier2_resp + sens_resp * barrier1_resp + sens_resp * barrier2_resp
             return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)
 
+    def _calc_point_potential(
+            self,
+            occupations: np.ndarray,
+            volt_limits_g1: float,
+            volt_limits_g2: float,
+            volt_limits_sensor_g1: float,
+            volt_limits_sensor_g2: float,
+    ) -> np.ndarray:
+        """Calculate the potential of a single point, without replacing the sweep that is remembered by the sensor.
+
+        Args:
+            occupations (np.ndarray): Occupation of the point.
+            volt_limits_g1 (float): Voltage of (plunger) gate 1.
+            volt_limits_g2 (float): Voltage of (plunger) gate 2.
+            volt_limits_sensor_g1 (float): Voltage of sensor gate 1.
+            volt_limits_sensor_g2 (float): Voltage of sensor gate 2.
+
+        Returns:
+            np.ndarray: Potentials of the sensor dot and both barriers, as returned by sensor_potential.
+        """
+        remembered_sweep = (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1,
+                            self._volt_limits_sensor_g2, self._occupations)
+        potential = self.sensor_potential(
+            occupations=occupations,
+            volt_limits_g1=volt_limits_g1,
+            volt_limits_g2=volt_limits_g2,
+            volt_limits_sensor_g1=volt_limits_sensor_g1,
+            volt_limits_sensor_g2=volt_limits_sensor_g2,
+        )
+        (self._volt_limits_g1, self._volt_limits_g2, self._volt_limits_sensor_g1,
+         self._volt_limits_sensor_g2, self._occupations) = remembered_sweep
+        return potential
+
     def _calc_point_from_barrier_potentials(
             self,
             pot_bar1: float,
-- 
2.43.0


From 27c76ddc747a06ece44e5f5c555af897011d6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 25/36] fix: store independent copies of all parameters of the
 sensor scan sensor

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 0e929e8..97c55a7 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -160,7 +160,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 value is None. If None is used, no rise is added to the sensor function.
         """
         if isinstance(final_rise, SensorRiseInterface) or final_rise is None:
-            self.__final_rise = final_rise
+            self.__final_rise = deepcopy(final_rise)
         else:
             raise ValueError(
                 "The provided final_rise is not supported. Must be an implementation of the SensorPeakInterface or None."
@@ -193,7 +193,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
             self.__barrier_functions = [deepcopy(barrier_functions), deepcopy(barrier_functions)]
         elif isinstance(barrier_functions, (list, tuple)) and all(
                 isinstance(x, BarrierFunctionInterface) for x in barrier_functions) and len(barrier_functions) == 2:
-            self.__barrier_functions = barrier_functions
+            self.__barrier_functions = deepcopy(barrier_functions)
         else:
             raise ValueError(
                 "The provided barrier_functions are invalid. The barrier functions must be a tuple with two "
@@ -242,7 +242,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_dot = np.array([alpha_dot, alpha_dot, alpha_dot])
                 return
             elif alpha_dot.shape == (3, 2):
-                self.__alpha_dot = alpha_dot
+                self.__alpha_dot = deepcopy(alpha_dot)
                 return
         elif alpha_dot is None:
             self.__alpha_dot = np.array([[0, 0], [0, 0], [0, 0]])
@@ -293,7 +293,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 self.__alpha_gate = np.array([alpha_gate, alpha_gate, alpha_gate])
                 return
             elif alpha_gate.shape == (3, 2):
-                self.__alpha_gate = alpha_gate
+                self.__alpha_gate = deepcopy(alpha_gate)
                 return
         elif alpha_gate is None:
             self.__alpha_gate = np.array([[0, 0], [0, 0], [0, 0]])
@@ -339,7 +339,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check if alpha_sensor_gate is passed in an acceptable format
         if isinstance(alpha_sensor_gate, np.ndarray) and alpha_sensor_gate.shape == (3, 2):
-            self.__alpha_sensor_gate = alpha_sensor_gate
+            self.__alpha_sensor_gate = deepcopy(alpha_sensor_gate)
             return
 
         # Raise error if none of the cases for valid alpha_sensor_gate formats from before is true
@@ -373,7 +373,7 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
         """
         # check datatype of offset_mu_sens
         if isinstance(offset_mu_sens, np.ndarray) and offset_mu_sens.shape == (3,):
-            self.__offset_mu_sens = offset_mu_sens
+            self.__offset_mu_sens = deepcopy(offset_mu_sens)
         elif isinstance(offset_mu_sens, (float, int)):
             self.__offset_mu_sens = np.array([offset_mu_sens, offset_mu_sens, offset_mu_sens])
         else:
-- 
2.43.0


From c29cbd71935c2d9a7cb7c565340633b68baff1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 26/36] fix: store the peak deformations as independent copy
 and allow None

---
 simcats/sensor/_sensor_scan_sensor_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/sensor/_sensor_scan_sensor_generic.py b/simcats/sensor/_sensor_scan_sensor_generic.py
index 97c55a7..17eb85d 100644
--- a/simcats/sensor/_sensor_scan_sensor_generic.py
+++ b/simcats/sensor/_sensor_scan_sensor_generic.py
@@ -83,13 +83,13 @@ class SensorScanSensorGeneric(SensorScanSensorInterface):
                 is the actual deformation object used for a wavefront.
             """
         self.sensor_peak_function = sensor_peak_function
-        self.sensor_peak_deformations = sensor_peak_deformations
+        self.sensor_peak_deformations = {} if sensor_peak_deformations is None else deepcopy(sensor_peak_deformations)
         self.final_rise = final_rise
 
         if self.sensor_peak_function is not None:
             for idx, peak_func in enumerate(self.sensor_peak_function):
-                if sensor_peak_deformations is not None and idx in sensor_peak_deformations:
-                    deformation = sensor_peak_deformations[idx]
+                if idx in self.sensor_peak_deformations:
+                    deformation = self.sensor_peak_deformations[idx]
                     deformation.sensor = self
 
         self.alpha_dot = alpha_dot
-- 
2.43.0


From da6b2f603421bd5a7a07c618792462f781cfa9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 27/36] fix: reach the fully conductive point of the sensor
 rise at the requested offset for every mu0

---
 simcats/sensor/_sensor_rise_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/_sensor_rise_glf.py b/simcats/sensor/_sensor_rise_glf.py
index 42ab746..01a8a66 100644
--- a/simcats/sensor/_sensor_rise_glf.py
+++ b/simcats/sensor/_sensor_rise_glf.py
@@ -216,7 +216,7 @@ class SensorRiseGLF(SensorRiseInterface):
                    asymmetry=self.asymmetry,
                    shape_factor=self.shape_factor,
                    denominator_offset=self.denominator_offset,
-                   offset= -self.fully_conductive + offset)
+                   offset=self.mu0 - self.fully_conductive + offset)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 6998297861c8b0a0f89b6d9dfbb7d1335baad2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 28/36] fix: return None for the sensor of an unattached
 deformation

---
 .../sensor/deformation/_sensor_peak_deformation_interface.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simcats/sensor/deformation/_sensor_peak_deformation_interface.py b/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
index 6c8c930..213af31 100644
--- a/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
+++ b/simcats/sensor/deformation/_sensor_peak_deformation_interface.py
@@ -19,6 +19,8 @@ class SensorPeakDeformationInterface(ABC):
     Classes that implement this abstract class realize different types of deformation of a single wavefront.
     """
 
+    __sensor = None
+
     @abstractmethod
     def calc_mu(self, dist: Union[float, np.ndarray], mu0: float) -> float:
         """
-- 
2.43.0


From 4d5921ab42de7a07c5d0efb655e160d5ef7a610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 29/36] fix: accept horizontal lines given as float

---
 simcats/support_functions/_linear_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/support_functions/_linear_algebra.py b/simcats/support_functions/_linear_algebra.py
index 35f4ca5..d3f861c 100644
--- a/simcats/support_functions/_linear_algebra.py
+++ b/simcats/support_functions/_linear_algebra.py
@@ -24,7 +24,7 @@ def is_point_below_line(point: Tuple[float, float], line: Union[Tuple[float, flo
     x, y = point
 
     # If the straight line is specified as a single float, it is a horizontal line
-    if isinstance(line, int):
+    if isinstance(line, numbers.Real):
         b = line
         return y < b
     # If the straight line is specified as a tuple (m, b)
-- 
2.43.0


From 3fef88dc7d1af5b354efce1aaa90ba4560b0b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 30/36] fix: close the bracket in the representation of the
 multi GLF barrier function

---
 simcats/sensor/barrier_function/_barrier_function_multi_glf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
index 8c05cc7..ce79801 100644
--- a/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
+++ b/simcats/sensor/barrier_function/_barrier_function_multi_glf.py
@@ -153,5 +153,5 @@ class BarrierFunctionMultiGLF(BarrierFunctionInterface):
     def __repr__(self):
         return (
                 self.__class__.__name__
-                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *params={self.__params}"
+                + f"(pinch_off={self.pinch_off}, fully_conductive={self.fully_conductive}, *params={self.__params})"
         )
-- 
2.43.0


From e2f0edc0cbebc5e99ebcdb5ed02cb79037db7041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 31/36] fix: return one half at the centre of a cumulative
 distribution function without width

---
 .../_cumulative_distribution_functions.py              | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/simcats/support_functions/_cumulative_distribution_functions.py b/simcats/support_functions/_cumulative_distribution_functions.py
index 0126290..0526322 100644
--- a/simcats/support_functions/_cumulative_distribution_functions.py
+++ b/simcats/support_functions/_cumulative_distribution_functions.py
@@ -22,10 +22,7 @@ def sigmoid_cdf(x: np.ndarray, x0: float, gam: float) -> np.ndarray:
         np.ndarray: Y-values for the supplied x-values
     """
     if np.isclose(gam, 0.0):
-        result = x - x0
-        result[result > 0] = 1
-        result[result < 0] = 0
-        return result
+        return np.heaviside(x - x0, 0.5)
     return 0.5 * (1 + np.tanh((x - x0) / gam))
 
 
@@ -62,10 +59,7 @@ def cauchy_cdf(x: np.ndarray, x0: float, gam: float) -> np.ndarray:
         np.ndarray: Y-values for the supplied x-values
     """
     if np.isclose(gam, 0.0):
-        result = x - x0
-        result[result > 0] = 1
-        result[result < 0] = 0
-        return result
+        return np.heaviside(x - x0, 0.5)
     return 1 / np.pi * np.arctan((x - x0) / gam) + 0.5
 
 
-- 
2.43.0


From 59c66a5f4838970fc403806d90509637d20e5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 32/36] fix: apply the requested quality to the sampled
 distortions

---
 .../_GaAs_v1_random_variations_v3_config_sampler.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
index 62366e7..99811f3 100644
--- a/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
+++ b/simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py
@@ -80,9 +80,9 @@ def sample_random_variations_v3_config(sensor_type: str = "SensorGeneric",
         raise ValueError(
             f"The parameter sensor_type must be either 'SensorGeneric' or 'SensorScanSensorGeneric'. The supplied value"
             f" '{sensor_type}' is not supported.")
-    config["occupation_distortions"] = sample_occupation_distortions()
-    config["sensor_potential_distortions"] = sample_sensor_potential_distortions()
-    config["sensor_response_distortions"] = sample_sensor_response_distortions()
+    config["occupation_distortions"] = sample_occupation_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_potential_distortions"] = sample_sensor_potential_distortions(quality_multiplier=quality_multiplier)
+    config["sensor_response_distortions"] = sample_sensor_response_distortions(quality_multiplier=quality_multiplier)
     return config
 
 
-- 
2.43.0


From cd42338713dec71b9c8d13388620de1740d5e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 33/36] fix: create a separate default random generator for
 every distortion

---
 simcats/distortions/_dot_jumps.py             |  8 ++++----
 simcats/distortions/_pink_noise.py            | 10 +++++-----
 .../distortions/_random_telegraph_noise.py    | 20 +++++++++----------
 simcats/distortions/_white_noise.py           |  8 ++++----
 4 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/simcats/distortions/_dot_jumps.py b/simcats/distortions/_dot_jumps.py
index 403a1d0..dd0144c 100644
--- a/simcats/distortions/_dot_jumps.py
+++ b/simcats/distortions/_dot_jumps.py
@@ -26,7 +26,7 @@ class OccupationDotJumps(OccupationDistortionInterface):
         lam: Union[float, ParameterSamplingInterface],
         axis: int,
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to generate dot jumps.
 
@@ -43,14 +43,14 @@ class OccupationDotJumps(OccupationDistortionInterface):
                 the x/g1-axis.
             ratio (float): The ratio defining how often this type of distortion should be active. For each simulation a
                 random number decides if the distortion type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
         self.scale = scale
         self.lam = lam
         self.axis = axis
         self.ratio = ratio
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__activated = None
 
     @property
diff --git a/simcats/distortions/_pink_noise.py b/simcats/distortions/_pink_noise.py
index 294c499..4c54e86 100644
--- a/simcats/distortions/_pink_noise.py
+++ b/simcats/distortions/_pink_noise.py
@@ -3,7 +3,7 @@
 @author: s.fleitmann
 """
 
-from typing import Union
+from typing import Union, Optional
 
 import colorednoise as cn
 import numpy as np
@@ -21,7 +21,7 @@ class SensorPotentialPinkNoise(SensorPotentialDistortionInterface):
         self,
         sigma: Union[float, ParameterSamplingInterface],
         fmin: float = 0,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to generate pink noise.
 
@@ -31,12 +31,12 @@ class SensorPotentialPinkNoise(SensorPotentialDistortionInterface):
             fmin (float): Minimal frequency which can be present in the generated noise. The maximal possible value is
                 0.5 which generates white noise. The minimal value is 1/(number of pixels). The default is 0, which
                 results in the same as 1/(number of pixels).
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
         self.sigma = sigma
         self.fmin = fmin
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__latest_sigma = None
 
     @property
diff --git a/simcats/distortions/_random_telegraph_noise.py b/simcats/distortions/_random_telegraph_noise.py
index 1f63c5c..4810b4a 100644
--- a/simcats/distortions/_random_telegraph_noise.py
+++ b/simcats/distortions/_random_telegraph_noise.py
@@ -30,7 +30,7 @@ class RandomTelegraphNoise(DistortionInterface):
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise.
 
@@ -44,14 +44,14 @@ class RandomTelegraphNoise(DistortionInterface):
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the noise type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
         self.scale = scale
         self.std = std
         self.height = height
         self.ratio = ratio
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.__activated = None
 
     @property
@@ -184,7 +184,7 @@ class SensorPotentialRTN(RandomTelegraphNoise, SensorPotentialDistortionInterfac
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise affecting the sensor potential.
 
@@ -198,8 +198,8 @@ class SensorPotentialRTN(RandomTelegraphNoise, SensorPotentialDistortionInterfac
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the noise type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
         RandomTelegraphNoise.__init__(self, scale, std, height, ratio, rng)
 
@@ -236,7 +236,7 @@ class SensorResponseRTN(RandomTelegraphNoise, SensorResponseDistortionInterface)
         std: Union[float, ParameterSamplingInterface],
         height: Union[float, ParameterSamplingInterface],
         ratio: float = 1,
-        rng: np.random.Generator = np.random.default_rng(),
+        rng: Optional[np.random.Generator] = None,
     ):
         """Initializes an object of the class used to simulate random telegraph noise affecting the sensor response.
 
@@ -250,8 +250,8 @@ class SensorResponseRTN(RandomTelegraphNoise, SensorResponseDistortionInterface)
                 of type ParameterSampling a new height is sampled accordingly per call of noise_function.
             ratio (float): The ratio defining how often this type of noise should be active. For each simulation a
                 random number decides if the distortions type is active, based on the supplied ratio. Default is 1.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
         RandomTelegraphNoise.__init__(self, scale, std, height, ratio, rng)
 
diff --git a/simcats/distortions/_white_noise.py b/simcats/distortions/_white_noise.py
index d9264b8..b672b3a 100644
--- a/simcats/distortions/_white_noise.py
+++ b/simcats/distortions/_white_noise.py
@@ -17,7 +17,7 @@ class SensorResponseWhiteNoise(SensorResponseDistortionInterface):
     """White noise implementation of the SensorResponseDistortionsInterface."""
 
     def __init__(
-        self, sigma: Union[float, ParameterSamplingInterface], rng: np.random.Generator = np.random.default_rng()
+        self, sigma: Union[float, ParameterSamplingInterface], rng: Optional[np.random.Generator] = None
     ):
         """Initializes an object of the class used to generate white noise.
 
@@ -25,10 +25,10 @@ class SensorResponseWhiteNoise(SensorResponseDistortionInterface):
             sigma (Union[float, ParameterSamplingInterface]): Standard deviation for the Gaussian distribution of the
                 noise, determines the strength of the noise. If sigma is of type ParameterSampling a new sigma is
                 sampled accordingly per call of noise_function.
-            rng (np.random.Generator): The random number generator used for the simulation of random numbers. Default is
-                np.random.default_rng().
+            rng (Optional[np.random.Generator]): The random number generator used for the simulation of random numbers. If
+                None, a new np.random.default_rng() is created. Default is None.
         """
-        self.rng = rng
+        self.rng = np.random.default_rng() if rng is None else rng
         self.sigma = sigma
         self.__latest_sigma = None
 
-- 
2.43.0


From 082bdd6ce52c6e200429f8058c16b3fa56785222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 34/36] fix: transition curves accept voltages given as
 integers

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index a90850f..1e0b026 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -54,8 +54,8 @@ def tct_bezier(
         x_eval = np.array([x_eval])
     else:
         single_value = False
-    # copy x_eval so that the original supplied array is not modified
-    x_eval = np.copy(x_eval)
+    # copy x_eval so that the original supplied array is not modified (as float, to also support integer x-values)
+    x_eval = np.array(x_eval, dtype=float)
 
     # setup array for resulting y-values
     y_res = np.zeros(x_eval.shape)
-- 
2.43.0


From fb53dd993d3dd321852ba3900484f294725c9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 35/36] fix: transition curves keep the fraction of their
 corner for integer parameters

---
 simcats/ideal_csd/geometric/_tct_bezier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simcats/ideal_csd/geometric/_tct_bezier.py b/simcats/ideal_csd/geometric/_tct_bezier.py
index 1e0b026..7fff364 100644
--- a/simcats/ideal_csd/geometric/_tct_bezier.py
+++ b/simcats/ideal_csd/geometric/_tct_bezier.py
@@ -61,8 +61,8 @@ def tct_bezier(
     y_res = np.zeros(x_eval.shape)
 
     # setup coordinates for bezier curve nodes
-    x_vals = np.array([tct_params[4], 0, tct_params[6]])
-    y_vals = np.array([tct_params[5], 0, tct_params[7]])
+    x_vals = np.array([tct_params[4], 0, tct_params[6]], dtype=float)
+    y_vals = np.array([tct_params[5], 0, tct_params[7]], dtype=float)
     if x_vals[0] == x_vals[2] and y_vals[0] == y_vals[2]:
         # no interdot coupling region specified -> center anchor is equal to outer anchors
         x_vals[1] = x_vals[0]
-- 
2.43.0


From 2492204e487be2624d1ae61aa3b38428bc483d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:48 +0000
Subject: [PATCH 36/36] fix: convert the pixel of a span with a single pixel to
 the first voltage

---
 simcats/support_functions/_pixel_volt_transformation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simcats/support_functions/_pixel_volt_transformation.py b/simcats/support_functions/_pixel_volt_transformation.py
index 3c7b3dd..bd711c0 100644
--- a/simcats/support_functions/_pixel_volt_transformation.py
+++ b/simcats/support_functions/_pixel_volt_transformation.py
@@ -21,4 +21,7 @@ def pixel_to_volt_1d(pixel: int, pixel_num: int, volt_limits: np.ndarray) -> np.
     Returns:
         np.ndarray: The voltage value corresponding to the given pixel index.
     """
+    # a span that consists of a single pixel only contains the first voltage
+    if pixel_num == 0:
+        return volt_limits[0]
     return volt_limits[0] + (volt_limits[1] - volt_limits[0]) * (pixel / pixel_num)
-- 
2.43.0

