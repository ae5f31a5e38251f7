From d177e9e87518a25fa76827301a76945ae8167a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 01/30] fix: convert rotation matrices of half turns to
 quaternions

---
 .../python/hand_eye_calibration/quaternion.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..6c90f38 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,6 +104,20 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
+    trace = rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]
+    if trace <= 0.0:
+      # The scalar part may vanish, use the largest vector component instead.
+      diagonal = [rotation_matrix[k, k] for k in range(3)]
+      i = diagonal.index(max(diagonal))
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(
+          1.0 + rotation_matrix[i, i] - rotation_matrix[j, j] - rotation_matrix[k, k]) / 2
+      q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / (4.0 * q[i])
+      q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / (4.0 * q[i])
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+      return cls(q=-q if q[3] < 0.0 else q)
     w = np.sqrt(
         1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
     w4 = 4.0 * w
-- 
2.43.0


From ff61d0c041b3ca43ead21fb70ab3917c6dd2ceb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 02/30] fix: read small rotations and full turns from
 angle_axis

---
 .../python/hand_eye_calibration/quaternion.py                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 6c90f38..a10190e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -152,8 +152,11 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.isclose(self.w, 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
+    # The axis of a full turn is not defined either.
+    if np.isclose(self.w, -1., rtol=0., atol=1.e-12):
+      return(np.array([1., 0., 0., 2. * np.pi]))
 
     angle = 2. * np.arccos(self.w)
     x = self.x / np.sqrt(1. - self.w * self.w)
-- 
2.43.0


From 3904d4ffef92b8839a0ee204960ecae70f690f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 03/30] fix: keep the angle between quaternions finite under
 rounding

---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index a10190e..f31d0ee 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -328,7 +328,8 @@ def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
   if np.allclose(q1.q, q2.q, atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  # Stay within the domain of acos().
+  return 2. * np.arccos(np.clip((q1 * q2.inverse()).w, -1.0, 1.0))
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From 8376776e5046e0e743e8fcd68f58a6de0e07ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 04/30] fix: scale the angular velocity between quaternions by
 the full angle

---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index f31d0ee..17224bf 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -340,4 +340,4 @@ def angular_velocity_between_quaternions(q1, q2, t):
   if q1_q2_inv.w < 0.:
     q1_q2_inv = -q1_q2_inv
   angle_axis = q1_q2_inv.angle_axis()
-  return 0.5 / t * angle_axis[3] * angle_axis[0:3]
+  return 1. / t * angle_axis[3] * angle_axis[0:3]
-- 
2.43.0


From 66adf381a5a01a5e97b33b682426ce21783d6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 05/30] fix: print quaternions without the removed numpy alias

---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 17224bf..ffb1eba 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From fc4baa37b234dc9221f90c8dfaa3c4b979c53bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:33 +0000
Subject: [PATCH 06/30] fix: report the direction of pure translations for both
 quaternion signs

---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..a6e1f30 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -229,7 +229,8 @@ class DualQuaternion(object):
     else:
       translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))
       if (translation > 1.e-12):
-        screw_axis = 2. * self.q_dual.q[0:3] / translation
+        # The rotation part of a pure translation is either 1 or -1.
+        screw_axis = 2. * np.sign(self.q_rot.w) * self.q_dual.q[0:3] / translation
       else:
         screw_axis = np.zeros(3)
 
-- 
2.43.0


From 6f5675f3d7482053078639a6f2149671733abbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:41 +0000
Subject: [PATCH 07/30] fix: keep the screw parameters finite under rounding

---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index a6e1f30..012928f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,8 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    # Stay within the domain of arccos().
+    rotation = 2. * np.degrees(np.arccos(np.clip(self.q_rot.w, -1.0, 1.0)))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
-- 
2.43.0


From f775a238284ae38ab1bc480235cc52be923e649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:09 +0000
Subject: [PATCH 08/30] fix: calibrate when the null space basis makes the
 quadratic degenerate

If the first null space vector had orthogonal rotation and translation
parts, the leading coefficient of the quadratic was zero: the calibration
stopped with an assertion or divided by a value close to zero.
---
 .../dual_quaternion_hand_eye_calibration.py                  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..1034bd2 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -244,6 +244,11 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
         bad_singular_values = True
   v_7 = V[6, :].copy()
   v_8 = V[7, :].copy()
+  # Any basis of the null space is equally valid. Use the sum and the difference
+  # if the leading coefficient of (35) would be (close to) zero otherwise.
+  if (2.0 * np.abs(np.dot(v_7[0:4], v_7[4:8])) <
+          np.abs(np.dot(v_7[0:4], v_8[4:8]) + np.dot(v_8[0:4], v_7[4:8]))):
+    v_7, v_8 = v_7 + v_8, v_7 - v_8
   # print("v_7: {}".format(v_7))
   # print("v_8: {}".format(v_8))
 
-- 
2.43.0


From cc70ad0484e8c780db8ea8664fa745c60229fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:24 +0000
Subject: [PATCH 09/30] fix: draw RANSAC samples from a sequence

random.sample() refuses sets since Python 3.11.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 1034bd2..3670345 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -714,7 +714,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From 55cda7584cf5557113713ac61d52d9a07dde0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:17 +0000
Subject: [PATCH 10/30] fix: use the inliers of the exhaustive baseline search

The eye poses were taken from a name that is not defined.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 3670345..f8537f9 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -563,7 +563,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From f608d6476e04540e53af62fe6d89015f41b5466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:35 +0000
Subject: [PATCH 11/30] fix: keep the baseline search from aligning inliers by
 a pose index

The index of the start pose belongs to all poses and may be beyond the
last inlier. The result was not used.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index f8537f9..6d429aa 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -566,9 +566,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From 7b027a0e9a5d952a674349ec73f00daccdc284b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:41 +0000
Subject: [PATCH 12/30] fix: interpolate orientations between large time stamps

With unix time the relative tolerance made every sample equal to its
right neighbour, so that no orientation was interpolated.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..c0588d1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 089ac3d1b7d25fea151615992d18d107e19daa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:02 +0000
Subject: [PATCH 13/30] fix: convert JPL quaternions in the table of poses, too

Only the separately returned quaternions were converted, so that aligned
poses were written in JPL convention.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..3e64081 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.0
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From 8a7ec9b1b9fbcf8e9df7e7d9ecea087e9bf2d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:40 +0000
Subject: [PATCH 14/30] fix: record the pre-filtering setting in the result row

ResultEntry.init_from_configs stored the setting under a name that the
row writer does not read, so the prefiltering column was always False.
---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 5820016efe241eff067de4c47d2f7f1e2bc92c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:47 +0000
Subject: [PATCH 15/30] fix: do not export transforms that are to be dropped

A transform that repeats the previous time stamp was written to the CSV
file before the check that is meant to drop it.
---
 hand_eye_calibration/bin/tf_to_csv.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..1f3afed 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -63,15 +63,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
             start_time_tf_message = single_tf.header.stamp
             init = False
 
-          # Write to csv file.
-          quaternion = np.array(hamilton_quaternion)
-          csv_file.write(
-              str(single_tf.header.stamp.to_sec()) + ', ' +
-              str(translation[0]) + ', ' + str(translation[1]) + ', ' +
-              str(translation[2]) + ', ' + str(quaternion[0]) + ', ' +
-              str(quaternion[1]) + ', ' + str(quaternion[2]) + ', ' +
-              str(quaternion[3]) + '\n')
-
           # Update end time.
           end_time_tf_message = single_tf.header.stamp
           tf_counter += 1
@@ -107,6 +98,15 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               print("\tCurrent frequency estimate: {:.2f}Hz".format(
                   tf_frequency_estimated))
 
+          # Write to csv file.
+          quaternion = np.array(hamilton_quaternion)
+          csv_file.write(
+              str(single_tf.header.stamp.to_sec()) + ', ' +
+              str(translation[0]) + ', ' + str(translation[1]) + ', ' +
+              str(translation[2]) + ', ' + str(quaternion[0]) + ', ' +
+              str(quaternion[1]) + ', ' + str(quaternion[2]) + ', ' +
+              str(quaternion[3]) + '\n')
+
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-- 
2.43.0


From 916fa5f8e853aa4258e090f7622542a4c7758f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:57 +0000
Subject: [PATCH 16/30] fix: export transforms that span no time without
 failing

The rate estimate divided by zero when the exported transforms all had
the same time stamp, for instance when only one lookup succeeded.
---
 hand_eye_calibration/bin/tf_to_csv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 1f3afed..304fffe 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -69,11 +69,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
 
           # Check if there was a drop in the tf frequency.
           if tf_counter > 3:
-            tf_frequency_estimated = tf_counter / (
-                end_time_tf_message - start_time_tf_message).to_sec()
-
-            # Check if there has been a drop.
-            tf_interval_estimated = 1. / tf_frequency_estimated
             tf_interval_measured = (single_tf.header.stamp.to_sec() -
                                     tf_previous_timestamp.to_sec())
 
@@ -82,6 +77,11 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               tf_previous_timestamp = single_tf.header.stamp
               continue
 
+            # Check if there has been a drop.
+            tf_frequency_estimated = tf_counter / (
+                end_time_tf_message - start_time_tf_message).to_sec()
+            tf_interval_estimated = 1. / tf_frequency_estimated
+
             # If the interval deviates from the frequency by more than x
             # percent, print a warning.
             tf_interval_deviation_percent = abs(
@@ -110,7 +110,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message > start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From fa96abb80c4e2527079903674272402dec87ed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:17 +0000
Subject: [PATCH 17/30] fix: clip angular velocities by their magnitude

The clipping bound was a percentile of the signed values. It could be
small or even negative for a signal with mostly negative components.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index c0588d1..5e21411 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -24,7 +24,7 @@ def filter_and_smooth_angular_velocity(angular_velocity,
                                        low_pass_kernel_size, clip_percentile, plot=False):
   """Reduce the noise in a velocity signal."""
 
-  max_value = np.percentile(angular_velocity, clip_percentile)
+  max_value = np.percentile(np.abs(angular_velocity), clip_percentile)
   print("Clipping angular velocity norms to {} rad/s ...".format(max_value))
   angular_velocity_clipped = np.clip(angular_velocity, -max_value, max_value)
   print("Done clipping angular velocity norms...")
-- 
2.43.0


From 81c7680da514d57f89a5c04019ed185de3a21a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:26 +0000
Subject: [PATCH 18/30] fix: resample orientations with a whole number of
 samples

numpy's linspace no longer accepts a float as number of samples, so the
time offset could not be estimated at all.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 5e21411..e519016 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt + 1))
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 49dcc09cb4d542b5a1e67af72bb88a6c73ee0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 19/30] fix: read results with numpy versions that have no
 np.bool

np.bool was an alias of bool and is gone since numpy 1.24.
---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..4b9defc 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', bool, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', bool, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', bool, 1),
+      ('optimization_enabled', bool, 1),
+      ('optimization_success', bool, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 852f33068ad3d699abfbd3694bf75eb3239cd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 20/30] fix: take missing perturbations of a result as zero

A column without number is read as nan, not as None.
---
 .../experiment_plotting_tools.py                              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 4b9defc..77ea623 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -91,7 +91,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     loop_error_orientation_deg = row[14]
     bad_singular_values = row[16]
     runtime_optimization = row[19]
-    initial_guess_angle = 0 if row[20] is None else row[20]
+    initial_guess_angle = 0 if np.isnan(row[20]) else row[20]
     if row[21] != "None":
       initial_guess_string = ' '.join((row[21].lstrip()).split()).replace(
           " ", ",").replace("[,", "[").replace(",,", ",")
@@ -100,7 +100,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       initial_guess_translation_norm = np.linalg.norm(initial_guess_translation)
     else:
       initial_guess_translation_norm = 0
-    initial_guess_time = 0 if row[22] is None else row[22]
+    initial_guess_time = 0 if np.isnan(row[22]) else row[22]
     dataset = row[23]
 
     runtime += runtime_optimization
-- 
2.43.0


From 35b938bc667d1e9d11af2a1365cbaa1633d70cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 21/30] fix: read result files with a single result

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 77ea623..a2e33e9 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -79,7 +79,8 @@ def collect_data_from_csv(csv_file_names, get_header=True):
 
   max_index = 0
   max_index_ds = 0
-  for row in data:
+  # A file with a single result is read as an array without dimension.
+  for row in np.atleast_1d(data):
     method = row[0]
     b_h_filename = row[4]
     w_e_filename = row[5]
-- 
2.43.0


From 0c6436428b2c8dcdc884dc01514aebd857aca069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 22/30] fix: load the bag configuration with the safe yaml
 loader

yaml.load() without a loader raises TypeError since PyYAML 6.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From 1a8b1a109913e6f2b29f6f76b36378bf0d823993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 23/30] fix: import errno where it is used

---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..1ac4c43 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -2,6 +2,7 @@
 
 from __future__ import print_function
 import os
+import errno
 import sys
 import json
 import argparse
-- 
2.43.0


From 0c73f8b64b51515b8489ca311e7c6e66691e79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 24/30] fix: build the plot labels as text

np.char.array() gives bytes for numbers, which cannot be joined with text.
---
 .../bin/generate_plots.py                            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..bf26d3c 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -232,15 +232,15 @@ def generate_optimization_circle_error_plot(
       x_ticks_start = np.rint(loop_x[:-1] * 180 / np.pi).astype(int)
       x_ticks_end = np.rint(loop_x[1:] * 180 / np.pi).astype(int)
       x_tick_labels = (
-          '[' + np.char.array(x_ticks_start) + ',' +
-          np.char.array(x_ticks_end) + ')')
+          '[' + np.char.array(x_ticks_start, unicode=True) + ',' +
+          np.char.array(x_ticks_end, unicode=True) + ')')
     else:
       x_tick_labels = (
-          '[' + np.char.array(loop_x[:-1]) + ',' +
-          np.char.array(loop_x[1:]) + ')')
+          '[' + np.char.array(loop_x[:-1], unicode=True) + ',' +
+          np.char.array(loop_x[1:], unicode=True) + ')')
     y_tick_labels = (
-        '[' + np.char.array(loop_y[:-1]) + ',' +
-        np.char.array(loop_y[1:]) + ')')
+        '[' + np.char.array(loop_y[:-1], unicode=True) + ',' +
+        np.char.array(loop_y[1:], unicode=True) + ')')
     x_ticks = range(x_steps - 1)
     y_ticks = range(y_steps - 1)
     plt.setp(axes, xticks=x_ticks, xticklabels=x_tick_labels,
-- 
2.43.0


From eb0871ff10b98c2de22518ade2b12e6128d739c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 25/30] fix: keep the key of the model configuration as it is

Only the values have to be in lower case. The optimizer reads the key
absoluteMeasurements.
---
 .../bin/compute_set_of_hand_eye_calibrations.py                 | 2 +-
 .../bin/optimization_experiments.py                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..ee98904 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -222,7 +222,7 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(), str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..8b79707 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(), str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0


From c95b4ed8f3820ea1b1778837c47a0212bf8c974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:07 +0000
Subject: [PATCH 26/30] fix: go on with the other experiments after a failed
 search

The loop error and the optimization need a result of the search.
---
 .../bin/compute_set_of_hand_eye_calibrations.py   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index ee98904..09905b2 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -204,11 +204,6 @@ if __name__ == "__main__":
 
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
-          # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
-
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
           create_path(optimized_calibration_file)
@@ -226,6 +221,13 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            if dq_H_E_initial_guess is None:
+              raise Exception("There is no initial guess!")
+            # Write initial guess to file for the optimization.
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
+
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -316,7 +318,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.optimization_success) == num_pose_pairs and
+              all(dq_H_E is not None for dq_H_E in results_dq_H_E)):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 5d0dcfe5bdc3c9720777685c265e2004364ee4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:53 +0000
Subject: [PATCH 27/30] fix: do not call the hold function that matplotlib no
 longer has

Showing the results of the time alignment failed with an AttributeError.
Curves are added to a plot without it.
---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From eb8a4a087c8baef3b0aa1cf326d88703e071011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:29 +0000
Subject: [PATCH 28/30] fix: add the axes of the pose plot to its figure

Newer versions of matplotlib do not do this when the axes are created, so
the figure with the poses was empty.
---
 .../hand_eye_calibration/hand_eye_calibration_plotting_tools.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
index 8b3f8a7..d2f9285 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
@@ -39,6 +39,7 @@ def plot_poses(poses_list, plot_arrows=True, title="", blocking=True):
   fig = plt.figure()
   plt.clf()
   ax = Axes3D(fig)
+  fig.add_axes(ax)
 
   if title:
     fig.suptitle(title, fontsize='24')
-- 
2.43.0


From 80cfeff25d0d33f2693347d3e30336832c693360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:03 +0000
Subject: [PATCH 29/30] fix: project the arrows of the pose plot with the
 matrix of the axes

The renderer no longer knows the projection and newer versions of matplotlib
ask every patch of a 3D plot for do_3d_projection, so drawing the arrows
failed with an AttributeError.
---
 .../hand_eye_calibration_plotting_tools.py                | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
index d2f9285..74152c0 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
@@ -17,10 +17,14 @@ class Arrow3D(FancyArrowPatch):
     FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
     self._verts3d = xs, ys, zs
 
-  def draw(self, renderer):
+  def do_3d_projection(self, renderer=None):
     xs3d, ys3d, zs3d = self._verts3d
-    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
     self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
+    return np.amin(zs)
+
+  def draw(self, renderer):
+    self.do_3d_projection(renderer)
     FancyArrowPatch.draw(self, renderer)
 
 
-- 
2.43.0


From b1f3a329c7cf07fc616bfa62304662076c288247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:48 +0000
Subject: [PATCH 30/30] fix: plot data sets for which a method has no result

Generating the plots failed with a KeyError if a method had succeeded for
one data set but not for another. Its box is left empty.
---
 hand_eye_calibration_experiments/bin/generate_plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index bf26d3c..77ca9f8 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -73,7 +73,7 @@ def generate_time_plot(methods, datasets, runtimes_per_method, colors):
   fig.suptitle("Hand-Eye Calibration Method Timings", fontsize='24')
   handles = []
   for i, dataset in enumerate(datasets):
-    runtimes = [runtimes_per_method[dataset][method] for method in methods]
+    runtimes = [runtimes_per_method[dataset].get(method, []) for method in methods]
     bp = ax1.boxplot(
         runtimes, 0, '',
         positions=(x_ticks + (i - num_datasets / 2. + 0.5) *
@@ -315,8 +315,8 @@ if __name__ == '__main__':
     generate_box_plot(
         dataset,
         methods,
-        [position_rmses_per_method[dataset][method] for method in methods],
-        [orientation_rmses_per_method[dataset][method] for method in methods])
+        [position_rmses_per_method[dataset].get(method, []) for method in methods],
+        [orientation_rmses_per_method[dataset].get(method, []) for method in methods])
   generate_time_plot(methods, datasets, runtimes_per_method, colors)
 
   # Decide here what to plot against what.
-- 
2.43.0

