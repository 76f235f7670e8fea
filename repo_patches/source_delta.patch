From ac57f3e47763a6c6323d77f8e8f2b0db3fa337dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:33 +0000
Subject: [PATCH 01/28] fix: use builtin str in quaternion string conversion

np.str was removed from numpy, so printing or formatting a quaternion or
dual quaternion raised AttributeError. RANSAC prints every new best sample
and therefore could never finish.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From 123d234fcd64127123764dbbcf4f5d12a96ee55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:33 +0000
Subject: [PATCH 02/28] fix: pass an integer sample count to np.linspace when
 resampling

The number of samples was a float, which np.linspace rejects with a
TypeError, so the time offset could not be computed.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..16d500c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt) + 1)
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 69e786fe9a63f71169297673984a1220d9a022f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:33 +0000
Subject: [PATCH 03/28] fix: interpolate orientations for large time stamps

The check that decides if a sample coincides with a time stamp used the
default relative tolerance. For epoch time stamps this tolerance is several
hours, so the orientation was never interpolated and the next pose was used
instead. Only the absolute tolerance must be used. Also fixes an undefined
name in the assertion message of the same block.
---
 .../python/hand_eye_calibration/time_alignment.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 16d500c..44a9fb2 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,11 +71,11 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-      assert right_idx < times.shape[0], end_idx
+      assert right_idx < times.shape[0], right_idx
       assert left_idx >= 0, left_idx
       sample_times = []
       sample_times.append(sample)
-- 
2.43.0


From faba6c8869bd1e4b1da195c0c4170a796b75a179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:25:33 +0000
Subject: [PATCH 04/28] fix: do not treat small rotations as identity in
 angle_axis

The identity check used the default relative tolerance of 1e-5, which maps
every rotation below about 0.5 degrees to a zero angle. Angular velocities of
high rate data were therefore all zero. A scalar part of -1 is also the
identity rotation and used to end in a division by zero.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..ff92606 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -138,7 +138,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.isclose(abs(self.w), 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From 819abe1a722a4faa21b073d9eedafdb9bc41cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 05/28] fix: stay within the domain of acos for rotation angles

Rounding can push the scalar part of a product of unit quaternions slightly
above one. The angle between two almost equal quaternions and the rotation of
a screw axis were NaN in this case. Clip the argument as it is already done
for the slerp.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..8253d8c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,7 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    rotation = 2. * np.degrees(np.arccos(np.clip(self.q_rot.w, -1.0, 1.0)))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ff92606..f4d55b9 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -311,7 +311,7 @@ def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
   if np.allclose(q1.q, q2.q, atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  return 2. * np.arccos(np.clip((q1 * q2.inverse()).w, -1.0, 1.0))
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From baf3a979bda443b410e1ef53ba5a5b8c6a4a81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 06/28] fix: convert rotation matrices of half turns to
 quaternions

The conversion divides by the scalar part, which is zero for rotations by 180
degrees. These rotation matrices gave NaN quaternions. Divide by the largest
vector component if the trace is not positive.
---
 .../python/hand_eye_calibration/quaternion.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index f4d55b9..7d6e3a6 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,6 +104,20 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
+    diagonal = np.array([rotation_matrix[0, 0], rotation_matrix[1, 1],
+                         rotation_matrix[2, 2]])
+    if np.sum(diagonal) <= 0.0:
+      # The scalar part can be zero, divide by the largest component instead.
+      i = np.argmax(diagonal)
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(1.0 + diagonal[i] - diagonal[j] - diagonal[k]) / 2
+      q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / (4.0 * q[i])
+      q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / (4.0 * q[i])
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+      return cls(q=-q if q[3] < 0.0 else q)
+
     w = np.sqrt(
         1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
     w4 = 4.0 * w
-- 
2.43.0


From dc11ae6b78345a32059593063fb77d296e4a878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 07/28] fix: use the best inliers in the exhaustive baseline
 search

The exhaustive branch of the baseline read an undefined name and always failed
with a NameError.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..264f0c1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -558,7 +558,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From 5d0bbc72c49b408538c18f8741e4a364eb94486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 08/28] fix: drop unused alignment of the baseline inliers

The start index belongs to the list of all filtered poses, but it was used to
index the shorter list of inliers. This raised an IndexError whenever the start
index was not smaller than the number of inliers. The result was never used.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 264f0c1..59f10be 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -561,9 +561,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From dcf761b07f1dc2f31b671d270e7514df6e88a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 09/28] fix: sample from a sequence in RANSAC

random.sample does not accept sets anymore and raised a TypeError for every
RANSAC run.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 59f10be..c517369 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -706,7 +706,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From d1e721b8eef6bc9990aec583550848183a94833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 10/28] fix: convert JPL quaternions in the poses read from CSV
 files

Only the list of quaternions was converted to Hamilton quaternions. The poses
returned next to it, which end up in the aligned pose files, still contained
the JPL quaternions.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..3e64081 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.0
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From d535ea1d1502f6e29983dc6df14917f464fb5753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 11/28] fix: import errno in bash_utils

The handling of concurrently created directories failed with a NameError.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..4e86186 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
-- 
2.43.0


From aa5a2e0d0dec9fac355b06942e932ca21dcf8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 12/28] fix: report the prefiltering flag in the experiment
 results

The flag was stored in an attribute that nobody reads, so the result file always
said that prefiltering is disabled.
---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 6eca00082cc1668f77e6704d0a21d99bf4178f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 13/28] fix: pass the plot decimation to the hand eye config

The command line value was assigned to an attribute that does not exist in the
config and had no effect.
---
 .../bin/compute_set_of_hand_eye_calibrations.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..95274fb 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -98,7 +98,7 @@ if __name__ == "__main__":
   for (algorithm_name, filtering_config, hand_eye_config, optimization_config) in all_algorithm_configurations:
     print("\n\n\nRun algorithm {}\n\n\n".format(algorithm_name))
     hand_eye_config.visualize = args.visualize
-    hand_eye_config.plot_every_nth_pose = args.plot_every_nth_pose
+    hand_eye_config.visualize_plot_every_nth_pose = args.plot_every_nth_pose
 
     if hand_eye_config.enable_exhaustive_search or hand_eye_config.use_baseline_approach:
       num_iterations = 1
-- 
2.43.0


From ac2629454b3e3c0d28d08067d47d9ec9f50883ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 14/28] fix: load yaml configs with safe_load

yaml.load requires an explicit loader and raised a TypeError, so neither the
bag export nor the target extractor interface could read its config.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From 86f353f28adc5a443eb9876dc4f8e6ea56dbbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 15/28] fix: use np.bool_ in the result file reader

np.bool was removed from numpy, so no result file could be loaded.
---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..d3f98f8 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', np.bool_, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', np.bool_, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', np.bool_, 1),
+      ('optimization_enabled', np.bool_, 1),
+      ('optimization_success', np.bool_, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 91e099edad4560879b546a09e2b1ccd51937c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 16/28] fix: remove calls to plt.hold

matplotlib removed this function, axes always hold their content. All plots of
the time alignment failed with an AttributeError.
---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From 3bb60ba1e7b12741182300412a9c2d0f26c02e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 17/28] fix: label optimization files with their own iteration

The file names used the loop variable of the main program, which is always the
last iteration when the experiments are executed.
---
 .../bin/optimization_experiments.py                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..4bf5c9c 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -267,7 +267,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
                                       ).format(args.result_directory,
                                                algorithm_name,
                                                experiment_progress[0],
-                                               iteration,
+                                               iteration_idx,
                                                pose_pair_idx,
                                                random_time_offset_offset,
                                                np.linalg.norm(
@@ -295,7 +295,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
                                   "optimized.json").format(args.result_directory,
                                                            algorithm_name,
                                                            experiment_progress[0],
-                                                           iteration,
+                                                           iteration_idx,
                                                            pose_pair_idx,
                                                            random_time_offset_offset,
                                                            np.linalg.norm(
-- 
2.43.0


From de31773293afcc2f427db8c3650ce9779791caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 18/28] fix: parse boolean command line options

argparse calls bool on the text, which is true for every non-empty string. The
complete calibration script passes --visualize=0 and got all the plots.
---
 hand_eye_calibration/bin/compute_aligned_poses.py        | 3 ++-
 hand_eye_calibration/bin/compute_hand_eye_calibration.py | 4 ++--
 .../python/hand_eye_calibration/bash_utils.py            | 9 +++++++++
 .../bin/compute_set_of_hand_eye_calibrations.py          | 4 ++--
 .../bin/optimization_experiments.py                      | 4 ++--
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/hand_eye_calibration/bin/compute_aligned_poses.py b/hand_eye_calibration/bin/compute_aligned_poses.py
index 3ad5dd8..a2b654b 100755
--- a/hand_eye_calibration/bin/compute_aligned_poses.py
+++ b/hand_eye_calibration/bin/compute_aligned_poses.py
@@ -2,6 +2,7 @@
 from hand_eye_calibration.time_alignment import (
     calculate_time_offset, compute_aligned_poses, FilteringConfig)
 from hand_eye_calibration.quaternion import Quaternion
+from hand_eye_calibration.bash_utils import parse_bool
 from hand_eye_calibration.csv_io import (
     write_time_stamped_poses_to_csv_file,
     read_time_stamped_poses_from_csv_file)
@@ -49,7 +50,7 @@ if __name__ == '__main__':
       help='\'Hamilton\' [Default] or \'JPL\'. The input (and data in the output files) ' +
       'will be converted to Hamiltonian quaternions.')
 
-  parser.add_argument('--visualize', type=bool, default=False,
+  parser.add_argument('--visualize', type=parse_bool, default=False,
                       help='Visualize the poses.')
 
   args = parser.parse_args()
diff --git a/hand_eye_calibration/bin/compute_hand_eye_calibration.py b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
index d46c281..3ece9db 100755
--- a/hand_eye_calibration/bin/compute_hand_eye_calibration.py
+++ b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
@@ -19,7 +19,7 @@ from hand_eye_calibration.algorithm_config import (
     get_exhaustive_search_scalar_part_inliers_config,
     get_baseline_config)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import readArrayFromCsv
+from hand_eye_calibration.bash_utils import parse_bool, readArrayFromCsv
 
 
 if __name__ == "__main__":
@@ -51,7 +51,7 @@ if __name__ == "__main__":
            'dual-quaternion-based hand eye calibration and time alignment. '
            'Is used as a initial guess for the batch estimation.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index 4e86186..5954f98 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -37,6 +37,15 @@ def create_path(path):
         raise
 
 
+def parse_bool(text):
+  """ Convert the text of a boolean command line option. """
+  if text.lower() in ('true', '1', 'yes'):
+    return True
+  if text.lower() in ('false', '0', 'no', ''):
+    return False
+  raise argparse.ArgumentTypeError("Not a boolean: '%s'" % text)
+
+
 def readArrayFromCsv(csv_file):
   with open(csv_file, 'r') as csvfile:
     csv_reader = csv.reader(csvfile, delimiter=',', quotechar='|')
diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 95274fb..3315847 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -27,7 +27,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, parse_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_all_configs
@@ -45,7 +45,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 4bf5c9c..be204b9 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -30,7 +30,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, parse_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_optimization_with_spoiled_initial_calibration_config
@@ -403,7 +403,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
-- 
2.43.0


From 5e3a80b1d1328ccd5fba39d1ce2eed1945807855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 19/28] fix: keep the experiments running if a calibration
 fails

A failed calibration has no result. Writing it as an initial guess or using it
for the loop error aborted all remaining experiments. Record the failure
instead.
---
 .../bin/compute_set_of_hand_eye_calibrations.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 3315847..0bfbccd 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -205,9 +205,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -226,6 +227,8 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            if not success:
+              raise Exception("There is no initial guess.")
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -316,7 +319,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.success) == num_pose_pairs and
+              sum(result_entry.optimization_success) == num_pose_pairs):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 82937dc11ea9732b5925cd31af5a99f61ab76263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:19 +0000
Subject: [PATCH 20/28] fix: drop repeated tf poses before writing them

The check for repeated time stamps came after the pose had already been written
to the CSV file and therefore did not drop anything.
---
 hand_eye_calibration/bin/tf_to_csv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..2a40c71 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -58,6 +58,12 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               tf_counter += 1
             continue
 
+          # Drop pose if the tf interval is zero.
+          if not init and (single_tf.header.stamp.to_sec() -
+                           tf_previous_timestamp.to_sec()) < 1e-8:
+            tf_previous_timestamp = single_tf.header.stamp
+            continue
+
           # Initialize start time to first successful tf message lookup.
           if init:
             start_time_tf_message = single_tf.header.stamp
@@ -86,11 +92,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
             tf_interval_measured = (single_tf.header.stamp.to_sec() -
                                     tf_previous_timestamp.to_sec())
 
-            # Drop pose if the tf interval is zero.
-            if tf_interval_measured < 1e-8:
-              tf_previous_timestamp = single_tf.header.stamp
-              continue
-
             # If the interval deviates from the frequency by more than x
             # percent, print a warning.
             tf_interval_deviation_percent = abs(
-- 
2.43.0


From dc78f3353065f7264d5d4188ea45a9bdf61aa6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:00 +0000
Subject: [PATCH 21/28] fix: direction of the screw axis of a negated pure
 translation

---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 8253d8c..a1f4e31 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -229,7 +229,8 @@ class DualQuaternion(object):
     else:
       translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))
       if (translation > 1.e-12):
-        screw_axis = 2. * self.q_dual.q[0:3] / translation
+        # The negated dual quaternion describes the same motion.
+        screw_axis = np.sign(self.q_rot.w) * 2. * self.q_dual.q[0:3] / translation
       else:
         screw_axis = np.zeros(3)
 
-- 
2.43.0


From 6757020ae1f6bc698e6fae63f00fd66cf573e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:01 +0000
Subject: [PATCH 22/28] fix: stop if the configuration file is not valid YAML

The parse error was printed and the undefined content used afterwards.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 1 +
 hand_eye_calibration/bin/target_extractor_interface.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index a05b865..ddc72c5 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -24,6 +24,7 @@ if __name__ == '__main__':
       yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
+      raise
   bags = yaml_content['bags']
 
   for bag in bags:
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index 501b613..cadc611 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -87,6 +87,7 @@ if __name__ == "__main__":
       yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
+      raise
   te_config.april_tag_number_vertical = yaml_content[
       'april_tag_number_vertical']
   te_config.april_tag_number_horizontal = yaml_content[
-- 
2.43.0


From 7489b27fc0e17a22810b1d5f6cbc662eaeb06fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:01 +0000
Subject: [PATCH 23/28] fix: report an unknown plot order

It surfaced as an unbound variable later on.
---
 hand_eye_calibration_experiments/bin/generate_plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..22ab665 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -160,6 +160,9 @@ def generate_optimization_circle_error_plot(
     perturbation_y_label = "Translation [m]"
     perturbation_loop_label = "$t_{spoil}"
 
+  else:
+    raise ValueError("Unknown plot order: {}".format(plot_order))
+
   x_steps = len(loop_x)
   y_steps = len(loop_y)
   plot_steps = len(loop_plot)
-- 
2.43.0


From baeec9c01e886fa64687566a2f8cc357f5a6c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:01 +0000
Subject: [PATCH 24/28] fix: start with an empty table when collecting results

Without the header option the first file was appended to an undefined table.
---
 .../experiment_plotting_tools.py                                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index d3f98f8..bd9fb3c 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -30,6 +30,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('dataset', np.str_, 50)])
 
   print("Evaluating the following result files: {}".format(csv_file_names))
+  data = np.empty(0, dtype=dt)
   for csv_file_name in csv_file_names:
     if get_header:
       header = np.genfromtxt(csv_file_name, dtype=str,
-- 
2.43.0


From e1e2ee7927279cd485d5604568061ddd73e2628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:08 +0000
Subject: [PATCH 25/28] fix: use numpy's own pi

The math module is no longer available through numpy.
---
 .../bin/optimization_experiments.py                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index be204b9..3065c6c 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -490,8 +490,8 @@ if __name__ == "__main__":
 
   # Convert degrees to rad.
   for angle_offset_range in angle_offset_ranges:
-    angle_offset_range[0] = angle_offset_range[0] / 180. * np.math.pi
-    angle_offset_range[1] = angle_offset_range[1] / 180. * np.math.pi
+    angle_offset_range[0] = angle_offset_range[0] / 180. * np.pi
+    angle_offset_range[1] = angle_offset_range[1] / 180. * np.pi
 
   # Compute initial guess which will be used as a basis for the spoiled
   # initial guess.
-- 
2.43.0


From 4decc3173e079b34babe618dee859e7fcbb1da38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:54 +0000
Subject: [PATCH 26/28] fix: stop the calibration script when a step fails

Without it the script went on with a time offset or initial guess left
over from an earlier run.
---
 .../scripts/compute_complete_handeye_calibration.sh            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..75c7313 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,5 +1,8 @@
 #!/bin/bash
 
+# Later steps need the results of the earlier ones.
+set -e
+
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
 
-- 
2.43.0


From 2f7533c73c4edb93ac747efa66e44a189450ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:54 +0000
Subject: [PATCH 27/28] fix: stop the export tools when a started tool fails

The exit code was ignored, so a failed extraction looked like a
successful one.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 6 +++---
 hand_eye_calibration/bin/target_extractor_interface.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index ddc72c5..cb13ae3 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -1,5 +1,5 @@
 #!/usr/bin/env python
-from subprocess import call
+from subprocess import check_call
 
 import argparse
 import copy
@@ -61,7 +61,7 @@ if __name__ == '__main__':
       tf_call.append('--csv_output_file')
       tf_call.append(bag_name_without_suffix + '_' +
                      tf_target_frame + '_' + tf_source_frame + '.csv')
-      call(tf_call)
+      check_call(tf_call)
     cameras = bag['cameras']
     equal_length_warning = ("Camera topics and intrinsic calibrations should "
                             "have equal length.")
@@ -92,4 +92,4 @@ if __name__ == '__main__':
       te_call.append('--output_file')
       te_call.append(bag_name_without_suffix + '_' +
                      'W_' + camera_topic.replace("/", "_")[1:] + '.csv')
-      call(te_call)
+      check_call(te_call)
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index cadc611..58e208f 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -1,5 +1,5 @@
 #!/usr/bin/env python
-from subprocess import call
+from subprocess import check_call
 import argparse
 import yaml
 
@@ -56,7 +56,7 @@ def call_target_extractor(target_extractor_config):
       str(target_extractor_config.april_tag_number_pixel_boarder))
   te_arguments.append("--april_tag_gap_size_m")
   te_arguments.append(str(target_extractor_config.april_tag_gap_size_m))
-  call(te_arguments)
+  check_call(te_arguments)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 95bb7d421adb2f5308def5d6dcab3bd7b669fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:51 +0000
Subject: [PATCH 28/28] fix: keep the case of the model configuration keys

Lower-casing the whole text also changed the key names, so the batch
estimator ignored which sensors are absolute.
---
 .../bin/compute_set_of_hand_eye_calibrations.py                | 3 ++-
 .../bin/optimization_experiments.py                            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 0bfbccd..6b155a5 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -223,7 +223,8 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(),
+              str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 3065c6c..b3c617e 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,8 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(),
+        str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0

