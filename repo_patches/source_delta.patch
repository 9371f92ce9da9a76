From 3034389a752609bbe7a6bd4ce402f3aee585070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:45 +0000
Subject: [PATCH 01/38] fix: convert quaternions to text with the builtin str

np.str was removed in NumPy 1.24, so printing a quaternion or a dual
quaternion raised AttributeError. The search algorithms print their
result, so every successful calibration crashed at the end.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From 41084cd93f0f909d7e96796ed44afdd8bfe9b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:59 +0000
Subject: [PATCH 02/38] fix: convert half-turn rotation matrices to quaternions

For rotations by (nearly) 180 degrees the real part vanishes and the
conversion divided by zero, returning NaN or a badly scaled quaternion.
Start from the largest imaginary component in that case.
---
 .../python/hand_eye_calibration/quaternion.py   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..f559f7a 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,8 +104,21 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
-    w = np.sqrt(
-        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
+    w = np.sqrt(max(0.0,
+        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2])) / 2
+    if w < 0.1:
+      # Close to half a turn w vanishes, start from the largest of x, y, z.
+      i = int(np.argmax(np.diag(rotation_matrix)[0:3]))
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(1.0 + rotation_matrix[i, i] -
+                     rotation_matrix[j, j] - rotation_matrix[k, k]) / 2
+      q4 = 4.0 * q[i]
+      q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / q4
+      q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / q4
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / q4
+      return cls(q=-q if q[3] < 0.0 else q)
     w4 = 4.0 * w
     x = (rotation_matrix[2, 1] - rotation_matrix[1, 2]) / w4
     y = (rotation_matrix[0, 2] - rotation_matrix[2, 0]) / w4
-- 
2.43.0


From 409e9a7c35ce2da6e02bda5d7155e98d3a6a212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 03/38] fix: keep small rotations when converting to angle and
 axis

np.isclose also applies its default relative tolerance of 1e-5, so every
rotation below half a degree was reported as no rotation at all and the
angular velocity of slow or densely sampled motions became zero. A
quaternion with w = -1 divided by zero. Only treat it as no rotation
within the intended 1e-12.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index f559f7a..4f5b28e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -151,7 +151,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.abs(self.w) > 1. - 1.e-12:
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From 312a60d4e3d49e48c594fdd4067a398c94e646d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 04/38] fix: stay within the domain of acos when comparing
 quaternions

Rounding can push the real part of the relative rotation beyond -1, e.g.
for two half turns with opposite quaternion sign, and the angle between
them became NaN.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 4f5b28e..e553d27 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -324,7 +324,8 @@ def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
   if np.allclose(q1.q, q2.q, atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  # Stay within the domain of acos().
+  return 2. * np.arccos(np.clip((q1 * q2.inverse()).w, -1., 1.))
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From 71fbdd975c2603b69bec220bff54bb51e66b91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:01 +0000
Subject: [PATCH 05/38] fix: stay within the domain of acos when computing the
 screw axis

Composing transformations can leave the real part slightly above 1, the
rotation angle of such a (pure translation) screw was reported as NaN.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..1fb43e3 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,7 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    rotation = 2. * np.degrees(np.arccos(np.clip(self.q_rot.w, -1., 1.)))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
-- 
2.43.0


From 88774dd07bb9e5e43265b18c6c1e7cb3005299b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:16 +0000
Subject: [PATCH 06/38] fix: pass an integer number of samples to linspace

NumPy no longer accepts a floating point sample count, so the time
offset estimation raised TypeError for every input.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..6157000 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt + 1))
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 8e306ee5bbdf201ea87c7f0e20bbd906e616a8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:16 +0000
Subject: [PATCH 07/38] fix: interpolate orientations between epoch time stamps

np.isclose also applies its default relative tolerance of 1e-5, which is
hours for time stamps counted in seconds since 1970. Every sample was
considered to coincide with the next measurement and the orientation was
copied from there instead of being interpolated.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 6157000..c6a6b64 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 90b30192b7eddbd809efa770e9203f5ca5ca9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:16 +0000
Subject: [PATCH 08/38] fix: name the existing index in the resampling
 assertion

The message referred to an undefined variable.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index c6a6b64..da40786 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -75,7 +75,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-      assert right_idx < times.shape[0], end_idx
+      assert right_idx < times.shape[0], right_idx
       assert left_idx >= 0, left_idx
       sample_times = []
       sample_times.append(sample)
-- 
2.43.0


From a5a068656c8b4170e49d3856bd3ac0e69f69c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:16 +0000
Subject: [PATCH 09/38] fix: convert JPL quaternions in the pose array as well

Only the returned quaternions were converted to Hamilton convention, the
returned poses still contained the JPL quaternions. The aligned poses
were therefore written unconverted although both the documentation and
the command line help promise Hamiltonian quaternions.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..3e64081 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.0
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From a1dc5b64b6e7499c2811b4eedb5c7fa8c94f4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:16 +0000
Subject: [PATCH 10/38] fix: import errno where it is used

create_path() raised NameError instead of ignoring a directory that was
created concurrently or reporting the actual error.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..4e86186 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
-- 
2.43.0


From 2c930bdda4007b0e091772927e5380f4db52100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:26 +0000
Subject: [PATCH 11/38] fix: draw RANSAC samples from a sequence

random.sample() does not accept sets anymore since Python 3.11, so both
RANSAC variants raised TypeError for every input.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..0f890e5 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From cb0932f269e746edb02841d48482890e9609cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:26 +0000
Subject: [PATCH 12/38] fix: use the collected inliers in the exhaustive
 baseline search

The exhaustive baseline search referred to an undefined variable and
never returned a result.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 0f890e5..eff279d 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -558,7 +558,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From eae7144e9cc8bc3a74f637f767987731a3412c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:26 +0000
Subject: [PATCH 13/38] fix: do not index the baseline inliers with the start
 index

The start index refers to all filtered poses and can exceed the number of
inliers, which raised IndexError. The realigned paths were not used, the
inliers already start at the origin.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index eff279d..c517369 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -561,9 +561,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From fc8303e2304d70a48e1bebad8983b239a70e6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:47 +0000
Subject: [PATCH 14/38] fix: align all poses at the sampled pose, not at its
 filtered index

With prefiltering enabled the sample indices refer to the filtered poses
but were used to select a pose among all poses. The search aligned the
paths at an unrelated pose and never tried any pose beyond the number of
filtered poses, e.g. it failed if the first few poses were outliers.
---
 .../dual_quaternion_hand_eye_calibration.py   | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index c517369..f48097c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -348,6 +348,17 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
   return dq_W_E_vec, dq_B_H_vec
 
 
+def find_pose_pair_index(dq_B_H_vec, dq_W_E_vec, dq_B_H, dq_W_E):
+  """
+  Returns the index of the pose pair (dq_B_H, dq_W_E) in the two pose vectors.
+  """
+  for i in range(0, len(dq_B_H_vec)):
+    if (np.array_equal(dq_B_H_vec[i].dq, dq_B_H.dq) and
+            np.array_equal(dq_W_E_vec[i].dq, dq_W_E.dq)):
+      return i
+  assert False, "The pose pair is not part of the pose vectors."
+
+
 def compute_pose_error(pose_A, pose_B):
   """
   Compute the error norm of position and orientation.
@@ -592,8 +603,12 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
                                                dq_H_E_estimated)
   else:
     # TODO(mfehr): There is some redundancy here, fix it!
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
+    # The start index refers to the filtered poses.
+    align_index = find_pose_pair_index(dq_B_H_vec, dq_W_E_vec,
+                                       dq_B_H_vec_filtered[best_idx],
+                                       dq_W_E_vec_filtered[best_idx])
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_index)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_index)
     (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,
                                                aligned_dq_W_E,
                                                dq_H_E_estimated)
@@ -743,8 +758,11 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
 
     # Transform all poses based on the first sample pose and rearange poses,
     # such that the first sample pose is the first pose.
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, sample_indices[0])
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, sample_indices[0])
+    # The sample indices refer to the filtered poses.
+    align_index = find_pose_pair_index(dq_B_H_vec, dq_W_E_vec,
+                                       samples_dq_B_H[0], samples_dq_W_E[0])
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_index)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_index)
     assert len(aligned_dq_B_H) == num_poses
     assert len(aligned_dq_W_E) == num_poses
 
-- 
2.43.0


From b2d8f8c28e852471e5bff6aed473b9678fc15c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:47 +0000
Subject: [PATCH 15/38] fix: bound the number of samples drawn by RANSAC

Rejected samples are not counted as iterations, so RANSAC never returned
if no sample is good enough, e.g. for pose pairs that do not belong
together.
---
 .../dual_quaternion_hand_eye_calibration.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index f48097c..3085249 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -695,7 +695,8 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   best_singular_value_status = True
 
   all_sample_combinations = []
-  max_number_samples = np.inf
+  # Rejected samples do not count as iterations, bound the samples as well.
+  max_number_samples = 100 * config.ransac_max_number_iterations
   if not config.enable_exhaustive_search:
     print("Running RANSAC...")
     print("Inlier classification method: {}".format(
@@ -710,10 +711,9 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   sample_number = 0
   full_iterations = 0
   prerejected_samples = 0
-  while ((not config.enable_exhaustive_search and
-          full_iterations < config.ransac_max_number_iterations) or
-         (config.enable_exhaustive_search and
-          sample_number < max_number_samples)):
+  while (sample_number < max_number_samples and
+         (config.enable_exhaustive_search or
+          full_iterations < config.ransac_max_number_iterations)):
 
     # Get sample, either at:
     #  - random (RANSAC)
-- 
2.43.0


From d75665c8bd3abe1db6d51a02c36d87945cea2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 16/38] fix: honour --visualize=0 and --visualize=False

argparse passes the text of the argument to bool(), and every non-empty
text is true. The complete calibration script passes --visualize=0 and
opened blocking windows.
---
 hand_eye_calibration/bin/compute_aligned_poses.py        | 3 ++-
 hand_eye_calibration/bin/compute_hand_eye_calibration.py | 4 ++--
 .../python/hand_eye_calibration/bash_utils.py            | 9 +++++++++
 .../bin/compute_set_of_hand_eye_calibrations.py          | 4 ++--
 .../bin/optimization_experiments.py                      | 4 ++--
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/hand_eye_calibration/bin/compute_aligned_poses.py b/hand_eye_calibration/bin/compute_aligned_poses.py
index 3ad5dd8..a2b654b 100755
--- a/hand_eye_calibration/bin/compute_aligned_poses.py
+++ b/hand_eye_calibration/bin/compute_aligned_poses.py
@@ -2,6 +2,7 @@
 from hand_eye_calibration.time_alignment import (
     calculate_time_offset, compute_aligned_poses, FilteringConfig)
 from hand_eye_calibration.quaternion import Quaternion
+from hand_eye_calibration.bash_utils import parse_bool
 from hand_eye_calibration.csv_io import (
     write_time_stamped_poses_to_csv_file,
     read_time_stamped_poses_from_csv_file)
@@ -49,7 +50,7 @@ if __name__ == '__main__':
       help='\'Hamilton\' [Default] or \'JPL\'. The input (and data in the output files) ' +
       'will be converted to Hamiltonian quaternions.')
 
-  parser.add_argument('--visualize', type=bool, default=False,
+  parser.add_argument('--visualize', type=parse_bool, default=False,
                       help='Visualize the poses.')
 
   args = parser.parse_args()
diff --git a/hand_eye_calibration/bin/compute_hand_eye_calibration.py b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
index d46c281..640579d 100755
--- a/hand_eye_calibration/bin/compute_hand_eye_calibration.py
+++ b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
@@ -19,7 +19,7 @@ from hand_eye_calibration.algorithm_config import (
     get_exhaustive_search_scalar_part_inliers_config,
     get_baseline_config)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import readArrayFromCsv
+from hand_eye_calibration.bash_utils import (parse_bool, readArrayFromCsv)
 
 
 if __name__ == "__main__":
@@ -51,7 +51,7 @@ if __name__ == "__main__":
            'dual-quaternion-based hand eye calibration and time alignment. '
            'Is used as a initial guess for the batch estimation.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index 4e86186..09e784e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -28,6 +28,15 @@ def run(cmd, dry_run=False):
                     (cmd, exit_code))
 
 
+def parse_bool(value):
+  """ Parse a boolean command line argument. """
+  if value.lower() in ('true', 't', 'yes', 'y', 'on', '1'):
+    return True
+  if value.lower() in ('false', 'f', 'no', 'n', 'off', '0', ''):
+    return False
+  raise argparse.ArgumentTypeError("Not a boolean: '%s'" % value)
+
+
 def create_path(path):
   if not os.path.exists(os.path.dirname(path)):
     try:
diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..4a622e8 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -27,7 +27,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, parse_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_all_configs
@@ -45,7 +45,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..6f55734 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -30,7 +30,7 @@ from hand_eye_calibration.time_alignment import (calculate_time_offset,
                                                  compute_aligned_poses,
                                                  FilteringConfig)
 from hand_eye_calibration.extrinsic_calibration import ExtrinsicCalibration
-from hand_eye_calibration.bash_utils import (run, create_path)
+from hand_eye_calibration.bash_utils import (run, create_path, parse_bool)
 from hand_eye_calibration.calibration_verification import (
     evaluate_calibration, compute_loop_error)
 from hand_eye_calibration_experiments.all_algorithm_configs import get_optimization_with_spoiled_initial_calibration_config
@@ -403,7 +403,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=parse_bool,
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
-- 
2.43.0


From 2939cb19352e274d597b147dbfc2feef72032a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 17/38] fix: do not call the removed pyplot hold function

Holding is the only behaviour since Matplotlib 3.0, plotting the time
alignment raised AttributeError.
---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From 369a003e0375c420a026aa57223c7072464b1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 18/38] fix: read boolean result columns with the NumPy scalar
 type

np.bool was removed in NumPy 1.24, so no result file could be read.
---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..d3f98f8 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', np.bool_, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', np.bool_, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', np.bool_, 1),
+      ('optimization_enabled', np.bool_, 1),
+      ('optimization_success', np.bool_, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 29de3c6cab875544a523811d976221ed2f58d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 19/38] fix: report in the experiment results whether poses
 were prefiltered

The flag was stored under a different name than the one written to the
result file, the prefiltering column was always False.
---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 45ca95b377e44831cbab59a850993bde2fb69e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 20/38] fix: load the YAML configurations with safe_load

yaml.load() requires a loader argument since PyYAML 6, both scripts
raised TypeError for every configuration.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From 9d0d661ee43dc7957dcdd85f7ba692fdc2d6f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:53 +0000
Subject: [PATCH 21/38] fix: take the bag from the given target extractor
 configuration

The function ignored the bag of the configuration it was given and used
variables that only exist when the script is run directly.
---
 hand_eye_calibration/bin/target_extractor_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index 501b613..b1b62ac 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -26,10 +26,11 @@ class TargetExtractorConfig(object):
 
 
 def call_target_extractor(target_extractor_config):
-  print("Extracting images from bag: {}.".format(te_config.bag_file_name))
+  print("Extracting images from bag: {}.".format(
+      target_extractor_config.bag_file_name))
   te_arguments = ["rosrun", "hand_eye_calibration_target_extractor", "target_extractor"]
   te_arguments.append("--bag")
-  te_arguments.append(bag_path)
+  te_arguments.append(target_extractor_config.bag_file_name)
   te_arguments.append("--topic")
   te_arguments.append(target_extractor_config.topic)
   te_arguments.append("--eval_camera_yaml")
-- 
2.43.0


From c8ae8446f8ac3d50fb47220ae71303a519cb7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:06 +0000
Subject: [PATCH 22/38] fix: draw different perturbations in every experiment
 worker

The worker processes inherited the same NumPy random state, so the
experiments run by different workers spoiled the initial guess with the
same random numbers.
---
 .../bin/optimization_experiments.py                           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 6f55734..1b68406 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -534,7 +534,9 @@ if __name__ == "__main__":
   assert experiment_progress_idx == number_of_experiment_exec
   assert len(input_data) == number_of_experiment_exec
 
-  thread_pool = Pool(min(8, number_of_experiment_exec))
+  # Seed every worker, otherwise they all draw the same random numbers.
+  thread_pool = Pool(min(8, number_of_experiment_exec),
+                     initializer=np.random.seed)
   func_wrapped = partial(Forwarder, func=run_optimization_experiment)
   output_data = thread_pool.map(func_wrapped, input_data)
   assert len(output_data) == number_of_experiment_exec
-- 
2.43.0


From e3041c9e2652a9f9f5bf0ac0960c75b59de5fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:11 +0000
Subject: [PATCH 23/38] fix: label the optimization files with their own
 iteration

The file names contained the loop variable of the main program, which is
the last iteration for all experiments.
---
 .../bin/optimization_experiments.py                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 1b68406..e19ee0f 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -267,7 +267,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
                                       ).format(args.result_directory,
                                                algorithm_name,
                                                experiment_progress[0],
-                                               iteration,
+                                               iteration_idx,
                                                pose_pair_idx,
                                                random_time_offset_offset,
                                                np.linalg.norm(
@@ -295,7 +295,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
                                   "optimized.json").format(args.result_directory,
                                                            algorithm_name,
                                                            experiment_progress[0],
-                                                           iteration,
+                                                           iteration_idx,
                                                            pose_pair_idx,
                                                            random_time_offset_offset,
                                                            np.linalg.norm(
-- 
2.43.0


From f238b98232baa93f9023124be5b465cbb07acefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:40 +0000
Subject: [PATCH 24/38] fix: stop the calibration script when a step fails

---
 .../scripts/compute_complete_handeye_calibration.sh            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..c4afa03 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,5 +1,8 @@
 #!/bin/bash
 
+# Stop at the first step that fails.
+set -e
+
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
 
-- 
2.43.0


From 6ead288ec8b0f7b251829284ca12137c9417cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:03 +0000
Subject: [PATCH 25/38] fix: read result tables with a single row

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index d3f98f8..22830bb 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -79,7 +79,8 @@ def collect_data_from_csv(csv_file_names, get_header=True):
 
   max_index = 0
   max_index_ds = 0
-  for row in data:
+  # A table with a single row is read as a scalar.
+  for row in np.atleast_1d(data):
     method = row[0]
     b_h_filename = row[4]
     w_e_filename = row[5]
-- 
2.43.0


From 26a6304c3372253ddbfd0f97b92bf78952af1854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:03 +0000
Subject: [PATCH 26/38] fix: calibrate motions for which the quadratic equation
 degenerates

---
 .../dual_quaternion_hand_eye_calibration.py                   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 3085249..f87c0cb 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -244,6 +244,10 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
         bad_singular_values = True
   v_7 = V[6, :].copy()
   v_8 = V[7, :].copy()
+  if np.abs(np.dot(v_7[0:4], v_7[4:8])) < 1e-12:
+    # The quadratic equation (35) would degenerate, use a different basis of the
+    # same null space. This happens e.g. if there is no translation at all.
+    v_7, v_8 = (v_7 + v_8) / np.sqrt(2.0), (v_7 - v_8) / np.sqrt(2.0)
   # print("v_7: {}".format(v_7))
   # print("v_8: {}".format(v_8))
 
-- 
2.43.0


From 80891d352e9bfa4725d4b88bf8d6aed33d910c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:57 +0000
Subject: [PATCH 27/38] fix: show the poses of 3D plots with current matplotlib

---
 .../hand_eye_calibration_plotting_tools.py             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
index 8b3f8a7..c7875c2 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
@@ -17,10 +17,14 @@ class Arrow3D(FancyArrowPatch):
     FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
     self._verts3d = xs, ys, zs
 
-  def draw(self, renderer):
+  def do_3d_projection(self, renderer=None):
     xs3d, ys3d, zs3d = self._verts3d
-    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
     self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
+    return np.min(zs)
+
+  def draw(self, renderer):
+    self.do_3d_projection()
     FancyArrowPatch.draw(self, renderer)
 
 
@@ -38,7 +42,7 @@ def plot_poses(poses_list, plot_arrows=True, title="", blocking=True):
   title_position = 1.05
   fig = plt.figure()
   plt.clf()
-  ax = Axes3D(fig)
+  ax = fig.add_subplot(111, projection='3d')
 
   if title:
     fig.suptitle(title, fontsize='24')
-- 
2.43.0


From 8f4dbe70bd3adcd8ad241d505d1bb8a01964c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:50 +0000
Subject: [PATCH 28/38] fix: export transforms whose stamps are all equal

The frequency estimate divided by the time between the first and the last
exported transform, so a recording in which they are equal stopped the export
with a division by zero. Skip the estimate in that case.
---
 hand_eye_calibration/bin/tf_to_csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..70b0589 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -77,7 +77,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_counter += 1
 
           # Check if there was a drop in the tf frequency.
-          if tf_counter > 3:
+          if tf_counter > 3 and end_time_tf_message != start_time_tf_message:
             tf_frequency_estimated = tf_counter / (
                 end_time_tf_message - start_time_tf_message).to_sec()
 
@@ -110,7 +110,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message != start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From 2caa28623219f639faa714d2aa23528bca935f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:51 +0000
Subject: [PATCH 29/38] fix: keep dots in recording names when naming exported
 pose files

Everything after the first dot of the recording name was dropped, so the poses
of two recordings like run.1.bag and run.2.bag were written to the same file.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index a05b865..83d2a27 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -3,6 +3,7 @@ from subprocess import call
 
 import argparse
 import copy
+import os
 import rospy
 import yaml
 
@@ -28,7 +29,7 @@ if __name__ == '__main__':
 
   for bag in bags:
     bag_name = bag['name']
-    bag_name_without_suffix = bag_name.split('.')[0]
+    bag_name_without_suffix = os.path.splitext(bag_name)[0]
     bag_path = bag['bag_path']
     intrinsics_path = bag['intrinsics_path']
     target_config_path = bag['target_config_path']
-- 
2.43.0


From 6bfb4e0e1facd17954b2944e0881c3180b91c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:24 +0000
Subject: [PATCH 30/38] fix: accept paths without a directory part when
 creating paths

A file in the working directory has no parent directory to create, but the
attempt to create a directory with an empty name raised an error.
---
 .../python/hand_eye_calibration/bash_utils.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index 09e784e..47cafa3 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -38,9 +38,10 @@ def parse_bool(value):
 
 
 def create_path(path):
-  if not os.path.exists(os.path.dirname(path)):
+  directory = os.path.dirname(path)
+  if directory and not os.path.exists(directory):
     try:
-      os.makedirs(os.path.dirname(path))
+      os.makedirs(directory)
     except OSError as exc:  # Guard against race condition
       if exc.errno != errno.EEXIST:
         raise
-- 
2.43.0


From d118c419fcf54ffb95ab32770b7c5366e8b173d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:28 +0000
Subject: [PATCH 31/38] fix: pass the absolute-measurement options to the
 optimizer with the right key

---
 .../bin/compute_set_of_hand_eye_calibrations.py                 | 2 +-
 .../bin/optimization_experiments.py                             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 4a622e8..332c9cd 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -222,7 +222,7 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(), str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index e19ee0f..6f36703 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,7 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(), str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0


From 3589661e296633869ac43d6301d70db4aa58182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:28 +0000
Subject: [PATCH 32/38] fix: continue the batch experiment when a pose pair
 cannot be calibrated

---
 .../bin/compute_set_of_hand_eye_calibrations.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 332c9cd..2d36f10 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -205,9 +205,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -226,6 +227,7 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            assert success, "There is no initial guess to optimize!"
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -316,7 +318,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.optimization_success) == num_pose_pairs and
+              all(dq_H_E is not None for dq_H_E in results_dq_H_E)):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 07d1d9aeae3322e4e2c95999bd3750d0ab0ac286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:21 +0000
Subject: [PATCH 33/38] fix: label the cells of the perturbation maps with
 current numpy

---
 .../bin/generate_plots.py                            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..6b53622 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -232,15 +232,15 @@ def generate_optimization_circle_error_plot(
       x_ticks_start = np.rint(loop_x[:-1] * 180 / np.pi).astype(int)
       x_ticks_end = np.rint(loop_x[1:] * 180 / np.pi).astype(int)
       x_tick_labels = (
-          '[' + np.char.array(x_ticks_start) + ',' +
-          np.char.array(x_ticks_end) + ')')
+          '[' + np.char.array(x_ticks_start.astype(str)) + ',' +
+          np.char.array(x_ticks_end.astype(str)) + ')')
     else:
       x_tick_labels = (
-          '[' + np.char.array(loop_x[:-1]) + ',' +
-          np.char.array(loop_x[1:]) + ')')
+          '[' + np.char.array(loop_x[:-1].astype(str)) + ',' +
+          np.char.array(loop_x[1:].astype(str)) + ')')
     y_tick_labels = (
-        '[' + np.char.array(loop_y[:-1]) + ',' +
-        np.char.array(loop_y[1:]) + ')')
+        '[' + np.char.array(loop_y[:-1].astype(str)) + ',' +
+        np.char.array(loop_y[1:].astype(str)) + ')')
     x_ticks = range(x_steps - 1)
     y_ticks = range(y_steps - 1)
     plt.setp(axes, xticks=x_ticks, xticklabels=x_tick_labels,
-- 
2.43.0


From e01e2e7df1ca029a055c936a9a18639ffa8d1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:50 +0000
Subject: [PATCH 34/38] fix: plot only every n-th pose in the batch experiment

The option --plot_every_nth_pose was stored under a name that the
calibration configuration does not use, so the plots after the alignment
always showed every tenth pose.
---
 .../bin/compute_set_of_hand_eye_calibrations.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 2d36f10..6f426bd 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -98,7 +98,7 @@ if __name__ == "__main__":
   for (algorithm_name, filtering_config, hand_eye_config, optimization_config) in all_algorithm_configurations:
     print("\n\n\nRun algorithm {}\n\n\n".format(algorithm_name))
     hand_eye_config.visualize = args.visualize
-    hand_eye_config.plot_every_nth_pose = args.plot_every_nth_pose
+    hand_eye_config.visualize_plot_every_nth_pose = args.plot_every_nth_pose
 
     if hand_eye_config.enable_exhaustive_search or hand_eye_config.use_baseline_approach:
       num_iterations = 1
-- 
2.43.0


From 77da0560a1a0ceda15ac0bfaf56fae4b2627996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:50 +0000
Subject: [PATCH 35/38] fix: report the number of exported transforms

Transforms that could not be looked up were counted as exported poses
once a first lookup had succeeded.
---
 hand_eye_calibration/bin/tf_to_csv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 70b0589..7101936 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -30,6 +30,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
   bag = rosbag.Bag(bag_file)
   init = True
   tf_counter = 0
+  num_exported_poses = 0
   tf_frequency_estimated = 0.
   tf_interval_estimated = 0.
   tf_previous_timestamp = 0.
@@ -71,6 +72,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               str(translation[2]) + ', ' + str(quaternion[0]) + ', ' +
               str(quaternion[1]) + ', ' + str(quaternion[2]) + ', ' +
               str(quaternion[3]) + '\n')
+          num_exported_poses += 1
 
           # Update end time.
           end_time_tf_message = single_tf.header.stamp
@@ -116,7 +118,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
         tf_frequency_estimated), "Hz")
 
-  print("Exported ", tf_counter, " tf poses.")
+  print("Exported ", num_exported_poses, " tf poses.")
 
 
 if __name__ == '__main__':
-- 
2.43.0


From dcda03ebcc842780145f453debde5f294c2647c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:25 +0000
Subject: [PATCH 36/38] fix: choose the hand-eye solution with the larger
 rotation part

The two solutions were compared without regard to the length of the solution
vectors. With noisy rotations and little translation the wrong solution could
win, which gave a far away transformation.
---
 .../dual_quaternion_hand_eye_calibration.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index f87c0cb..a74423f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -283,7 +283,9 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   solution_2 = s_2 * s_2 * np.dot(u_1.T, u_1) + 2.0 * \
       s_2 * np.dot(u_1.T, u_2) + np.dot(u_2.T, u_2)
 
-  if solution_1 > solution_2:
+  # Compare relative to the length of the solution vectors s*v_7 + v_8, the wrong
+  # one is long if v_7 has hardly any rotation part.
+  if solution_1 / (1.0 + s_1 * s_1) > solution_2 / (1.0 + s_2 * s_2):
     assert solution_1 > 0.0, solution_1
     lambda_2 = np.sqrt(1.0 / solution_1)
     lambda_1 = s_1 * lambda_2
-- 
2.43.0


From ef58b940dd5fdab4abd0a47b47567b74f94a66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:16 +0000
Subject: [PATCH 37/38] fix: keep the origin of aligned paths free of rounding
 errors

The first pose of an aligned path was only approximately the identity.
Its screw axis then consisted of rounding errors, and the prefilter used
it to drop good poses, depending on the world frames of the recordings.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index a74423f..1875f32 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -120,6 +120,8 @@ def align_paths_at_index(dq_vec, align_index=0, enforce_positive_q_rot_w=True):
   assert np.allclose(dq_vec_rearanged[0].dq,
                      [0., 0., 0., 1.0, 0., 0., 0., 0.],
                      atol=1.e-8), dq_vec_rearanged[0]
+  # Rounding errors must not give the origin a screw axis.
+  dq_vec_rearanged[0].dq = np.array([0., 0., 0., 1.0, 0., 0., 0., 0.])
 
   return dq_vec_rearanged
 
-- 
2.43.0


From 735cae775f341ccd7ecf9b910a0322983f976285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:01 +0000
Subject: [PATCH 38/38] fix: reject pose sets without any motion in the
 hand-eye calibration

---
 .../hand_eye_calibration/dual_quaternion_hand_eye_calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 1875f32..8184075 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -234,6 +234,7 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   # Compute SVD of T and check if only two singular values are almost equal to
   # zero. Take the corresponding right-singular vectors (v_7 and v_8)
   U, s, V = np.linalg.svd(t_matrix)
+  assert s[0] > 1e-12, "The poses do not contain any motion."
 
   # Check if only the last two singular values are almost zero.
   bad_singular_values = False
-- 
2.43.0

