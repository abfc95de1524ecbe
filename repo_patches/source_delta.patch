From 111bf698b2a3a92faba56472b5b956cb0927cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:29 +0000
Subject: [PATCH 01/45] fix: print quaternions without the removed np.str alias

np.str no longer exists in numpy, so printing a (dual) quaternion raised an
AttributeError. Calibration crashed when it reported the transform it found.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From cbc24d2209beb1ebc605e4d635c420413bdf7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:29 +0000
Subject: [PATCH 02/45] fix: pass an integer sample count to linspace when
 resampling

The float count raises a TypeError, so the time offset could not be computed.
Rounding keeps the spacing as close as possible to the requested interval.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..3862865 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(round(interval / dt)) + 1)
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 1c9d9f5fd773da8731eb2840bb7d152239450a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:29 +0000
Subject: [PATCH 03/45] fix: do not skip orientation interpolation for large
 time stamps

The default relative tolerance of isclose treats all epoch time stamps as
equal, so the next recorded orientation was returned instead of an
interpolated one.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 3862865..1c9c739 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 99c5510ab7c5504237198d01a523fe61d1b4ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:29 +0000
Subject: [PATCH 04/45] fix: draw RANSAC samples from a sequence

random.sample no longer accepts sets and raised a TypeError.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..0f890e5 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From 86748f06d15144dff3d34f629e1c933030179bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 05/45] fix: convert JPL quaternions in the returned pose table
 as well

Only the separate quaternion list was converted, so the aligned poses written
for JPL input still held the inverse rotations.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..a98fbd4 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From ac17b18dfd2bc41c10e59fddccde780745efa2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 06/45] fix: convert rotation matrices of half turns to
 quaternions

The scalar part is zero for rotations of 180 degrees, so dividing by it gave
NaN and lost precision close by.
---
 .../python/hand_eye_calibration/quaternion.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..e02daf7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,6 +104,20 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
+    diagonal = np.diag(rotation_matrix)
+    if np.sum(diagonal) < 0.:
+      # The scalar part vanishes for rotations of 180 degrees, hence solve for
+      # the largest vector element first.
+      i = np.argmax(diagonal)
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(1.0 + diagonal[i] - diagonal[j] - diagonal[k]) / 2
+      q[j] = (rotation_matrix[i, j] + rotation_matrix[j, i]) / (4.0 * q[i])
+      q[k] = (rotation_matrix[i, k] + rotation_matrix[k, i]) / (4.0 * q[i])
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+      return cls(q=-q if q[3] < 0. else q)
+
     w = np.sqrt(
         1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
     w4 = 4.0 * w
-- 
2.43.0


From 41cfcb94f9db5b1262b1d5babe03d92efef1165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 07/45] fix: do not report small rotations as zero in
 angle_axis

The relative tolerance of isclose turned all rotations below half a degree
into zero rotations, which also zeroed slow angular velocities. The scalar
part -1 and rounding beyond 1 gave NaN.
---
 .../python/hand_eye_calibration/quaternion.py         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index e02daf7..b4b4802 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -152,13 +152,14 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    sine = np.linalg.norm(self.q[0:3])
+    if np.isclose(sine, 0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
-    angle = 2. * np.arccos(self.w)
-    x = self.x / np.sqrt(1. - self.w * self.w)
-    y = self.y / np.sqrt(1. - self.w * self.w)
-    z = self.z / np.sqrt(1. - self.w * self.w)
+    angle = 2. * np.arctan2(sine, self.w)
+    x = self.x / sine
+    y = self.y / sine
+    z = self.z / sine
     return np.array([x, y, z, angle])
 
   def copy(self):
-- 
2.43.0


From a139cb9011ad7d319ee281c7cdc6037a93bdcac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 08/45] fix: avoid NaN for the angle between nearly equal
 quaternions

Rounding can push the scalar part beyond one, for which arccos is NaN. A NaN
orientation error makes every hand-eye solution look unusable.
---
 .../python/hand_eye_calibration/quaternion.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index b4b4802..4ca797d 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -324,9 +324,10 @@ def quaternions_interpolate(q_left, t_left, q_right, t_right, times):
 
 def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
-  if np.allclose(q1.q, q2.q, atol=1.e-12):
+  if np.allclose(q1.q, q2.q, rtol=0., atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  q1_q2_inv = q1 * q2.inverse()
+  return 2. * np.arctan2(np.linalg.norm(q1_q2_inv.q[0:3]), q1_q2_inv.w)
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From b31e4aa3e16b1d826a5f464892eb580e57ff209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 09/45] fix: return the full angular velocity from q1 to q2

The angle of angle_axis is already the full rotation angle, so the result had
half the magnitude, and it described the transition from q2 to q1.
---
 .../python/hand_eye_calibration/quaternion.py          | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 4ca797d..fc58827 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -333,9 +333,9 @@ def angle_between_quaternions(q1, q2):
 def angular_velocity_between_quaternions(q1, q2, t):
   """ Returns the angular velocity resulting from transitioning from q1 to q2
   in t. """
-  q1_q2_inv = q1 * q2.inverse()
+  q2_q1_inv = q2 * q1.inverse()
   # Ensure positive w.
-  if q1_q2_inv.w < 0.:
-    q1_q2_inv = -q1_q2_inv
-  angle_axis = q1_q2_inv.angle_axis()
-  return 0.5 / t * angle_axis[3] * angle_axis[0:3]
+  if q2_q1_inv.w < 0.:
+    q2_q1_inv = -q2_q1_inv
+  angle_axis = q2_q1_inv.angle_axis()
+  return 1. / t * angle_axis[3] * angle_axis[0:3]
-- 
2.43.0


From c959d76d1ff0ca057f185215966660e6aac67347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 10/45] fix: compute the screw rotation of pure translations
 reliably

Rounding of the scalar part gave NaN or a small spurious rotation, for which
the screw axis of a pure translation came out as zero.
---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..1071c52 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,8 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    rotation = 2. * np.degrees(np.arctan2(
+        np.linalg.norm(self.q_rot.q[0:3]), self.q_rot.w))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
-- 
2.43.0


From 4b3dc751f4041bd57f41faa4ac166862add0917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 11/45] fix: screw axis direction of pure translations with
 negative scalar part

The dual part changes sign together with the rotation quaternion, so the axis
pointed against the translation.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 1071c52..b2686c1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -230,7 +230,7 @@ class DualQuaternion(object):
     else:
       translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))
       if (translation > 1.e-12):
-        screw_axis = 2. * self.q_dual.q[0:3] / translation
+        screw_axis = np.sign(self.q_rot.w) * 2. * self.q_dual.q[0:3] / translation
       else:
         screw_axis = np.zeros(3)
 
-- 
2.43.0


From a0c996900c338e3494cae9606a89a4a5e769fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 12/45] fix: solve the hand-eye quadratic without dividing by
 its leading term

The leading coefficient vanishes for hand-eye transforms without translation.
The solver then refused the data or returned translations of 1e16 m.
---
 .../dual_quaternion_hand_eye_calibration.py   | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 0f890e5..5d15ed8 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -256,7 +256,6 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   # print("u_1: {}, \nu_2: {}, \nv_1: {}, \nv_2: {}".format(u_1, u_2, v_1, v_2))
 
   a = np.dot(u_1.T, v_1)
-  assert a != 0.0, "This would involve division by zero."
   b = np.dot(u_1.T, v_2) + np.dot(u_2.T, v_1)
   c = np.dot(u_2.T, v_2)
   # print("a: {}, b: {}, c: {}".format(a, b, c))
@@ -267,26 +266,25 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
         square_root_term)
   if square_root_term < 0.0:
     square_root_term = 0.0
-  s_1 = (-b + np.sqrt(square_root_term)) / (2.0 * a)
-  s_2 = (-b - np.sqrt(square_root_term)) / (2.0 * a)
+  # The solutions are kept as unit vectors in the direction of
+  # [lambda_1, lambda_2], as s = lambda_1 / lambda_2 can be infinite.
+  r = -0.5 * (b + np.copysign(np.sqrt(square_root_term), b))
+  s_1 = np.array([r, a]) / np.linalg.norm([r, a])
+  s_2 = np.array([c, r]) / np.linalg.norm([c, r])
   # print("s_1: {}, s_2: {}".format(s_1, s_2))
 
   # 4.
-  # For these two s values, compute s^2*u_1^T*u_1 + 2*s*u_1^T*u_2 + u_2^T*u_2
-  # From these choose the largest to compute lambda_2 and then lambda_1
-  solution_1 = s_1 * s_1 * np.dot(u_1.T, u_1) + 2.0 * \
-      s_1 * np.dot(u_1.T, u_2) + np.dot(u_2.T, u_2)
-  solution_2 = s_2 * s_2 * np.dot(u_1.T, u_1) + 2.0 * \
-      s_2 * np.dot(u_1.T, u_2) + np.dot(u_2.T, u_2)
+  # For these two solutions, compute the squared norm of the rotational part.
+  # From these choose the largest to compute lambda_1 and lambda_2
+  solution_1 = np.sum(np.square(s_1[0] * u_1 + s_1[1] * u_2))
+  solution_2 = np.sum(np.square(s_2[0] * u_1 + s_2[1] * u_2))
 
   if solution_1 > solution_2:
     assert solution_1 > 0.0, solution_1
-    lambda_2 = np.sqrt(1.0 / solution_1)
-    lambda_1 = s_1 * lambda_2
+    lambda_1, lambda_2 = s_1 / np.sqrt(solution_1)
   else:
     assert solution_2 > 0.0, solution_2
-    lambda_2 = np.sqrt(1.0 / solution_2)
-    lambda_1 = s_2 * lambda_2
+    lambda_1, lambda_2 = s_2 / np.sqrt(solution_2)
   # print("lambda_1: {}, lambda_2: {}".format(lambda_1, lambda_2))
 
   # 5.
-- 
2.43.0


From ba778c5994ccef4c978ab0ece41fbdfe46f9537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 13/45] fix: derive the angular velocity clipping limit from
 magnitudes

For rotations with mostly negative components the percentile of the signed
values is small or negative, and clipping to it destroyed the signal.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 1c9c739..8212174 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -24,7 +24,7 @@ def filter_and_smooth_angular_velocity(angular_velocity,
                                        low_pass_kernel_size, clip_percentile, plot=False):
   """Reduce the noise in a velocity signal."""
 
-  max_value = np.percentile(angular_velocity, clip_percentile)
+  max_value = np.percentile(np.abs(angular_velocity), clip_percentile)
   print("Clipping angular velocity norms to {} rad/s ...".format(max_value))
   angular_velocity_clipped = np.clip(angular_velocity, -max_value, max_value)
   print("Done clipping angular velocity norms...")
-- 
2.43.0


From b725dde3a979acc7906ddb0fec3ab15f49fdc210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 14/45] fix: use the inliers of the best start index in the
 exhaustive baseline

The assignment referred to an undefined variable and raised a NameError.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 5d15ed8..9a77cb8 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -556,7 +556,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From 499769d73cb0c96156b4e2cfcd5174d071f84c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:17 +0000
Subject: [PATCH 15/45] fix: drop out-of-range alignment of the baseline
 inliers

The start index refers to the filtered poses, so it can exceed the number of
inliers and raise an IndexError. The result was not used.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a77cb8..cc1630d 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -559,9 +559,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From 46af383f261d26e0c4b21e32c6956ed2c302a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:29 +0000
Subject: [PATCH 16/45] fix: align the unfiltered poses at the sampled pose

Samples are drawn from the prefiltered poses, but their index was used to
align the unfiltered ones. Outliers at the start of a recording could hide the
consensus set of all other poses.
---
 .../dual_quaternion_hand_eye_calibration.py   | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index cc1630d..7606f2d 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -298,10 +298,12 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   return (dq_H_E, s, bad_singular_values)
 
 
-def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_threshold=0.95):
+def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_threshold=0.95,
+                               return_indices=False):
   dq_W_E_vec = copy.deepcopy(dq_W_E_vec_in)
   dq_B_H_vec = copy.deepcopy(dq_B_H_vec_in)
   n_quaternions = len(dq_W_E_vec)
+  indices = list(range(n_quaternions))
   i = 0
   while i < len(dq_W_E_vec):
     dq_W_E_i = dq_W_E_vec[i]
@@ -312,6 +314,7 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
     if (np.linalg.norm(screw_axis_W_E_i) <= 1.e-12 or np.linalg.norm(screw_axis_B_H_i) <= 1.e-12):
       dq_W_E_vec.pop(i)
       dq_B_H_vec.pop(i)
+      indices.pop(i)
     else:
       screw_axis_W_E_i = screw_axis_W_E_i / np.linalg.norm(screw_axis_W_E_i)
       screw_axis_B_H_i = screw_axis_B_H_i / np.linalg.norm(screw_axis_B_H_i)
@@ -328,6 +331,7 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
         if (np.linalg.norm(screw_axis_W_E_j) <= 1.e-12 or np.linalg.norm(screw_axis_B_H_j) <= 1.e-12):
           dq_W_E_vec.pop(j)
           dq_B_H_vec.pop(j)
+          indices.pop(j)
         else:
           screw_axis_W_E_j = screw_axis_W_E_j / np.linalg.norm(screw_axis_W_E_j)
           screw_axis_B_H_j = screw_axis_B_H_j / np.linalg.norm(screw_axis_B_H_j)
@@ -335,14 +339,18 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
           if (np.inner(screw_axis_W_E_i, screw_axis_W_E_j) > dot_product_threshold):
             dq_W_E_vec.pop(j)
             dq_B_H_vec.pop(j)
+            indices.pop(j)
           elif (np.inner(screw_axis_B_H_i, screw_axis_B_H_j) > dot_product_threshold):
             dq_W_E_vec.pop(j)
             dq_B_H_vec.pop(j)
+            indices.pop(j)
           else:
             j += 1
       i += 1
 
   assert i >= 2, "Not enough distinct poses found."
+  if return_indices:
+    return dq_W_E_vec, dq_B_H_vec, indices
   return dq_W_E_vec, dq_B_H_vec
 
 
@@ -489,11 +497,13 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
   # 0.0 Reject pairs whose motion is not informative,
   # i.e. their screw axis dot product is large
   if config.prefilter_poses_enabled:
-    dq_B_H_vec_filtered, dq_W_E_vec_filtered = prefilter_using_screw_axis(
-        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold)
+    dq_B_H_vec_filtered, dq_W_E_vec_filtered, filtered_indices = prefilter_using_screw_axis(
+        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold,
+        return_indices=True)
   else:
     dq_B_H_vec_filtered = dq_B_H_vec
     dq_W_E_vec_filtered = dq_W_E_vec
+    filtered_indices = list(range(num_poses))
   num_poses_after_filtering = len(dq_W_E_vec_filtered)
 
   best_idx = -1
@@ -590,8 +600,10 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
                                                dq_H_E_estimated)
   else:
     # TODO(mfehr): There is some redundancy here, fix it!
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
+    aligned_dq_B_H = align_paths_at_index(
+        dq_B_H_vec, filtered_indices[best_idx])
+    aligned_dq_W_E = align_paths_at_index(
+        dq_W_E_vec, filtered_indices[best_idx])
     (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,
                                                aligned_dq_W_E,
                                                dq_H_E_estimated)
@@ -650,8 +662,9 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   # Reject pairs whose motion is not informative,
   # i.e. their screw axis dot product is large
   if config.prefilter_poses_enabled:
-    dq_B_H_vec_filtered, dq_W_E_vec_filtered = prefilter_using_screw_axis(
-        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold)
+    dq_B_H_vec_filtered, dq_W_E_vec_filtered, filtered_indices = prefilter_using_screw_axis(
+        dq_B_H_vec, dq_W_E_vec, config.prefilter_dot_product_threshold,
+        return_indices=True)
     assert len(dq_W_E_vec_filtered) == len(dq_B_H_vec_filtered)
     assert len(dq_B_H_vec) == num_poses
     assert len(dq_W_E_vec) == num_poses
@@ -659,6 +672,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   else:
     dq_B_H_vec_filtered = dq_B_H_vec
     dq_W_E_vec_filtered = dq_W_E_vec
+    filtered_indices = list(range(num_poses))
     num_poses_after_filtering = num_poses
 
   print("Ignore {} poses based on the screw axis".format(
@@ -741,8 +755,10 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
 
     # Transform all poses based on the first sample pose and rearange poses,
     # such that the first sample pose is the first pose.
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, sample_indices[0])
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, sample_indices[0])
+    aligned_dq_B_H = align_paths_at_index(
+        dq_B_H_vec, filtered_indices[sample_indices[0]])
+    aligned_dq_W_E = align_paths_at_index(
+        dq_W_E_vec, filtered_indices[sample_indices[0]])
     assert len(aligned_dq_B_H) == num_poses
     assert len(aligned_dq_W_E) == num_poses
 
-- 
2.43.0


From af158c998909449e01ed0bfa120bd12d47a89327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:29 +0000
Subject: [PATCH 17/45] fix: stop RANSAC when no sample is accepted

Rejected samples do not count as iterations, so RANSAC never returned for data
without a sufficiently large set of inliers.
---
 .../dual_quaternion_hand_eye_calibration.py                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 7606f2d..625db3a 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -67,6 +67,7 @@ class HandEyeConfig:
     self.ransac_sample_size = 3
     self.ransac_sample_rejection_scalar_part_equality_tolerance = 1e-2
     self.ransac_max_number_iterations = 20
+    self.ransac_max_number_samples = 10000
     self.ransac_enable_early_abort = True
     self.ransac_outlier_probability = 0.5
     self.ransac_success_probability_threshold = 0.99
@@ -708,7 +709,8 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   full_iterations = 0
   prerejected_samples = 0
   while ((not config.enable_exhaustive_search and
-          full_iterations < config.ransac_max_number_iterations) or
+          full_iterations < config.ransac_max_number_iterations and
+          sample_number < config.ransac_max_number_samples) or
          (config.enable_exhaustive_search and
           sample_number < max_number_samples)):
 
-- 
2.43.0


From 3f704376b2595be4627139cc350847c4ac81cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:29 +0000
Subject: [PATCH 18/45] fix: import errno for the race guard in create_path

Two experiment processes creating the same folder ended in a NameError.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..4e86186 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
-- 
2.43.0


From f792cd023efd234a1debb8904f356e92bd532baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:29 +0000
Subject: [PATCH 19/45] fix: accept file names without a folder in create_path

---
 .../python/hand_eye_calibration/bash_utils.py                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index 4e86186..e725529 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -29,9 +29,10 @@ def run(cmd, dry_run=False):
 
 
 def create_path(path):
-  if not os.path.exists(os.path.dirname(path)):
+  directory = os.path.dirname(path)
+  if directory and not os.path.exists(directory):
     try:
-      os.makedirs(os.path.dirname(path))
+      os.makedirs(directory)
     except OSError as exc:  # Guard against race condition
       if exc.errno != errno.EEXIST:
         raise
-- 
2.43.0


From 0279c60ab29e6dd4f701a80ac739fbaab390be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:21 +0000
Subject: [PATCH 20/45] fix: resample to copies of quaternions at recorded
 times

Resampling at a recorded time stamp returned the caller's own quaternion
object, so that changing the result also changed the recording.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 8212174..3fc06b1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -72,7 +72,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
 
     right_idx = bisect.bisect_left(times, sample)
     if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
-      interp_quaternions.append(quaternions[right_idx])
+      interp_quaternions.append(quaternions[right_idx].copy())
     else:
       left_idx = right_idx - 1
       assert right_idx < times.shape[0], end_idx
-- 
2.43.0


From 052f9921b7ff7bb21c4267da40f5e1a152f79413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:18 +0000
Subject: [PATCH 21/45] fix: keep the signs of poses handed to the baseline
 method

The baseline method matched quaternion signs in the caller's own poses,
which changed the outcome of later sign-dependent calls on them.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 625db3a..983f393 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -487,7 +487,8 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   start_time = timeit.default_timer()
 
-  # Enforce the same sign of the rotation quaternion.
+  # Enforce the same sign of the rotation quaternion, on a copy of the poses.
+  dq_W_E_vec = copy.deepcopy(dq_W_E_vec)
   for i in range(num_poses):
     dq_B_H = dq_B_H_vec[i]
     dq_W_E = dq_W_E_vec[i]
-- 
2.43.0


From f6f6172ca4db83d55f90cac89d27addb99ba2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:22 +0000
Subject: [PATCH 22/45] fix: report output folders whose name is taken by a
 file

create_path returned as if the folder existed when a file or a dangling
link had its name.
---
 .../python/hand_eye_calibration/bash_utils.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index e725529..3ff3fb1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -30,11 +30,11 @@ def run(cmd, dry_run=False):
 
 def create_path(path):
   directory = os.path.dirname(path)
-  if directory and not os.path.exists(directory):
+  if directory and not os.path.isdir(directory):
     try:
       os.makedirs(directory)
     except OSError as exc:  # Guard against race condition
-      if exc.errno != errno.EEXIST:
+      if exc.errno != errno.EEXIST or not os.path.isdir(directory):
         raise
 
 
-- 
2.43.0


From 87712ff56962883720dccb259f7c7d77f41077bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:27 +0000
Subject: [PATCH 23/45] fix: record the prefiltering setting in the result rows

---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 435cb26baa1944c7b0bf9197ed13c9f9893419e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:51 +0000
Subject: [PATCH 24/45] fix: keep the case of the sensor settings passed to the
 refinement

---
 .../bin/compute_set_of_hand_eye_calibrations.py                | 3 ++-
 .../bin/optimization_experiments.py                            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..71a7e86 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -222,7 +222,8 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(),
+              str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..0f82eb7 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,8 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(),
+        str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0


From 8d4fc254c2d39b8927090ac372a542cf802fe6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:30 +0000
Subject: [PATCH 25/45] fix: keep the experiment going when a pose pair cannot
 be calibrated

---
 .../compute_set_of_hand_eye_calibrations.py   | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 71a7e86..ebb39f7 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -182,16 +182,24 @@ if __name__ == "__main__":
 
         print("Computing hand-eye calibration...")
 
-        if hand_eye_config.use_baseline_approach:
-          (success, dq_H_E_initial_guess, rmse,
-           num_inliers, num_poses_kept,
-           runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
-              dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
-        else:
+        try:
+          if hand_eye_config.use_baseline_approach:
+            (success, dq_H_E_initial_guess, rmse,
+             num_inliers, num_poses_kept,
+             runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
+                dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+          else:
+            (success, dq_H_E_initial_guess, rmse,
+             num_inliers, num_poses_kept,
+             runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
+                dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+        except AssertionError as ex:
+          # A pair that cannot be calibrated must not stop the experiment.
+          print("Hand-eye calibration failed: {}".format(ex))
           (success, dq_H_E_initial_guess, rmse,
            num_inliers, num_poses_kept,
-           runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
-              dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+           runtime, singular_values, bad_singular_values) = (
+              False, None, (None, None), None, None, None, None, None)
 
         # Fill in result entries.
         result_entry.success.append(success)
@@ -205,9 +213,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -227,6 +236,7 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            assert success, "There is no initial guess to optimize."
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -317,7 +327,7 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if all(result_entry.success) and sum(result_entry.optimization_success) == num_pose_pairs:
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 9f3b296b3b810d8dee60e9211a8752b3c9277051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:30 +0000
Subject: [PATCH 26/45] fix: load result files without the removed np.bool
 alias

---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..d3f98f8 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', np.bool_, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', np.bool_, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', np.bool_, 1),
+      ('optimization_enabled', np.bool_, 1),
+      ('optimization_success', np.bool_, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 6f1e47fba6cf70d3e2bb360034165821fb8476ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:46 +0000
Subject: [PATCH 27/45] fix: load result files with a single row

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index d3f98f8..a9cd371 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -79,7 +79,8 @@ def collect_data_from_csv(csv_file_names, get_header=True):
 
   max_index = 0
   max_index_ds = 0
-  for row in data:
+  # A single row is loaded without the row dimension.
+  for row in np.atleast_1d(data):
     method = row[0]
     b_h_filename = row[4]
     w_e_filename = row[5]
-- 
2.43.0


From 2a3d29eb82d0e47396b0be56bfe16ec9ffa5ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:50 +0000
Subject: [PATCH 28/45] fix: export transforms with strictly increasing time
 stamps

---
 hand_eye_calibration/bin/tf_to_csv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..6c2bcd8 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -58,6 +58,11 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               tf_counter += 1
             continue
 
+          # Drop pose if it is not newer than the last exported one.
+          if not init and (single_tf.header.stamp.to_sec() <=
+                           end_time_tf_message.to_sec()):
+            continue
+
           # Initialize start time to first successful tf message lookup.
           if init:
             start_time_tf_message = single_tf.header.stamp
@@ -86,11 +91,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
             tf_interval_measured = (single_tf.header.stamp.to_sec() -
                                     tf_previous_timestamp.to_sec())
 
-            # Drop pose if the tf interval is zero.
-            if tf_interval_measured < 1e-8:
-              tf_previous_timestamp = single_tf.header.stamp
-              continue
-
             # If the interval deviates from the frequency by more than x
             # percent, print a warning.
             tf_interval_deviation_percent = abs(
@@ -110,7 +110,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message > start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From 0db88ad50c5d6ef6a4295e08bfacb053f3ecce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:30:09 +0000
Subject: [PATCH 29/45] fix: let --visualize=0 switch the plots off

---
 hand_eye_calibration/bin/compute_aligned_poses.py               | 2 +-
 hand_eye_calibration/bin/compute_hand_eye_calibration.py        | 2 +-
 .../bin/compute_set_of_hand_eye_calibrations.py                 | 2 +-
 .../bin/optimization_experiments.py                             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/bin/compute_aligned_poses.py b/hand_eye_calibration/bin/compute_aligned_poses.py
index 3ad5dd8..3554bef 100755
--- a/hand_eye_calibration/bin/compute_aligned_poses.py
+++ b/hand_eye_calibration/bin/compute_aligned_poses.py
@@ -49,7 +49,7 @@ if __name__ == '__main__':
       help='\'Hamilton\' [Default] or \'JPL\'. The input (and data in the output files) ' +
       'will be converted to Hamiltonian quaternions.')
 
-  parser.add_argument('--visualize', type=bool, default=False,
+  parser.add_argument('--visualize', type=lambda flag: flag.lower() in ('1', 'true', 'yes'), default=False,
                       help='Visualize the poses.')
 
   args = parser.parse_args()
diff --git a/hand_eye_calibration/bin/compute_hand_eye_calibration.py b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
index d46c281..37e9cff 100755
--- a/hand_eye_calibration/bin/compute_hand_eye_calibration.py
+++ b/hand_eye_calibration/bin/compute_hand_eye_calibration.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
            'dual-quaternion-based hand eye calibration and time alignment. '
            'Is used as a initial guess for the batch estimation.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=lambda flag: flag.lower() in ('1', 'true', 'yes'),
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index ebb39f7..b886b3f 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -45,7 +45,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=lambda flag: flag.lower() in ('1', 'true', 'yes'),
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 0f82eb7..69c4603 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -404,7 +404,7 @@ if __name__ == "__main__":
   parser.add_argument('--result_directory', type=str, required=True,
                       help='The path to the result directory.')
 
-  parser.add_argument('--visualize', type=bool,
+  parser.add_argument('--visualize', type=lambda flag: flag.lower() in ('1', 'true', 'yes'),
                       default=False, help='Visualize the poses.')
   parser.add_argument('--plot_every_nth_pose', type=int,
                       help='Plot only every n-th pose.', default=10)
-- 
2.43.0


From e7ef5266f6dc068666ecedaa46edb1a1289c83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:04 +0000
Subject: [PATCH 30/45] fix: plot the time alignment without the removed
 plt.hold

---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From 91a8a822310210aeb1f93ba958460a601d5c041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:09 +0000
Subject: [PATCH 31/45] fix: draw pose plots with current matplotlib

---
 .../hand_eye_calibration_plotting_tools.py                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
index 8b3f8a7..5a0b544 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/hand_eye_calibration_plotting_tools.py
@@ -17,11 +17,11 @@ class Arrow3D(FancyArrowPatch):
     FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
     self._verts3d = xs, ys, zs
 
-  def draw(self, renderer):
+  def do_3d_projection(self, renderer=None):
     xs3d, ys3d, zs3d = self._verts3d
-    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+    xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
     self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-    FancyArrowPatch.draw(self, renderer)
+    return np.min(zs)
 
 
 def compute_bbox_3D(poses_list):
@@ -38,7 +38,7 @@ def plot_poses(poses_list, plot_arrows=True, title="", blocking=True):
   title_position = 1.05
   fig = plt.figure()
   plt.clf()
-  ax = Axes3D(fig)
+  ax = fig.add_subplot(1, 1, 1, projection='3d')
 
   if title:
     fig.suptitle(title, fontsize='24')
-- 
2.43.0


From 3e842a928d49bfd006ed6b351c849a7ca810f308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:22 +0000
Subject: [PATCH 32/45] fix: stop the complete calibration at the first failing
 stage

The script went on after a failed stage and refined a calibration left
over from an earlier run.
---
 .../scripts/compute_complete_handeye_calibration.sh             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..73caaee 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,5 +1,7 @@
 #!/bin/bash
 
+set -e
+
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
 
-- 
2.43.0


From 1663fb6ceab187364901d3f6260e0248823fee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:22 +0000
Subject: [PATCH 33/45] fix: accept recording paths with spaces in the complete
 calibration

---
 .../compute_complete_handeye_calibration.sh   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 73caaee..c08e659 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -2,33 +2,33 @@
 
 set -e
 
-DATASET_DIR_A=`basename $1`
-DATASET_PATH_A=`dirname $1`
+DATASET_DIR_A=`basename "$1"`
+DATASET_PATH_A=`dirname "$1"`
 
-DATASET_DIR_B=`basename $2`
-DATASET_PATH_B=`dirname $2`
+DATASET_DIR_B=`basename "$2"`
+DATASET_PATH_B=`dirname "$2"`
 
 ALIGNED_POSES_A="${DATASET_PATH_A}/aligned_${DATASET_DIR_A}"
 ALIGNED_POSES_B="${DATASET_PATH_B}/aligned_${DATASET_DIR_B}"
 
 
 rosrun hand_eye_calibration compute_aligned_poses.py \
---poses_B_H_csv_file $1  \
---poses_W_E_csv_file $2 \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B \
+--poses_B_H_csv_file "$1"  \
+--poses_W_E_csv_file "$2" \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A" \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B" \
 --time_offset_output_csv_file time_offset.csv
 
 rosrun hand_eye_calibration compute_hand_eye_calibration.py \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A  \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B  \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A"  \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B"  \
 --time_offset_input_csv_file time_offset.csv \
 --calibration_output_json_file calibration.json \
 --visualize=0
 
 rosrun hand_eye_calibration_batch_estimation batch_estimator \
 --v 1 \
---pose1_csv $1 \
---pose2_csv $2 \
+--pose1_csv "$1" \
+--pose2_csv "$2" \
 --init_guess_file calibration.json \
 --output_file calibration_optimized.json
-- 
2.43.0


From 0ef0c006a9d66739821298e3db58c0add9fe467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:18 +0000
Subject: [PATCH 34/45] fix: allow for rounding when checking the perturbed
 initial guess

---
 .../bin/optimization_experiments.py                    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 69c4603..ab20313 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -69,17 +69,17 @@ def spoil_initial_guess(time_offset_initial_guess, dq_H_E_initial_guess, angular
   translation_spoiled = random_translation_offset + translation_initial_guess
   orientation_spoiled = random_quaternion_offset * orientation_initial_guess
 
-  # Check if we spoiled correctly.
+  # Check if we spoiled correctly, up to rounding.
   random_angle_offset = angle_between_quaternions(
       orientation_initial_guess, orientation_spoiled)
 
-  assert random_angle_offset <= angular_offset_range[1]
-  assert random_angle_offset >= angular_offset_range[0]
+  assert random_angle_offset <= angular_offset_range[1] + 1e-8
+  assert random_angle_offset >= angular_offset_range[0] - 1e-8
 
   assert np.linalg.norm(translation_spoiled -
-                        translation_initial_guess) <= translation_offset_range[1]
+                        translation_initial_guess) <= translation_offset_range[1] + 1e-8
   assert np.linalg.norm(translation_spoiled -
-                        translation_initial_guess) >= translation_offset_range[0]
+                        translation_initial_guess) >= translation_offset_range[0] - 1e-8
 
   # Get random orientation that distorts the original orientation by at most
   # max_angular_offset rad.
-- 
2.43.0


From 41bb7e6eb6d37b1fd7174fa28ee69765dc4bfdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:29 +0000
Subject: [PATCH 35/45] fix: load yaml files with current PyYAML

---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From 30a52d6b15a4e95f7b74d971315049ca8541bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:34 +0000
Subject: [PATCH 36/45] fix: keep the dots of bag names in the exported file
 names

Recordings such as run.1.bag and run.2.bag were exported to the same files.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index a05b865..83d2a27 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -3,6 +3,7 @@ from subprocess import call
 
 import argparse
 import copy
+import os
 import rospy
 import yaml
 
@@ -28,7 +29,7 @@ if __name__ == '__main__':
 
   for bag in bags:
     bag_name = bag['name']
-    bag_name_without_suffix = bag_name.split('.')[0]
+    bag_name_without_suffix = os.path.splitext(bag_name)[0]
     bag_path = bag['bag_path']
     intrinsics_path = bag['intrinsics_path']
     target_config_path = bag['target_config_path']
-- 
2.43.0


From 8256bbc1da3cb5623bd3fbe7026cc988cf920779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:43 +0000
Subject: [PATCH 37/45] fix: write the sequenced camera poses beside the output
 file

---
 hand_eye_calibration/bin/target_extractor_interface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index 501b613..48677ee 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 from subprocess import call
 import argparse
+import os
 import yaml
 
 
@@ -95,7 +96,9 @@ if __name__ == "__main__":
       'april_tag_number_pixel_boarder']
   te_config.april_tag_size_m = yaml_content['april_tag_size_m']
   te_config.april_tag_gap_size_m = yaml_content['april_tag_gap_size_m']
-  te_config.camera_pose_T_C_G_output_file = "sequenced_" + args.output_file
+  te_config.camera_pose_T_C_G_output_file = os.path.join(
+      os.path.dirname(args.output_file),
+      "sequenced_" + os.path.basename(args.output_file))
   te_config.camera_pose_T_C_G_output_file_timestamped = args.output_file
 
   call_target_extractor(te_config)
-- 
2.43.0


From 3696f30462774c68dbd84e9c6746777d91df9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:33 +0000
Subject: [PATCH 38/45] fix: keep refining the other pairs when a pair has no
 initial calibration

The optimization experiment stopped as a whole when the initial calibration of
one pose pair failed. The pair is now recorded as failed instead.
---
 .../bin/optimization_experiments.py           | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index ab20313..df0781c 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -178,16 +178,22 @@ def compute_initial_guess_for_all_pairs(set_of_pose_pairs, algorithm_name, hand_
 
     print("Computing hand-eye calibration to obtain an initial guess...")
 
-    if hand_eye_config.use_baseline_approach:
-      (success, dq_H_E_initial_guess, rmse,
-       num_inliers, num_poses_kept,
-       runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
-          dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
-    else:
-      (success, dq_H_E_initial_guess, rmse,
-       num_inliers, num_poses_kept,
-       runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
-          dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+    try:
+      if hand_eye_config.use_baseline_approach:
+        (success, dq_H_E_initial_guess, rmse,
+         num_inliers, num_poses_kept,
+         runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
+            dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+      else:
+        (success, dq_H_E_initial_guess, rmse,
+         num_inliers, num_poses_kept,
+         runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
+            dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+    except AssertionError as ex:
+      # A pair that cannot be calibrated must not stop the experiment.
+      print("Hand-eye calibration failed: {}".format(ex))
+      (success, dq_H_E_initial_guess, num_poses_kept, runtime, singular_values,
+       bad_singular_values) = (False, None, None, None, None, None)
 
     result_entry.success.append(success)
     result_entry.num_initial_poses.append(len(dual_quat_B_H_vec))
@@ -239,6 +245,20 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
     print("Found ", time_stamped_poses_W_E.shape[0],
           " poses in file: ", pose_file_W_E)
 
+    if dq_H_E_initial_guess is None:
+      print("There is no initial guess to optimize.")
+      result_entry.spoiled_initial_guess_angle_offset.append(None)
+      result_entry.spoiled_initial_guess_translation_offset.append(None)
+      result_entry.spoiled_initial_guess_time_offset.append(None)
+      result_entry.optimization_success.append(False)
+      result_entry.rmse.append((-1, -1))
+      result_entry.num_inliers.append(0)
+      result_entry.optimization_runtime.append(0.)
+      results_poses_H_E.append(None)
+      results_dq_H_E.append(None)
+      pose_pair_idx = pose_pair_idx + 1
+      continue
+
     # Spoil initial guess, for current pair.
     (time_offset_initial_guess_spoiled, dq_H_E_initial_guess_spoiled,
      (random_translation_offset, random_angle_offset,
-- 
2.43.0


From 934c7a20ab9e82288a06d27a450c0e535b50dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:33 +0000
Subject: [PATCH 39/45] fix: build tick labels of the perturbation plot from
 strings

Concatenating strings with integer or float character arrays raises TypeError in
Python 3, so the plot could not be drawn.
---
 .../bin/generate_plots.py                            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..6b53622 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -232,15 +232,15 @@ def generate_optimization_circle_error_plot(
       x_ticks_start = np.rint(loop_x[:-1] * 180 / np.pi).astype(int)
       x_ticks_end = np.rint(loop_x[1:] * 180 / np.pi).astype(int)
       x_tick_labels = (
-          '[' + np.char.array(x_ticks_start) + ',' +
-          np.char.array(x_ticks_end) + ')')
+          '[' + np.char.array(x_ticks_start.astype(str)) + ',' +
+          np.char.array(x_ticks_end.astype(str)) + ')')
     else:
       x_tick_labels = (
-          '[' + np.char.array(loop_x[:-1]) + ',' +
-          np.char.array(loop_x[1:]) + ')')
+          '[' + np.char.array(loop_x[:-1].astype(str)) + ',' +
+          np.char.array(loop_x[1:].astype(str)) + ')')
     y_tick_labels = (
-        '[' + np.char.array(loop_y[:-1]) + ',' +
-        np.char.array(loop_y[1:]) + ')')
+        '[' + np.char.array(loop_y[:-1].astype(str)) + ',' +
+        np.char.array(loop_y[1:].astype(str)) + ')')
     x_ticks = range(x_steps - 1)
     y_ticks = range(y_steps - 1)
     plt.setp(axes, xticks=x_ticks, xticklabels=x_tick_labels,
-- 
2.43.0


From 67dc084e7033ff7dcd2197473ffa99240307fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:33 +0000
Subject: [PATCH 40/45] fix: plot results of data sets that lack some method

A data set without a successful result for one of the methods raised KeyError.
The method is now drawn without values for this data set.
---
 hand_eye_calibration_experiments/bin/generate_plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index 6b53622..32fb70b 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -73,7 +73,8 @@ def generate_time_plot(methods, datasets, runtimes_per_method, colors):
   fig.suptitle("Hand-Eye Calibration Method Timings", fontsize='24')
   handles = []
   for i, dataset in enumerate(datasets):
-    runtimes = [runtimes_per_method[dataset][method] for method in methods]
+    runtimes = [runtimes_per_method[dataset].get(method, [])
+                for method in methods]
     bp = ax1.boxplot(
         runtimes, 0, '',
         positions=(x_ticks + (i - num_datasets / 2. + 0.5) *
@@ -315,8 +316,10 @@ if __name__ == '__main__':
     generate_box_plot(
         dataset,
         methods,
-        [position_rmses_per_method[dataset][method] for method in methods],
-        [orientation_rmses_per_method[dataset][method] for method in methods])
+        [position_rmses_per_method[dataset].get(method, [])
+         for method in methods],
+        [orientation_rmses_per_method[dataset].get(method, [])
+         for method in methods])
   generate_time_plot(methods, datasets, runtimes_per_method, colors)
 
   # Decide here what to plot against what.
-- 
2.43.0


From 9b38262086b58e1952cfddd412a2e91019033ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:47 +0000
Subject: [PATCH 41/45] fix: leave failed refinements out of the loaded results

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index a9cd371..304e0cd 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -84,7 +84,8 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     method = row[0]
     b_h_filename = row[4]
     w_e_filename = row[5]
-    success = row[6]
+    # A failed refinement leaves no result (always True without refinement).
+    success = row[6] and row[18]
     position_rmse = row[7]
     orientation_rmse = row[8]
     runtime = row[12]
-- 
2.43.0


From 6f10af9fcf43d61e1f3efd3f6adb2583939fb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:09 +0000
Subject: [PATCH 42/45] fix: start refinements for file names with spaces

---
 .../bin/compute_set_of_hand_eye_calibrations.py       | 11 ++++++++---
 .../bin/optimization_experiments.py                   | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index b886b3f..1412e00 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -12,6 +12,11 @@ import timeit
 
 import numpy as np
 
+try:
+  from shlex import quote
+except ImportError:  # Python 2
+  from pipes import quote
+
 from hand_eye_calibration.dual_quaternion import DualQuaternion
 from hand_eye_calibration.quaternion import (
     Quaternion, angle_between_quaternions)
@@ -242,9 +247,9 @@ if __name__ == "__main__":
               --pose1_csv=%s --pose2_csv=%s \
               --init_guess_file=%s \
               --output_file=%s \
-              --model_config=%s" % (pose_file_B_H, pose_file_W_E,
-                                    initial_guess_calibration_file,
-                                    optimized_calibration_file,
+              --model_config=%s" % (quote(pose_file_B_H), quote(pose_file_W_E),
+                                    quote(initial_guess_calibration_file),
+                                    quote(optimized_calibration_file),
                                     model_config_string))
             optimization_end_time = timeit.default_timer()
             optimization_runtime = optimization_end_time - optimization_start_time
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index df0781c..3cae4ba 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -15,6 +15,11 @@ from functools import partial
 import numpy as np
 from multiprocessing import Pool
 
+try:
+  from shlex import quote
+except ImportError:  # Python 2
+  from pipes import quote
+
 from hand_eye_calibration.dual_quaternion import DualQuaternion
 from hand_eye_calibration.quaternion import (
     Quaternion, angle_between_quaternions)
@@ -332,9 +337,9 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
           --pose1_csv=%s --pose2_csv=%s \
           --init_guess_file=%s \
           --output_file=%s \
-          --model_config=%s" % (pose_file_B_H, pose_file_W_E,
-                                initial_guess_calibration_file,
-                                optimized_calibration_file,
+          --model_config=%s" % (quote(pose_file_B_H), quote(pose_file_W_E),
+                                quote(initial_guess_calibration_file),
+                                quote(optimized_calibration_file),
                                 model_config_string))
       optimization_end_time = timeit.default_timer()
       optimization_runtime = optimization_end_time - optimization_start_time
-- 
2.43.0


From 25d853db2b9d34b8bfc6333a5905257710e1b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:19 +0000
Subject: [PATCH 43/45] fix: accept outlier probabilities of zero and one when
 ending RANSAC early

The number of required iterations was computed with logarithms that are
undefined or zero when the outlier probability is 0 or 1, or when the success
probability is 1. Comparing the probability of failure directly gives the same
decision for all other values.
---
 .../dual_quaternion_hand_eye_calibration.py                  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 983f393..daf1f85 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -913,9 +913,8 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
       s = config.ransac_sample_size
       w = (1.0 - config.ransac_outlier_probability)  # Inlier probability
       w_pow_s = w ** s
-      required_iterations = (math.log(1. - config.ransac_success_probability_threshold) /
-                             math.log(1. - w_pow_s))
-      if (full_iterations > required_iterations):
+      failure_probability = (1. - w_pow_s) ** full_iterations
+      if (failure_probability < 1. - config.ransac_success_probability_threshold):
         print("Reached a {}% probability that RANSAC succeeded in finding a sample "
               "containing only inliers, aborting ...".format(
                   config.ransac_success_probability_threshold * 100.))
-- 
2.43.0


From b4d3f8d59335cf96f569d3fac64d28fb64d468ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:40 +0000
Subject: [PATCH 44/45] fix: accept lists when creating quaternions

The class documentation offers Quaternion(q=[x, y, z, w]), but only arrays
were accepted.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index fc58827..207badb 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -21,6 +21,8 @@ class Quaternion(object):
       self.q = np.array([x, y, z, w]).T
     elif isinstance(q, np.ndarray):
       self.q = q.copy()
+    elif isinstance(q, list):
+      self.q = np.array(q)
     else:
       print("This is not supported. Type of q is {}".format(type(q)))
       assert False
-- 
2.43.0


From 74a0f66f3512ff90eb07e0613dcebd60517acd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:11 +0000
Subject: [PATCH 45/45] fix: take position and orientation from the same pose
 at repeated time stamps

---
 .../python/hand_eye_calibration/time_alignment.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 3fc06b1..b0008b2 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -72,7 +72,9 @@ def resample_quaternions_from_samples(times, quaternions, samples):
 
     right_idx = bisect.bisect_left(times, sample)
     if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
-      interp_quaternions.append(quaternions[right_idx].copy())
+      # Use the last of several equal time stamps, as done for the positions.
+      last_idx = bisect.bisect_right(times, times[right_idx]) - 1
+      interp_quaternions.append(quaternions[last_idx].copy())
     else:
       left_idx = right_idx - 1
       assert right_idx < times.shape[0], end_idx
-- 
2.43.0

