From 455b2538fe288412ce818b624c7e1a16dfbccc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 01/33] fix: do not modify the time array passed to a ProMP

---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 9ab997d..fdca912 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -493,7 +493,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         activations = np.exp(
             -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))
@@ -555,7 +555,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
-- 
2.43.0


From e162884743b743004b50b2f825f0e334f69874fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 02/33] fix: use gains of the matching velocity dimension in
 dual Cartesian smooth scaling

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 movement_primitives/dmp_fast.pyx               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index ed05aac..71ef423 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -117,7 +117,7 @@ def dmp_step_dual_cartesian_python(
                     tracking_error[ops]) / dt
 
         if smooth_scaling:
-            smoothing = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+            smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
         else:
             smoothing = 0.0
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 55743f2..e122b45 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -638,7 +638,7 @@ cpdef dmp_step_dual_cartesian(
         # position components
         for pps, pvs in POS_INDICES:
             if smooth_scaling:
-                smoothing_pos = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+                smoothing_pos = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
             else:
                 smoothing_pos = 0.0
             current_ydd[pvs] = (
-- 
2.43.0


From e36a4c08ac78423fd203ca0e4480eeea1f0fcdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 03/33] fix: do not accumulate tracking error over internal
 steps of dual Cartesian DMP

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 71ef423..9705391 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -106,6 +106,8 @@ def dmp_step_dual_cartesian_python(
 
         if coupling_term is not None:
             cd[:], cdd[:] = coupling_term.coupling(current_y, current_yd)
+        else:
+            cd[:], cdd[:] = 0.0, 0.0
 
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
-- 
2.43.0


From 340ea4e1835acee4f08e056bb8feb97f7a8fd082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 04/33] fix: place basis functions relative to the start time

---
 movement_primitives/dmp/_forcing_term.py        | 3 +--
 movement_primitives/dmp/_state_following_dmp.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index 3a88202..d6e983b 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -60,8 +60,7 @@ class ForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_weights_per_dim):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 00cb73a..c38eab3 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -101,8 +101,7 @@ class StateFollowingForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_viapoints):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From d1cce942a13206696c76ad0cbd3581de789c8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 05/33] fix: start open loop of dual Cartesian DMP from the
 start state

---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 9705391..1b04bdc 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -356,7 +356,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
 
         if run_t is None:
             run_t = self.execution_time_
-        self.t = 0.0
+        self.reset()
         T = [self.t]
         Y = [np.copy(self.start_y)]
         y = np.copy(self.start_y)
-- 
2.43.0


From 8a9d087943fc221b9db17c8e8afee161061d2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 06/33] fix: return copies of the state from
 StateFollowingDMP.step

---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index c38eab3..5f1c0b2 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -60,7 +60,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
             forcing_term=self.forcing_term,
             coupling_term=coupling_term,
             int_dt=self.int_dt)
-        return self.current_y, self.current_yd
+        return np.copy(self.current_y), np.copy(self.current_yd)
 
     def open_loop(self, run_t=None, coupling_term=None):
         return state_following_dmp_open_loop(
-- 
2.43.0


From 26ce072e6d3c08ea1adf65e1465a1ee7cede9ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 07/33] fix: initialize the width of a single via-point

---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 5f1c0b2..f88ad33 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -94,7 +94,7 @@ class StateFollowingForcingTerm:
         self.log_overlap = float(-math.log(self.overlap))
         self.execution_time = self.goal_t - self.start_t
         self.centers = np.empty(n_viapoints)
-        self.widths = np.empty(n_viapoints)
+        self.widths = np.zeros(n_viapoints)
         step = self.execution_time / self.n_viapoints
         # do first iteration outside loop because we need access to i and i - 1
         # in loop
-- 
2.43.0


From b64bf9bdeddab901378206a73d960192a114dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 08/33] fix: return a copy of the weights

---
 movement_primitives/dmp/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 2bfa240..6ff30c3 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -41,7 +41,7 @@ class WeightParametersMixin:
         weights : array, shape (N * n_weights_per_dim,)
             Current weights of the DMP. N depends on the type of DMP
         """
-        return self.forcing_term.weights_.ravel()
+        return self.forcing_term.weights_.flatten()
 
     def set_weights(self, weights):
         """Set weight vector of DMP.
-- 
2.43.0


From 62039ff80f0bb502630715dad877368bd896e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:08 +0000
Subject: [PATCH 09/33] fix: copy the weight distribution passed to a ProMP

---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index fdca912..c4239b6 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -297,8 +297,8 @@ class ProMP:
         self : ProMP
             This object
         """
-        self.weight_mean = mean
-        self.weight_cov = cov
+        self.weight_mean = np.copy(mean)
+        self.weight_cov = np.copy(cov)
         return self
 
     def imitate(self, Ts, Ys, n_iter=1000, min_delta=1e-5, verbose=0):
-- 
2.43.0


From 0caab88c909064cf037c738a57e2730ddfae5fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 10/33] fix: check all parameters of configure before changing
 any of them

---
 movement_primitives/base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index d9ef74e..859a295 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -107,26 +107,33 @@ class PointToPointMovement(abc.ABC):
         ValueError
             If the length of the configured meta parameter is not correct.
         """
+        if start_y is not None:
+            check_1d_array_length(start_y, "start_y", self.n_dims)
+        if start_yd is not None:
+            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
+        if start_ydd is not None:
+            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
+        if goal_y is not None:
+            check_1d_array_length(goal_y, "goal_y", self.n_dims)
+        if goal_yd is not None:
+            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
+        if goal_ydd is not None:
+            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
+
         if t is not None:
             self.t = t
 
         if start_y is not None:
-            check_1d_array_length(start_y, "start_y", self.n_dims)
             self.start_y = start_y
         if start_yd is not None:
-            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
             self.start_yd = start_yd
         if start_ydd is not None:
-            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
             self.start_ydd = start_ydd
         if goal_y is not None:
-            check_1d_array_length(goal_y, "goal_y", self.n_dims)
             self.goal_y = goal_y
         if goal_yd is not None:
-            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
             self.goal_yd = goal_yd
         if goal_ydd is not None:
-            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
             self.goal_ydd = goal_ydd
 
     @abc.abstractmethod
-- 
2.43.0


From 091b00933f33180b055baff27873be7fc573ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 11/33] fix: copy start and goal passed to configure

---
 movement_primitives/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index 859a295..9475361 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -124,17 +124,17 @@ class PointToPointMovement(abc.ABC):
             self.t = t
 
         if start_y is not None:
-            self.start_y = start_y
+            self.start_y = np.array(start_y, dtype=float)
         if start_yd is not None:
-            self.start_yd = start_yd
+            self.start_yd = np.array(start_yd, dtype=float)
         if start_ydd is not None:
-            self.start_ydd = start_ydd
+            self.start_ydd = np.array(start_ydd, dtype=float)
         if goal_y is not None:
-            self.goal_y = goal_y
+            self.goal_y = np.array(goal_y, dtype=float)
         if goal_yd is not None:
-            self.goal_yd = goal_yd
+            self.goal_yd = np.array(goal_yd, dtype=float)
         if goal_ydd is not None:
-            self.goal_ydd = goal_ydd
+            self.goal_ydd = np.array(goal_ydd, dtype=float)
 
     @abc.abstractmethod
     def step(self, last_y, last_yd):
-- 
2.43.0


From d688c1eb91553f9a17bf9b0658a12aaf37682af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 12/33] fix: apply coupling in the Python Euler step as in the
 compiled one

---
 movement_primitives/dmp/_dmp.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 99ceec8..b8cf156 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -308,22 +308,18 @@ def dmp_step_euler(
                 cd += coupling_term_precomputed[0]
                 cdd += coupling_term_precomputed[1]
         else:
-            cd, cdd = None, None
+            cd, cdd = coupling_term.coupling(current_y, current_yd)
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
         tdd = p_gain * tracking_error / dt
 
         ydd = _dmp_acc(
             current_y, current_yd, cdd, alpha_y, beta_y, goal_y, goal_yd,
-            goal_ydd, start_y, z, execution_time, f, coupling_term, tdd,
+            goal_ydd, start_y, z, execution_time, f, None, tdd,
             smooth_scaling)
-        current_yd += dt * ydd
+        current_yd += dt * ydd + cd / execution_time
         current_y += dt * current_yd
 
-        if coupling_term is not None:
-            cd, _ = coupling_term.coupling(current_y, current_yd)
-            current_yd += cd / execution_time
-
 
 DMP_STEP_FUNCTIONS = {
     "rk4": dmp_step_rk4,
-- 
2.43.0


From 48e47328273166c04fa7484017bdfb51647383c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 13/33] fix: apply precomputed velocity coupling in RK4 steps

---
 movement_primitives/dmp/_dmp.py  | 2 +-
 movement_primitives/dmp_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index b8cf156..3938e7c 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -129,7 +129,7 @@ def dmp_step_rk4(
 
     if coupling_term is not None:
         cd, _ = coupling_term.coupling(current_y, current_yd)
-        current_yd += cd / execution_time
+    current_yd += cd / execution_time
 
 
 def _dmp_acc(Y, V, cdd, alpha_y, beta_y, goal_y, goal_yd, goal_ydd,
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index e122b45..3f7b17a 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -328,7 +328,7 @@ cpdef dmp_step_rk4(
 
     if coupling_term is not None:
         cd[:], _ = coupling_term.coupling(current_y, current_yd)
-        current_yd += cd / execution_time
+    current_yd += cd / execution_time
 
 
 cdef _dmp_acc(
-- 
2.43.0


From ab379ae864ce7edd2bbc478625826f301dec7fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 14/33] fix: keep execution time when an invalid one is
 rejected

---
 movement_primitives/dmp/_cartesian_dmp.py           | 2 ++
 movement_primitives/dmp/_dmp.py                     | 2 ++
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 0182b46..951d08d 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -259,6 +259,8 @@ class CartesianDMP(DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything is changed
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights_pos = self.forcing_term_pos.weights_
         weights_rot = self.forcing_term_rot.weights_
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 3938e7c..1ed2368 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -432,6 +432,8 @@ class DMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything is changed
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index f3aa026..ef8cd19 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -84,6 +84,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything is changed
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 1b04bdc..dedb7d4 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -261,6 +261,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        # raises an error before anything is changed
+        canonical_system_alpha(0.01, execution_time, 0.0)
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
-- 
2.43.0


From 19b60cead6fd7f110150e35fe6fa1629e06fade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 15/33] fix: limit argument of arccos in pose distance from
 below

---
 movement_primitives/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a96015d..4f44bdd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -496,7 +496,7 @@ def pose_dist(
     ee_actual2ee_desired = np.linalg.inv(ee2base_actual).dot(ee2base_desired)
     trace = (ee_actual2ee_desired[0, 0] + ee_actual2ee_desired[1, 1]
              + ee_actual2ee_desired[2, 2])
-    angle = math.acos(min((trace - 1.0) / 2.0, 1.0))
+    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))
     orientation_error = min(angle, 2.0 * math.pi - angle)
     position_error = math.sqrt(
         ee_actual2ee_desired[0, 3] ** 2 + ee_actual2ee_desired[1, 3] ** 2
-- 
2.43.0


From 79d9a8c42ada03b7b51fda322338d86bc8f55dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 16/33] fix: search for local inverse kinematics solution in
 given interval

---
 movement_primitives/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 4f44bdd..a5243ba 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -383,7 +383,8 @@ class Chain:
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
-                desired_pose, q, return_error=True, solver=solver,
+                desired_pose, q, return_error=True, bounds=bounds,
+                solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
             Q.append(q)
-- 
2.43.0


From da656daa32cebc9fa61c7d621b8202b2d5028397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 17/33] fix: use the requested solver in inverse_trajectory

---
 movement_primitives/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a5243ba..9a14995 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -463,7 +463,7 @@ class Chain:
 
         if initial_joint_angles is None:
             Q[0] = self.inverse_with_random_restarts(
-                H[0], random_state=random_state,
+                H[0], random_state=random_state, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
         else:
@@ -478,6 +478,7 @@ class Chain:
             if random_restarts:
                 Q[t] = self.local_inverse_with_random_restarts(
                     H[t], Q[t - 1], interval, random_state=random_state,
+                    solver=solver,
                     orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
-- 
2.43.0


From 39b8df56a98b7f3f55eabcf0b4d46a65f98afb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 18/33] fix: respect joint limits when searching in an interval

---
 movement_primitives/kinematics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 9a14995..d4fafb2 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -380,6 +380,8 @@ class Chain:
         bounds = np.empty((self.n_joints, 2))
         bounds[:, 0] = joint_angles - interval
         bounds[:, 1] = joint_angles + interval
+        bounds = np.clip(
+            bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
@@ -485,6 +487,8 @@ class Chain:
                 bounds = np.empty((self.n_joints, 2), dtype=float)
                 bounds[:, 0] = Q[t - 1] - interval
                 bounds[:, 1] = Q[t - 1] + interval
+                bounds = np.clip(
+                    bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])
                 Q[t] = self.inverse(
                     H[t], Q[t - 1], False, bounds, solver=solver,
                     orientation_weight=orientation_weight,
-- 
2.43.0


From 010586cc7fe3a382f43c27f28bc350b325924dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 19/33] fix: convert tuples of nested objects when writing YAML

---
 movement_primitives/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index b66f1d9..22f6476 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -126,7 +126,7 @@ def _recursive_to_dict(obj, convert_tuple=False):
         elif isinstance(v, np.ndarray):
             result[k] = v.tolist()
         else:
-            result[k] = _recursive_to_dict(v)
+            result[k] = _recursive_to_dict(v, convert_tuple)
     return result
 
 
-- 
2.43.0


From 2811a09aa4a531d8ad78a17ceb3caff5579f469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 20/33] fix: write NumPy scalars as numbers

---
 movement_primitives/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index 22f6476..e95af6b 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -119,7 +119,9 @@ def read_json(filename):
 def _recursive_to_dict(obj, convert_tuple=False):
     result = {"module": obj.__module__, "class": obj.__class__.__name__}
     for k, v in obj.__dict__.items():
-        if convert_tuple and isinstance(v, tuple):
+        if isinstance(v, np.generic):
+            result[k] = v.item()
+        elif convert_tuple and isinstance(v, tuple):
             result[k] = list(v)
         elif isinstance(v, basic_types_and_sequences):
             result[k] = v
-- 
2.43.0


From b706e258bab13da1b55d22c3791bb553823754a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:11 +0000
Subject: [PATCH 21/33] fix: do not share the default random state between
 calls

---
 movement_primitives/data/_toy_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/data/_toy_1d.py b/movement_primitives/data/_toy_1d.py
index d93fe03..184921c 100644
--- a/movement_primitives/data/_toy_1d.py
+++ b/movement_primitives/data/_toy_1d.py
@@ -3,7 +3,7 @@ import numpy as np
 
 def generate_1d_trajectory_distribution(
         n_demos, n_steps, initial_offset_range=3.0, final_offset_range=0.1,
-        noise_per_step_range=20.0, random_state=np.random.RandomState(0)):
+        noise_per_step_range=20.0, random_state=None):
     """Generates toy data for testing and demonstration.
 
     Parameters
@@ -34,6 +34,9 @@ def generate_1d_trajectory_distribution(
     Y : array, shape (n_demos, n_steps, 1)
         Demonstrations (positions)
     """
+    if random_state is None:
+        random_state = np.random.RandomState(0)
+
     T = np.linspace(0, 1, n_steps)
     Y = np.empty((n_demos, n_steps, 1))
 
-- 
2.43.0


From 3fba5de5c3409358c13c8e74862910a0b11bb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:05 +0000
Subject: [PATCH 22/33] fix: scale obstacle avoidance in potential field like
 the DMP does

---
 movement_primitives/dmp_potential_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 68171b7..f171b66 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -64,7 +64,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     if obstacle is None:
         ct = np.zeros_like(ts)
     else:
-        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+        ct = obstacle_avoidance_acceleration_2d(
+            Y, Yd, obstacle) / dmp.execution_time_ ** 2
 
     acc = ft + ts + ct
     return xx, yy, ft, ts, ct, acc
-- 
2.43.0


From c7edefa22f0af412633e50f0d00d6c61b6ff4ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:05 +0000
Subject: [PATCH 23/33] fix: show smooth scaling in potential field only if the
 DMP uses it

---
 movement_primitives/dmp/_dmp.py            | 8 ++++++--
 movement_primitives/dmp_potential_field.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 1ed2368..d8ff891 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -594,13 +594,17 @@ class DMP(WeightParametersMixin, DMPBase):
 
 def dmp_transformation_system(
         Y, V, alpha_y, beta_y, goal_y, goal_yd, goal_ydd, start_y, z,
-        execution_time):
+        execution_time, smooth_scaling=True):
     """Compute acceleration generated by transformation system of DMP."""
+    if smooth_scaling:
+        smoothing = beta_y * (goal_y - start_y) * z
+    else:
+        smoothing = 0.0
     return (
         alpha_y * (
             beta_y * (goal_y - Y)
             + execution_time * (goal_yd - V)
-            - beta_y * (goal_y - start_y) * z
+            - smoothing
         )
     ) / execution_time ** 2 + goal_ydd
 
diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index f171b66..9daa969 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -57,7 +57,7 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     z = dmp.forcing_term.phase(dmp.t)
     ts = dmp_transformation_system(
         Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
-        dmp.start_y, z, dmp.execution_time_)
+        dmp.start_y, z, dmp.execution_time_, dmp.smooth_scaling)
     ft = np.empty_like(ts)
     ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()
 
-- 
2.43.0


From 9a175e48f779334c47a6990e918951b448ac21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:05 +0000
Subject: [PATCH 24/33] fix: compute ProMP velocities with respect to the given
 time

---
 movement_primitives/promp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index c4239b6..4c5043d 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -555,9 +555,10 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T = T / np.max(T)
+        t_max = np.max(T)
+        T = T / t_max
 
-        rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
+        rbfs_deriv = (self.centers[:, np.newaxis] - T) / (h * t_max)
         rbfs_deriv *= rbfs
         rbfs_deriv_sum_per_step = rbfs_deriv.sum(axis=0)
         rbfs_deriv = (
-- 
2.43.0


From fe3d1361918fffc31ea8dd521e9240c4f6ade6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:05 +0000
Subject: [PATCH 25/33] fix: start open loop execution with the configured
 velocity

---
 movement_primitives/dmp/_cartesian_dmp.py       | 15 +++++++++++----
 movement_primitives/dmp/_dmp.py                 |  4 +++-
 movement_primitives/dmp/_state_following_dmp.py | 10 ++++++----
 movement_primitives/spring_damper.py            | 12 ++++++------
 4 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 951d08d..9d0e48c 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -376,7 +376,9 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function=step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd[:3], start_ydd=self.start_ydd[:3],
+            goal_yd=self.goal_yd[:3], goal_ydd=self.goal_ydd[:3])
         try:
             quaternion_step_function = CARTESIAN_DMP_STEP_FUNCTIONS[
                 quaternion_step_function]
@@ -392,7 +394,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             quaternion_step_function,
-            self.smooth_scaling)
+            self.smooth_scaling,
+            start_yd=self.start_yd[3:])
         return T, np.hstack((Yp, Yr))
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
@@ -635,7 +638,7 @@ def dmp_open_loop_quaternion(
         coupling_term=None, run_t=None, int_dt=0.001,
         quaternion_step_function=CARTESIAN_DMP_STEP_FUNCTIONS[
             DEFAULT_CARTESIAN_DMP_STEP_FUNCTION],
-        smooth_scaling=False):
+        smooth_scaling=False, start_yd=None):
     """Run Cartesian DMP without external feedback.
 
     Parameters
@@ -682,6 +685,9 @@ def dmp_open_loop_quaternion(
         is changed and the trajectory is scaled by interpolating between
         the old and new scaling of the trajectory.
 
+    start_yd : array, shape (3,), optional (default: 0)
+        Start velocity.
+
     Returns
     -------
     T : array, shape (n_steps,)
@@ -692,7 +698,8 @@ def dmp_open_loop_quaternion(
     """
     goal_yd = np.zeros(3)
     goal_ydd = np.zeros(3)
-    start_yd = np.zeros(3)
+    if start_yd is None:
+        start_yd = np.zeros(3)
     start_ydd = np.zeros(3)
 
     if run_t is None:
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index d8ff891..2820aae 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -545,7 +545,9 @@ class DMP(WeightParametersMixin, DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd, start_ydd=self.start_ydd,
+            goal_yd=self.goal_yd, goal_ydd=self.goal_ydd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index f88ad33..3286d3c 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -66,7 +66,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
         return state_following_dmp_open_loop(
             self.execution_time, 0.0, self.dt_, self.start_y, self.goal_y,
             self.alpha_y, self.beta_y, self.forcing_term, coupling_term, run_t,
-            self.int_dt)
+            self.int_dt, start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
@@ -168,10 +168,12 @@ def state_following_dmp_step(
 
 def state_following_dmp_open_loop(
         goal_t, start_t, dt, start_y, goal_y, alpha_y, beta_y, forcing_term,
-        coupling_term=None, run_t=None, int_dt=0.001):
+        coupling_term=None, run_t=None, int_dt=0.001, start_yd=None):
+    if start_yd is None:
+        start_yd = np.zeros_like(start_y)
     t = start_t
     y = np.copy(start_y)
-    yd = np.zeros_like(y)
+    yd = np.copy(start_yd)
     T = [start_t]
     Y = [np.copy(y)]
     if run_t is None:
@@ -183,7 +185,7 @@ def state_following_dmp_open_loop(
             last_t, t, y, yd,
             goal_y=goal_y, goal_yd=np.zeros_like(goal_y),
             goal_ydd=np.zeros_like(goal_y),
-            start_y=start_y, start_yd=np.zeros_like(start_y),
+            start_y=start_y, start_yd=start_yd,
             start_ydd=np.zeros_like(start_y),
             goal_t=goal_t, start_t=start_t, alpha_y=alpha_y, beta_y=beta_y,
             forcing_term=forcing_term, coupling_term=coupling_term,
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 66f9869..4fefb18 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -110,7 +110,7 @@ class SpringDamper(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt, start_yd=self.start_yd)
 
 
 class SpringDamperOrientation(PointToPointMovement):
@@ -212,7 +212,7 @@ class SpringDamperOrientation(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt, start_yd=self.start_yd)
 
 
 def spring_damper_step(
@@ -282,9 +282,9 @@ def spring_damper_step_quaternion(
 
 def spring_damper_open_loop(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros_like(start_y)
+    yd = np.zeros_like(start_y) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
@@ -299,9 +299,9 @@ def spring_damper_open_loop(
 
 def spring_damper_open_loop_quaternion(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros(3)
+    yd = np.zeros(3) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
-- 
2.43.0


From 0952f6e027c52c6d980c73208920f9464cb06108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:50 +0000
Subject: [PATCH 26/33] fix: start the first step after a reset in the
 configured start state

---
 movement_primitives/dmp/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 6ff30c3..0a813f4 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -24,6 +24,7 @@ class DMPBase(PointToPointMovement):
         self.last_t = None
         self.current_y = np.copy(self.start_y)
         self.current_yd = np.copy(self.start_yd)
+        self.initialized = False
 
 
 class WeightParametersMixin:
-- 
2.43.0


From 9695534cf1211d7639106654229e05c287918e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:59 +0000
Subject: [PATCH 27/33] fix: reject states of wrong length before the clock is
 advanced

---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 movement_primitives/spring_damper.py                | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index ef8cd19..61888a0 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -115,6 +115,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_dims
         self.last_t = self.t
         self.t += self.dt_
 
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 4fefb18..fe26d86 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -68,6 +68,8 @@ class SpringDamper(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
         self.last_t = self.t
         self.t += self.dt
 
@@ -170,6 +172,8 @@ class SpringDamperOrientation(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
         self.last_t = self.t
         self.t += self.dt
 
-- 
2.43.0


From 5db22ca53162027f760e2fbc9ba11ac48248a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:11:06 +0000
Subject: [PATCH 28/33] fix: keep the desired distance of 3D coupling terms as
 array

---
 movement_primitives/dmp/_coupling_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index cdf5085..4242c9f 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -328,7 +328,7 @@ class CouplingTermPos3DToPos3D:
        https://h2t.anthropomatik.kit.edu/pdf/Gams2013.pdf
     """
     def __init__(self, desired_distance, lf, k=1.0, c1=1.0, c2=30.0):
-        self.desired_distance = desired_distance
+        self.desired_distance = np.asarray(desired_distance)
         self.lf = lf
         self.k = k
         self.c1 = c1
-- 
2.43.0


From 5d2ca35a4827cc6bdfb782574037f681f4991c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:30 +0000
Subject: [PATCH 29/33] fix: reach the goal of minimum jerk trajectories for
 any time step

---
 movement_primitives/data/_minimum_jerk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_minimum_jerk.py b/movement_primitives/data/_minimum_jerk.py
index 6c4dbed..996652c 100644
--- a/movement_primitives/data/_minimum_jerk.py
+++ b/movement_primitives/data/_minimum_jerk.py
@@ -68,7 +68,7 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
 
     X[0] = x
     for t in range(1, n_steps):
-        tau = execution_time - t * dt
+        tau = (n_steps - 1 - t) * dt
 
         if tau >= dt:
             dist = g - x
-- 
2.43.0


From 3982fbac2b1dfb6571f9b97dcf641568c9e29ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:22:48 +0000
Subject: [PATCH 30/33] fix: draw limits of distributions without given color

---
 movement_primitives/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/plot.py b/movement_primitives/plot.py
index 465e50e..cbca172 100644
--- a/movement_primitives/plot.py
+++ b/movement_primitives/plot.py
@@ -158,9 +158,9 @@ def plot_distribution_in_rows(
                     mean[:, i] + f * std_dev[:, i], color=color, alpha=alpha,
                     label=label if f_idx == 0 else None)
             else:
-                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color, ls="--",
+                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color=color, ls="--",
                              label=label if f_idx == 0 else None)
-                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color, ls="--")
+                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color=color, ls="--")
 
     if newaxes:
         layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]),
-- 
2.43.0


From 3c2ddae743fdd34444ce69a5e39400e083798c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:01 +0000
Subject: [PATCH 31/33] fix: document the actual default gains and step
 function

---
 movement_primitives/dmp/_cartesian_dmp.py  | 2 +-
 movement_primitives/dmp/_coupling_terms.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 9d0e48c..2e03afa 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -347,7 +347,7 @@ class CartesianDMP(DMPBase):
         coupling_term : object, optional (default: None)
             Coupling term that will be added to velocity.
 
-        step_function : str, optional (default: 'rk4')
+        step_function : str, optional (default: 'rk4-cython')
             DMP integration function. Possible options: 'rk4', 'euler',
             'euler-cython', 'rk4-cython'.
 
diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 4242c9f..84551d9 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -311,7 +311,7 @@ class CouplingTermPos3DToPos3D:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -371,7 +371,7 @@ class CouplingTermDualCartesianDistance:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -428,7 +428,7 @@ class CouplingTermDualCartesianPose:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -555,7 +555,7 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
-- 
2.43.0


From 1e07dd520f35a5e26e9b596c58fb8b9ef233d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:27:56 +0000
Subject: [PATCH 32/33] fix: keep the shape of batches with one state in
 obstacle avoidance

---
 movement_primitives/dmp/_coupling_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 84551d9..94adb02 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -62,7 +62,7 @@ def obstacle_avoidance_acceleration_2d(
         rotated_velocity = rotated_velocity.reshape(*(shape + (2,)))
     cdd = (gamma * rotated_velocity
            * (theta * np.exp(-beta * theta))[..., np.newaxis])
-    return np.squeeze(cdd)
+    return cdd.reshape(y.shape)
 
 
 class CouplingTermObstacleAvoidance2D:
-- 
2.43.0


From fbcde7fc666583b559f937ace5a1c8c2a5fe4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:56:42 +0000
Subject: [PATCH 33/33] fix: reject weight vectors of wrong size in
 CartesianDMP.set_weights

Too short vectors could overwrite the position weights before an error was
raised, or were silently repeated for all orientation dimensions.
---
 movement_primitives/dmp/_cartesian_dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 2e03afa..9b82b9f 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -461,10 +461,12 @@ class CartesianDMP(DMPBase):
             New weights of the DMP.
         """
         n_pos_weights = self.forcing_term_pos.weights_.size
-        self.forcing_term_pos.weights_[:, :] = weights[:n_pos_weights].reshape(
-            -1, self.n_weights_per_dim)
-        self.forcing_term_rot.weights_[:, :] = weights[n_pos_weights:].reshape(
-            -1, self.n_weights_per_dim)
+        weights_pos = weights[:n_pos_weights].reshape(
+            *self.forcing_term_pos.shape)
+        weights_rot = weights[n_pos_weights:].reshape(
+            *self.forcing_term_rot.shape)
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
 
 def dmp_quaternion_imitation(
-- 
2.43.0

