From 5d8509649252b1a5e571168d1bab8dd2a9d7f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 01/15] fix: Godunov flux wrong when a shock moves upstream
 into a supersonic state

The supersonic shortcuts returned the flux of the supersonic side without
checking whether the other side drives a shock back through the interface.
---
 dg1d/euler_physics.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 9d3871f..8dd516c 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -106,16 +106,20 @@ def riemann_godunov(ul, ur):
     # Loop over each interface
     for i in range(len(rhoL)):
 
-        # Supersonic flow to the right
-        if (vL[i] / aL[i] >= 1.0):
+        # Supersonic flow to the right (and no shock moving back to the left)
+        if (vL[i] / aL[i] >= 1.0) and \
+           fully_upwind(rhoL[i], vL[i], aL[i], pL[i],
+                        rhoR[i], vR[i], aR[i], pR[i]):
             F[i * 3 + 0] = rhoL[i] * vL[i]                 # first: fx = rho*u
             F[i * 3 + 1] = rhoL[i] * vL[i] * vL[i] + \
                 pL[i]     # second: fx = rho*u*u+p
             # third: fx = (E+p)*u
             F[i * 3 + 2] = (EL[i] + pL[i]) * vL[i]
 
-        # Supersonic flow to the left
-        elif (vR[i] / aR[i] <= -1.0):
+        # Supersonic flow to the left (and no shock moving back to the right)
+        elif (vR[i] / aR[i] <= -1.0) and \
+                fully_upwind(rhoR[i], -vR[i], aR[i], pR[i],
+                             rhoL[i], -vL[i], aL[i], pL[i]):
             F[i * 3 + 0] = rhoR[i] * vR[i]                 # first: fx = rho*u
             F[i * 3 + 1] = rhoR[i] * vR[i] * vR[i] + \
                 pR[i]     # second: fx = rho*u*u+p
@@ -205,6 +209,24 @@ def riemann_godunov(ul, ur):
     return F
 
 
+# ========================================================================
+def fully_upwind(r1, v1, c1, P1, r2, v2, c2, P2):
+    """True if the state at the interface is the supersonic state 1
+
+    State 1 flows supersonically towards state 2. The wave facing state
+    1 is swept through the interface unless state 2 drives a shock which
+    is strong enough to move upstream. This compares the velocity behind
+    a shock that is stationary in state 1 (pressure Pc) to the velocity
+    that state 2 reaches at that pressure.
+    """
+    M2 = (v1 / c1)**2
+    Pc = P1 * (2 * constants.gamma * M2 - (constants.gamma - 1)) / \
+        (constants.gamma + 1)
+    vc = v1 * ((constants.gamma - 1) * M2 + 2) / ((constants.gamma + 1) * M2)
+
+    return v2 + (Pc - P2) / massflux(r2, c2, P2, Pc) >= vc
+
+
 # ========================================================================
 def massflux(r, c, pQ, pm):
     """ Returns the mass flux used for Godunov's Flux Function
-- 
2.43.0


From e1c6e458e6e6567f35ca03580fe89265ba030288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 02/15] fix: boundary conditions ignored on a solution loaded
 from file

The loaded boundary type is an equal but not identical string, so comparing
with 'is' never matched and the ghost cells were left untouched.
---
 dg1d/solution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..fe55125 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From 8a4074380c52781b5e2bd619e60ee8c6b4b4fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 03/15] fix: loaded solution keeps the inverse mass matrix of
 another basis

The loader rebuilds the basis and the mesh but left scaled_minv uninitialised
(with the size of the constructor's order), so no residual could be computed.
---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index fe55125..80306b8 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -202,6 +202,9 @@ class Solution:
         B = self.xc[-1] + 0.5 * self.dx
         self.x, self.dx = np.linspace(A, B, self.N_E + 1, retstep=True)
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
         #
         # Read solution data from all the files
         #
-- 
2.43.0


From 02264742071b63af8c3a16e51c17c18c9a00ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 04/15] fix: outputs skipped when a time step reaches past the
 final time

A step larger than the time left jumped to the final time even if outputs were
due in between: those files were missing and the last one misnumbered.
---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..375ce0b 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -246,8 +246,8 @@ def adjust_for_output(dt, t, tf, tout):
     """
     #eps = 1e-14
 
-    # If we reached the final time (or almost)
-    if dt > tf - t:
+    # If we reached the final time (or almost) and no output is due before it
+    if dt > tf - t and tout >= tf:
         return tf - t, True, True
 
     # If we reached an output time
-- 
2.43.0


From fc07c7450b2d25bbbeef4def334e4d1dc0d31349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 05/15] fix: limiter uses stale ghost cells at intermediate RK
 stages

The stage solutions handed to the limiter have ghost cells that do not satisfy
the boundary conditions, so boundary elements were sensed and limited with
neighbors that do not exist.
---
 dg1d/limiting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..c21a057 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -72,6 +72,10 @@ class Limiter:
     def adaptive_hr(self, solution):
         """Limit a solution in the domain using adaptive hierarchical reconstruction"""
 
+        # Make sure the ghost cells match the interior (they do not at
+        # the intermediate stages of the RK schemes)
+        solution.apply_bc()
+
         # Decide where to do limiting
         solution.sensors.sensing(solution)
 
-- 
2.43.0


From efedec03656e74c12e1018275bdce07190a9c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 06/15] fix: limiting a zeroth order solution raises
 UnboundLocalError

---
 dg1d/limiting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index c21a057..87b6da3 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -128,6 +128,9 @@ class Limiter:
 
         alim = np.zeros(np.shape(ac))
 
+        # cell average of a constant polynomial
+        avgLC = ac[0]
+
         # loop on derivatives
         N = len(ac) - 1
         for m in range(N, 0, -1):
-- 
2.43.0


From f8707388d4204fddab5be197ef6d1d6e12d9280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 07/15] fix: delta does not check that its second argument is
 an integer

---
 analysis/aux_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/aux_functions.py b/analysis/aux_functions.py
index 61c19e6..ea408c2 100644
--- a/analysis/aux_functions.py
+++ b/analysis/aux_functions.py
@@ -31,7 +31,7 @@ def sort_roots_angle(roots):
 def delta(i, j):
     """Given two integers, return 1 if i==j and 0 if not"""
 
-    if isinstance(i, int) and isinstance(i, int):
+    if isinstance(i, int) and isinstance(j, int):
         if i == j:
             return 1
         else:
-- 
2.43.0


From f81b0409092b8162bc67d3fa085f21426036ca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 08/15] fix: Godunov flux undefined for exactly sonic states
 next to a weak wave

---
 dg1d/euler_physics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index 8dd516c..fb3b990 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -198,6 +198,12 @@ def riemann_godunov(ul, ur):
             elif (SmR < 0) and (vR[i] + aR[i] > 0):
                 rmI, Um2, Um3 = sonic(
                     vR[i], aR[i], pR[i], vm, amR, vR[i] + aR[i], SmR)
+            # The initial state is exactly sonic: no part of the wave facing
+            # it is left upstream of the interface
+            elif SmL > 0:
+                rmI, Um2, Um3 = rhoL[i], rhoL[i] * vL[i], EL[i]
+            else:
+                rmI, Um2, Um3 = rhoR[i], rhoR[i] * vR[i], ER[i]
 
             # Compute the flux: evaluate the physical flux at the interface
             # (middle)
-- 
2.43.0


From abd59d512080f5ea15d365534049f54a65c274bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:42 +0000
Subject: [PATCH 09/15] fix: make the convergence test of the Godunov iteration
 relative to the pressure

The iteration stopped when the pressure changed by less than 1e-6 in whatever
units are used: fluxes of gases at low pressures were wrong (the first guess
was accepted) and those at very high pressures were never accepted.
---
 dg1d/euler_physics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dg1d/euler_physics.py b/dg1d/euler_physics.py
index fb3b990..a17f1f1 100644
--- a/dg1d/euler_physics.py
+++ b/dg1d/euler_physics.py
@@ -100,8 +100,8 @@ def riemann_godunov(ul, ur):
     pR = (constants.gamma - 1) * (ER - 0.5 * rhoR * vR * vR)
     aR = np.sqrt(constants.gamma * pR / rhoR)
 
-    # Fixed point iteration tolerance
-    tol = 1e-6
+    # Fixed point iteration tolerance (relative to the pressure)
+    tol = 1e-9
 
     # Loop over each interface
     for i in range(len(rhoL)):
@@ -148,7 +148,7 @@ def riemann_godunov(ul, ur):
                        mR * (vR[i] - vL[i])) / (mL + mR)
 
                 # Test for fixed point convergence
-                if (abs(pm2 - pm1) < tol):
+                if (abs(pm2 - pm1) < tol * abs(pm2)):
                     break
 
                 # Test for max iterations
-- 
2.43.0


From 5e1ebc03a7a8888235815b6f424c14b8074f5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:16 +0000
Subject: [PATCH 10/15] fix: exact stability boundary uses symbolic algebra
 that scipy does not have

---
 analysis/rk_stability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analysis/rk_stability.py b/analysis/rk_stability.py
index 64cbd40..2b6b260 100755
--- a/analysis/rk_stability.py
+++ b/analysis/rk_stability.py
@@ -20,7 +20,7 @@ __status__ = "Development"
 # ========================================================================
 import argparse
 import sys
-import scipy as sp
+import sympy as sp
 import numpy as np
 import matplotlib.pyplot as plt
 
-- 
2.43.0


From fdaed991f30d9ce729436c721231862d6457a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 11/15] fix: convergence study looks for the solver relative to
 the directory of each run

---
 advection_convergence/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index 79bdabc..2ce7e04 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -12,7 +12,7 @@ import sys
 import shutil
 import subprocess as sp
 
-codedir = '../dg1d/'
+codedir = os.path.abspath('../dg1d') + '/'
 sys.path.insert(0, codedir)
 import deck as deck
 
-- 
2.43.0


From 66d4ddf23d0dd2ede7ae652bdd6ee8dcb44d9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 12/15] fix: stage times accumulated over the stages and steps

---
 dg1d/rk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 375ce0b..c325607 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -94,7 +94,7 @@ def classic_rk(solution, deck, dgsolver, limiter, coeffs, alphas, betas):
             uk.copy_data_only(us)
             for j, beta in enumerate(betas[k, :k]):
                 uk.smart_axpy(beta, K[j])
-            uk.t += alpha * dt
+            uk.t = solution.t + alpha * dt
 
             # Limit solution if necessary
             if k > 0:
@@ -165,7 +165,7 @@ def low_storage_rk4(solution, deck, dgsolver, limiter):
             # Calculate the star quantities
             ustar.copy_data_only(us)
             ustar.smart_axpy(beta, du)
-            ustar.t += beta * dt
+            ustar.t = solution.t + beta * dt
 
             # Limit solution if necessary
             if k > 0:
-- 
2.43.0


From 86216f4aa6b3c30601dc3c72bc94df927bd36193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 13/15] fix: the program runs outside a git work tree and
 reports its own version

---
 dg1d/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dg1d/main.py b/dg1d/main.py
index 975dd2a..324c419 100755
--- a/dg1d/main.py
+++ b/dg1d/main.py
@@ -37,7 +37,12 @@ import dg1d.limiting as limiting
 
 def get_git_revision_hash():
     """Returns the git version of this project"""
-    return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    try:
+        return subprocess.check_output(['git', 'describe', '--always'],
+                                       cwd=os.path.dirname(os.path.abspath(__file__)),
+                                       universal_newlines=True)
+    except (OSError, subprocess.CalledProcessError):
+        return 'unknown'
 
 # ========================================================================
 #
-- 
2.43.0


From dd88ebfd7c8f849e4fa8834a9340b9977d300706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 14/15] fix: read the elapsed seconds of runs that take a day
 or longer

The log then says '1 day, ...', which moves the number the plot took by position.
---
 advection_convergence/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/plot.py b/advection_convergence/plot.py
index e77be99..6ff1c5f 100755
--- a/advection_convergence/plot.py
+++ b/advection_convergence/plot.py
@@ -73,7 +73,7 @@ def get_timer(fname):
     with open(fname) as f:
         for line in f:
             if 'seconds' in line:
-                return line.split()[4]
+                return line.split()[-2]
 
 
 # ===============================================================================
-- 
2.43.0


From 00abc353f4db6444fbead22d889e9c5364b29a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 15/15] fix: stop on an invalid boundary condition, as the
 message says

It was only announced: the run went on with whatever the ghost cells held.
---
 dg1d/solution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 80306b8..d0dbb20 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -535,7 +535,8 @@ class Solution:
         elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
         if self.bc_r == 'periodic':
@@ -543,7 +544,8 @@ class Solution:
         elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
 
     # ========================================================================
     def copy(self):
-- 
2.43.0

