From 9a9084b4b1eb71de129ec8990977b7134fd24e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 1/9] fix: compare boundary condition and enhancement names by
 value

A solution read back by loader() carries boundary condition names sliced
out of a file header.  Those are equal to, but not the same object as,
the literals, so apply_bc() rejected them and left the ghosts at zero.
---
 dg1d/solution.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index c489e36..8f73119 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -68,7 +68,7 @@ class Solution:
             print("Invalid initial condition. This will be an empty solution.\n", e)
 
         # Enhancement (if necessary)
-        if (enhancement_type is not ''):
+        if (enhancement_type != ''):
             self.keywords['evaluate_face_solution'] = self.enhanced_faces
             self.enhance = enhance.Enhance(
                 order, enhancement_type, self.u.shape[1])
@@ -527,17 +527,17 @@ class Solution:
         """Populates the ghost cells with the correct data depending on the BC"""
 
         # On the left side of the domain
-        if self.bc_l is 'periodic':
+        if self.bc_l == 'periodic':
             self.u[:, 0:self.N_F] = self.u[:, -2 * self.N_F:-self.N_F]
-        elif self.bc_l is 'zerograd':
+        elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
-        if self.bc_r is 'periodic':
+        if self.bc_r == 'periodic':
             self.u[:, -self.N_F:] = self.u[:, self.N_F:2 * self.N_F]
-        elif self.bc_r is 'zerograd':
+        elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
             print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
-- 
2.43.0


From b3715228f6ab60e09dcdecfa181b3fa0d800c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 2/9] fix: set the scaled inverse mass matrix when loading a
 solution

loader() rebuilt the basis and the mesh but left scaled_minv at the
uninitialized array allocated by the constructor, so the residual of a
loaded solution was garbage.
---
 dg1d/solution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 8f73119..0b53391 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -219,6 +219,9 @@ class Solution:
             step = self.N_F
             self.u[:, start:end:step] = dat[:, 1::].transpose()
 
+        # Scale the inverse mass matrix
+        self.scaled_minv = self.basis.minv * 2.0 / self.dx
+
     # ========================================================================
     def format_fnames(self, step, fields):
         """Returns a list of file names for a given step"""
-- 
2.43.0


From 81ffeb3e5fffd9582637d3cc12e0f97911080470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 3/9] fix: limiting a zeroth order solution keeps the cell
 average

With p = 0 there is no derivative to loop on, and the cell average was
read before it was assigned (UnboundLocalError in the first flagged cell).
---
 dg1d/limiting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 3af1ccf..273521d 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -126,6 +126,7 @@ class Limiter:
 
         # loop on derivatives
         N = len(ac) - 1
+        avgLC = ac[0]
         for m in range(N, 0, -1):
 
             # Initialize
-- 
2.43.0


From 8492820053443ac9eb0e24d5b66f088964247ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 4/9] fix: refresh the ghost cells before limiting a
 Runge-Kutta stage

A stage is the sum of the previous solution and of stage increments, whose
ghost entries are not boundary data.  The sensors and the reconstruction of
the first and last elements were using these stale ghosts.
---
 dg1d/limiting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dg1d/limiting.py b/dg1d/limiting.py
index 273521d..3e4b3a7 100644
--- a/dg1d/limiting.py
+++ b/dg1d/limiting.py
@@ -72,6 +72,10 @@ class Limiter:
     def adaptive_hr(self, solution):
         """Limit a solution in the domain using adaptive hierarchical reconstruction"""
 
+        # Make sure the ghost cells match the interior (they do not
+        # during a Runge-Kutta stage)
+        solution.apply_bc()
+
         # Decide where to do limiting
         solution.sensors.sensing(solution)
 
-- 
2.43.0


From 75e6a77a639cdfadd5f9aa39731306ae0a215b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 5/9] fix: exit on an invalid boundary condition

apply_bc() announced that it was exiting but carried on with the ghost
cells left as they were.
---
 dg1d/solution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dg1d/solution.py b/dg1d/solution.py
index 0b53391..a5c3062 100644
--- a/dg1d/solution.py
+++ b/dg1d/solution.py
@@ -535,7 +535,8 @@ class Solution:
         elif self.bc_l == 'zerograd':
             self.u[:, 0:self.N_F] = self.u[:, self.N_F:2 * self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_l))
 
         # On the right side of the domain
         if self.bc_r == 'periodic':
@@ -543,7 +544,8 @@ class Solution:
         elif self.bc_r == 'zerograd':
             self.u[:, -self.N_F:] = self.u[:, -2 * self.N_F:-self.N_F]
         else:
-            print("{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
+            sys.exit(
+                "{0:s} is an invalid boundary condition. Exiting.".format(self.bc_r))
 
     # ========================================================================
     def copy(self):
-- 
2.43.0


From 5e0664d2cfe75dcf7cbe4c1a32fa258e48b780c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 6/9] fix: do not skip output times when a step exceeds the
 remaining time

---
 dg1d/rk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dg1d/rk.py b/dg1d/rk.py
index 50a2928..6a0a55a 100644
--- a/dg1d/rk.py
+++ b/dg1d/rk.py
@@ -246,8 +246,9 @@ def adjust_for_output(dt, t, tf, tout):
     """
     #eps = 1e-14
 
-    # If we reached the final time (or almost)
-    if dt > tf - t:
+    # If we reached the final time (or almost) and there is no output
+    # time left before it
+    if dt > tf - t and tout >= tf:
         return tf - t, True, True
 
     # If we reached an output time
-- 
2.43.0


From 455f082998e0b20831097e48078e3efb190e6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:19 +0000
Subject: [PATCH 7/9] fix: start the solver by its absolute path in the
 convergence study

The command was relative to the directory the study is started from, but it
is launched from <order>/<resolution>: no run ever started.
---
 advection_convergence/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/run.py b/advection_convergence/run.py
index 79bdabc..2ce7e04 100755
--- a/advection_convergence/run.py
+++ b/advection_convergence/run.py
@@ -12,7 +12,7 @@ import sys
 import shutil
 import subprocess as sp
 
-codedir = '../dg1d/'
+codedir = os.path.abspath('../dg1d') + '/'
 sys.path.insert(0, codedir)
 import deck as deck
 
-- 
2.43.0


From 105f491a6b3fb692722cd05823c8b48089a98112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 8/9] fix: read the elapsed seconds of runs longer than a day
 in the convergence plot

---
 advection_convergence/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/advection_convergence/plot.py b/advection_convergence/plot.py
index e77be99..6ff1c5f 100755
--- a/advection_convergence/plot.py
+++ b/advection_convergence/plot.py
@@ -73,7 +73,7 @@ def get_timer(fname):
     with open(fname) as f:
         for line in f:
             if 'seconds' in line:
-                return line.split()[4]
+                return line.split()[-2]
 
 
 # ===============================================================================
-- 
2.43.0


From 53e492b033d85411f1085005cc4677198a1d55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:54 +0000
Subject: [PATCH 9/9] fix: the solver could only be run from inside a git
 repository

---
 dg1d/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dg1d/main.py b/dg1d/main.py
index 975dd2a..48b8c0d 100755
--- a/dg1d/main.py
+++ b/dg1d/main.py
@@ -36,8 +36,11 @@ import dg1d.limiting as limiting
 
 
 def get_git_revision_hash():
-    """Returns the git version of this project"""
-    return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    """Returns the git version of this project (if it is run from a git repository)"""
+    try:
+        return subprocess.check_output(['git', 'describe', '--always'], universal_newlines=True)
+    except (OSError, subprocess.CalledProcessError):
+        return 'unknown\n'
 
 # ========================================================================
 #
-- 
2.43.0

