From 664314dd4a73d64c32a0e65b8f81156c702750aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 01/50] fix: soft restart saves the incumbent with its own
 sample count and evaluation number

---
 dfols/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..0a2262e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -801,8 +801,9 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(),
+                              self.model.nsamples[self.model.kopt], self.model.eval_num[self.model.kopt],
+                              x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From e9b646a971a05c14014e84e4afa7c606654b0d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 02/50] fix: rescale the controller's rhoend after a soft
 restart (restarts.rhoend_scale could give an endless loop)

---
 dfols/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 0a2262e..ef68915 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -867,6 +867,7 @@ class Controller(object):
 
         # Otherwise, we are doing a restart
         self.last_successful_iter = 0
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend  # keep in sync with the value used in solve_main
         return None  # exit_info = None
 
     def move_furthest_points(self, number_of_samples, num_pts_to_move, params):
-- 
2.43.0


From cd5cfc9959b71110be5c8df0061dc5568515f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:54 +0000
Subject: [PATCH 03/50] fix: count a run only once when the budget runs out
 while sampling the starting point

---
 dfols/solver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..92e722f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -176,7 +176,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
-- 
2.43.0


From 4c068794b1d7d06d3c9288737ea9d30540c26398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 04/50] fix: report the evaluation number and the regularised
 objective when exiting at the starting point

---
 dfols/solver.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 92e722f..f7fc235 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -188,17 +188,16 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            xmin_eval_num = nx  # x0 is the only point evaluated in this run
+            jacmin_eval_nums = None  # no Jacobian
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From 7527ff389de1b71566b61d99842f705482f9ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 05/50] fix: label the first point of a hard-restarted run with
 its true evaluation number

---
 dfols/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f7fc235..7e2ebfc 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -150,7 +150,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -206,6 +206,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         num_samples_run = r0_nsamples_old
         nf = nf_so_far
         nx = nx_so_far
+    x0_eval_num = nx if r0_avg_old is None else r0_eval_num_old  # which evaluation point x0 is
     
     # On the first run, set default growing method (unless the user has already done this)
     if default_growing_method_set_by_user is not None and (not default_growing_method_set_by_user):
@@ -222,6 +223,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+    control.model.eval_num[0] = x0_eval_num  # not necessarily 1 after a hard restart
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1131,7 +1133,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From b379fa3bd1926fd733a55a424c3bf003b4db752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 06/50] fix: keep the evaluated trial point when the iteration
 ends without adding it to the interpolation set

---
 dfols/controller.py | 2 ++
 dfols/solver.py     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index ef68915..003074b 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -450,6 +450,8 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 7e2ebfc..c1ee669 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -613,6 +613,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # This point never makes it into the interpolation set, so don't lose it
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -667,6 +670,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # This point never makes it into the interpolation set, so don't lose it
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 1df35f3c3fbbcc6c1225b5be20f9ddca16d37979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 07/50] fix: never prefer a NaN objective value over another
 point (incumbent, saved point and final selection)

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..2b445bb 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -196,7 +196,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -223,7 +223,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # make sure kopt is always the best value we have (NaN is worse than anything else)
+        objvals = self.objval[:self.npt()]
+        self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -238,7 +240,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -262,7 +264,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -276,7 +278,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 38ef2fad46748b3175889703c9abaf5c63ea7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 08/50] fix: only report the unsuccessful-restart limit when
 hard restarts are in use

---
 dfols/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index c1ee669..6ae00f6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1158,7 +1158,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
     # Process final return values & package up
-- 
2.43.0


From 006b8b49a6c4aba8af25ac5193256cfd93a6a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 09/50] fix: never return a success flag with a non-finite
 objective, nor the internal auto-detect restart code

---
 dfols/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 6ae00f6..c08f8c3 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1162,6 +1162,13 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    if exit_info.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+        # Internal code asking for a hard restart, only get here if there was no budget left to do it
+        exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
+
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found (%s)" % exit_info.message(with_stem=False))
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From f6c4e66f5ffe5ae0e8db5cc982b13d1dec922ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 10/50] fix: sample counts move with their points in
 swap_points

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 2b445bb..0ea4f32 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -204,6 +204,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From a50a3bea5fbd1c5b22941fdd1b6a1a9c1e2388bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 11/50] fix: refactorise the interpolation system after
 add_new_sample (it may move the incumbent)

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 0ea4f32..fdce86b 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -226,6 +226,7 @@ class Model(object):
 
         # make sure kopt is always the best value we have (NaN is worse than anything else)
         objvals = self.objval[:self.npt()]
+        self.factorisation_current = False  # interpolation system is centred at xopt, which may change here
         self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
         return
 
-- 
2.43.0


From 3e75d540f4d3f9e5495e050458461ebacd10cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 12/50] fix: add_new_point while the initial set is still
 growing must not skip over unfilled rows

---
 dfols/model.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index fdce86b..d3f8c30 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -231,14 +231,15 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
-        self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
-        self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
+        k = self.npt()  # new row goes after the points added so far (i.e. at the end, unless still growing)
+        self.points = np.insert(self.points, k, x, axis=0)
+        self.fval_v = np.insert(self.fval_v, k, rvec, axis=0)
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
-        self.objval = np.append(self.objval, obj)  # append entry to fval
-        self.nsamples = np.append(self.nsamples, 1)  # add new sample number
-        self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
+        self.objval = np.insert(self.objval, k, obj)
+        self.nsamples = np.insert(self.nsamples, k, 1)  # add new sample number
+        self.eval_num = np.insert(self.eval_num, k, eval_num)  # add new evaluation number
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-- 
2.43.0


From 6325e6dfa2c7c84436732c6aa7f43e9456193922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 13/50] fix: input errors return a result instead of raising
 TypeError (missing OptimResults arguments)

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index c08f8c3..792dd18 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1092,7 +1092,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, None, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From df0fc785b6ea4a4760b1183d6eea9e3bbec621c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 14/50] fix: results expose the documented
 EXIT_TR_INCREASE_WARNING and EXIT_EVAL_ERROR constants

---
 dfols/controller.py | 2 +-
 dfols/solver.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 003074b..34cbd25 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_TR_INCREASE_WARNING']
 
 module_logger = logging.getLogger(__name__) 
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 792dd18..60546dd 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,8 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From 0a13683efb5e4df35e5667b61b0f9783bbe30213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 15/50] fix: check x0 and bounds before scaling or projecting
 with them (bad bounds raised, or passed unnoticed)

---
 dfols/solver.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 60546dd..320b407 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -983,6 +983,20 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if nsamples is None:
         nsamples = lambda delta, rho, iter, nruns: 1  # no averaging
 
+    # Check that x0 and the bounds make sense before using them below
+    exit_info = None
+    if np.shape(x0) != (n,):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
+
+    if exit_info is None and np.shape(x0) != np.shape(xl):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
+
+    if exit_info is None and np.shape(x0) != np.shape(xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
+
+    if exit_info is None and not np.all(xl < xu):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be strictly positive")
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1007,7 +1021,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
-    if scaling_within_bounds:
+    if scaling_within_bounds and exit_info is None:
         shift = xl.copy()
         scale = xu - xl
         scaling_changes = (shift, scale)
@@ -1016,7 +1030,6 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     xl = apply_scaling(xl, scaling_changes)
     xu = apply_scaling(xu, scaling_changes)
 
-    exit_info = None
     # Input & parameter checks
     if exit_info is None and h is not None:
         if prox_uh is None:
@@ -1041,15 +1054,6 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and maxfun <= 0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "maxfun must be strictly positive")
 
-    if exit_info is None and np.shape(x0) != (n,):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
-
-    if exit_info is None and np.shape(x0) != np.shape(xl):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
-
-    if exit_info is None and np.shape(x0) != np.shape(xu):
-        exit_info = ExitInformation(EXIT_INPUT_ERROR, "upper bounds must have same shape as x0")
-
     if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
-- 
2.43.0


From 22178ab0c8a1d8f995e38a57b968a215c357ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 16/50] fix: ignore scaling_within_bounds for infinite bounds
 (every evaluation was at NaN)

---
 dfols/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 320b407..ce2d454 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -966,6 +966,10 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         scaling_within_bounds = False
         warnings.warn("Ignoring scaling_within_bounds=True for unconstrained problem/1-sided bounds", RuntimeWarning)
 
+    if scaling_within_bounds and not (np.all(np.isfinite(xl)) and np.all(np.isfinite(xu))):
+        scaling_within_bounds = False
+        warnings.warn("Ignoring scaling_within_bounds=True for infinite bounds", RuntimeWarning)
+
     if projections and scaling_within_bounds:
         scaling_within_bounds = False
         warnings.warn("Ignoring scaling_within_bounds=True for problem with arbitrary constraints", RuntimeWarning)
-- 
2.43.0


From 294910c5f99f851d6b41feeb840c7d7589ec6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 17/50] fix: remove rounding errors from shifted and scaled
 bounds, so every evaluated point is within the user's bounds

---
 dfols/model.py  | 10 ++++++++--
 dfols/solver.py |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index d3f8c30..6f1adde 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -68,6 +68,8 @@ class Model(object):
         # Initialise to blank some useful stuff
         # Interpolation points
         self.xbase = x0.copy()
+        self.xl = xl.copy()  # bounds in absolute coordinates (xbase + sl may differ from xl by rounding errors)
+        self.xu = xu.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
@@ -141,7 +143,7 @@ class Model(object):
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
                 return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +157,11 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, x), self.su))
+
+    def _within_bounds(self, x):
+        # Remove any rounding errors from the shift by xbase, so the bounds are satisfied exactly
+        return np.minimum(np.maximum(self.xl, x), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
diff --git a/dfols/solver.py b/dfols/solver.py
index ce2d454..9447055 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1028,11 +1028,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds and exit_info is None:
         shift = xl.copy()
         scale = xu - xl
+        # xu - xl may have been rounded up, but un-scaling the scaled upper bound must never give a value above xu
+        idx = (shift + scale > xu)
+        while np.any(idx):
+            scale[idx] = np.nextafter(scale[idx], 0.0)
+            idx = (shift + scale > xu)
         scaling_changes = (shift, scale)
+        xl = np.zeros((n,))
+        xu = np.ones((n,))
 
     x0 = apply_scaling(x0, scaling_changes)
-    xl = apply_scaling(xl, scaling_changes)
-    xu = apply_scaling(xu, scaling_changes)
 
     # Input & parameter checks
     if exit_info is None and h is not None:
-- 
2.43.0


From ebc94c7f8992a905cf2cc91cdbc59d16e49b2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 18/50] fix: store the points which were evaluated, not the
 unprojected steps, in the interpolation set

---
 dfols/controller.py | 8 ++++----
 dfols/solver.py     | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 34cbd25..febafe7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -455,8 +455,8 @@ class Controller(object):
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
-            # Otherwise, add new results
-            self.model.change_point(kmin, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            # Otherwise, add new results (at the point we evaluated, xnew may not be feasible)
+            self.model.change_point(kmin, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(kmin, rvec_extra=rvec_list[i, :])
 
@@ -859,8 +859,8 @@ class Controller(object):
                                               x_in_abs_coords=True)
                     return exit_info  # return & quit
 
-                # Otherwise, add new results
-                self.model.add_new_point(xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                # Otherwise, add new results (at the point we evaluated, xnew may not be feasible)
+                self.model.add_new_point(x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(self.model.npt() - 1, rvec_extra=rvec_list[i, :])
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 9447055..fc71daf 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -702,7 +702,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
             if do_logging:
                 module_logger.debug("Updating with knew = %i" % knew)
-            control.model.change_point(knew, xnew, rvec_list[0, :], control.nx)  # expect step, not absolute x
+            # store the point we evaluated (xnew may have been moved back to the feasible region)
+            control.model.change_point(knew, x - control.model.xbase, rvec_list[0, :], control.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 control.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
-- 
2.43.0


From 9523a11584c9f3126e7d80491d2723dd71940f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 19/50] fix: always start from the projection of x0 (a slightly
 infeasible x0 was evaluated as given)

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index fc71daf..ef8aec8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1116,7 +1116,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From 907aa18d743904426be01568be6307c214d67021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 20/50] fix: use the user's dykstra.max_iters and dykstra.d_tol
 for every projection

---
 dfols/controller.py   | 3 ++-
 dfols/model.py        | 8 +++++---
 dfols/trust_region.py | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index febafe7..03bed41 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -112,7 +112,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes,
+                           d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 6f1adde..5d3726c 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, d_max_iters=100, d_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
         self.projections = projections
+        self.d_max_iters = d_max_iters  # for Dykstra's algorithm
+        self.d_tol = d_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -142,7 +144,7 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.d_max_iters, tol=self.d_tol)
             return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
@@ -156,7 +158,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.d_max_iters, tol=self.d_tol)
         return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, x), self.su))
 
     def _within_bounds(self, x):
diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..022539d 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -690,8 +690,8 @@ def ctrsbox_geometry(xbase, c, g, projections, Delta, d_max_iters=100, d_tol=1e-
     #   max_s  abs(c + g' * s)
     #   s.t.   xbase + s is is feasible w.r.t constraint set C
     #          ||s|| <= Delta
-    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # minimise g' * s
-    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=100, d_tol=1e-10, use_fortran=use_fortran)  # maximise g' * s
+    smin = ctrsbox_linear(xbase, g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # minimise g' * s
+    smax = ctrsbox_linear(xbase, -g, projections, Delta, d_max_iters=d_max_iters, d_tol=d_tol, use_fortran=use_fortran)  # maximise g' * s
     if abs(c + np.dot(g, smin)) >= abs(c + np.dot(g, smax)):  # choose the one with largest absolute value
         return smin
     else:
-- 
2.43.0


From ebddee954d1f0ec98a666d820fa5b1df1e95e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 21/50] fix: parameter values for which the algorithm is not
 defined are input errors (zero divisions, endless loops)

---
 dfols/params.py | 6 +++---
 dfols/solver.py | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..b853d28 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
@@ -273,7 +273,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
@@ -281,7 +281,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index ef8aec8..000f800 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1076,6 +1076,15 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    # Some scale factors cannot be at the end of their allowed range
+    if exit_info is None:
+        bad_keys = [key for key in ["tr_radius.alpha1", "restarts.rhoend_scale", "growing.delta_scale_new_dirns"]
+                    if params(key) <= 0.0]
+        if params("tr_radius.alpha1") >= 1.0:
+            bad_keys.append("tr_radius.alpha1")
+        if len(bad_keys) > 0:
+            exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From bc4b941ce917c1ce5f60e1b1735c20168feac2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 22/50] fix: reduce_rho never goes below rhoend (small
 tr_radius.alpha1)

---
 dfols/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 03bed41..d73bdb9 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -728,7 +728,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
-- 
2.43.0


From 0dacf50786c69892dd4fd35be79c67257e8d9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 23/50] fix: regularised subproblems use the bounds in absolute
 coordinates, as the points being projected

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index d73bdb9..239007e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -497,7 +497,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # x in absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -544,7 +544,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # x in absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From d70467b16de718542551e343ed7011160512b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 24/50] fix: pass extra arguments through to prox_uh (TypeError
 with any non-empty argsprox)

---
 dfols/trust_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 022539d..01d8696 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -114,7 +114,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
 
-    def gradient_Fu(xopt, g, H, u, prox_uh, d):
+    def gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox):
     # Calculate gradient_Fu,
     # where Fu(d) := g(d) + h_u(d) and h_u(d) is a 1/u-smooth approximation of h.
     # We assume that h is globally Lipschitz continous with constant L_h,
-- 
2.43.0


From 200a32abfb55be1d100de64f53eb21c75a48a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 25/50] fix: S-FISTA iteration limit when the function
 tolerance is zero or overflows

---
 dfols/trust_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 01d8696..60b16c5 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -109,7 +109,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     try:
         MAX_LOOP_ITERS = ceil(sfista_iters_scale * delta * (L_h+sqrt(L_h*L_h+2*k_H*func_tol)) / func_tol)
         MAX_LOOP_ITERS = min(MAX_LOOP_ITERS, max_iters)
-    except ValueError:
+    except (ValueError, OverflowError, ZeroDivisionError):  # func_tol may be inf, nan or zero
         MAX_LOOP_ITERS = max_iters
     u =  2 * delta / (MAX_LOOP_ITERS * L_h) # smoothing parameter
     # u = 2 * func_tol / (L_h ** 2 + L_h * sqrt(L_h ** 2 + 2 * k_H * func_tol))  # the above choice works better in practice
-- 
2.43.0


From 6e45245937784d3d52327e786bdd690f744bf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 26/50] fix: S-FISTA smoothing uses the chain rule for
 internally scaled variables

---
 dfols/trust_region.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 60b16c5..669f4cd 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -100,7 +100,12 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     t = 1
     k_H = np.linalg.norm(H, 2)
     crvmin = -1.0
-    
+
+    # With internal scaling, the regulariser as a function of the (scaled) variables has Lipschitz constant L_h*max(scale)
+    scale = np.ones(n) if scaling_changes is None else scaling_changes[1]
+    max_scale = np.max(np.abs(scale))
+    L_h = L_h * max_scale
+
     # Number of iterations & smoothing parameter, from Theorem 10.57 in 
     #   [A. Beck. First-order methods in optimization, SIAM, 2017]
     # We do not use the values of k and mu given in the theorem statement, but rather the intermediate
@@ -119,7 +124,10 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
     # where Fu(d) := g(d) + h_u(d) and h_u(d) is a 1/u-smooth approximation of h.
     # We assume that h is globally Lipschitz continous with constant L_h,
     # then we can let h_u(d) be the Moreau Envelope M_h_u(d) of h.
-        return g + H @ d + (xopt + d - prox_uh(remove_scaling(xopt + d, scaling_changes), u, *argsprox)) / u
+    # With internal scaling, the Moreau envelope is of h in the original variables, hence the extra scale terms (chain rule).
+        x_orig = remove_scaling(xopt + d, scaling_changes)
+        u_orig = u * max_scale**2
+        return g + H @ d + scale * (x_orig - prox_uh(x_orig, u_orig, *argsprox)) / u_orig
 
     # Lipschitz constant of gradient_Fu
     l = k_H + 1 / u 
-- 
2.43.0


From 1ab27dd2ed387eb6eb9a69529e8a1050067bec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 27/50] fix: trust-region radius is at most 1e10 and never
 negative or NaN from the regularised safety ratio

---
 dfols/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 000f800..9bad6e8 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -348,6 +348,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
                 tau = 1.0
+            if not tau > 0.0:  # e.g. NaN, or inexact subproblem solution at a stationary point; we divide by tau below
+                tau = 1.0
         
         if do_logging:
             module_logger.debug("Trust region step is d = " + str(d))
@@ -646,9 +648,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From ed173ae324e7685c2a4be565b37bfdd54a20754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 28/50] fix: soft restart with restarts.increase_npt_amt=0
 (assertion failure)

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 239007e..153a1a8 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -841,7 +841,8 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
+        if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 \
+                and self.model.npt() < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
-- 
2.43.0


From 4a82a086bd1b5bafac16dd7b3ef3512de444fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 29/50] fix: use random initial directions when npt is too
 large for coordinate directions (assertion failure)

---
 dfols/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 9bad6e8..20d47e6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -231,7 +231,8 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
     num_directions = min(params("growing.ndirs_initial") + params("restarts.hard.increase_ndirs_initial_amt") * nruns_so_far,
                          npt - 1)  # cap at npt
-    if params("init.random_initial_directions"):
+    # There are not enough coordinate directions for very large npt (e.g. if increased in a hard restart)
+    if params("init.random_initial_directions") or npt > (len(x0) + 1) * (len(x0) + 2) // 2:
         if do_logging:
             module_logger.info("Initialising (random directions)")
         exit_info = control.initialise_random_directions(number_of_samples, num_directions, params)
-- 
2.43.0


From 7d2672d54c9496931be75905de20a3b56e9760ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 30/50] fix: parallel initialisation keeps the evaluation
 number of each point, and every point when it exits early

---
 dfols/controller.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 153a1a8..06f0f37 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -375,24 +375,30 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
+            first_exit_info = None
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
-                # Handle exit conditions (f < min obj value or maxfun reached)
-                if exit_info is not None:
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
+                # Handle exit conditions (f < min obj value or maxfun reached), without losing the other points
+                if exit_info is not None or first_exit_info is not None:
                     if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
                                               x_in_abs_coords=True)
-                    return exit_info  # return & quit
+                    if first_exit_info is None:
+                        first_exit_info = exit_info
+                    continue
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
+
+            if first_exit_info is not None:
+                return first_exit_info  # return & quit
         else:
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
-- 
2.43.0


From e30b5ba1fd5fa9ebe5fc83468db112bd381cc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 31/50] fix: growing beyond n+1 points must not divide by the
 length of a zero direction

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 06f0f37..d1f86eb 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -433,7 +433,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # if n directions already, nothing is orthogonal to them
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
@@ -476,7 +476,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Q.shape[1] < self.n() else 0):  # if n directions already, nothing is orthogonal to them
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
 
-- 
2.43.0


From f0c0e264977c2df95e8d71bc8d756e7ccb61d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 32/50] fix: initial directions with projections for any number
 of points, and a result (not RuntimeError) if there are none

---
 dfols/controller.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index d1f86eb..5d0169d 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -168,7 +168,7 @@ class Controller(object):
             k = 0
             mr_tol = params("matrix_rank.r_tol")
             D_rank, diag = qr_rank(D,tol=mr_tol)
-            while D_rank != num_directions and k < self.n():
+            while D_rank != self.n() and k < self.n():
                 if diag[k] < mr_tol:
                     ek = np.zeros(self.n())
                     ek[k] = 1
@@ -188,7 +188,7 @@ class Controller(object):
             k = 0
             slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and k < 100*self.n():
+            while D_rank != self.n() and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
                     ek = np.zeros(self.n())
                     ek[k%self.n()] = 1
@@ -210,7 +210,7 @@ class Controller(object):
             # Set still not L.I? Try random directions
             i = 0
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
-            while D_rank != num_directions and i <= 100*num_directions:
+            while D_rank != self.n() and i <= 100*self.n():
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
@@ -229,13 +229,14 @@ class Controller(object):
                     k += 1
                 i += 1
 
-            if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+            if D_rank != self.n():
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
-            # we have a L.I set of interpolation points
-            for k in range(0,self.n()):
+            # we have a L.I set of interpolation points (for more than n+1 points, add their negatives & sums of pairs)
+            D = list(D) + [-dk for dk in D] + [D[p, :] + D[q, :] for q in range(self.n()) for p in range(q)]
+            for k in range(0,num_directions):
                 # Evaluate objective at this new point
-                x = self.model.as_absolute_coordinates(D[k, :])
+                x = self.model.as_absolute_coordinates(D[k])
                 rvec_list, obj_list, num_samples_run, exit_info = self.evaluate_objective(x, number_of_samples, params)
 
                 # Handle exit conditions (f < min obj value or maxfun reached)
-- 
2.43.0


From 4bd1ac81edd3b8cfe852a44bf232a453a5a00c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:29 +0000
Subject: [PATCH 33/50] fix: results with NaN objective or a diagnostic table
 survive the JSON round trip exactly

---
 dfols/solver.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 20d47e6..8afe629 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -119,7 +119,10 @@ class OptimResults(object):
         soln_dict['nruns'] = int(self.nruns)
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
-        soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        soln_dict['diagnostic_info'] = None
+        if self.diagnostic_info is not None:  # xk and rk columns (if present) have array entries
+            soln_dict['diagnostic_info'] = {col: {i: (v.tolist() if isinstance(v, np.ndarray) else v) for (i, v) in vals.items()}
+                                            for (col, vals) in self.diagnostic_info.to_dict().items()}
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -134,7 +137,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -147,7 +150,14 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            df.index = [int(i) for i in df.index]  # saving to json converts row numbers to strings
+            for col in df.columns:
+                if col in ['xk', 'rk']:
+                    df[col] = [np.array(v, dtype=float) for v in df[col]]
+                elif col != 'iter_type' and not pd.api.types.is_numeric_dtype(df[col]):
+                    df[col] = df[col].astype(float)  # None to NaN
+            soln.diagnostic_info = df
         return soln
 
 
-- 
2.43.0


From 517ebfe409747f6e97265862fd38e4f8bee53d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 34/50] fix: to_dict(replace_nan=True) gives strict JSON for
 infinite values too

---
 dfols/solver.py | 4 ++--
 dfols/util.py   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8afe629..94c2925 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -108,7 +108,7 @@ class OptimResults(object):
     
     def to_dict(self, replace_nan=True):
         # Convert to a serializable dict object suitable for saving in a json file
-        # If replace_nan=True, convert all NaN entries to None
+        # If replace_nan=True, convert all NaN entries to None (and infinite entries to strings), so we have strict JSON
         soln_dict = {}
         soln_dict['x'] = self.x.tolist() if self.x is not None else None
         soln_dict['resid'] = self.resid.tolist() if self.resid is not None else None
@@ -137,7 +137,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
+        obj = float(soln_dict['obj']) if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..4f05df9 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -279,5 +279,7 @@ def replace_nan_with_none(d):
         return [replace_nan_with_none(i) for i in d]
     elif isinstance(d, float) and math.isnan(d):
         return None
+    elif isinstance(d, float) and math.isinf(d):
+        return "Infinity" if d > 0 else "-Infinity"  # not allowed in strict JSON, but float() can read these
     else:
         return d
\ No newline at end of file
-- 
2.43.0


From 6a4e0cea9ac911d85cc5cb2dcb732068412f84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 35/50] fix: projected gradient step for models with zero
 Hessian (returned NaN)

---
 dfols/trust_region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index 669f4cd..d433fd8 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -192,6 +192,10 @@ def ctrsbox_pgd(xopt, g, H, projections, delta, d_max_iters=100, d_tol=1e-10, us
 
     # Initial guess of L is norm(Hessian)
     L = np.linalg.norm(H, 2)
+    # If the model is (almost) linear, avoid division by zero and steps which are extremely long compared to delta
+    L = max(L, 1e-8 * np.linalg.norm(g) / delta)
+    if L == 0.0:
+        return d, gnew, crvmin  # constant model
 
     # trust region is a ball of radius delta around xopt
     trproj = lambda w: pball(w, xopt, delta)
-- 
2.43.0


From 1975bb744fd4197425083b664bf5ae9a735847e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 36/50] fix: interpolation matrix is finite when all points
 coincide (ValueError instead of singular system)

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 5d3726c..8c081e7 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -309,6 +309,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if not approx_delta > 0.0:
+                approx_delta = 1.0  # all points are the same, leads to a singular (but finite) interpolation matrix
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From a63ee575156c1e802b20da9100ac15202cb7f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 37/50] fix: with projections, stored points are returned as
 evaluated, not projected again (soln.x was not an evaluated point)

---
 dfols/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index 8c081e7..f0bd72b 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -144,7 +144,9 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.d_max_iters, tol=self.d_tol)
+                # Don't project again: this must be the point which was actually evaluated, even if Dykstra's
+                # algorithm hadn't fully converged there (as_absolute_coordinates was called before the evaluation)
+                return self._within_bounds(self.xbase + self.points[k, :])
             return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
-- 
2.43.0


From 16832c52a6ee6470e32952a3cbbceaaa5d87673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 38/50] fix: geometry steps store the evaluated point (it is
 not xnew if the projection moved it)

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 5d0169d..333eae2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -595,7 +595,7 @@ class Controller(object):
             return exit_info  # didn't fix geometry - return & quit
 
         # Otherwise, add new results
-        self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+        self.model.change_point(knew, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
         for i in range(1, num_samples_run):
             self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
 
@@ -950,7 +950,7 @@ class Controller(object):
                 return exit_info  # return & quit
 
             # Otherwise, add new results
-            self.model.change_point(knew, xnew, rvec_list[0, :], self.nx)  # expect step, not absolute x
+            self.model.change_point(knew, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
             for i in range(1, num_samples_run):
                 self.model.add_new_sample(knew, rvec_extra=rvec_list[i, :])
         return None
-- 
2.43.0


From 24b678411a0373ffeb50848133235e541a994c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 39/50] fix: bad values in the model Hessian don't raise
 LinAlgError when computing the trust region step tolerance

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 333eae2..ae53ba2 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -520,7 +520,8 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        norm_H = np.linalg.norm(H, 2) if np.all(np.isfinite(H)) else np.inf  # norm raises LinAlgError if H has bad values
+        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(norm_H,1))
 
         if self.h is None:
             if self.model.projections:
-- 
2.43.0


From 2e0f5e9acfa2859bc4066497717b7bcc627107d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 40/50] fix: stored points satisfy the bounds exactly with
 projections

---
 dfols/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/model.py b/dfols/model.py
index f0bd72b..5a026aa 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -146,7 +146,8 @@ class Model(object):
             if self.projections:
                 # Don't project again: this must be the point which was actually evaluated, even if Dykstra's
                 # algorithm hadn't fully converged there (as_absolute_coordinates was called before the evaluation)
-                return self._within_bounds(self.xbase + self.points[k, :])
+                # (last projection is the bound constraints, this is just to remove any rounding errors from xbase)
+                return self.projections[-1](self.xbase + self.points[k, :])
             return self._within_bounds(self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su))
 
     def rvec(self, k):
-- 
2.43.0


From 04fd38d4fd945a6e49b87d7c7f802267bf72a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 41/50] fix: saving diagnostic info with inf/NaN model gradient
 doesn't raise ValueError

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 94c2925..8f15a59 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -376,7 +376,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), np.linalg.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From e06edec5c90bcdcfc9d8d80294e508ddc401fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 42/50] fix: NaN radii, NaN x0 and NaN/infinite lh are input
 errors, not ValueError

---
 dfols/solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 8f15a59..1f3b8b0 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1006,6 +1006,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if np.shape(x0) != (n,):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be a vector")
 
+    if exit_info is None and np.any(np.isnan(x0)):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must not contain NaN")
+
     if exit_info is None and np.shape(x0) != np.shape(xl):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "lower bounds must have same shape as x0")
 
@@ -1059,16 +1062,16 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide prox_uh input if h is not None")
         elif lh is None:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "Must provide lh input if h is not None")
-        elif lh <= 0.0:
+        elif not 0.0 < lh < np.inf:
             exit_info = ExitInformation(EXIT_INPUT_ERROR, "lh must be strictly positive")
 
     if exit_info is None and npt < n + 1:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be >= n+1 for linear models with inexact interpolation")
 
-    if exit_info is None and rhobeg <= 0.0:
+    if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
-    if exit_info is None and rhoend <= 0.0:
+    if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
     if exit_info is None and rhobeg <= rhoend:
-- 
2.43.0


From 4d331445ca633081ff7847040e0dbb80cb1e8074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 43/50] fix: initial directions with projections do not depend
 on the global random state (C19)

---
 dfols/controller.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index ae53ba2..7fd54b0 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -184,9 +184,10 @@ class Controller(object):
                     D_rank = D_rank2
                 k += 1
 
-            # Try random combination of negatives...
+            # Try random combination of negatives... (local generator, so results do not depend on NumPy's global random state)
+            rng = np.random.RandomState(0)
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != self.n() and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -204,7 +205,7 @@ class Controller(object):
                     D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -214,7 +215,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
-- 
2.43.0


From d4a36d3f00d32bb16fb4072da6e2f7ab93537dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 44/50] fix: full-rank completion of the Jacobian keeps the
 model interpolating when xopt is away from the base point

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index 5a026aa..b132718 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -411,6 +411,7 @@ class Model(object):
             s = np.maximum(s, floor_val)
             S = LA.diagsvd(s, k, k)  # s from vector to matrix of correct shape
             self.model_jac = np.dot(U, np.dot(S, Vt))  # reconstruct J from new svd
+            self.model_const = dg[0,:] - np.dot(self.model_jac, xopt)  # keep interpolating with the new J
 
         interp_error = 0.0
         if verbose:
-- 
2.43.0


From f71a42d9ff92e07d1f73cb45142a7d262e8f09ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 45/50] fix: random orthogonal directions at active bounds are
 no longer than requested

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index 4f05df9..02bf5bf 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # no longer than delta, different from 2. above
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From 0ea5c8b34166dff16ca91fb982e904c64725ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 46/50] fix: do not replace interpolation points based on
 rounding errors in their Lagrange polynomials

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 7fd54b0..27ca6ba 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -691,6 +691,8 @@ class Controller(object):
             g = gs[:, k]
 
             den = c + np.dot(g, d)
+            if abs(den) < 1e-14:
+                den = 0.0  # just rounding error, replacing this point would give a singular interpolation matrix
 
             distsq = sumsq(self.model.xpt(k) - self.model.xopt())
             temp = max(1.0, (distsq / delsq) ** 2)
-- 
2.43.0


From 3c1bf61e4db58076ee8f8ffc8f6d61ce0c5a2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 47/50] fix: infinite rhobeg or x0 raised an exception instead
 of being reported as an input error

---
 dfols/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dfols/solver.py b/dfols/solver.py
index 1f3b8b0..f59e13a 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1018,6 +1018,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not np.all(xl < xu):
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be strictly positive")
 
+    if exit_info is None and np.any(np.isinf(np.minimum(np.maximum(x0, xl), xu))):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "x0 must be finite")
+
     # If using arbitrary constraints, create projection from bounds
     if projections:
         xlb = xl.copy()
@@ -1071,6 +1074,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not rhobeg > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be strictly positive")
 
+    if exit_info is None and np.isinf(rhobeg):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhobeg must be finite")
+
     if exit_info is None and not rhoend > 0.0:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "rhoend must be strictly positive")
 
-- 
2.43.0


From 910fdd2c8de6dc65d1b74003006ebedaba51e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 48/50] fix: soft restart while still growing only moves points
 which exist

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 27ca6ba..6f22f24 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -836,10 +836,10 @@ class Controller(object):
         closest_points = np.argsort(all_sq_dist)
         if params("restarts.soft.move_xk"):
             closest_points = closest_points[:params("restarts.soft.num_geom_steps")]
-            upper_limit = self.model.num_pts
+            upper_limit = self.model.npt()  # may still be growing (npt < num_pts)
         else:
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
-            upper_limit = self.model.num_pts - 1
+            upper_limit = self.model.npt() - 1
 
         for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
             # Determine which point to update (knew)
-- 
2.43.0


From 225ca6480d93331da3ec4570d718acb91ae2ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:14 +0000
Subject: [PATCH 49/50] fix: soft restart while still growing must not take npt
 above restarts.max_npt

---
 dfols/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6f22f24..beb6da9 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -853,8 +853,9 @@ class Controller(object):
 
         # Now increase npt, if required
         if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 \
-                and self.model.npt() < params("restarts.max_npt"):
-            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
+                and self.model.num_pts < params("restarts.max_npt"):
+            # Use num_pts, not npt(), to leave room for the points not added yet if we are still growing
+            num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.num_pts)
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
             xopt = self.model.xopt()
-- 
2.43.0


From 45b04ece194f495d0eb6e88e994d832f7e6c3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 50/50] fix: relative target value after a hard restart must be
 based on f(x0) of the first run

---
 dfols/solver.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f59e13a..670e308 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -162,7 +162,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, objbeg_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -209,7 +209,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         if exit_info is not None:
             xmin_eval_num = nx  # x0 is the only point evaluated in this run
             jacmin_eval_nums = None  # no Jacobian
-            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums, obj0_avg
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
@@ -236,6 +236,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
                          params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
     control.model.eval_num[0] = x0_eval_num  # not necessarily 1 after a hard restart
+    if objbeg_old is not None:
+        control.model.objbeg = objbeg_old  # after a hard restart, the target value is still rel_tol*f(original x0)
+    objbeg = control.model.objbeg
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -252,7 +255,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         exit_info = control.initialise_coordinate_directions(number_of_samples, num_directions, params)
     if exit_info is not None:
         x, rvec, obj, jacmin, nsamples, x_eval_num, jac_eval_nums = control.model.get_final_results()
-        return x, rvec, obj, None, nsamples, control.nf, control.nx, nruns_so_far + 1, exit_info, diagnostic_info, x_eval_num, jac_eval_nums
+        return x, rvec, obj, None, nsamples, control.nf, control.nx, nruns_so_far + 1, exit_info, diagnostic_info, x_eval_num, jac_eval_nums, objbeg
 
     finished_growing = (control.model.npt() >= control.model.num_pts)  # have we finished growing the initial set yet?
 
@@ -959,7 +962,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
     if do_logging:
         module_logger.debug("At return from DFO-LS, number of function evals = %i" % nf)
         module_logger.debug("Smallest objective value = %.15g at x = " % obj + str(x))
-    return x, rvec, obj, jacmin, nsamples, control.nf, control.nx, nruns_so_far, exit_info, diagnostic_info, x_eval_num, jac_eval_nums
+    return x, rvec, obj, jacmin, nsamples, control.nf, control.nx, nruns_so_far, exit_info, diagnostic_info, x_eval_num, jac_eval_nums, objbeg
 
 
 def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argsprox=(), bounds=None, projections=[], npt=None, rhobeg=None, rhoend=1e-8, maxfun=None, nsamples=None, user_params=None,
@@ -1165,7 +1168,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     nruns = 0
     nf = 0
     nx = 0
-    xmin, rmin, objmin, jacmin, nsamples_min, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums = \
+    xmin, rmin, objmin, jacmin, nsamples_min, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums, objbeg = \
         solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                     diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, default_growing_method_set_by_user=default_growing_method_set_by_user,
                    do_logging=do_logging, print_progress=print_progress)
@@ -1184,14 +1187,14 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             module_logger.info("Restarting from finish point (f = %g) after %g function evals; using rhobeg = %g and rhoend = %g"
                      % (objmin, nf, rhobeg, rhoend))
         if params("restarts.hard.use_old_rk"):
-            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
+            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2, _ = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num, objbeg_old=objbeg,
                            do_logging=do_logging, print_progress=print_progress)
         else:
-            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
+            xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2, _ = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, do_logging=do_logging, print_progress=print_progress)
+                           diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, objbeg_old=objbeg, do_logging=do_logging, print_progress=print_progress)
 
         if objmin2 < objmin or np.isnan(objmin):
             if do_logging:
-- 
2.43.0

