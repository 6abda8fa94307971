From d9c9efb3bdd5f1f116e37b61f159341ae5904c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 01/35] fix: use the builtin int instead of the removed np.int
 alias

SOPStrategy and nd_sorting raised AttributeError on every call with
numpy >= 1.24.
---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 7343df17089395e9688d545ba63ff55986270346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 02/35] fix: GPRegressor.predict returns an n x 1 column as
 documented

scikit-learn >= 1.1 returns a 1-d prediction, which broadcast to n x n in
the EI/LCB/weighted-distance merit functions.
---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From 615ae829a2469eab5af20cee7bf6198ccfa92de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 03/35] fix: remove only one of several equal pending points
 when one of them is done

---
 pySOT/strategy/surrogate_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..c042667 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -306,9 +306,9 @@ class SurrogateBaseStrategy(BaseStrategy):
         return proposal
 
     def remove_pending(self, x):
-        """Delete a pending point from self.Xpend."""
+        """Delete one occurrence of a pending point from self.Xpend."""
         idx = np.where((self.Xpend == x).all(axis=1))[0]
-        self.Xpend = np.delete(self.Xpend, idx, axis=0)
+        self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)
 
     # == Processing in initial phase ==
 
@@ -337,7 +337,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From 792506e7d95eb340a4f0255b83e52207e77c9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 04/35] fix: a change of the sampling radius no longer drops
 evaluations in flight from the current run

---
 pySOT/strategy/surrogate_strategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index c042667..9a99fff 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -131,6 +131,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
+        self.ev_restart = 0  # Event index of the last restart
         self.ev_next = 1
 
         # Check inputs (implemented by each strategy)
@@ -198,6 +199,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def sample_restart(self):
         """Restart a run after convergence."""
         self.ev_last = self.get_ev()
+        self.ev_restart = self.ev_last
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -357,7 +359,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -422,7 +424,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From d8f9430d66c6f77be3318342703d0a70c2d1babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 05/35] fix: initial points that fail after the adaptive phase
 has begun are not lost

---
 pySOT/strategy/surrogate_strategy.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9a99fff..5dae850 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -112,6 +112,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.extra_vals = extra_vals
         self.batch_queue = []  # Unassigned points in initial experiment
         self.init_pending = 0  # Number of outstanding initial fevals
+        self.init_points = []  # Points from the initial design that are being evaluated
         self.phase = 1  # 1 for initial, 2 for adaptive
 
         # Budgeting state
@@ -182,10 +183,10 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
-        if self.phase == 1:  # Put the points back in the queue in init phase
-            self.init_pending = 0
-            for x in self.Xpend:
-                self.batch_queue.append(np.copy(x))
+        self.init_pending = 0
+        # Put the pending points from the initial design back in the queue
+        for x in list(self.init_points):
+            self.requeue_initial(x)
 
         # Remove everything that was pending
         self.pending_evals = 0
@@ -317,9 +318,23 @@ class SurrogateBaseStrategy(BaseStrategy):
     def init_proposal(self):
         """Propose a point from the initial experimental design."""
         proposal = self.make_proposal(self.batch_queue.pop())
+        self.init_points.append(np.copy(proposal.args[0]))
         proposal.add_callback(self.on_initial_proposal)
         return proposal
 
+    def remove_initial(self, x):
+        """Delete one occurrence of a point from self.init_points."""
+        for i, y in enumerate(self.init_points):
+            if np.array_equal(x, y):
+                del self.init_points[i]
+                break
+
+    def requeue_initial(self, x):
+        """Put a point from the initial design that was not evaluated back in the queue."""
+        self.remove_initial(x)
+        self.batch_queue.append(np.copy(x))
+        self.phase = 1  # The point has to be proposed as an initial point again
+
     def on_initial_proposal(self, proposal):
         """Handle accept/reject of proposal from initial design."""
         if proposal.accepted:
@@ -338,7 +353,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.rejected_count += 1
         self.pending_evals -= 1
         xx = proposal.args[0]
-        self.batch_queue.append(xx)  # Add back to queue
+        self.requeue_initial(xx)  # Add back to queue
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
@@ -357,6 +372,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
         self.fX = np.vstack((self.fX, fx))
         self.remove_pending(xx)
+        self.remove_initial(xx)
 
         # Only count point if it was proposed after the last restart
         if record.ev_id > self.ev_restart:
@@ -371,7 +387,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle aborted feval from initial design."""
         self.pending_evals -= 1
         xx = record.params[0]
-        self.batch_queue.append(xx)
+        self.requeue_initial(xx)
         self.remove_pending(xx)
         self.fevals.append(record)
 
-- 
2.43.0


From e06c797236764525071ec68c13baa55490748338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 06/35] fix: take the snapshot after the strategy has handled
 the update

---
 pySOT/controller/controller.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..01d2cd8 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -48,7 +48,19 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        record.add_callback(self.on_update)
+        record.add_callback(self._add_on_update_last)
+
+    def _add_on_update_last(self, record):
+        """Internal handler -- make sure that on_update runs after the strategy.
+
+        The strategy adds its callbacks after this controller, so we wait for
+        the first update of the record before on_update is added to the list.
+
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if self.on_update not in record.callbacks:
+            record.add_callback(self.on_update)
 
     def on_new_feval(self, record):
         """Handle new function evaluation request.
-- 
2.43.0


From 8c6e1d7cd00e00d70add1cf23dd9e1c48930ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 07/35] fix: the checkpoint file can be in any directory

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 5dae850..9787c4e 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -176,7 +176,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        dirname, basename = os.path.split(fname)
+        temp_fname = os.path.join(dirname, "temp_" + basename)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From 38ec0d7523c91b13ebdf3a2f5698999f7af04c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 08/35] fix: a failure among the last evaluations in flight no
 longer ends the run short of its budget

---
 pySOT/strategy/surrogate_strategy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9787c4e..d561419 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -195,7 +195,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def check_termination(self):
         """Check if evaluation based termination criterion has been reached."""
-        if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
+        if self.num_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
 
     def sample_restart(self):
@@ -271,6 +271,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         if self.terminate:  # Check if termination has been triggered
             if self.pending_evals == 0:  # Only terminate if nothing is pending, otherwise take no action
                 return Proposal("terminate")
+        elif self.num_evals + self.pending_evals >= self.max_evals:  # Wait, pending evaluations may still fail
+            return
         elif self.converged:
             if self.use_restarts:  # Start a new run
                 if self.asynchronous or self.pending_evals == 0:  # We can restart immidiately, else wait
-- 
2.43.0


From de25f031c73030482aee0e6f4a2c36cea1978dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 09/35] fix: terminate when the run has converged and restarts
 are disabled

---
 pySOT/strategy/surrogate_strategy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index d561419..3e88225 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -280,6 +280,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                 else:
                     return
+            elif self.pending_evals == 0:  # Nothing more to do without restarts
+                return Proposal("terminate")
         elif self.batch_queue:  # Propose point from the batch_queue
             if self.phase == 1:
                 return self.init_proposal()
@@ -300,6 +302,10 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                elif self.pending_evals == 0:  # Nothing more to do without restarts
+                    return Proposal("terminate")
+                else:
+                    return
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From 503da9865d43c0b141bf25d5790623cac25dbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 10/35] fix: np.inf marks an extra point with unknown value, as
 documented

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 3e88225..ac68cdd 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -242,7 +242,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From be35d1d6372cf1635e9a5e1d68322cdff868230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 11/35] fix: extra points with known values are part of the
 data of the first run

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index ac68cdd..a70acc7 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -248,6 +248,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From 3223958a7fdf146e57723a4c6d9a35460b13011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 12/35] fix: candidate_dycors perturbs the coordinates in
 subset, and can pick the last of them

---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From bb30d4911db183234e21eb056f3d5c9dc4f48b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 13/35] fix: the genetic algorithm accepts an initial
 population inside the bounds, and leaves it unchanged

---
 pySOT/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..ed6eaf0 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,9 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
-            ):
+            if np.any(self.start < self.lower_boundary) or np.any(self.start > self.upper_boundary):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.array(self.start, dtype=float)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From cf5e4c14b84a4ee864f167519725d900cde187a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 14/35] fix: add_points accepts integer values

---
 pySOT/surrogate/surrogate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index 89edafd..8017881 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -59,8 +59,7 @@ class Surrogate(ABC):
         :type fx: numpy.array or float
         """
         xx = np.atleast_2d(xx)
-        if isinstance(fx, float):
-            fx = np.array([fx])
+        fx = np.asarray(fx, dtype=float)
         if fx.ndim == 0:
             fx = np.expand_dims(fx, axis=0)
         if fx.ndim == 1:
-- 
2.43.0


From fffb7d8561fded3b7a6073b56479f7e3224aec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 15/35] fix: lcb_ga works without a target, and returns None if
 no point is far enough from the others

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..9d73c38 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if np.isinf(f_min) or (lcb_target is not None and f_min > lcb_target):
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From 537678ac2991a576a86139f56fe738a8e85cf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 16/35] fix: ei_ga returns None if no point is far enough from
 the others, also when ei_tol is zero

---
 pySOT/auxiliary_problems/ei_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/ei_ga.py b/pySOT/auxiliary_problems/ei_ga.py
index 29cab69..a2ea381 100644
--- a/pySOT/auxiliary_problems/ei_ga.py
+++ b/pySOT/auxiliary_problems/ei_ga.py
@@ -53,7 +53,7 @@ def ei_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, dtol=1e-3, ei_tol=1e-
         x_best, f_min = ga.optimize()
 
         ei_max = -f_min
-        if ei_max < ei_tol:
+        if ei_max < ei_tol or (dtol > 0 and ei_max <= 0):
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From e5a41743627790f571208eeb535a7fb00128f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 17/35] fix: do not select the same candidate twice if both the
 weight and dtol are zero

---
 pySOT/auxiliary_problems/candidate_srbf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/auxiliary_problems/candidate_srbf.py b/pySOT/auxiliary_problems/candidate_srbf.py
index 4bab802..05948f5 100644
--- a/pySOT/auxiliary_problems/candidate_srbf.py
+++ b/pySOT/auxiliary_problems/candidate_srbf.py
@@ -46,6 +46,7 @@ def weighted_distance_merit(num_pts, surrogate, X, fX, cand, weights, Xpend=None
         merit = w * fvals + (1.0 - w) * (1.0 - unit_rescale(np.copy(dmerit)))
 
         merit[dmerit < dtol] = np.inf
+        merit[np.isinf(fvals)] = np.inf  # Already selected (0 * inf is nan)
         jj = np.argmin(merit)
         fvals[jj] = np.inf
         new_points[i, :] = cand[jj, :].copy()
-- 
2.43.0


From f967add7276b2b6febe7d32e90205bbd0b0c259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 18/35] fix: random sampling respects integer variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..a8950da 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From 188221d7606bcd9c032579f929d9b7f1a59f58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 19/35] fix: the checks of budget, batch size, dimensions and
 ncenters reject invalid values

---
 pySOT/strategy/random_strategy.py    |  4 ++--
 pySOT/strategy/sop_strategy.py       |  2 +-
 pySOT/strategy/surrogate_strategy.py | 10 +++++++++-
 pySOT/utils.py                       |  2 +-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index a8950da..577883f 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not isinstance(max_evals, (int, np.integer)) or max_evals <= 0:
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..6724ceb 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -230,7 +230,7 @@ class SOPStrategy(SurrogateBaseStrategy):
     def check_input(self):
         """Check inputs."""
         super().check_input()
-        if not isinstance(self.ncenters, int) and self.ncenters > 3:
+        if not isinstance(self.ncenters, (int, np.integer)) or self.ncenters <= 3:
             raise ValueError("ncenters should be an integer greater than 3")
         if not self.asynchronous:
             if not self.ncenters >= self.batch_size:
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index a70acc7..82a75ba 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -160,9 +160,17 @@ class SurrogateBaseStrategy(BaseStrategy):
         if not isinstance(self.opt_prob, OptimizationProblem):
             raise ValueError("opt_prob must implement OptimizationProblem")
         check_opt_prob(self.opt_prob)
+        if self.surrogate.dim != self.opt_prob.dim or self.exp_design.dim != self.opt_prob.dim:
+            raise ValueError("surrogate and exp_design must have the same dimension as opt_prob")
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not self.asynchronous and not (isinstance(self.batch_size, (int, np.integer)) and self.batch_size > 0):
+            raise ValueError("batch_size must be a positive integer in synchronous mode")
+        if (
+            not isinstance(self.max_evals, (int, np.integer))
+            or self.max_evals <= 0
+            or self.max_evals < self.exp_design.num_pts
+        ):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index ed6eaf0..6716cb0 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not isinstance(obj.dim, (int, np.integer)) or obj.dim <= 0:
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
-- 
2.43.0


From 03e4b47947386f4a81393d6226b407609ba5649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 20/35] fix: the weights of SRBF and DYCORS can be given as a
 numpy array

---
 pySOT/strategy/srbf_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..ec956a3 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,8 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
+        assert len(self.weights) > 0
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From b490b5116aec6c222d37aa9f3d08d0fc118e693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 21/35] fix: check_opt_prob rejects variables that are listed
 twice

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 6716cb0..05d7feb 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == obj.dim and len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From 9c361d32a45d80ba2f95f4afb8b5106c03ca208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 22/35] fix: SOP chooses its centers from the ranks of all
 evaluated points

---
 pySOT/strategy/sop_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 6724ceb..76f210a 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -272,8 +272,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
-            self.update_ranks()
+        self.update_ranks()
         self.update_center_list()
 
         # Compute dycors perturbation probability
@@ -395,7 +394,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         dists = scp.distance.cdist(F[:, 0 : self.opt_prob.dim], F[:, 0 : self.opt_prob.dim])
         for i in range(nevals):
             a = dists[i, :]
-            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)])
+            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)], initial=POSITIVE_INFINITY)
 
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
-- 
2.43.0


From 1f99b003d270c97152598d58883fa97d7a403b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 23/35] fix: SOP keeps working when points are rejected or
 fail, and when all centers are in use

---
 pySOT/strategy/sop_strategy.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 76f210a..0ef25d0 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -258,7 +258,9 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
-                if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
+                if self.centers[i].new_index is None and np.array_equal(
+                    np.copy(record.params[0]), self.centers[i].new_point
+                ):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
@@ -268,6 +270,32 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal in phase 2."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The point is withdrawn
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation in phase 2."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:  # Batch
+            self.adjust_memory()
+
+    def resume(self):
+        """Resume a terminated run."""
+        for x in self.Xpend:
+            self.release_center(x)
+        super().resume()
+
+    def release_center(self, x):
+        """Make the center whose new point won't be evaluated available again"""
+        for i, center in enumerate(self.centers):
+            if center.new_index is None and center.new_point is not None and np.array_equal(x, center.new_point):
+                self.centers[i] = _SopCenter(center.xc, center.index)
+                break
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
@@ -292,6 +320,8 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if center.new_point is None:
                     break
                 center_index += 1
+            if center_index == len(self.centers):  # All centers are in use, wait for one to finish
+                return
             # Select new point by candidate search around center
             X_c = self.centers[center_index].xc
             sampling_radius = self.evals[self.centers[center_index].index].sigma
@@ -324,7 +354,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """
 
         if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+            indices = [i for i in range(len(self.centers)) if self.centers[i].new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From fd6654261abb06e17ec346423a5e5e5246846908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 24/35] fix: SOP does not mistake a best point that has been
 tabu for two updates for one in use

---
 pySOT/strategy/sop_strategy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0ef25d0..23d5fb0 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -448,6 +448,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         F = np.copy(self.F_ranked)
         self.d_thresh = 1.0 - float(nevals - self.num_exp) / float(self.max_evals - self.num_exp)
 
+        in_use = []  # Indices of the points that are still centers
+
         # Step 1 - Remove center points around which new points have been
         # proposed and evaluated
         if len(self.centers) > 0:
@@ -457,6 +459,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                     finished_centers.append(i)
                 else:  # If a center is being processed, tag it as tabu
                     F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                    in_use.append(self.centers[i].index)
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -464,7 +467,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or min_index in in_use:
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From d6d33e8e86e0f0d2105cc33971ff99a58456e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 25/35] fix: the perturbation probability is defined if the
 budget leaves one adaptive evaluation

---
 pySOT/strategy/dycors_strategy.py | 2 +-
 pySOT/strategy/sop_strategy.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/dycors_strategy.py b/pySOT/strategy/dycors_strategy.py
index 472779b..f77ec14 100644
--- a/pySOT/strategy/dycors_strategy.py
+++ b/pySOT/strategy/dycors_strategy.py
@@ -85,7 +85,7 @@ class DYCORSStrategy(SRBFStrategy):
         """Generate the next adaptive sample points."""
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)  # The logarithm has to be positive
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 23d5fb0..192965a 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -306,7 +306,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)  # The logarithm has to be positive
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
-- 
2.43.0


From 42ebc04ab568e62a4a0f558a1b902da8cb77ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 26/35] fix: keep design points inside the bounds despite
 rounding errors

---
 pySOT/experimental_design/experimental_design.py | 2 +-
 pySOT/experimental_design/two_factorial.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/experimental_design/experimental_design.py b/pySOT/experimental_design/experimental_design.py
index 500cbf1..d4ec710 100755
--- a/pySOT/experimental_design/experimental_design.py
+++ b/pySOT/experimental_design/experimental_design.py
@@ -62,7 +62,7 @@ def _expdes_dist(gen, iterations, lb, ub, int_var):
     for _ in range(iterations):
         cand = gen()  # Generate a new design
         if all([x is not None for x in [lb, ub]]):  # Map and round
-            cand = round_vars(from_unit_box(cand, lb, ub), int_var, lb, ub)
+            cand = round_vars(np.clip(from_unit_box(cand, lb, ub), lb, ub), int_var, lb, ub)
 
         dists = cdist(cand, cand)
         np.fill_diagonal(dists, np.inf)  # Since these are zero
diff --git a/pySOT/experimental_design/two_factorial.py b/pySOT/experimental_design/two_factorial.py
index f1d71d2..76fadb1 100644
--- a/pySOT/experimental_design/two_factorial.py
+++ b/pySOT/experimental_design/two_factorial.py
@@ -50,5 +50,5 @@ class TwoFactorial(ExperimentalDesign):
 
         X = np.array(list(itertools.product([0, 1], repeat=self.dim)))
         if all([x is not None for x in [lb, ub]]):  # Map and round
-            X = round_vars(from_unit_box(X, lb, ub), int_var, lb, ub)
+            X = round_vars(np.clip(from_unit_box(X, lb, ub), lb, ub), int_var, lb, ub)
         return X
-- 
2.43.0


From cd96f7ca2177f635a280f67c2a01f0e38943726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 27/35] fix: keep the initial population inside the bounds
 despite rounding errors

---
 pySOT/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 05d7feb..b295bbf 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -288,6 +288,9 @@ class GeneticAlgorithm:
         else:
             raise ValueError("Unknown argument for initial population")
 
+        # Rounding errors must not move points outside the domain
+        population = np.clip(population, self.lower_boundary, self.upper_boundary)
+
         new_population = []
         #  Round positions
         if len(self.integer_variables) > 0:
-- 
2.43.0


From f1c83f47f1f99a49103a4c45bd7cb07af7403e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 28/35] fix: the domain of Branin contains its minimizer

---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From 706eb6c1068f545c9ad486e83946d8539797ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 29/35] fix: extra points of the wrong size are rejected

---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 82a75ba..1773847 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -162,6 +162,11 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if self.surrogate.dim != self.opt_prob.dim or self.exp_design.dim != self.opt_prob.dim:
             raise ValueError("surrogate and exp_design must have the same dimension as opt_prob")
+        if self.extra_points is not None:
+            if self.extra_points.ndim != 2 or self.extra_points.shape[1] != self.opt_prob.dim:
+                raise ValueError("extra_points must be of size n x dim")
+            if self.extra_vals is not None and len(self.extra_vals) != len(self.extra_points):
+                raise ValueError("extra_vals must have one value per extra point")
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
         if not self.asynchronous and not (isinstance(self.batch_size, (int, np.integer)) and self.batch_size > 0):
-- 
2.43.0


From 9facaa0ceadb863f0b6b409d729eb9306b3055df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 30/35] fix: a synchronous batch whose last evaluation fails is
 processed as a step of its own

---
 pySOT/strategy/srbf_strategy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index ec956a3..46cc3d9 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -160,6 +160,13 @@ class SRBFStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_step()
 
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation, which may be the last one of a batch."""
+        super().on_adapt_aborted(record)
+
+        if not self.asynchronous and self.record_queue and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_step()
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From a0058d2b33ca54d65529e2bb546bd4ffa159988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 31/35] fix: the Levy function sums over all coordinates but
 the last

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..bcabc97 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[: d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[: d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From 7727a5ac97b3f9f2e136c07d09f242f0670fc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 32/35] fix: the Exponential function weights each coordinate
 by its own index

---
 pySOT/optimization_problems/exponential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From e573e18b4b2135681fea968908b59a98fcff2931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 33/35] fix: median capping of integers does not truncate the
 median

---
 pySOT/surrogate/output_transformations/median_capping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/output_transformations/median_capping.py b/pySOT/surrogate/output_transformations/median_capping.py
index 9b64984..2c2fde8 100644
--- a/pySOT/surrogate/output_transformations/median_capping.py
+++ b/pySOT/surrogate/output_transformations/median_capping.py
@@ -10,7 +10,7 @@ def median_capping(x):
     :return: x
     :rtype: numpy.array
     """
-    x = x.copy()
+    x = x.astype(float)  # This makes a copy, and the median may not be an integer
     medf = np.median(x)
     x[x > medf] = medf
     return x
-- 
2.43.0


From 7a5464a89cd5f6f1b8dbb6b3b56c38a4e27e9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:32 +0000
Subject: [PATCH 34/35] fix: a proposal made before a restart belongs to the
 old run when it is accepted later

---
 pySOT/strategy/surrogate_strategy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 1773847..1bad631 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -328,6 +328,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def make_proposal(self, x):
         """Create proposal and update counters and budgets."""
         proposal = Proposal("eval", x)
+        proposal.ev_id = self.get_ev()
         self.pending_evals += 1
         self.Xpend = np.vstack((self.Xpend, np.copy(x)))
         return proposal
@@ -370,7 +371,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle proposal accept from initial design."""
         self.accepted_count += 1
         proposal.record.add_callback(self.on_initial_update)
-        proposal.record.ev_id = self.get_ev()
+        proposal.record.ev_id = proposal.ev_id
 
     def on_initial_rejected(self, proposal):
         """Handle proposal rejection from initial design."""
@@ -435,7 +436,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle accepted proposal from sampling phase."""
         self.accepted_count += 1
         proposal.record.add_callback(self.on_adapt_update)
-        proposal.record.ev_id = self.get_ev()
+        proposal.record.ev_id = proposal.ev_id
 
     def on_adapt_reject(self, proposal):
         """Handle rejected proposal from sampling phase."""
-- 
2.43.0


From 2ab43b8dd7dedb6524573be91a358f73dc71f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:10 +0000
Subject: [PATCH 35/35] fix: SOP takes the rest of a batch that was lost in a
 crash into account

---
 pySOT/strategy/sop_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 192965a..413e1b1 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -287,7 +287,10 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Resume a terminated run."""
         for x in self.Xpend:
             self.release_center(x)
+        pending = self.pending_evals
         super().resume()
+        if not self.asynchronous and self.phase == 2 and pending > 0 and (not self.batch_queue):
+            self.adjust_memory()  # The rest of the batch is lost
 
     def release_center(self, x):
         """Make the center whose new point won't be evaluated available again"""
-- 
2.43.0

