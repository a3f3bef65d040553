From 5d8cf7e7c92b128f316d4619c1dd6d16117697ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 01/15] fix: do not pass the unknown argument use_balancing to
 AdaptivePartitioner.solve

---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From f0a4ceb450daf2cd92693bc1d7441cce4b13c10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 02/15] fix: give the random and cost options a code in the
 result row

---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From ecb8d51d504a5ac7dc7eaf679296c8c54917ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 03/15] fix: floor(epsilon*N) must not depend on the rounding
 of the product

---
 src/instance/ChanceKnapInstance.py | 3 ++-
 src/refiner/Refiner.py             | 2 +-
 src/solver/AdaptivePartitioner.py  | 5 +++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..f06e738 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,8 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        # Absorb the rounding error of the product (e.g. 0.29*100 < 29)
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + 1e-7
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..beb3f5b 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,7 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + 1e-7))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..1833e68 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,9 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + 1e-7) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 09cdcd53df5e2d4a06dd5ad6a2974833f70eb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 04/15] fix: define the gap for a zero lower bound

---
 src/solver/Solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..bcd0a35 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,10 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif self.vUB == self.vLB:
+            gap = 0.0
+        elif self.vLB == 0:
+            gap = np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From ea64de7fd6da10615bede890ae908d1044e15340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 05/15] fix: quantile big M with only floor(epsilon*N)+1
 scenarios or subsets

---
 src/BigMFinder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..755fca2 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,7 +96,8 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios)+1)
-        return violations[q]
+        # There may be only floor(epsilon*N)+1 violations
+        return violations[min(q, len(violations) - 1)]
 
     #   - - - Public methods - - -
     def run_belotti_et_al_big_M(self, vUB,
-- 
2.43.0


From 789b87029039716911a0749508ce810c6a58ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 06/15] fix: identify the Belotti and Song big-M methods in the
 result row

---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..540fe2a 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From 861d291ea550c3bdc2022e1469f465406b62dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 07/15] fix: write the result row of a MILP run without big M

---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 540fe2a..42298e8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
-- 
2.43.0


From b034c8bf1373d49aaf8514aa5e6eef41364945a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 08/15] fix: look up result files under the name the driver
 gives them

---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From d3d1c7cccc5647a2e63bb664d8d1b193d2d4647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 09/15] fix: do not apply the deletions of an earlier merge to
 the warm start

---
 src/solver/AdaptivePartitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 1833e68..a753f2e 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -226,6 +226,8 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        # Forget the subsets deleted by a merge of an earlier iteration
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From 07f8a926d7eff732d2f15e13f3bcc01dda5b28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 10/15] fix: never hand a negative time limit to the solver

---
 src/solver/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index bcd0a35..ff36c0a 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -112,7 +112,7 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
-- 
2.43.0


From 39093b8e4a4f1887a1cbc5bdb22a5db5cb2c0eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 11/15] fix: accept an upper-bound solution that is close to
 the previous one

---
 src/UpperBounder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..f67dbf2 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -24,7 +24,7 @@ class UpperBounder():
                or (adaptivePartitioner.did_merge
                    and adaptivePartitioner.MERGE_TOL > 1.00)):
                 try:
-                    assert not np.allclose(x, adaptivePartitioner.xUB)
+                    assert not np.array_equal(x, adaptivePartitioner.xUB)
                 except AssertionError:
                     print('Error: found same solution in two successive'
                           ' iterations of the upper bound problem.')
-- 
2.43.0


From 19a81e89d79703697b0f40877079908d03bed1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 12/15] fix: write the result row of a run interrupted before
 its first iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index a753f2e..6694766 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,7 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.iteration = 0
         self.did_merge = False
         self.MERGE_TOL = 1.00
         self.split_method = split_method
-- 
2.43.0


From 5641cbe0fd45d929ee7ab036618d06fd9f51257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 13/15] fix: survive an upper-bound model stopped before its
 first solution

---
 src/UpperBounder.py               | 3 ++-
 src/solver/AdaptivePartitioner.py | 5 ++++-
 src/solver/Solver.py              | 3 +++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index f67dbf2..22effeb 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -123,5 +123,6 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
-        self._check_results(x, v_obj, adaptivePartitioner)
+        if x is not None:
+            self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 6694766..90c9620 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -139,6 +139,9 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
+        if xUB is None:
+            # No solution found within the time limit
+            return None, False
         if self._available_time() <= 0:
             return self.xUB, False
 
@@ -305,7 +308,7 @@ class AdaptivePartitioner(Solver):
                                                  use_lazy=use_lazy)
             if is_feasible:
                 break
-            if self._available_time() <= 0:
+            if xUB is None or self._available_time() <= 0:
                 print('Interrupting adaptive partitioner: '
                       ' time limit reached.')
                 break
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index ff36c0a..d351031 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -119,6 +119,9 @@ class Solver():
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        if cclp_model.grb_model.getAttr(GRB.Attr.SolCount) == 0:
+            # Stopped by the time limit before finding any solution
+            return None, None, -np.inf, cclp_model.get_obj_bnd()
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-- 
2.43.0


From 87192d7f8d28bf0b89ce27a00ceeedeaaef4aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 14/15] fix: solve subset costs, used as upper bounds, to
 optimality

---
 src/Evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Evaluator.py b/src/Evaluator.py
index 07631fd..bc75797 100644
--- a/src/Evaluator.py
+++ b/src/Evaluator.py
@@ -1,5 +1,6 @@
 from src.optim.DeterModel import DeterModel
 from math import floor
+from gurobipy import GRB
 
 
 class Evaluator():
@@ -32,6 +33,8 @@ class Evaluator():
         """
         deterministicModel = DeterModel(self.chance_instance)
         deterministicModel.build(subset)
+        # The costs are used as upper bounds: solve to optimality
+        deterministicModel.grb_model.setParam(GRB.Param.MIPGap, 1e-8)
         deterministicModel.solve()
         subset_cost = deterministicModel.get_obj_val()
         subset_sol = deterministicModel.get_var_x_val()
-- 
2.43.0


From 004e20ff003186d0d85964c4dba69104a8cf63f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 15/15] fix: keep the solution of the last partitioned problem

An upper bound slightly above the previous one (within the solver's gap) was
rightly not stored, but neither was the solution: a run that then ended with
this solution, feasible for the original problem, reported the earlier,
infeasible one.
---
 src/solver/AdaptivePartitioner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 90c9620..7ba0a40 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -149,9 +149,8 @@ class AdaptivePartitioner(Solver):
 
         # - Store results -
         self.zUB = z
+        self.xUB = xUB
         if (v_bnd <= self.vUB + 1e-8):
-            if (v_obj <= self.vUB + 1e-8):
-                self.xUB = xUB
             self.vUB = v_bnd
         self.lowerbounder.save_feasible_scenarios(
             self.chance_instance.get_feasible_scenarios())
-- 
2.43.0

