From 962e2f49f949d5a426e5a5215529443907b524b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 001/116] fix: BCO evaluates the corrected position after a
 swim step and a migration

---
 mealpy/bio_based/BCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index 781d6ce..f643af1 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -116,7 +116,7 @@ class OriginalBCO(Optimizer):
                 # Continue swimming without turbulence
                 pos_new = self.pop[idx].solution + step * step_direction
                 agent_new.solution = self.correct_solution(pos_new)
-                agent_new.target = self.get_target(pos_new)
+                agent_new.target = self.get_target(agent_new.solution)
                 m += 1
 
         # 2. Interactive Exchange
@@ -161,7 +161,7 @@ class OriginalBCO(Optimizer):
         if epoch % 50 == 0:
             for idx in range(self.pop_size):
                 if self.generator.random() < self.migration_prob:
-                    pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+                    pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
                     agent_new = self.generate_agent(pos_new)
                     self.pop[idx] = agent_new
                     self.pop_local[idx] = agent_new.copy()
-- 
2.43.0


From 837ac329d1454069bd3b8afdceeefa4c722f11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 002/116] fix: TSeedA evaluates the corrected seed in single
 mode

---
 mealpy/bio_based/TSeedA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/TSeedA.py b/mealpy/bio_based/TSeedA.py
index aa2d642..fe1b4d3 100644
--- a/mealpy/bio_based/TSeedA.py
+++ b/mealpy/bio_based/TSeedA.py
@@ -112,7 +112,7 @@ class OriginalTSeedA(Optimizer):
                 # agent = self.generate_empty_agent(pos_new)
                 pop_new.append(self.generate_empty_agent(pos_new))
                 if self.mode not in self.AVAILABLE_MODES:
-                    pop_new[-1].target = self.get_target(seed)
+                    pop_new[-1].target = self.get_target(pos_new)
             # Update parallel
             if self.mode in self.AVAILABLE_MODES:
                 pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 1c1b2cd02c4f929a658dea3e80094620d14e8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 003/116] fix: ArchOA evaluates the corrected position in
 single mode

---
 mealpy/physics_based/ArchOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ArchOA.py b/mealpy/physics_based/ArchOA.py
index e0efd68..988f4b7 100644
--- a/mealpy/physics_based/ArchOA.py
+++ b/mealpy/physics_based/ArchOA.py
@@ -142,7 +142,7 @@ class OriginalArchOA(Optimizer):
             agent.solution = self.correct_solution(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From f157c8887edc2bc8bae74f1e0edd74cf8bcf7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 004/116] fix: FOA evaluates the smell concentration the agent
 holds in single mode

---
 mealpy/swarm_based/FOA.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/FOA.py b/mealpy/swarm_based/FOA.py
index e7f40ca..ab5a0d9 100644
--- a/mealpy/swarm_based/FOA.py
+++ b/mealpy/swarm_based/FOA.py
@@ -80,7 +80,7 @@ class OriginalFOA(Optimizer):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -145,7 +145,7 @@ class DevFOA(OriginalFOA):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -232,7 +232,7 @@ class WhaleFOA(OriginalFOA):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                agent.target = self.get_target(pos_new)
+                agent.target = self.get_target(agent.solution)
                 self.pop[idx] = self.get_better_agent(agent, self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 5fab373cd578efc55805c270caf47d8434e0ca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 005/116] fix: SBO stores the evaluated candidate, not only its
 fitness, in single mode

---
 mealpy/bio_based/SBO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/SBO.py b/mealpy/bio_based/SBO.py
index a88bcb1..9ad2168 100644
--- a/mealpy/bio_based/SBO.py
+++ b/mealpy/bio_based/SBO.py
@@ -225,6 +225,7 @@ class OriginalSBO(DevSBO):
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-                self.pop[idx].target = self.get_target(pos_new)
+                agent.target = self.get_target(pos_new)
+                self.pop[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             self.pop = self.update_target_for_population(pop_new)
-- 
2.43.0


From b4041959ec879de336e9619a44b79f869ff5de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 006/116] fix: WHO herd social memory keeps the corrected
 position

---
 mealpy/bio_based/WHO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/WHO.py b/mealpy/bio_based/WHO.py
index 8d5ffef..eaf3c54 100644
--- a/mealpy/bio_based/WHO.py
+++ b/mealpy/bio_based/WHO.py
@@ -169,7 +169,7 @@ class OriginalWHO(Optimizer):
             for jdx in range(0, self.n_exploit_step):
                 temp = g_best.solution + 0.1 * self.generator.uniform(self.problem.lb, self.problem.ub)
                 pos_new = self.correct_solution(temp)
-                agent = self.generate_empty_agent(temp)
+                agent = self.generate_empty_agent(pos_new)
                 pop_child.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-- 
2.43.0


From 0f3f129be665e0846478fc6c7f0f080447de0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 007/116] fix: CA corrects positions drawn from the belief
 space

---
 mealpy/human_based/CA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/CA.py b/mealpy/human_based/CA.py
index 1919c0f..17d3515 100644
--- a/mealpy/human_based/CA.py
+++ b/mealpy/human_based/CA.py
@@ -75,7 +75,7 @@ class OriginalCA(Optimizer):
         # update situational knowledge (g_best here is an element inside belief space)
 
     def create_faithful__(self, lb, ub):
-        pos = self.generator.uniform(lb, ub)
+        pos = self.correct_solution(self.generator.uniform(lb, ub))
         return self.generate_agent(pos)
 
     def update_belief_space__(self, belief_space, pop_accepted):
-- 
2.43.0


From 00a12ba92f9b81f56bced0758dcef55800d9d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 008/116] fix: CSA corrects the nests that replace the
 abandoned ones

---
 mealpy/swarm_based/CSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index cde8fed..d0fd6f6 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -92,7 +92,7 @@ class OriginalCSA(Optimizer):
         pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         pop_new = []
         for idx in range(0, self.n_cut):
-            pos_new = self.generator.uniform(self.problem.lb, self.problem.ub)
+            pos_new = self.correct_solution(self.generator.uniform(self.problem.lb, self.problem.ub))
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
-- 
2.43.0


From a656f7563ed2c6a8015931cfd7a345a3c6c99377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 009/116] fix: GWO variants correct opposite positions before
 evaluating them

---
 mealpy/swarm_based/GWO.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/swarm_based/GWO.py b/mealpy/swarm_based/GWO.py
index 52316fa..2ea0ebe 100644
--- a/mealpy/swarm_based/GWO.py
+++ b/mealpy/swarm_based/GWO.py
@@ -1020,9 +1020,9 @@ class IOBL_GWO(Optimizer):
         # Apply Opposition-Based Learning (OBL) for leading wolves
         _, list_best, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
         pop_sorted, indices = self.get_sorted_population(self.pop, minmax=self.problem.minmax)
-        obl_alpha = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[0].solution)
-        obl_beta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[1].solution)
-        obl_delta = self.generate_agent(solution=self.problem.lb + self.problem.ub - pop_sorted[2].solution)
+        obl_alpha = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[0].solution))
+        obl_beta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[1].solution))
+        obl_delta = self.generate_agent(solution=self.correct_solution(self.problem.lb + self.problem.ub - pop_sorted[2].solution))
         obl_pop = [obl_alpha, obl_beta, obl_delta]
 
         # Replace worst 3 wolves with opposite solutions if they are better
@@ -1098,7 +1098,7 @@ class OGWO(Optimizer):
         # Generate opposition population using equation (12)
         pop_opposite = []
         for agent in self.pop:
-            pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+            pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
             agent_opposite = self.generate_empty_agent(pos_opposite)
             agent_opposite.target = self.get_target(pos_opposite)
             pop_opposite.append(agent_opposite)
@@ -1142,7 +1142,7 @@ class OGWO(Optimizer):
             # Generate opposition population using equation (12)
             pop_opposite = []
             for agent in self.pop:
-                pos_opposite = self.problem.lb + self.problem.ub - agent.solution
+                pos_opposite = self.correct_solution(self.problem.lb + self.problem.ub - agent.solution)
                 agent_opposite = self.generate_empty_agent(pos_opposite)
                 agent_opposite.target = self.get_target(pos_opposite)
                 pop_opposite.append(agent_opposite)
-- 
2.43.0


From 4bdfbe1fceb920e3de46db834e893612c6e2ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 010/116] fix: ORCA corrects the attacked position before
 evaluating it

---
 mealpy/swarm_based/ORCA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 8dece2d..932961a 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -254,6 +254,6 @@ class OriginalOrcaPA(Optimizer):
                     # Assign the minimum boundary value (lb) for some dimensions
                     cond = self.generator.random(self.problem.n_dims) < self.p2
                     pos_new = np.where(cond, self.problem.lb, pop_chase[idx].solution)
-                    self.pop[idx] = self.generate_agent(pos_new)
+                    self.pop[idx] = self.generate_agent(self.correct_solution(pos_new))
                 else:
                     self.pop[idx] = pop_chase[idx].copy()
-- 
2.43.0


From a42179776c751ed0ee1768fa0e5f0077319de141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 011/116] fix: PO corrects campaign positions with the
 problem's variables

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index d7c25bf..b4fad22 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -171,7 +171,7 @@ class OriginalPO(Optimizer):
             pos_new = self.rppus_update(pos_new, self.pop_prev[k].solution, m_const, is_improved)
 
             # Apply boundary constraints
-            self.pop[k].solution = self.amend_solution(pos_new)
+            self.pop[k].solution = self.correct_solution(pos_new)
 
         # Party Switching Phase
         for k in range(self.pop_size):
-- 
2.43.0


From 657fec974fac16f9e4c30ca4dfa8f47bd31cc43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 012/116] fix: SA corrects the perturbed position before
 evaluating it

---
 mealpy/physics_based/SA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index c2618af..2442ddf 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -82,6 +82,7 @@ class OriginalSA(Optimizer):
         # Perturb the current solution
 
         pos_new = self.agent_current.solution + self.generator.standard_normal(self.problem.n_dims) * self.step_size
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
@@ -176,6 +177,7 @@ class GaussianSA(Optimizer):
         """
         # Perturb the current solution
         pos_new = self.agent_current.solution + self.generator.normal(scale=self.scale, size=self.problem.n_dims)
+        pos_new = self.correct_solution(pos_new)
         agent = self.generate_agent(pos_new)
         # Accept or reject the new solution
         if self.compare_target(agent.target, self.agent_current.target, self.problem.minmax):
-- 
2.43.0


From d6ce14a0eab8d61efabcbbb505a9054db55db6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 013/116] fix: ETLBO corrects the mutated duplicates

---
 mealpy/human_based/TLO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index b4215df..5fdba26 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -122,7 +122,7 @@ class ETLBO(Optimizer):
         for idx in duplicate_indices:
             # Randomly mutate duplicate solutions within bounds
             pos_new = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)
-            self.pop[idx] = self.generate_agent(pos_new)
+            self.pop[idx] = self.generate_agent(self.correct_solution(pos_new))
 
 
 class OriginalTLO(Optimizer):
-- 
2.43.0


From c8ab6240c996b7c96790242b0af01e22efdd4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 014/116] fix: TWO variants evaluate the corrected position in
 single mode

---
 mealpy/physics_based/TWO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/physics_based/TWO.py b/mealpy/physics_based/TWO.py
index 759bb1a..3bcf3c3 100644
--- a/mealpy/physics_based/TWO.py
+++ b/mealpy/physics_based/TWO.py
@@ -214,7 +214,7 @@ class OppoTWO(OriginalTWO):
             pos_new = np.where(conditions, pos_new, self.pop[idx].solution)
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -306,7 +306,7 @@ class LevyTWO(OriginalTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
@@ -420,7 +420,7 @@ class EnhancedTWO(OppoTWO, LevyTWO):
                             pos_new[jdx] = self.problem.ub[jdx]
             pop_new[idx].solution = self.correct_solution(pos_new)
             if self.mode not in self.AVAILABLE_MODES:
-                pop_new[idx].target = self.get_target(pos_new)
+                pop_new[idx].target = self.get_target(pop_new[idx].solution)
                 self.pop[idx] = self.get_better_agent(pop_new[idx], self.pop[idx], self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
-- 
2.43.0


From 0edd1a15e18804bfb50bff54c94e7fea42a09f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 015/116] fix: BeesA dances on a copy of the bee's position

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index d78d976..ce35914 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -215,6 +215,7 @@ class OriginalBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
@@ -329,6 +330,7 @@ class ProbBeesA(Optimizer):
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(list(range(0, self.problem.n_dims)))
+        position = position.copy()
         position[jdx] = position[jdx] + r * self.generator.uniform(-1, 1)
         return self.correct_solution(position)
 
-- 
2.43.0


From f804c376610261fa17fdc7273206f2dc051b1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 016/116] fix: GA mutates a copy of the parent's position

---
 mealpy/evolutionary_based/GA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 550a084..89bd954 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -247,7 +247,7 @@ class BaseGA(Optimizer):
         Returns:
             np.array: The mutated vector of the child
         """
-
+        child = child.copy()
         if self.mutation_multipoints:
             if self.mutation == "swap":
                 for idx in range(self.problem.n_dims):
@@ -430,6 +430,7 @@ class SingleGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        child = child.copy()
         if self.mutation == "swap":
             idx1, idx2 = self.generator.choice(range(0, self.problem.n_dims), 2, replace=False)
             child[idx1], child[idx2] = child[idx2], child[idx1]
@@ -682,6 +683,7 @@ class MultiGA(BaseGA):
         Returns:
             np.array: The mutated vector of the child
         """
+        child = child.copy()
         if self.mutation == "swap":
             for idx in range(self.problem.n_dims):
                 idx_swap = self.generator.choice(list(set(range(0, self.problem.n_dims)) - {idx}))
-- 
2.43.0


From 45a7a50e6a35859dee8c3a9869705f844a71fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 017/116] fix: HBO updates a copy of the current position

---
 mealpy/human_based/HBO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/HBO.py b/mealpy/human_based/HBO.py
index 9d1b1b8..f3cc2b0 100644
--- a/mealpy/human_based/HBO.py
+++ b/mealpy/human_based/HBO.py
@@ -122,6 +122,7 @@ class OriginalHBO(Optimizer):
             else:
                 parent_id = int(np.floor((c+1)/self.degree) - 1)
                 cur_agent = self.pop[self.heap[c][1]].copy()         #Sol to be updated
+                cur_agent.solution = cur_agent.solution.copy()
                 par_agent = self.pop[self.heap[parent_id][1]]           #Sol to be updated with reference to
                 # Sol to be updated with reference to
                 if self.friend_limits[c, 0] < self.friend_limits[c, 1]+1:
-- 
2.43.0


From 18d24b76cd8f07de20b5071d759f530c3246566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 018/116] fix: ICA revolution works on a copy of the country's
 position

---
 mealpy/human_based/ICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 7a8940e..274f1ae 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -93,6 +93,7 @@ class OriginalICA(Optimizer):
         idx_list = self.generator.choice(range(0, self.problem.n_dims), n_revoluted, replace=False)
         if len(idx_list) == 0:
             idx_list = np.append(idx_list, self.generator.integers(0, self.problem.n_dims))
+        solution = solution.copy()
         solution[idx_list] = pos_new[idx_list]  # Change only those selected index
         return solution
 
-- 
2.43.0


From 1db00772762b96480c7e9ea021bc315aad60e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 019/116] fix: THRO trains on a copy of the horse's position

---
 mealpy/game_based/THRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/game_based/THRO.py b/mealpy/game_based/THRO.py
index 8920b69..82cd73e 100644
--- a/mealpy/game_based/THRO.py
+++ b/mealpy/game_based/THRO.py
@@ -292,7 +292,7 @@ class OriginalTHRO(Optimizer):
 
         for idx in range(self.n_pop):
             # Training for Tianji's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     tr4, tr5 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
@@ -307,7 +307,7 @@ class OriginalTHRO(Optimizer):
                 self.pop_tianji[idx] = agent
 
             # Training for King's population
-            pos_new = self.pop_tianji[idx].solution
+            pos_new = self.pop_tianji[idx].solution.copy()
             for jdx in range(self.problem.n_dims):
                 if self.generator.random() > 0.5:       # Levy flight based training
                     kr1, kr2 = self.generator.choice(list(set(range(self.n_pop)) - {idx}), size=2, replace=False)
-- 
2.43.0


From 08200818654e311b344441cfba14b486faa42a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 020/116] fix: ImprovedLCO evaluates the new candidates instead
 of the old ones in parallel modes

---
 mealpy/human_based/LCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index 714526e..73f5093 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -299,7 +299,7 @@ class ImprovedLCO(Optimizer):
                 agent.target = self.get_target(pos_new)
                 pop_s2[idx] = self.get_better_agent(pop_s2[idx], agent, self.problem.minmax)
         if self.mode in self.AVAILABLE_MODES:
-            pop_child2 = self.update_target_for_population(pop_s2)
-            pop_s2 = self.greedy_selection_population(pop_s2, pop_child2, self.problem.minmax)
+            pop_child2 = self.update_target_for_population(pop_child2)
+            pop_s2 = self.greedy_selection_population(pop_s2[:self.pop_len], pop_child2, self.problem.minmax) + pop_s2[self.pop_len:]
         ## Construct a new population
         self.pop = pop_s1 + pop_s2
-- 
2.43.0


From c752d2dfdf08bd4fcca35422f25f395dc6a40560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 021/116] fix: NMRA evaluates each candidate once

---
 mealpy/swarm_based/NMRA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 5f9a22d..7419d06 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -76,7 +76,7 @@ class OriginalNMRA(Optimizer):
                 t1, t2 = self.generator.choice(range(self.size_b, self.pop_size), 2, replace=False)
                 pos_new = self.pop[idx].solution + self.generator.uniform() * (self.pop[t1].solution - self.pop[t2].solution)
             pos_new = self.correct_solution(pos_new)
-            agent = self.generate_agent(pos_new)
+            agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
@@ -190,7 +190,7 @@ class ImprovedNMRA(Optimizer):
             condition = self.generator.uniform(0, 1, self.problem.n_dims) < self.pm
             pos_new = np.where(condition, temp, pos_new)
             pos_new = self.correct_solution(pos_new)
-            agent = self.generate_agent(pos_new)
+            agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
-- 
2.43.0


From 13805bbb4f1eeda31b33123f58db9cbc4d345b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 022/116] fix: SSDO evaluates the new candidates instead of the
 old ones in parallel modes

---
 mealpy/human_based/SSDO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/human_based/SSDO.py b/mealpy/human_based/SSDO.py
index 7f0785d..bff9676 100644
--- a/mealpy/human_based/SSDO.py
+++ b/mealpy/human_based/SSDO.py
@@ -97,6 +97,8 @@ class OriginalSSDO(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(pos_new)
                 self.pop[idx] = self.get_better_agent(agent, pop_new[idx], self.problem.minmax)
+            else:
+                pop_new[idx] = agent
         if self.mode in self.AVAILABLE_MODES:
             pop_new = self.update_target_for_population(pop_new)
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
-- 
2.43.0


From 0e9e6d8111e2784489a58a0ec5a3f8229cc0b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 023/116] fix: SFO moves the sardines and evaluates only the
 moved ones in parallel modes

---
 mealpy/swarm_based/SFO.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index 2d9db03..f68eef3 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -105,6 +105,7 @@ class OriginalSFO(Optimizer):
             self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)
         ## Calculate AttackPower using Eq.(10)
         AP = self.AP * (1. - 2. * epoch * self.epsilon)
+        s_new = []
         if AP < 0.5:
             alpha = int(self.s_size * np.abs(AP))
             beta = int(self.problem.n_dims * np.abs(AP))
@@ -120,7 +121,8 @@ class OriginalSFO(Optimizer):
                     agent = self.generate_empty_agent(pos_new)
                     if self.mode not in self.AVAILABLE_MODES:
                         agent.target = self.get_target(pos_new)
-                        self.s_pop[idx] = agent
+                    self.s_pop[idx] = agent
+                    s_new.append(agent)
         else:
             ### Update the position of all sardine using Eq.(9)
             for idx in range(0, self.s_size):
@@ -129,9 +131,10 @@ class OriginalSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
-        ## Recalculate the fitness of all sardine
-        self.s_pop = self.update_target_for_population(self.s_pop)
+                self.s_pop[idx] = agent
+                s_new.append(agent)
+        ## Recalculate the fitness of the updated sardines
+        self.update_target_for_population(s_new)
         ## Sort the population of sailfish and sardine (for reducing computational cost)
         self.pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         self.s_pop = self.get_sorted_and_trimmed_population(self.s_pop, len(self.s_pop), self.problem.minmax)
@@ -233,6 +236,7 @@ class ImprovedSFO(Optimizer):
         ## ## Calculate AttackPower using my Eq.thieu
         #### This is our proposed, simple but effective, no need A and epsilon parameters
         AP = 1 - epoch * 1.0 / self.epoch
+        s_new = []
         if AP < 0.5:
             for idx in range(0, len(self.s_pop)):
                 temp = (self.g_best.solution + AP) / 2
@@ -241,7 +245,8 @@ class ImprovedSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
+                self.s_pop[idx] = agent
+                s_new.append(agent)
         else:
             ### Update the position of all sardine using Eq.(9)
             for idx in range(0, len(self.s_pop)):
@@ -250,9 +255,10 @@ class ImprovedSFO(Optimizer):
                 agent = self.generate_empty_agent(pos_new)
                 if self.mode not in self.AVAILABLE_MODES:
                     agent.target = self.get_target(pos_new)
-                    self.s_pop[idx] = agent
-        ## Recalculate the fitness of all sardine
-        self.s_pop = self.update_target_for_population(self.s_pop)
+                self.s_pop[idx] = agent
+                s_new.append(agent)
+        ## Recalculate the fitness of the updated sardines
+        self.update_target_for_population(s_new)
         ## Sort the population of sailfish and sardine (for reducing computational cost)
         self.pop = self.get_sorted_and_trimmed_population(self.pop, self.pop_size, self.problem.minmax)
         self.s_pop = self.get_sorted_and_trimmed_population(self.s_pop, len(self.s_pop), self.problem.minmax)
-- 
2.43.0


From f2d616952bf78348c4747abe466d16c6368058ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 024/116] fix: elite GA variants do not evaluate the elites
 again in parallel modes

---
 mealpy/evolutionary_based/GA.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 89bd954..000f14c 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -566,7 +566,7 @@ class EliteSingleGA(SingleGA):
                 pop_new.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     pop_new[-1].target = self.get_target(pos_new)
-            self.pop = self.update_target_for_population(pop_new)
+            self.pop = pop_new[:self.n_elite_best] + self.update_target_for_population(pop_new[self.n_elite_best:])
         else:
             pop_dad = self.pop[self.n_elite_best:self.n_elite_best+self.n_elite_worst]
             pop_mom = self.pop[self.n_elite_best+self.n_elite_worst:]
@@ -585,7 +585,7 @@ class EliteSingleGA(SingleGA):
                 pop_new.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     pop_new[-1].target = self.get_target(pos_new)
-            self.pop = self.update_target_for_population(pop_new)
+            self.pop = pop_new[:self.n_elite_best] + self.update_target_for_population(pop_new[self.n_elite_best:])
 
 
 class MultiGA(BaseGA):
@@ -795,7 +795,7 @@ class EliteMultiGA(MultiGA):
                 pop_new.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     pop_new[-1].target = self.get_target(pos_new)
-            self.pop = self.update_target_for_population(pop_new)
+            self.pop = pop_new[:self.n_elite_best] + self.update_target_for_population(pop_new[self.n_elite_best:])
         else:
             pop_dad = self.pop[self.n_elite_best:self.n_elite_best+self.n_elite_worst]
             pop_mom = self.pop[self.n_elite_best+self.n_elite_worst:]
@@ -814,7 +814,7 @@ class EliteMultiGA(MultiGA):
                 pop_new.append(agent)
                 if self.mode not in self.AVAILABLE_MODES:
                     pop_new[-1].target = self.get_target(pos_new)
-            self.pop = self.update_target_for_population(pop_new)
+            self.pop = pop_new[:self.n_elite_best] + self.update_target_for_population(pop_new[self.n_elite_best:])
 
 
 class OriginalGA(Optimizer):
-- 
2.43.0


From 855a0888db82b14f3ebf9810794a93ae53c0329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 025/116] fix: GRSA compares under the problem's direction

---
 mealpy/physics_based/GRSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index f6e0c95..29e830c 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -170,7 +170,7 @@ class OriginalGRSA(Optimizer):
             self.pop = self.update_target_for_population(pop_new)
 
         for idx in range(self.pop_size):
-            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx]):
+            if self.compare_fitness(self.pop[idx].target.fitness, self.geodesic_f[idx], self.problem.minmax):
                 self.geodesic_f[idx] = self.pop[idx].target.fitness
                 self.geodesic_x_p[idx] = self.pop[idx].solution.copy()
 
-- 
2.43.0


From 87dd3f957b466a6e239c1799a2b12a9059815b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 026/116] fix: ESO compares under the problem's direction

---
 mealpy/physics_based/ESO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/ESO.py b/mealpy/physics_based/ESO.py
index 967c6e2..665f8c4 100644
--- a/mealpy/physics_based/ESO.py
+++ b/mealpy/physics_based/ESO.py
@@ -161,7 +161,7 @@ class OriginalESO(Optimizer):
             agent_new = self.generate_agent(pos_new)
 
             # Select better position
-            if self.compare_target(agent_new.target, agent.target):
+            if self.compare_target(agent_new.target, agent.target, self.problem.minmax):
                 pop_new.append(agent_new)
             else:
                 pop_new.append(agent)
-- 
2.43.0


From 87100b03b858ab7273c72f8f500da0aa8eee18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 027/116] fix: PSO compares under the problem's direction

---
 mealpy/swarm_based/PSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index 9ccd223..b5ae4dc 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -651,7 +651,7 @@ class C_PSO(P_PSO):
         x_best = self.problem.lb + cx_best_1 * (self.problem.ub - self.problem.lb)  # Eq. 8
         x_best = self.correct_solution(x_best)
         target_best = self.get_target(x_best)
-        if self.compare_target(target_best, self.g_best.target):
+        if self.compare_target(target_best, self.g_best.target, self.problem.minmax):
             g_best.update(solution=x_best, target=target_best)
 
         r = self.generator.random()
-- 
2.43.0


From 824a1a51af8b92634986296469d4cac9ca898080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 028/116] fix: EEFO compares under the problem's direction

---
 mealpy/swarm_based/EEFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EEFO.py b/mealpy/swarm_based/EEFO.py
index f0e7236..fca9bdb 100644
--- a/mealpy/swarm_based/EEFO.py
+++ b/mealpy/swarm_based/EEFO.py
@@ -119,7 +119,7 @@ class OriginalEEFO(Optimizer):
                 agent_j = self.pop[jdx]
 
                 # Eq. (7): Interaction based on fitness comparison
-                if self.compare_target(agent_j.target, agent.target):
+                if self.compare_target(agent_j.target, agent.target, self.problem.minmax):
                     if self.generator.random() > 0.5:
                         pos_new = agent_j.solution + self.generator.standard_normal() * direct_vector * (mean_pop_pos - x)
                     else:
-- 
2.43.0


From c0e6d8002b393b2f6daea49e342ea574e8aadc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 029/116] fix: NGO compares under the problem's direction

---
 mealpy/swarm_based/NGO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/NGO.py b/mealpy/swarm_based/NGO.py
index 25fb791..355879f 100644
--- a/mealpy/swarm_based/NGO.py
+++ b/mealpy/swarm_based/NGO.py
@@ -93,7 +93,7 @@ class OriginalNGO(Optimizer):
         for idx in range(0, self.pop_size):
             # Phase 1: Exploration
             kk = self.generator.permutation(self.pop_size)[0]
-            if self.compare_target(self.pop[kk].target, self.pop[idx].target):     # Eq. 4
+            if self.compare_target(self.pop[kk].target, self.pop[idx].target, self.problem.minmax):     # Eq. 4
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[kk].solution - self.generator.integers(1, 3) * self.pop[idx].solution)
             else:
                 pos_new = self.pop[idx].solution + self.generator.random(self.problem.n_dims) * (self.pop[idx].solution - self.pop[kk].solution)
-- 
2.43.0


From 5b04586ebe3377a01bbb49ebbcaaf5a996a1592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 030/116] fix: IMODE compares under the problem's direction

---
 mealpy/sota_based/IMODE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index d8fa722..7eac38c 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -281,7 +281,7 @@ class OriginalIMODE(Optimizer):
         for idx in range(len(matrix_child)):
             pos_new = self.correct_solution(matrix_child[idx])
             agent = self.generate_agent(pos_new)
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 improvement_mask[idx] = True
             improvements[idx] = np.abs(self.pop[idx].target.fitness - agent.target.fitness)
             pop_new.append(agent)
-- 
2.43.0


From a93988aa53d031b9a06e260e196bc652bc1b0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 031/116] fix: CCO compares under the problem's direction

---
 mealpy/swarm_based/CCO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/CCO.py b/mealpy/swarm_based/CCO.py
index 1fd31d8..23b88cd 100644
--- a/mealpy/swarm_based/CCO.py
+++ b/mealpy/swarm_based/CCO.py
@@ -184,7 +184,7 @@ class OriginalCCO(Optimizer):
                             else:
                                 V = 2 * (rng.random() * (self.pop[kk[1]].solution - self.pop[kk[2]].solution) + rng.random() * (self.pop[kk[0]].solution - pos_ii))
 
-                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target):
+                            if self.compare_target(self.pop[idx].target, self.pop[kk[idx]].target, self.problem.minmax):
                                 step = pos_ii - E * self.pop[kk[idx]].solution
                                 if (idx + 1) % 2 == 1:
                                     pos_new = (pos_ii + (T ** 2) * self.y[idx] * (1 - R1) * np.abs(step)) + F * R1 * step / 2 + V * J_i / epoch
@@ -262,7 +262,7 @@ class OriginalCCO(Optimizer):
             agent = self.generate_agent(pos_new)
 
             # Replacement logic
-            if self.compare_target(agent.target, self.pop[idx].target):
+            if self.compare_target(agent.target, self.pop[idx].target, self.problem.minmax):
                 self.pop[idx] = agent
                 # Q=1 logic: Replace the current worst in population
                 if Q == 1:
-- 
2.43.0


From 36f6bf31283894dd9bdb60fda69401faab004355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 032/116] fix: GRSA ranks its objects under the problem
 direction

---
 mealpy/physics_based/GRSA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/GRSA.py b/mealpy/physics_based/GRSA.py
index 29e830c..370d671 100644
--- a/mealpy/physics_based/GRSA.py
+++ b/mealpy/physics_based/GRSA.py
@@ -110,8 +110,8 @@ class OriginalGRSA(Optimizer):
 
         # Current status
         x_p = np.array([agent.solution for agent in self.pop])
-        fitness_list = np.array([agent.target.fitness for agent in self.pop])
-        sorted_indices = np.argsort(fitness_list)
+        _, sorted_indices = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_indices = np.array(sorted_indices)
 
         # Precompute geometry indices
         sg_idx = np.array([i * n_orn_g for i in range(self.n_geometry)])
-- 
2.43.0


From 0ad64f7fb45db4a5797ee2858c4fa9b425e5b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 033/116] fix: HGSO replaces its worst agents under the problem
 direction

---
 mealpy/physics_based/HGSO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index 69750fc..e069af9 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -127,7 +127,8 @@ class OriginalHGSO(Optimizer):
         ## Rank and select the number of worst agents using Eq. 11
         N_w = int(self.pop_size * (self.generator.uniform(0, 0.1) + 0.1))
         ## Update the position of the worst agents using Eq. 12
-        sorted_id_pos = np.argsort([x.target.fitness for x in self.pop])
+        _, sorted_id_pos = self.get_sorted_population(self.pop, self.problem.minmax)
+        sorted_id_pos = sorted_id_pos[::-1]
 
         pop_new = []
         pop_idx = []
-- 
2.43.0


From 302fa354bf237848e21602b70ad1d41712ba5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 034/116] fix: NRO ranks its nuclei under the problem direction

---
 mealpy/physics_based/NRO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/NRO.py b/mealpy/physics_based/NRO.py
index dcf4dfd..f773d21 100644
--- a/mealpy/physics_based/NRO.py
+++ b/mealpy/physics_based/NRO.py
@@ -116,7 +116,7 @@ class OriginalNRO(Optimizer):
         ## Ionization stage
         ## Calculate the Pa through Eq. (10)
         pop_child = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             X_ion = self.pop[idx].solution.copy()
             if (ranked_pop[idx] * 1.0 / self.pop_size) < self.generator.random():
@@ -156,7 +156,7 @@ class OriginalNRO(Optimizer):
         ## Fusion Stage
         ### all ions obtained from ionization are ranked based on (14) - Calculate the Pc through Eq. (14)
         pop_new = []
-        ranked_pop = np.argsort([self.pop[i].target.fitness for i in range(self.pop_size)])
+        _, ranked_pop = self.get_sorted_population(self.pop, self.problem.minmax)
         for idx in range(self.pop_size):
             i1, i2 = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 2, replace=False)
             #### Generate fusion nucleus
-- 
2.43.0


From f7d3b27dc683665417f84523887ea0e2339850cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 035/116] fix: CHIO picks the best immune case under the
 problem direction

---
 mealpy/human_based/CHIO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/human_based/CHIO.py b/mealpy/human_based/CHIO.py
index 3c3a264..c90e563 100644
--- a/mealpy/human_based/CHIO.py
+++ b/mealpy/human_based/CHIO.py
@@ -99,8 +99,8 @@ class OriginalCHIO(Optimizer):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
-                    fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    _, idx_best = self.get_best_agent([self.pop[item] for item in idx_candidates[0]], self.problem.minmax)
+                    idx_selected = idx_candidates[0][idx_best]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
@@ -214,8 +214,8 @@ class DevCHIO(OriginalCHIO):
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
                 elif (2.0 / 3) * self.brr <= rand < self.brr:
                     idx_candidates = np.where(self.immunity_type_list == 2)  # Immunity list
-                    fit_list = np.array([self.pop[item].target.fitness for item in idx_candidates[0]])
-                    idx_selected = idx_candidates[0][np.argmin(fit_list)]  # Found the index of best fitness
+                    _, idx_best = self.get_best_agent([self.pop[item] for item in idx_candidates[0]], self.problem.minmax)
+                    idx_selected = idx_candidates[0][idx_best]  # Found the index of best fitness
                     pos_new[j] = self.pop[i].solution[j] + self.generator.uniform() * (self.pop[i].solution[j] - self.pop[idx_selected].solution[j])
             if self.finished:
                 break
-- 
2.43.0


From e297ca3c4688cafe09dd443cbe36a30cc3330c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 036/116] fix: DevSARO compares clues under the problem
 direction

---
 mealpy/human_based/SARO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/SARO.py b/mealpy/human_based/SARO.py
index 658f82c..0cb8d9f 100644
--- a/mealpy/human_based/SARO.py
+++ b/mealpy/human_based/SARO.py
@@ -99,7 +99,7 @@ class DevSARO(Optimizer):
             #### Remove third loop here, also using random flight back when out of bound
             pos_new_1 = self.pop[k].solution + self.generator.uniform() * sd
             pos_new_2 = pop_x[idx].solution + self.generator.uniform() * sd
-            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.pop[k].target.fitness < pop_x[idx].target.fitness)
+            condition = np.logical_and(self.generator.uniform(0, 1, self.problem.n_dims) < self.se, self.compare_target(self.pop[k].target, pop_x[idx].target, self.problem.minmax))
             pos_new = np.where(condition, pos_new_1, pos_new_2)
             pos_new = self.correct_solution(pos_new)
             agent = self.generate_empty_agent(pos_new)
-- 
2.43.0


From 2bd110fe53e801a764752f47637c1b31381ad4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 037/116] fix: FA ranks fireworks under the problem direction

---
 mealpy/swarm_based/FA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FA.py b/mealpy/swarm_based/FA.py
index 20d913f..71f22fb 100644
--- a/mealpy/swarm_based/FA.py
+++ b/mealpy/swarm_based/FA.py
@@ -88,7 +88,7 @@ class OriginalFA(Optimizer):
             epoch (int): The current iteration
         """
         fit_list = np.array([agent.target.fitness for agent in self.pop])
-        fit_list = sorted(fit_list)
+        fit_list = sorted(fit_list, reverse=self.problem.minmax == "max")     # The best is first, the worst is last
         pop_new = []
         for idx in range(0, self.pop_size):
             si = self.max_sparks * (fit_list[-1] - self.pop[idx].target.fitness) / \
-- 
2.43.0


From 36c5dff14993a7ff7aa69a85dd3c8076bc911f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 038/116] fix: BSA picks its producers under the problem
 direction

---
 mealpy/swarm_based/BSA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index c9eae7b..3f4a663 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -148,6 +148,8 @@ class OriginalBSA(Optimizer):
             # Divide the bird swarm into two parts: producers and scroungers.
             min_idx = np.argmin(fit_list)
             max_idx = np.argmax(fit_list)
+            if self.problem.minmax == "max":
+                min_idx, max_idx = max_idx, min_idx
             choose = 0
             if min_idx < 0.5 * self.pop_size and max_idx < 0.5 * self.pop_size:
                 choose = 1
-- 
2.43.0


From bd694b3161e50315fb18cf7dcf67b19b005d1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 039/116] fix: improved_ms ranks the population under the
 problem direction

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 8b54ec7..26d624a 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -810,7 +810,7 @@ class Optimizer:
     def improved_ms(self, pop=None, g_best=None):  ## m: mutation, s: search
         pop_len = int(len(pop) / 2)
         ## Sort the updated population based on fitness
-        pop = sorted(pop, key=lambda agent: agent.target.fitness)
+        pop, _ = self.get_sorted_population(pop, self.problem.minmax)
         pop_s1, pop_s2 = pop[:pop_len], pop[pop_len:]
 
         ## Mutation scheme
-- 
2.43.0


From 6204e48b683e29f1c1ac93fadec5636f8432e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 040/116] fix: record copies of the current best and worst
 agents

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 26d624a..030d2ab 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -619,7 +619,7 @@ class Optimizer:
             list: Sorted population and the global best solution
         """
         sorted_pop, _ = self.get_sorted_population(pop, self.problem.minmax)
-        c_best, c_worst = sorted_pop[0], sorted_pop[-1]
+        c_best, c_worst = sorted_pop[0].copy(), sorted_pop[-1].copy()
         if save:
             ## Save current best
             self.history.list_current_best.append(c_best)
-- 
2.43.0


From 474acef924bff241578b7cf63ca44619b81936e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 041/116] fix: SHADE and L-SHADE draw Cauchy factors from the
 seeded generator

---
 mealpy/evolutionary_based/SHADE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/evolutionary_based/SHADE.py b/mealpy/evolutionary_based/SHADE.py
index dd136b1..f0dd529 100644
--- a/mealpy/evolutionary_based/SHADE.py
+++ b/mealpy/evolutionary_based/SHADE.py
@@ -105,7 +105,7 @@ class OriginalSHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
@@ -271,7 +271,7 @@ class L_SHADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr[idx_rand], 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1)
+                f = cauchy.rvs(self.dyn_miu_f[idx_rand], 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From eab4f162c4e6c902cf3594e1434cb5f20d617126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 042/116] fix: JADE draws Cauchy factors from the seeded
 generator

---
 mealpy/evolutionary_based/DE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index 33da76c..d57e1b6 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -261,7 +261,7 @@ class JADE(Optimizer):
             cr = self.generator.normal(self.dyn_miu_cr, 0.1)
             cr = np.clip(cr, 0, 1)
             while True:
-                f = cauchy.rvs(self.dyn_miu_f, 0.1)
+                f = cauchy.rvs(self.dyn_miu_f, 0.1, random_state=self.generator)
                 if f < 0:
                     continue
                 elif f > 1:
-- 
2.43.0


From c63f555df8865b66185dabd53866b7e5d141f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 043/116] fix: LSHADEcnEpSin draws from the seeded generator

---
 mealpy/sota_based/LSHADEcnEpSin.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mealpy/sota_based/LSHADEcnEpSin.py b/mealpy/sota_based/LSHADEcnEpSin.py
index 059faac..84c4f4b 100644
--- a/mealpy/sota_based/LSHADEcnEpSin.py
+++ b/mealpy/sota_based/LSHADEcnEpSin.py
@@ -185,7 +185,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
         """Standard binomial crossover"""
         if CR is None:
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
         trial = np.where(self.generator.uniform(0, 1, self.problem.n_dims) <= CR, mutant, target)
         j_rand = self.generator.integers(0, self.problem.n_dims)
@@ -222,7 +222,7 @@ class OriginalLSHADEcnEpSin(Optimizer):
 
                 # Generate random CR for this crossover
                 r_idx = self.generator.integers(0, self.H)
-                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+                CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
                 CR = np.clip(CR, 0, 1)
 
                 # Binomial crossover in eigen space
@@ -291,20 +291,20 @@ class OriginalLSHADEcnEpSin(Optimizer):
                 else:
                     # Configuration 2: adaptive increasing
                     r_idx = self.generator.integers(0, self.H)
-                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1)
+                    freq = cauchy.rvs(loc=self.M_freq[r_idx], scale=0.1, random_state=self.generator)
                     freq = np.clip(freq, 0.1, 2.0)
                     F = self.sinusoidal_adaptation(epoch, self.epoch, config_type=2, freq=freq)
                     config_used = 2
             else:
                 # Second half: standard LSHADE
                 r_idx = self.generator.integers(0, self.H)
-                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1)
+                F = cauchy.rvs(loc=self.M_F[r_idx], scale=0.1, random_state=self.generator)
                 F = np.clip(F, 0.1, 1.0)
                 config_used = 0
 
             # Generate CR
             r_idx = self.generator.integers(0, self.H)
-            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1)
+            CR = norm.rvs(loc=self.M_CR[r_idx], scale=0.1, random_state=self.generator)
             CR = np.clip(CR, 0, 1)
 
             # Mutation
-- 
2.43.0


From c5b89101f633490ccd77c2c50967998e3678af5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 044/116] fix: PSS draws its Latin hypercube from the seeded
 generator

---
 mealpy/math_based/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index c6934d6..0205faf 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -77,7 +77,7 @@ class OriginalPSS(Optimizer):
         if self.sampling_method == "MC":
             pop = self.generator.random(self.pop_size, self.problem.n_dims)
         else:       # Default: "LHS"
-            sampler = qmc.LatinHypercube(d=self.problem.n_dims)
+            sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
         return pop
 
-- 
2.43.0


From d278215e644c423b917c3b6109890ddf6a0d27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 045/116] fix: PSS samples the MC population with a valid shape

---
 mealpy/math_based/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 0205faf..29cda9c 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -75,7 +75,7 @@ class OriginalPSS(Optimizer):
 
     def create_population(self, pop_size=None):
         if self.sampling_method == "MC":
-            pop = self.generator.random(self.pop_size, self.problem.n_dims)
+            pop = self.generator.random((self.pop_size, self.problem.n_dims))
         else:       # Default: "LHS"
             sampler = qmc.LatinHypercube(d=self.problem.n_dims, seed=self.generator)
             pop = sampler.random(n=pop_size)
-- 
2.43.0


From 5a9838c05b145f44c8d69d36134cad5f2abe3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 046/116] fix: every run counts its own function evaluations

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 030d2ab..15c2a45 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -175,6 +175,7 @@ class Optimizer:
         self.logger.info(self)
         self.history = History(log_to=self.problem.log_to, log_file=self.problem.log_file)
         self.pop, self.g_best, self.g_worst = None, None, None
+        self.nfe_counter = 1  # The first one is tested in Problem class
 
     def check_mode_and_workers(self, mode, n_workers):
         self.mode = self.validator.check_str("mode", mode, self.SUPPORTED_MODES)
-- 
2.43.0


From a9401b70f91a06a0d6137a8c6286e77d49bb0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 047/116] fix: DBO forgets the previous positions of an earlier
 run

---
 mealpy/swarm_based/DBO.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/DBO.py b/mealpy/swarm_based/DBO.py
index 0a40f02..c1c79a7 100644
--- a/mealpy/swarm_based/DBO.py
+++ b/mealpy/swarm_based/DBO.py
@@ -74,9 +74,8 @@ class OriginalDBO(Optimizer):
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-        # Initialize previous positions x(t−1) on the first call
-        if self._prev_positions is None:
-            self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
+        # Initialize previous positions x(t−1)
+        self._prev_positions = np.array([agent.solution.copy() for agent in self.pop])
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 087b4785441ced0920d2b87cea02a157587abc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 048/116] fix: SAP_DE keeps its pop_size hyper-parameter

---
 mealpy/evolutionary_based/DE.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/mealpy/evolutionary_based/DE.py b/mealpy/evolutionary_based/DE.py
index d57e1b6..a700f0e 100644
--- a/mealpy/evolutionary_based/DE.py
+++ b/mealpy/evolutionary_based/DE.py
@@ -484,7 +484,6 @@ class SAP_DE(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.branch = self.validator.check_str("branch", branch, ["ABS", "REL"])
         self.set_parameters(["epoch", "pop_size", "branch"])
-        self.fixed_pop_size = self.pop_size
         self.sort_flag = False
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
@@ -513,11 +512,12 @@ class SAP_DE(Optimizer):
         Args:
             epoch (int): The current iteration
         """
+        n_agents = len(self.pop)
         pop = []
-        for idx in range(0, self.pop_size):
+        for idx in range(0, n_agents):
             # Choose 3 random element and different to idx
-            idxs = self.generator.choice(list(set(range(0, self.pop_size)) - {idx}), 3, replace=False)
-            j = self.generator.integers(0, self.pop_size)
+            idxs = self.generator.choice(list(set(range(0, n_agents)) - {idx}), 3, replace=False)
+            j = self.generator.integers(0, n_agents)
             self.F = self.generator.normal(0, 1)
             ## Crossover
             if self.generator.uniform(0, 1) < self.pop[idx].crossover or idx == j:
@@ -555,19 +555,18 @@ class SAP_DE(Optimizer):
                     agent.update(crossover=cr_new, mutation=mr_new, pop_size=ps_new)
         pop = self.update_target_for_population(pop)
         # Calculate new population size
-        total = np.sum([pop[idx].pop_size for idx in range(0, self.pop_size)])
+        total = np.sum([pop[idx].pop_size for idx in range(0, n_agents)])
         if self.branch == "ABS":
-            m_new = int(total / self.pop_size)
+            m_new = int(total / n_agents)
         else:  # elif self.branch == "REL":
-            m_new = int(self.pop_size + total)
+            m_new = int(n_agents + total)
         if m_new <= 4:
-            m_new = self.fixed_pop_size + int(self.generator.uniform(0, 4))
-        elif m_new > 4 * self.fixed_pop_size:
-            m_new = self.fixed_pop_size - int(self.generator.uniform(0, 4))
+            m_new = self.pop_size + int(self.generator.uniform(0, 4))
+        elif m_new > 4 * self.pop_size:
+            m_new = self.pop_size - int(self.generator.uniform(0, 4))
         ## Change population by population size
-        if m_new <= self.pop_size:
+        if m_new <= n_agents:
             self.pop = pop[:m_new]
         else:
             pop_sorted, _ = self.get_sorted_population(pop, self.problem.minmax)
-            self.pop = pop + pop_sorted[:m_new - self.pop_size]
-        self.pop_size = len(self.pop)
+            self.pop = pop + pop_sorted[:m_new - n_agents]
-- 
2.43.0


From 5dc262f45f1a5782678024b92e25781e21245536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 049/116] fix: BeesA starts every run with its own dance radius
 and site counts

---
 mealpy/swarm_based/BeesA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index ce35914..7131acd 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -205,13 +205,15 @@ class OriginalBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "selected_site_ratio", "elite_site_ratio", "selected_site_bee_ratio", 
                              "elite_site_bee_ratio", "dance_radius", "dance_reduction"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.n_selected_bees = int(round(self.selected_site_ratio * self.pop_size))
         self.n_elite_bees = int(round(self.elite_site_ratio * self.n_selected_bees))
         self.n_selected_bees_local = int(round(self.selected_site_bee_ratio * self.pop_size))
         self.n_elite_bees_local = int(round(self.elite_site_bee_ratio * self.n_selected_bees_local))
-        self.sort_flag = True
 
     def perform_dance__(self, position, r):
         jdx = self.generator.choice(range(0, self.problem.n_dims))
-- 
2.43.0


From 2ee42e548fe980702436cd561122c78cb6bb0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 050/116] fix: ProbBeesA starts every run with its own dance
 radius and recruit count

---
 mealpy/swarm_based/BeesA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/BeesA.py b/mealpy/swarm_based/BeesA.py
index 7131acd..1d50149 100644
--- a/mealpy/swarm_based/BeesA.py
+++ b/mealpy/swarm_based/BeesA.py
@@ -326,6 +326,8 @@ class ProbBeesA(Optimizer):
         self.dance_reduction = self.validator.check_float("dance_reduction", dance_reduction, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "recruited_bee_ratio", "dance_radius", "dance_reduction"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         # Initial Value of Dance Radius
         self.dyn_radius = self.dance_radius
         self.recruited_bee_count = int(round(self.recruited_bee_ratio * self.pop_size))
-- 
2.43.0


From 28faf91b8bb9372824617b2cb35902fe234b8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 051/116] fix: ORCA starts every run with its initial radius
 and removal count

---
 mealpy/swarm_based/ORCA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ORCA.py b/mealpy/swarm_based/ORCA.py
index 932961a..07e6904 100644
--- a/mealpy/swarm_based/ORCA.py
+++ b/mealpy/swarm_based/ORCA.py
@@ -59,9 +59,11 @@ class OriginalOrcaOA(Optimizer):
         self.p_percent = self.validator.check_float("p_percent", p_percent, [0, 1.0])
         self.R0 = self.validator.check_float("R0", R0, [-1000, 1000])
         self.set_parameters(["epoch", "pop_size", "p_percent", "R0"])
-        self.R = self.R0
         self.sort_flag = True
-        self.n_removes = int(self.p_percent * pop_size)
+
+    def initialize_variables(self):
+        self.R = self.R0
+        self.n_removes = int(self.p_percent * self.pop_size)
 
     def evolve(self, epoch: int):
         """
-- 
2.43.0


From 086ce1f14929971fb50afc794f72068ff846432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 052/116] fix: ABFO keeps its C_s and C_e hyper-parameters

---
 mealpy/swarm_based/BFO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index c498f5b..220313f 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -249,8 +249,8 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
-        self.C_s = self.C_s * (self.problem.ub - self.problem.lb)
-        self.C_e = self.C_e * (self.problem.ub - self.problem.lb)
+        self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
+        self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -267,7 +267,7 @@ class ABFO(Optimizer):
 
     def update_step_size__(self, pop=None, idx=None):
         total_fitness = np.sum([agent.target.fitness for agent in pop])
-        step_size = self.C_s - (self.C_s - self.C_e) * pop[idx].target.fitness / total_fitness
+        step_size = self.step_start - (self.step_start - self.step_end) * pop[idx].target.fitness / total_fitness
         step_size = step_size / self.pop[idx].nutrients if self.pop[idx].nutrients > 0 else step_size
         return step_size
 
-- 
2.43.0


From 95527a7168a3baab0c72ac09f94115fc4e204b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 053/116] fix: IMODE keeps its archive_size hyper-parameter

---
 mealpy/sota_based/IMODE.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mealpy/sota_based/IMODE.py b/mealpy/sota_based/IMODE.py
index 7eac38c..0f52f3c 100644
--- a/mealpy/sota_based/IMODE.py
+++ b/mealpy/sota_based/IMODE.py
@@ -80,7 +80,7 @@ class OriginalIMODE(Optimizer):
         self.memory_f = np.full(self.memory_size, 0.5)  # Scaling factor memory
         self.memory_cr = np.full(self.memory_size, 0.5)  # Crossover rate memory
         # Archive for diversity
-        self.archive_size = max(self.archive_size, self.pop_size)
+        self.archive_limit = max(self.archive_size, self.pop_size)
 
     def before_main_loop(self):
         # Initialize archive with initial population
@@ -245,8 +245,8 @@ class OriginalIMODE(Optimizer):
             self.archive = list(set(self.archive))
 
             ## Randomly remove excess individuals from archive
-            if len(self.archive) > self.archive_size:
-                remove_count = len(self.archive) - self.archive_size
+            if len(self.archive) > self.archive_limit:
+                remove_count = len(self.archive) - self.archive_limit
                 remove_indices = self.generator.choice(len(self.archive), remove_count, replace=False)
                 keep_indices = list(set(range(len(self.archive))) - set(remove_indices))
                 self.archive = [self.archive[idx] for idx in keep_indices]
-- 
2.43.0


From 3df465b02663f11b0efbb58ceb3a2a3629ed25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 054/116] fix: BCO accepts its own default n_chemotaxis

---
 mealpy/bio_based/BCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/bio_based/BCO.py b/mealpy/bio_based/BCO.py
index f643af1..c7e1e39 100644
--- a/mealpy/bio_based/BCO.py
+++ b/mealpy/bio_based/BCO.py
@@ -68,7 +68,7 @@ class OriginalBCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.c_min = self.validator.check_float("c_min", c_min, (0., 1.0))
         self.c_max = self.validator.check_float("c_max", c_max, (c_min, 10.0))
-        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, (1, 5))
+        self.n_chemotaxis = self.validator.check_int("n_chemotaxis", n_chemotaxis, [1, 5])
         self.max_swim_steps = self.validator.check_int("max_swim_steps", max_swim_steps, (2, 10))
         self.migration_prob = self.validator.check_float("migration_prob", migration_prob, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "c_min", "c_max", "n_chemotaxis", "max_swim_steps", "migration_prob"])
-- 
2.43.0


From 33de57afba800e9009121330ddb7d9efbeabe9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 055/116] fix: SA reports its pop_size

---
 mealpy/physics_based/SA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/physics_based/SA.py b/mealpy/physics_based/SA.py
index 2442ddf..5bda97a 100644
--- a/mealpy/physics_based/SA.py
+++ b/mealpy/physics_based/SA.py
@@ -67,7 +67,7 @@ class OriginalSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.step_size = self.validator.check_float("step_size", step_size, (-100., 100.))
-        self.set_parameters(["epoch", "temp_init", "step_size"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "step_size"])
 
     def before_main_loop(self):
         self.agent_current = self.g_best.copy()
@@ -161,7 +161,7 @@ class GaussianSA(Optimizer):
         self.temp_init = self.validator.check_float("temp_init", temp_init, [1, 10000])
         self.cooling_rate = self.validator.check_float("cooling_rate", cooling_rate, (0., 1.))
         self.scale = self.validator.check_float("scale", scale, (0., 100.))
-        self.set_parameters(["epoch", "temp_init", "cooling_rate", "scale"])
+        self.set_parameters(["epoch", "pop_size", "temp_init", "cooling_rate", "scale"])
 
     def before_main_loop(self):
         # Initialize the system
-- 
2.43.0


From 78baefd69993742d3c34048f206a6dad2800c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 056/116] fix: BFO keeps a fractional step size Ci

---
 mealpy/swarm_based/BFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 220313f..3ea17ec 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,7 +95,7 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_int("Ci", Ci, (0, 5.0))
+        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
         self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
         self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
         self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
-- 
2.43.0


From 51d65e119c690954fff76bfd85a6b3b3d0509159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 057/116] fix: PO keeps a fractional lamda_max

---
 mealpy/human_based/PO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/PO.py b/mealpy/human_based/PO.py
index b4fad22..5ac601f 100644
--- a/mealpy/human_based/PO.py
+++ b/mealpy/human_based/PO.py
@@ -68,7 +68,7 @@ class OriginalPO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_n = self.validator.check_int("pop_size", pop_size, [2, 100])
         self.pop_size = self.pop_n ** 2
-        self.lamda_max = self.validator.check_int("lamda_max", lamda_max, [1.0, 100])
+        self.lamda_max = self.validator.check_float("lamda_max", lamda_max, [1.0, 100])
         self.set_parameters(["epoch", "pop_size", "lamda_max"])
         self.sort_flag = False
         self.lam = None
-- 
2.43.0


From 9db4f43c36d0e6c875c25fe8079ef2b92e8397b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 058/116] fix: AOA keeps a fractional alpha

---
 mealpy/math_based/AOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/AOA.py b/mealpy/math_based/AOA.py
index 3c8efd5..806e9c2 100644
--- a/mealpy/math_based/AOA.py
+++ b/mealpy/math_based/AOA.py
@@ -69,7 +69,7 @@ class OriginalAOA(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [10, 10000])
-        self.alpha = self.validator.check_int("alpha", alpha, [2, 10])
+        self.alpha = self.validator.check_float("alpha", alpha, [2, 10])
         self.miu = self.validator.check_float("miu", miu, [0.1, 2.0])
         self.moa_min = self.validator.check_float("moa_min", moa_min, (0, 0.41))
         self.moa_max = self.validator.check_float("moa_max", moa_max, (0.41, 1.0))
-- 
2.43.0


From 13a833f450d7f0be5f952f13fad863623903c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 059/116] fix: MGTO reports an invalid pp under its name

---
 mealpy/swarm_based/AGTO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/AGTO.py b/mealpy/swarm_based/AGTO.py
index 28dad34..0de760a 100644
--- a/mealpy/swarm_based/AGTO.py
+++ b/mealpy/swarm_based/AGTO.py
@@ -178,7 +178,7 @@ class MGTO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.pp = self.validator.check_float("p1", pp, (0, 1))      # p in the paper
+        self.pp = self.validator.check_float("pp", pp, (0, 1))      # p in the paper
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = False
 
-- 
2.43.0


From 9dea2fa0445aa94e7445ada947ef04c113e83da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 060/116] fix: SSpiderO keeps fp_min and fp_max under their own
 names

---
 mealpy/swarm_based/SSpiderO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mealpy/swarm_based/SSpiderO.py b/mealpy/swarm_based/SSpiderO.py
index 6606cd2..f087d18 100644
--- a/mealpy/swarm_based/SSpiderO.py
+++ b/mealpy/swarm_based/SSpiderO.py
@@ -64,13 +64,13 @@ class OriginalSSpiderO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
-        fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
-        self.fp_min, self.fp_max = min((fp_min, fp_max)), max((fp_min, fp_max))
+        self.fp_min = self.validator.check_float("fp_min", fp_min, (0., 1.0))
+        self.fp_max = self.validator.check_float("fp_max", fp_max, (0., 1.0))
         self.set_parameters(["epoch", "pop_size", "fp_min", "fp_max"])
 
     def initialization(self):
-        fp_temp = self.fp_min + (self.fp_max - self.fp_min) * self.generator.uniform()  # Female Aleatory Percent
+        fp_min, fp_max = min((self.fp_min, self.fp_max)), max((self.fp_min, self.fp_max))
+        fp_temp = fp_min + (fp_max - fp_min) * self.generator.uniform()  # Female Aleatory Percent
         self.n_f = int(self.pop_size * fp_temp)  # number of female
         self.n_m = self.pop_size - self.n_f  # number of male
         # Probabilities of attraction or repulsion Proper tuning for better results
-- 
2.43.0


From 71377345141dd6263395aaf5d8877db91f478ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 061/116] fix: tuples whose length differs from their bounds
 are rejected

---
 mealpy/utils/validator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/utils/validator.py b/mealpy/utils/validator.py
index 30b563a..8288d16 100644
--- a/mealpy/utils/validator.py
+++ b/mealpy/utils/validator.py
@@ -85,12 +85,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, DIGIT) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are integer {bounds}.")
 
@@ -98,12 +98,12 @@ class Validator:
         if isinstance(values, SEQUENCE) and len(values) > 1:
             value_flag = [isinstance(item, Number) for item in values]
             if np.all(value_flag):
-                if bounds is not None and len(bounds) == len(values):
+                if bounds is None:
+                    return values
+                elif len(bounds) == len(values):
                     value_flag = [is_in_bound(item, bound) for item, bound in zip(values, bounds)]
                     if np.all(value_flag):
                         return values
-                else:
-                    return values
         bounds = "" if bounds is None else f"and values should be in range: {bounds}"
         raise ValueError(f"'{name}' are float {bounds}.")
 
-- 
2.43.0


From dc2096473f6ec1d567b93f876f6a8f8652cec0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 062/116] fix: BBO uses the current pop_size for its rates

---
 mealpy/bio_based/BBO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/bio_based/BBO.py b/mealpy/bio_based/BBO.py
index 9d59bc2..25fe9ad 100644
--- a/mealpy/bio_based/BBO.py
+++ b/mealpy/bio_based/BBO.py
@@ -59,6 +59,8 @@ class OriginalBBO(Optimizer):
         self.n_elites = self.validator.check_int("n_elites", n_elites, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "p_m", "n_elites"])
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.mu = (self.pop_size + 1 - np.array(range(1, self.pop_size + 1))) / (self.pop_size + 1)
         self.mr = 1 - self.mu
 
-- 
2.43.0


From 3b1c8b6ef51d1ce4e2f06cc4339d1be9ff599c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 063/116] fix: ES uses the current lamda and pop_size

---
 mealpy/evolutionary_based/ES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/ES.py b/mealpy/evolutionary_based/ES.py
index 59394e2..169c5f8 100644
--- a/mealpy/evolutionary_based/ES.py
+++ b/mealpy/evolutionary_based/ES.py
@@ -67,10 +67,10 @@ class OriginalES(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "lamda"])
-        self.n_child = int(self.lamda * self.pop_size)
         self.sort_flag = True
     
     def initialize_variables(self):
+        self.n_child = int(self.lamda * self.pop_size)
         self.distance = 0.05 * (self.problem.ub - self.problem.lb)
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
-- 
2.43.0


From 40731428356a1513536b1a16eb32844cb86ef83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 064/116] fix: BSO uses the current m_clusters and pop_size

---
 mealpy/human_based/BSO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/BSO.py b/mealpy/human_based/BSO.py
index 0e7ecf6..a981a02 100644
--- a/mealpy/human_based/BSO.py
+++ b/mealpy/human_based/BSO.py
@@ -69,9 +69,11 @@ class ImprovedBSO(Optimizer):
         self.p4 = self.validator.check_float("p4", p4, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "m_clusters", "p1", "p2", "p3", "p4"])
         self.sort_flag = False
-        self.m_solution = int(self.pop_size / self.m_clusters)
         self.pop_group, self.centers = None, None
 
+    def initialize_variables(self):
+        self.m_solution = int(self.pop_size / self.m_clusters)
+
     def find_cluster__(self, pop_group):
         centers = []
         for idx in range(0, self.m_clusters):
-- 
2.43.0


From 93ef73a893d7ee660581a87e6eab4822cabd975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 065/116] fix: ILA uses the current epoch, pop_size and stage
 shares

---
 mealpy/human_based/ILA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mealpy/human_based/ILA.py b/mealpy/human_based/ILA.py
index cb7c745..e994579 100644
--- a/mealpy/human_based/ILA.py
+++ b/mealpy/human_based/ILA.py
@@ -85,6 +85,14 @@ class OriginalILA(Optimizer):
         self.set_parameters(["epoch", "pop_size", "n_models", "p_s1", "p_s2", "b_min", "b_max"])
         self.sort_flag = False
 
+        # Initialize population
+        self.experts = None
+        self.fitness = None
+        self.pop_prev = None
+        self.current_best = None
+        self.current_n_g = None
+
+    def initialize_variables(self):
         # Iteration tracking
         self.n_g_max = max(1, self.pop_size // 2)
         self.n_t1 = int(self.p_s1 * self.epoch)
@@ -93,13 +101,6 @@ class OriginalILA(Optimizer):
         # Calculate iterations per model for Stage 1
         self.t_m = max(1, self.n_t1 // self.n_models) if self.n_models > 0 else 1
 
-        # Initialize population
-        self.experts = None
-        self.fitness = None
-        self.pop_prev = None
-        self.current_best = None
-        self.current_n_g = None
-
     def before_main_loop(self):
         self.experts = np.array([agent.solution for agent in self.pop])
         self.fitness = np.array([agent.target.fitness for agent in self.pop])
-- 
2.43.0


From c2aae963940b913ada65c9eaf7c9046d38b1e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 066/116] fix: LCO uses the current pop_size

---
 mealpy/human_based/LCO.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mealpy/human_based/LCO.py b/mealpy/human_based/LCO.py
index 73f5093..e79710f 100644
--- a/mealpy/human_based/LCO.py
+++ b/mealpy/human_based/LCO.py
@@ -61,9 +61,11 @@ class OriginalLCO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.r1 = self.validator.check_float("r1", r1, [1.0, 3.0])
         self.set_parameters(["epoch", "pop_size", "r1"])
-        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_agents = int(np.ceil(np.sqrt(self.pop_size)))
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -229,9 +231,11 @@ class ImprovedLCO(Optimizer):
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.set_parameters(["epoch", "pop_size"])
-        self.pop_len = int(self.pop_size / 2)
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.pop_len = int(self.pop_size / 2)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From d334cd18c11f2a8e00b8bfbcbe531e43b5fb68df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 067/116] fix: ModifiedEO uses the current pop_size

---
 mealpy/physics_based/EO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/physics_based/EO.py b/mealpy/physics_based/EO.py
index f9b3c33..a2313a9 100644
--- a/mealpy/physics_based/EO.py
+++ b/mealpy/physics_based/EO.py
@@ -154,6 +154,8 @@ class ModifiedEO(OriginalEO):
         """
         super().__init__(epoch, pop_size, **kwargs)
         self.sort_flag = False
+
+    def initialize_variables(self):
         self.pop_len = int(self.pop_size / 3)
 
     def evolve(self, epoch):
-- 
2.43.0


From 6c72896977c80aa070e02faca58ff9b5e3710546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 068/116] fix: HGSO uses the current n_clusters and pop_size

---
 mealpy/physics_based/HGSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/physics_based/HGSO.py b/mealpy/physics_based/HGSO.py
index e069af9..6b787c5 100644
--- a/mealpy/physics_based/HGSO.py
+++ b/mealpy/physics_based/HGSO.py
@@ -56,7 +56,6 @@ class OriginalHGSO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [10, 10000])
         self.n_clusters = self.validator.check_int("n_clusters", n_clusters, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "n_clusters"])
-        self.n_elements = int(self.pop_size / self.n_clusters)
         self.sort_flag = False
         self.T0 = 298.15
         self.K = 1.0
@@ -68,6 +67,7 @@ class OriginalHGSO(Optimizer):
         self.l3 = 1E-2
 
     def initialize_variables(self):
+        self.n_elements = int(self.pop_size / self.n_clusters)
         self.H_j = self.l1 * self.generator.uniform()
         self.P_ij = self.l2 * self.generator.uniform()
         self.C_j = self.l3 * self.generator.uniform()
-- 
2.43.0


From a497ee2b779bf984f037a730b03f63f0b97d60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 069/116] fix: BFO uses the current Ci, Ped, Nc, Ns and
 pop_size

---
 mealpy/swarm_based/BFO.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index 3ea17ec..f4c48b9 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -95,19 +95,23 @@ class OriginalBFO(Optimizer):
         super().__init__(**kwargs)
         self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
-        self.step_size = self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
-        self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
-        self.chem_steps = self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
-        self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
+        self.Ci = self.validator.check_float("Ci", Ci, (0, 5.0))
+        self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
+        self.Nc = self.validator.check_int("Nc", Nc, [2, 100])
+        self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.d_attract = self.validator.check_float("d_attract", d_attract, (0, 1.0))
         self.w_attract = self.validator.check_float("w_attract", w_attract, (0, 1.0))
         self.h_repels = self.validator.check_float("h_repels", h_repels, (0, 1.0))
         self.w_repels = self.validator.check_float("w_repels", w_repels, (2.0, 20.0))
         self.set_parameters(["epoch", "pop_size", "Ci", "Ped", "Nc", "Ns", "d_attract", "w_attract", "h_repels", "w_repels"])
-        self.half_pop_size = int(self.pop_size / 2)
         self.is_parallelizable = False
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.step_size, self.p_eliminate = self.Ci, self.Ped
+        self.chem_steps, self.swim_length = self.Nc, self.Ns
+        self.half_pop_size = int(self.pop_size / 2)
+
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
             solution = self.problem.generate_solution(encoded=True)
@@ -240,8 +244,8 @@ class ABFO(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.C_s = self.Ped = self.validator.check_float("C_s", C_s, (0, 2.0))
         self.C_e = self.Ped = self.validator.check_float("C_e", C_e, (0, 1.0))
-        self.p_eliminate = self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
-        self.swim_length = self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
+        self.Ped = self.validator.check_float("Ped", Ped, (0, 1.0))
+        self.Ns = self.validator.check_int("Ns", Ns, [2, 100])
         self.N_adapt = self.validator.check_int("N_adapt", N_adapt, [0, 4])
         self.N_split = self.validator.check_int("N_split", N_split, [5, 50])
         self.set_parameters(["epoch", "pop_size", "C_s", "C_e", "Ped", "Ns", "N_adapt", "N_split"])
@@ -249,6 +253,7 @@ class ABFO(Optimizer):
         self.sort_flag = False
 
     def initialize_variables(self):
+        self.p_eliminate, self.swim_length = self.Ped, self.Ns
         self.step_start = self.C_s * (self.problem.ub - self.problem.lb)
         self.step_end = self.C_e * (self.problem.ub - self.problem.lb)
 
-- 
2.43.0


From 39b1eab8507a7c6e9bcebd7e09e14efeb55af8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 070/116] fix: COA uses the current n_coyotes and pop_size

---
 mealpy/swarm_based/COA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/COA.py b/mealpy/swarm_based/COA.py
index fd65e0d..27d3c88 100644
--- a/mealpy/swarm_based/COA.py
+++ b/mealpy/swarm_based/COA.py
@@ -67,9 +67,11 @@ class OriginalCOA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.n_coyotes = self.validator.check_int("n_coyotes", n_coyotes, [2, int(self.pop_size / 2)])
         self.set_parameters(["epoch", "pop_size", "n_coyotes"])
-        self.n_packs = int(pop_size / self.n_coyotes)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_packs = int(self.pop_size / self.n_coyotes)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From 43fdc782f3326efd65a308cd78cdf07846ed57b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 071/116] fix: CSA uses the current p_a and pop_size

---
 mealpy/swarm_based/CSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/CSA.py b/mealpy/swarm_based/CSA.py
index d0fd6f6..a938a50 100644
--- a/mealpy/swarm_based/CSA.py
+++ b/mealpy/swarm_based/CSA.py
@@ -62,9 +62,11 @@ class OriginalCSA(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.p_a = self.validator.check_float("p_a", p_a, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "p_a"])
-        self.n_cut = int(self.p_a * self.pop_size)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_cut = int(self.p_a * self.pop_size)
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From 31c647ab01398a9d6c0125c6176c4650228d7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 072/116] fix: EHO uses the current n_clans and pop_size

---
 mealpy/swarm_based/EHO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/EHO.py b/mealpy/swarm_based/EHO.py
index 7e48a52..549249e 100644
--- a/mealpy/swarm_based/EHO.py
+++ b/mealpy/swarm_based/EHO.py
@@ -70,9 +70,11 @@ class OriginalEHO(Optimizer):
         self.beta = self.validator.check_float("beta", beta, (0, 1.0))
         self.n_clans = self.validator.check_int("n_clans", n_clans, [2, int(self.pop_size/5)])
         self.set_parameters(["epoch", "pop_size", "alpha", "beta", "n_clans"])
-        self.n_individuals = int(self.pop_size / self.n_clans)
         self.sort_flag = False
 
+    def initialize_variables(self):
+        self.n_individuals = int(self.pop_size / self.n_clans)
+
     def initialization(self):
         if self.pop is None:
             self.pop = self.generate_population(self.pop_size)
-- 
2.43.0


From 890cc48d8228c21270e01e54da633b7eee32223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 073/116] fix: MLFA_GD uses the current pop_size

---
 mealpy/swarm_based/FFA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/FFA.py b/mealpy/swarm_based/FFA.py
index 365b32f..4557ca4 100644
--- a/mealpy/swarm_based/FFA.py
+++ b/mealpy/swarm_based/FFA.py
@@ -201,9 +201,11 @@ class MLFA_GD(Optimizer):
         self.k_rw = self.validator.check_int("k_rw", k_rw, [1, 1000])
         self.set_parameters(["epoch", "pop_size", "m_females", "beta0", "gama", "alpha", "k_rw"])
         self.sort_flag = False
-        self.n_sub = pop_size // 2
         self.males = self.females = self.males_pbest = None
 
+    def initialize_variables(self):
+        self.n_sub = self.pop_size // 2
+
     def chaotic_map(self, k):
         """
         Generates k chaotic variants using the Logistic map.
-- 
2.43.0


From 6bb60d05688aa3b85b2a1b86c4e5145f5d74029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 074/116] fix: MSA uses the current partition and pop_size

---
 mealpy/swarm_based/MSA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/MSA.py b/mealpy/swarm_based/MSA.py
index 86075dc..81c5366 100644
--- a/mealpy/swarm_based/MSA.py
+++ b/mealpy/swarm_based/MSA.py
@@ -75,12 +75,14 @@ class OriginalMSA(Optimizer):
         self.max_step_size = self.validator.check_float("max_step_size", max_step_size, [0, self.epoch])
         self.set_parameters(["epoch", "pop_size", "n_best", "partition", "max_step_size"])
         self.sort_flag = True
+        # you can change this ratio so as to get much better performance
+        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
+
+    def initialize_variables(self):
         # np1 in paper
         self.n_moth1 = int(np.ceil(self.partition * self.pop_size))
         # np2 in paper, we actually don't need this variable
         self.n_moth2 = self.pop_size - self.n_moth1
-        # you can change this ratio so as to get much better performance
-        self.golden_ratio = (np.sqrt(5) - 1) / 2.0
 
     def evolve(self, epoch):
         """
-- 
2.43.0


From fcf1255c8efcfe6fe6db305996ffb632f9a268c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 075/116] fix: NMRA uses the current pop_size

---
 mealpy/swarm_based/NMRA.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/NMRA.py b/mealpy/swarm_based/NMRA.py
index 7419d06..49245c7 100644
--- a/mealpy/swarm_based/NMRA.py
+++ b/mealpy/swarm_based/NMRA.py
@@ -56,6 +56,8 @@ class OriginalNMRA(Optimizer):
         self.pb = self.validator.check_float("pb", pb, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def evolve(self, epoch):
@@ -144,6 +146,8 @@ class ImprovedNMRA(Optimizer):
         self.pm = self.validator.check_float("pm", pm, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pb", "pm"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.size_b = int(self.pop_size / 5)
 
     def crossover_random__(self, pop, g_best):
-- 
2.43.0


From 01eeca86e3ddb1b8f2fe928f10e3297b85dc33fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 076/116] fix: SFO uses the current pp and pop_size

---
 mealpy/swarm_based/SFO.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mealpy/swarm_based/SFO.py b/mealpy/swarm_based/SFO.py
index f68eef3..5fa9db0 100644
--- a/mealpy/swarm_based/SFO.py
+++ b/mealpy/swarm_based/SFO.py
@@ -71,6 +71,8 @@ class OriginalSFO(Optimizer):
         self.epsilon = self.validator.check_float("epsilon", epsilon, (0, 0.1))
         self.set_parameters(["epoch", "pop_size", "pp", "AP", "epsilon"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
@@ -201,6 +203,8 @@ class ImprovedSFO(Optimizer):
         self.pp = self.validator.check_float("pp", pp, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "pp"])
         self.sort_flag = True
+
+    def initialize_variables(self):
         self.s_size = int(self.pop_size / self.pp)
 
     def initialization(self):
-- 
2.43.0


From 249611d3bd51e96fd5287b9abda2e64d2b1aa695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 077/116] fix: SSA uses the current PD, SD and pop_size

---
 mealpy/swarm_based/SSA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSA.py b/mealpy/swarm_based/SSA.py
index cf06322..5b570a8 100644
--- a/mealpy/swarm_based/SSA.py
+++ b/mealpy/swarm_based/SSA.py
@@ -69,9 +69,11 @@ class DevSSA(Optimizer):
         self.PD = self.validator.check_float("PD", PD, (0, 1.0))
         self.SD = self.validator.check_float("SD", SD, (0, 1.0))
         self.set_parameters(["epoch", "pop_size", "ST", "PD", "SD"])
+        self.sort_flag = True
+
+    def initialize_variables(self):
         self.n1 = int(self.PD * self.pop_size)
         self.n2 = int(self.SD * self.pop_size)
-        self.sort_flag = True
 
     def amend_solution(self, solution: np.ndarray) -> np.ndarray:
         condition = np.logical_and(self.problem.lb <= solution, solution <= self.problem.ub)
-- 
2.43.0


From 074a640f5fc44dc94a932c6399f9e1fd8a538304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 078/116] fix: ImprovedTLO uses the current n_teachers and
 pop_size

---
 mealpy/human_based/TLO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/human_based/TLO.py b/mealpy/human_based/TLO.py
index 5fdba26..20d7bee 100644
--- a/mealpy/human_based/TLO.py
+++ b/mealpy/human_based/TLO.py
@@ -255,9 +255,11 @@ class ImprovedTLO(OriginalTLO):
         super().__init__(epoch, pop_size, **kwargs)
         self.n_teachers = self.validator.check_int("n_teachers", n_teachers, [2, int(np.sqrt(self.pop_size)-1)])
         self.set_parameters(["epoch", "pop_size", "n_teachers"])
+        self.sort_flag = False
+
+    def initialize_variables(self):
         self.n_students = self.pop_size - self.n_teachers
         self.n_students_in_team = int(self.n_students / self.n_teachers)
-        self.sort_flag = False
 
     def initialization(self):
         if self.pop is None:
-- 
2.43.0


From 4671b8e28ef48072d1583dc22d0c2506c11bdfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 079/116] fix: VCS uses the current lamda and pop_size

---
 mealpy/bio_based/VCS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mealpy/bio_based/VCS.py b/mealpy/bio_based/VCS.py
index 99be716..afd5fc4 100644
--- a/mealpy/bio_based/VCS.py
+++ b/mealpy/bio_based/VCS.py
@@ -69,10 +69,12 @@ class DevVCS(Optimizer):
         self.pop_size = self.validator.check_int("pop_size", pop_size, [5, 10000])
         self.lamda = self.validator.check_float("lamda", lamda, (0, 1.0))
         self.sigma = self.validator.check_float("sigma", sigma, (0, 5.0))
-        self.n_best = int(self.lamda * self.pop_size)
         self.set_parameters(["epoch", "pop_size", "lamda", "sigma"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_best = int(self.lamda * self.pop_size)
+
     def calculate_xmean__(self, pop):
         """
         Calculate the mean position of list of solutions (population)
-- 
2.43.0


From 4c38a441a2a140e7974b91f327f37f70bf9bec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 080/116] fix: elite GA uses the current elite sizes and
 pop_size

---
 mealpy/evolutionary_based/GA.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 000f14c..16aa360 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -527,20 +527,21 @@ class EliteSingleGA(SingleGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
-
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2)-1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
@@ -756,20 +757,21 @@ class EliteMultiGA(MultiGA):
                  elite_best=0.1, elite_worst=0.3, strategy=0, **kwargs):
         super().__init__(epoch, pop_size, pc, pm, selection, crossover, mutation, k_way, **kwargs)
         self.elite_best = self.validator.check_is_int_and_float("elite_best", elite_best, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
-        if self.n_elite_best < 1:
-            self.n_elite_best = 1
-
         self.elite_worst = self.validator.check_is_int_and_float("elite_worst", elite_worst, [1, int(self.pop_size / 2) - 1], (0, 0.5))
-        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
-        if self.n_elite_worst < 1:
-            self.n_elite_worst = 1
 
         self.strategy = self.validator.check_int("strategy", strategy, [0, 1])
         self.set_parameters(["epoch", "pop_size", "pc", "pm", "selection", "crossover", "mutation", "k_way",
                              "elite_best", "elite_worst", "strategy"])
         self.sort_flag = True
 
+    def initialize_variables(self):
+        self.n_elite_best = int(self.elite_best * self.pop_size) if self.elite_best < 1 else self.elite_best
+        if self.n_elite_best < 1:
+            self.n_elite_best = 1
+        self.n_elite_worst = int(self.elite_worst * self.pop_size) if self.elite_worst < 1 else self.elite_worst
+        if self.n_elite_worst < 1:
+            self.n_elite_worst = 1
+
     def evolve(self, epoch):
         """
         The main operations (equations) of algorithm. Inherit from Optimizer class
-- 
2.43.0


From ffb81b1553bf6717af8f8b57c63244de1871ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 081/116] fix: transfer variables keep their declared lower
 bound

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 12fe047..9dc00b3 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -372,7 +372,7 @@ class TransferBinaryVar(BinaryVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
         self.all_zeros = all_zeros
 
@@ -430,7 +430,7 @@ class TransferBoolVar(BoolVar):
             self.tf_func = getattr(transfer, tf_func)
         else:
             raise ValueError(f"Invalid transfer function! The supported TF funcs are: {self.SUPPORTED_TF_FUNCS}")
-        self.lb = lb * np.zeros(self.n_vars)
+        self.lb = lb * np.ones(self.n_vars)
         self.ub = ub * np.ones(self.n_vars)
 
     def correct(self, x):
-- 
2.43.0


From 0fca285dd2197dd31b1f40bd7f512ca594245dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 082/116] fix: StringVar with repeated labels decodes to one of
 them

---
 mealpy/utils/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 9dc00b3..0ad4e3d 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -236,7 +236,7 @@ class StringVar(BaseVar):
                 le = LabelEncoder().fit(valid_sets)
                 self.list_le = (le,)
                 self.lb = np.array([0., ])
-                self.ub = np.array([len(valid_sets) - self.eps, ])
+                self.ub = np.array([len(le.unique_labels) - self.eps, ])
             else:
                 self.n_vars = len(valid_sets)
                 if all(len(item) > 1 for item in valid_sets):
@@ -246,7 +246,7 @@ class StringVar(BaseVar):
                     for vl_set in valid_sets:
                         le = LabelEncoder().fit(vl_set)
                         self.list_le.append(le)
-                        ub.append(len(vl_set) - self.eps)
+                        ub.append(len(le.unique_labels) - self.eps)
                     self.lb = np.zeros(self.n_vars)
                     self.ub = np.array(ub)
                 else:
-- 
2.43.0


From 5921759b6f3a5041751c85c9edc24eed4db9a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 083/116] fix: PermutationVar rejects repeated values instead
 of decoding them to 'unknown'

---
 mealpy/utils/space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/utils/space.py b/mealpy/utils/space.py
index 0ad4e3d..cb6a980 100644
--- a/mealpy/utils/space.py
+++ b/mealpy/utils/space.py
@@ -317,6 +317,8 @@ class PermutationVar(BaseVar):
 
     def _set_bounds(self, valid_set):
         if type(valid_set) in self.SUPPORTED_ARRAY and len(valid_set) > 1:
+            if len(set(valid_set)) < len(valid_set):
+                raise ValueError(f"Invalid valid_set. Its values should be different from each other.")
             self.valid_set = np.array(valid_set)
             self.n_vars = len(valid_set)
             self.le = LabelEncoder().fit(valid_set)
-- 
2.43.0


From 44dcbaaf9d2b3afbd0fbe4845d902f0d863049cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 084/116] fix: SquirrelSA relocates a number of squirrels, not
 the length of a number

---
 mealpy/swarm_based/SquirrelSA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SquirrelSA.py b/mealpy/swarm_based/SquirrelSA.py
index 08e8247..6a1961c 100644
--- a/mealpy/swarm_based/SquirrelSA.py
+++ b/mealpy/swarm_based/SquirrelSA.py
@@ -176,7 +176,7 @@ class OriginalSquirrelSA(Optimizer):
 
         if S_c < S_min:
             # Winter season is over: randomly relocate some squirrels
-            n_relocate = max(1, len(self.pop_size - self.n_food_sources) // 4)
+            n_relocate = max(1, (self.pop_size - self.n_food_sources) // 4)
             relocate_indices = self.generator.choice(indices_random, n_relocate, replace=False)
             for idx in relocate_indices:
                 levy = self.get_levy_flight_step(beta = self.beta, multiplier = 0.01, size = self.problem.n_dims, case = -1)
-- 
2.43.0


From 71db767f967c06ea3d8a15a9091407c74e114d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 085/116] fix: ParameterGrid indexing works and agrees with its
 iteration

---
 mealpy/tuner.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 61fd74e..0092649 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -126,12 +126,10 @@ class ParameterGrid:
                     ind -= 1
                     continue
 
-            # Reverse so most frequent cycling parameter comes first
-            # keys, values_lists = zip(*sorted(sub_grid.items())[::-1])
-            ## My version: Don't sort the values and don't reverse here. Keep it as it is
-            keys, values_lists = zip(*sub_grid.items())
+            ## My version: Don't sort the values. Keep them as they are
+            keys, values_lists = zip(*list(sub_grid.items())[::-1])    # The most frequent cycling parameter comes first
             sizes = [len(v_list) for v_list in values_lists]
-            total = np.product(sizes)
+            total = np.prod(sizes)
 
             if ind >= total:
                 # Try the next grid
-- 
2.43.0


From d99ebb1d46daeff62a7adaf3cbb91282f4db0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 086/116] fix: SMO picks the random monkey from its own group

---
 mealpy/swarm_based/SMO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SMO.py b/mealpy/swarm_based/SMO.py
index 131cfc4..cf615fd 100644
--- a/mealpy/swarm_based/SMO.py
+++ b/mealpy/swarm_based/SMO.py
@@ -157,7 +157,7 @@ class DevSMO(Optimizer):
                         # Randomly select dimension to update
                         k = self.generator.integers(0, self.problem.n_dims)
                         # Select random monkey
-                        jdx = self.generator.choice(list(set(range(self.group_size)) - {idx}))
+                        jdx = self.generator.choice(list(set(range(len(group))) - {idx}))
                         pos_new = agent.solution.copy()
                         # Update using equation (4)
                         pos_new[k] = pos_new[k] + self.generator.uniform(0, 1) * (self.g_best.solution[k] - pos_new[k]) +\
-- 
2.43.0


From 8eda2db647b7c1c31ecc304a235e93602b2f5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 087/116] fix: DOA uses the bounds of the dimension it changes

---
 mealpy/human_based/DOA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/DOA.py b/mealpy/human_based/DOA.py
index a98dbae..b94fa2d 100644
--- a/mealpy/human_based/DOA.py
+++ b/mealpy/human_based/DOA.py
@@ -139,7 +139,7 @@ class OriginalDOA(Optimizer):
                 pos_new = self.g_best.solution.copy()
                 for jdx in in_indices:
                     cos_term = (np.cos(epoch * np.pi / self.epoch) + 1) / 2
-                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[idx] - self.problem.lb[idx]) + self.problem.lb[idx]) * cos_term
+                    pos_new[jdx] = pos_new[jdx] + (self.generator.random() * (self.problem.ub[jdx] - self.problem.lb[jdx]) + self.problem.lb[jdx]) * cos_term
                     # Boundary handling
                     if pos_new[jdx] > self.problem.ub[jdx] or pos_new[jdx] < self.problem.lb[jdx]:
                         if self.problem.n_dims > 15:
-- 
2.43.0


From 770f5cea8d476dc2a310517f8fb158e16f499ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 088/116] fix: INFO picks its better agent inside the smallest
 accepted population

---
 mealpy/math_based/INFO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/math_based/INFO.py b/mealpy/math_based/INFO.py
index 30651c9..b1f3e08 100644
--- a/mealpy/math_based/INFO.py
+++ b/mealpy/math_based/INFO.py
@@ -71,7 +71,7 @@ class OriginalINFO(Optimizer):
             epoch (int): The current iteration
         """
         alpha = 2 * np.exp(-4 * (epoch / self.epoch))      # Eqs.(5.1) - Eq.(9.1)
-        idx_better = self.generator.integers(2, 6)
+        idx_better = self.generator.integers(2, min(6, self.pop_size))
         better = self.pop[idx_better]
         g_worst = self.pop[-1]
 
-- 
2.43.0


From c2f3a3d11832c0baf05b8b78e20ee9320c9c9eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 089/116] fix: parallel modes draw the initial population in
 the main process, and agents get every attribute that depends on their target

---
 mealpy/optimizer.py            | 27 ++++++++++++++-------------
 mealpy/swarm_based/BFO.py      |  4 +---
 mealpy/swarm_based/BSA.py      |  4 +---
 mealpy/swarm_based/ESOA.py     |  4 +---
 mealpy/swarm_based/PSO.py      | 20 +++++---------------
 mealpy/swarm_based/SLO.py      |  5 ++---
 mealpy/swarm_based/SRSR.py     |  4 +---
 mealpy/swarm_based/SSpiderA.py | 10 +---------
 8 files changed, 26 insertions(+), 52 deletions(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 15c2a45..78cb94e 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -135,6 +135,7 @@ class Optimizer:
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
+                    self.pop = [self.complete_agent(agent) for agent in self.pop]
                 else:
                     self.pop = [self.generate_agent(solution) for solution in starting_solutions]
             else:
@@ -334,6 +335,15 @@ class Optimizer:
         """
         agent = self.generate_empty_agent(solution)
         agent.target = self.get_target(agent.solution)
+        return self.complete_agent(agent)
+
+    def complete_agent(self, agent: Agent) -> Agent:
+        """
+        Set the attributes of a new agent that depend on its target. In each optimizer, this function can be overridden
+
+        Args:
+            agent (Agent): The new agent with its target
+        """
         return agent
 
     def generate_population(self, pop_size: int = None) -> List[Agent]:
@@ -346,19 +356,10 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        pop = []
-        if self.mode == "thread":
-            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a thread finished their job (not by order)
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
-        elif self.mode == "process":
-            with parallel.ProcessPoolExecutor(self.n_workers) as executor:
-                list_executors = [executor.submit(self.generate_agent) for _ in range(pop_size)]
-                # This method yield the result everytime a cpu finished their job (not by order).
-                for f in parallel.as_completed(list_executors):
-                    pop.append(f.result())
+        if self.mode in self.PARALLEL_MODES:
+            # The agents are drawn here, only their targets are calculated by the workers
+            pop = self.update_target_for_population([self.generate_empty_agent() for _ in range(0, pop_size)])
+            pop = [self.complete_agent(agent) for agent in pop]
         else:
             pop = [self.generate_agent() for _ in range(0, pop_size)]
         return pop
diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index f4c48b9..ede923a 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -264,9 +264,7 @@ class ABFO(Optimizer):
         local_solution = solution.copy()
         return Agent(solution=solution, nutrients=nutrients, local_solution=local_solution)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/BSA.py b/mealpy/swarm_based/BSA.py
index 3f4a663..6ad54d6 100644
--- a/mealpy/swarm_based/BSA.py
+++ b/mealpy/swarm_based/BSA.py
@@ -101,9 +101,7 @@ class OriginalBSA(Optimizer):
         local_position = solution.copy()
         return Agent(solution=solution, local_solution=local_position)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/ESOA.py b/mealpy/swarm_based/ESOA.py
index da641ed..45bf437 100644
--- a/mealpy/swarm_based/ESOA.py
+++ b/mealpy/swarm_based/ESOA.py
@@ -70,7 +70,7 @@ class OriginalESOA(Optimizer):
         v = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, weights=weights, local_solution=solution.copy(), m=m, v=v)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
+    def complete_agent(self, agent: Agent) -> Agent:
         """
             ID_WEI = 2
             ID_LOC_X = 3
@@ -79,8 +79,6 @@ class OriginalESOA(Optimizer):
             ID_M = 6
             ID_V = 7
         """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
         agent.local_target = agent.target.copy()
         agent.g = (np.sum(agent.weights * agent.solution) - agent.target.fitness) * agent.solution
         return agent
diff --git a/mealpy/swarm_based/PSO.py b/mealpy/swarm_based/PSO.py
index b5ae4dc..5b95113 100644
--- a/mealpy/swarm_based/PSO.py
+++ b/mealpy/swarm_based/PSO.py
@@ -85,9 +85,7 @@ class OriginalPSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -193,9 +191,7 @@ class AIW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -311,9 +307,7 @@ class LDW_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -408,9 +402,7 @@ class P_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
@@ -745,9 +737,7 @@ class CL_PSO(Optimizer):
         local_pos = solution.copy()
         return Agent(solution=solution, velocity=velocity, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.local_target = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SLO.py b/mealpy/swarm_based/SLO.py
index 37c9647..2363dca 100644
--- a/mealpy/swarm_based/SLO.py
+++ b/mealpy/swarm_based/SLO.py
@@ -150,9 +150,8 @@ class ModifiedSLO(Optimizer):
         local_pos = self.correct_solution(local_pos)
         return Agent(solution=solution, local_solution=local_pos)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
+        target = agent.target
         local_target = self.get_target(agent.local_solution)
         if self.compare_target(target, local_target, self.problem.minmax):
             t1 = agent.local_solution.copy()
diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 4aebe28..49649bf 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -65,9 +65,7 @@ class OriginalSRSR(Optimizer):
         target_move = 0
         return Agent(solution=solution, mu=mu, sigma=sigma, solution_new=x_new, target_move=target_move)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.target_new = agent.target.copy()
         return agent
 
diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 8bf4b70..2e6e338 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -98,15 +98,7 @@ class DevSSpiderA(Optimizer):
         mask = np.zeros(self.problem.n_dims)
         return Agent(solution=solution, target_solution=target_solution, local_vector=local_vector, mask=mask)
 
-    def generate_agent(self, solution: np.ndarray = None) -> Agent:
-        """
-        Generate new agent with full information
-
-        Args:
-            solution (np.ndarray): The solution
-        """
-        agent = self.generate_empty_agent(solution)
-        agent.target = self.get_target(agent.solution)
+    def complete_agent(self, agent: Agent) -> Agent:
         agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
         return agent
 
-- 
2.43.0


From a1f8eef13da3a7ae1babca6737e54b65020f47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 090/116] fix: SOO starts its second batch of candidates empty

---
 mealpy/physics_based/SOO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/physics_based/SOO.py b/mealpy/physics_based/SOO.py
index f70ad77..9f5b935 100644
--- a/mealpy/physics_based/SOO.py
+++ b/mealpy/physics_based/SOO.py
@@ -122,6 +122,7 @@ class OriginalSOO(Optimizer):
         _, best3, _ = self.get_special_agents(self.pop, n_best=3, minmax=self.problem.minmax)
 
         # Perform oscillatory movement update
+        pop_new = []
         for idx in range(self.pop_size):
             # Average of top star positions
             avg3 = np.mean([agent.solution for agent in best3], axis=0)
-- 
2.43.0


From dcc57f766c9687dc6d0853ed6e433b00dc3bda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:26 +0000
Subject: [PATCH 091/116] fix: SSpiderA collects its new candidates in every
 mode

---
 mealpy/swarm_based/SSpiderA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SSpiderA.py b/mealpy/swarm_based/SSpiderA.py
index 2e6e338..ee1c338 100644
--- a/mealpy/swarm_based/SSpiderA.py
+++ b/mealpy/swarm_based/SSpiderA.py
@@ -131,7 +131,7 @@ class DevSSpiderA(Optimizer):
             if self.mode not in self.AVAILABLE_MODES:
                 agent.target = self.get_target(agent.solution)
                 agent.intensity = np.log(1. / (np.abs(agent.target.fitness) + self.EPSILON) + 1)
-                pop_new.append(agent)
+            pop_new.append(agent)
         pop_new = self.update_target_for_population(pop_new)
 
         for idx in range(0, self.pop_size):
-- 
2.43.0


From c029d679737128bf88c4dac060abc5c0acb3f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 092/116] fix: every starting solution is checked, not the
 first one only

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 78cb94e..bef06a6 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -131,7 +131,7 @@ class Optimizer:
         if starting_solutions is None:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
-            if type(starting_solutions[0]) in self.SUPPORTED_ARRAYS and len(starting_solutions[0]) == self.problem.n_dims:
+            if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From ad932258cc471e4a663b05d880cd6abd7b761139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 093/116] fix: IChameleonSA compares its candidates with
 members that hold their own objective value

---
 mealpy/swarm_based/ChameleonSA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mealpy/swarm_based/ChameleonSA.py b/mealpy/swarm_based/ChameleonSA.py
index 0032ed3..d89a7f2 100644
--- a/mealpy/swarm_based/ChameleonSA.py
+++ b/mealpy/swarm_based/ChameleonSA.py
@@ -262,6 +262,7 @@ class IChameleonSA(Optimizer):
 
         # Phase 1: Search for prey
         mean_fit = np.mean([agent.target.fitness for agent in self.pop])
+        pos_list = []
         for idx in range(self.pop_size):
             if self.compare_fitness(self.pop[idx].target.fitness, mean_fit, self.problem.minmax):
                 r1, r2 = self.generator.random(2)
@@ -271,7 +272,7 @@ class IChameleonSA(Optimizer):
                 ll = self.generator.uniform(-1, 1)
                 sgn = np.sign(self.generator.random() - 0.5)
                 pos_new = self.g_best.solution + np.exp(self.k_spiral * ll) * np.cos(2 * np.pi * ll) * (self.g_best.solution - self.pop[idx].solution) * sgn
-            self.pop[idx].solution = pos_new
+            pos_list.append(pos_new)
 
         # Phase 2: Chameleon eyes' rotation
         c_t = 0.075 * (1 + np.cos((np.pi * epoch) / self.epoch))
@@ -280,7 +281,7 @@ class IChameleonSA(Optimizer):
             # Levy flight step calculation
             levy_step = self.get_levy_flight_step(1.5, multiplier=1, size=self.problem.n_dims, case=-1)
             # Rotation & Levy flight combination (Eq. 15)
-            xl = self.pop[idx].solution + c_t * (self.g_best.solution - self.pop[idx].solution) * levy_step
+            xl = pos_list[idx] + c_t * (self.g_best.solution - pos_list[idx]) * levy_step
             pos_new = self.correct_solution(xl)
             agent = self.generate_empty_agent(pos_new)
             pop_new.append(agent)
-- 
2.43.0


From 93554f6a1350d299d4a93ef1fae06c813f925c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 094/116] fix: PSS starts from the starting solutions it is
 given

---
 mealpy/math_based/PSS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/math_based/PSS.py b/mealpy/math_based/PSS.py
index 29cda9c..05b5175 100644
--- a/mealpy/math_based/PSS.py
+++ b/mealpy/math_based/PSS.py
@@ -82,6 +82,8 @@ class OriginalPSS(Optimizer):
         return pop
 
     def initialization(self):
+        if self.pop is not None:        # Starting solutions are given
+            return
         lb_pop = np.repeat(np.reshape(self.problem.lb, (1, -1)), self.pop_size, axis=0)
         ub_pop = np.repeat(np.reshape(self.problem.ub, (1, -1)), self.pop_size, axis=0)
         steps_mat = np.repeat(np.reshape(self.steps, (1, -1)), self.pop_size, axis=0)
-- 
2.43.0


From d4c284e3bfc0dc4a726681b1d3a2f8b0c92440db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 095/116] fix: TPO starts from the starting solutions it is
 given

---
 mealpy/bio_based/TPO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mealpy/bio_based/TPO.py b/mealpy/bio_based/TPO.py
index fa0da9c..b7a99f9 100644
--- a/mealpy/bio_based/TPO.py
+++ b/mealpy/bio_based/TPO.py
@@ -92,10 +92,13 @@ class DevTPO(Optimizer):
         self.roots = self.generator.uniform(0, 1, (self.n_leafs, self.problem.n_dims))
 
     def initialization(self):
+        pop_start = self.pop                # Starting solutions, None if they are not given
         self.pop_total = []
         self.pop = []                       # The best leaf in each branches
         for idx in range(self.pop_size):
             leafs = self.generate_population(self.n_leafs)
+            if pop_start is not None:
+                leafs[0] = pop_start[idx]
             best, _ = self.get_best_agent(leafs, self.problem.minmax)
             self.pop.append(best)
             self.pop_total.append(leafs)
-- 
2.43.0


From daf9feaf727bcdc3c963ad2bd1616eb902140ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 096/116] fix: the initial population is drawn in the same
 order in swarm, thread and process modes

---
 mealpy/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index bef06a6..7972607 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -356,7 +356,7 @@ class Optimizer:
         """
         if pop_size is None:
             pop_size = self.pop_size
-        if self.mode in self.PARALLEL_MODES:
+        if self.mode in self.AVAILABLE_MODES:
             # The agents are drawn here, only their targets are calculated by the workers
             pop = self.update_target_for_population([self.generate_empty_agent() for _ in range(0, pop_size)])
             pop = [self.complete_agent(agent) for agent in pop]
-- 
2.43.0


From 71654220379efa6055bbc94877bc4b4785bf0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 097/116] fix: OriginalGA takes the genetic operators of BaseGA
 instead of doing nothing

---
 mealpy/evolutionary_based/GA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 16aa360..453a525 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -819,7 +819,7 @@ class EliteMultiGA(MultiGA):
             self.pop = pop_new[:self.n_elite_best] + self.update_target_for_population(pop_new[self.n_elite_best:])
 
 
-class OriginalGA(Optimizer):
+class OriginalGA(BaseGA):
     """
     The fully tuned version of: Genetic Algorithm (GA)
 
-- 
2.43.0


From 78ac9cc6f3078860e548264b65923956cb5efb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 098/116] fix: DevMShOA carries its own metadata

---
 mealpy/swarm_based/MShOA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mealpy/swarm_based/MShOA.py b/mealpy/swarm_based/MShOA.py
index bc81ac2..ed78937 100644
--- a/mealpy/swarm_based/MShOA.py
+++ b/mealpy/swarm_based/MShOA.py
@@ -280,6 +280,8 @@ class DevMShOA(Optimizer):
     >>> print(f"Solution: {model.g_best.solution}, Fitness: {model.g_best.target.fitness}")
     """
 
+    OPT_INFO = OptInfo(name="Mantis Shrimp Optimization Algorithm (Dev)", difficulty="medium", kind="developed")
+
     def __init__(self, epoch: int = 10000, pop_size: int = 100, k_value: float = 0.3, **kwargs: object) -> None:
         """
         Args:
-- 
2.43.0


From ac3e1551f777f2b24690294bf68d517d51d2bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:42 +0000
Subject: [PATCH 099/116] fix: get_optimizer_by_name leaves out the base class
 and reports unknown names

---
 mealpy/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mealpy/__init__.py b/mealpy/__init__.py
index bf03a49..c67ea67 100644
--- a/mealpy/__init__.py
+++ b/mealpy/__init__.py
@@ -123,13 +123,13 @@ def get_optimizer_by_name(name: str, verbose: bool = False):
             for cls_name, cls_obj in inspect.getmembers(obj):
                 if inspect.isclass(cls_obj) and issubclass(cls_obj, Optimizer):
                     cls[cls_name] = cls_obj
+    cls.pop("Optimizer", None)
+    if not flag:
+        print(f"Mealpy doesn't support optimizer named: {name}.\n"
+              f"Please see the supported Optimizer name from here:\n"
+              f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
+        return None
     if verbose:
-        if not flag:
-            print(f"Mealpy doesn't support optimizer named: {name}.\n"
-                  f"Please see the supported Optimizer name from here:\n"
-                  f"https://github.com/thieu1995/mealpy?tab=readme-ov-file#-optimizer-classification-table")
-            return None
-        del cls['Optimizer']
         print(f"Found algorithm: {name}, the supported variants are:")
         for name, optimizer in cls.items():
             print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
-- 
2.43.0


From c2275f4bb95f79e88d18e4b225681490cb844968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 100/116] fix: the tuner accepts problem instances and problems
 without a stated direction

---
 mealpy/tuner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 0092649..2cc7c5f 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -394,7 +394,12 @@ class Tuner:
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-        ascending = True if self.problem["minmax"] == "min" else False
+        if isinstance(problem, Problem):
+            ascending = problem.minmax == "min"
+        elif isinstance(problem, dict):
+            ascending = problem.get("minmax", "min") == "min"
+        else:
+            raise TypeError("problem should be a dictionary or an instance of Problem class.")
 
         best_fit_results = []
         loss_results = []
-- 
2.43.0


From 38b775e044c7d3abda760f92503a4dfab40a975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 101/116] fix: the tuner runs one job sequentially, as
 documented

---
 mealpy/tuner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 2cc7c5f..a1ad698 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -386,7 +386,7 @@ class Tuner:
         self.problem = problem
         self.n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_cpus = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         if mode not in ("process", "thread", "single", "swarm"):
-- 
2.43.0


From 3e18236a578b3e6a976035a8e1f29fcdb468050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 102/116] fix: the tuner rejects an unknown mode instead of
 running in another one

---
 mealpy/tuner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index a1ad698..7529d18 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -389,8 +389,7 @@ class Tuner:
         if (n_jobs is not None) and (n_jobs > 1):
             n_cpus = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
-        if mode not in ("process", "thread", "single", "swarm"):
-            mode = "single"
+        mode = self.validator.check_str("mode", mode, ["process", "thread", "single", "swarm"])
 
         list_params_grid = list(ParameterGrid(self.param_grid))
         trial_columns = [f"trial_{id_trial}" for id_trial in range(1, self.n_trials + 1)]
-- 
2.43.0


From 1bc7748ed36e85299f42f94a6744d60db79aaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 103/116] fix: the tuner reports the best setting of a
 maximisation problem, not the worst

---
 mealpy/tuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mealpy/tuner.py b/mealpy/tuner.py
index 7529d18..ada725a 100644
--- a/mealpy/tuner.py
+++ b/mealpy/tuner.py
@@ -428,8 +428,8 @@ class Tuner:
         self.df_fit["trial_mean"] = self.df_fit[trial_columns].mean(axis=1)
         self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)
         self.df_fit["rank_mean"] = self.df_fit["trial_mean"].rank(ascending=ascending)
-        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=ascending)
-        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=ascending)
+        self.df_fit["rank_std"] = self.df_fit["trial_std"].rank(ascending=True)
+        self.df_fit["rank_mean_std"] = self.df_fit[["rank_mean", "rank_std"]].apply(tuple, axis=1).rank(method='dense', ascending=True)
         self._best_row = self.df_fit[self.df_fit["rank_mean_std"] == self.df_fit["rank_mean_std"].min()]
         self._best_params = self._best_row["params"].values[0]
         self._best_score = self._best_row["trial_mean"].values[0]
-- 
2.43.0


From d052aadbac25897d1c3492407751714d25441655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 104/116] fix: multitask settings given per algorithm are
 copied, not the generator that makes them

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index a902db0..4e44746 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -101,7 +101,7 @@ class Multitask:
             if len(values) == 1:
                 values_final = [[deepcopy(values[0]) for _ in range(0, self.m_problems)] for _ in range(0, self.n_algorithms)]
             elif len(values) == self.n_algorithms:
-                values_final = [deepcopy(values[idx] for _ in range(0, self.m_problems)) for idx in range(0, self.n_algorithms)]
+                values_final = [[deepcopy(values[idx]) for _ in range(0, self.m_problems)] for idx in range(0, self.n_algorithms)]
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-- 
2.43.0


From b6472c19162f6f50619cc4991fa9be765233eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 105/116] fix: multitask settings given per pair reach their
 pair

---
 mealpy/multitask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 4e44746..e0d373c 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -105,7 +105,8 @@ class Multitask:
             elif len(values) == self.m_problems:
                 values_final = [deepcopy(values) for _ in range(0, self.n_algorithms)]
             elif len(values) == (self.n_algorithms * self.m_problems):
-                values_final = values
+                values_final = [[deepcopy(values[id_algo * self.m_problems + id_prob]) for id_prob in range(0, self.m_problems)]
+                                for id_algo in range(0, self.n_algorithms)]
             else:
                 raise ValueError(f"{name} should be list of {kind} instances with size (1) or (n) or (m) or (n*m), n: #algorithms, m: #problems.")
             return values_final
-- 
2.43.0


From d292d3e0d7a1b237880a18074df1c5d6772874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:10 +0000
Subject: [PATCH 106/116] fix: multitask runs one job sequentially, as
 documented

---
 mealpy/multitask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index e0d373c..195aa00 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -174,7 +174,7 @@ class Multitask:
         """
         n_trials = self.validator.check_int("n_trials", n_trials, [1, 100000])
         n_processors = None
-        if (n_jobs is not None) and (n_jobs >= 1):
+        if (n_jobs is not None) and (n_jobs > 1):
             n_processors = self.validator.check_int("n_jobs", n_jobs, [2, min(61, os.cpu_count() - 1)])
 
         ## Get export function
-- 
2.43.0


From 2c2f044f10cfe4ff7e0ac455a7c1456124e9e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:46 +0000
Subject: [PATCH 107/116] fix: Multitask keeps the results of algorithms or
 problems of one name apart

---
 mealpy/multitask.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mealpy/multitask.py b/mealpy/multitask.py
index 195aa00..4d05aa0 100644
--- a/mealpy/multitask.py
+++ b/mealpy/multitask.py
@@ -129,6 +129,16 @@ class Multitask:
     def export_to_csv(result: pd.DataFrame, save_path: str):
         result.to_csv(f"{save_path}.csv", header=True, index=False)
 
+    @staticmethod
+    def get_unique_name(name: str, used_names: List[str]) -> str:
+        """Number a name that is already used, so that the results under that name are not overwritten."""
+        unique_name, counter = name, 2
+        while unique_name in used_names:
+            unique_name = f"{name}_{counter}"
+            counter += 1
+        used_names.append(unique_name)
+        return unique_name
+
     def __run__(self, id_trial, optimizer, problem, termination=None, mode="single"):
         g_best = optimizer.solve(problem, mode=mode, termination=termination, n_workers=self.n_workers)
         return {
@@ -181,18 +191,21 @@ class Multitask:
         save_as = self.validator.check_str("save_as", save_as, ["csv", "json", "dataframe"])
         export_function = getattr(self, f"export_to_{save_as}")
 
+        optimizer_names = []
         for id_optimizer, optimizer in enumerate(self.algorithms):
             if not isinstance(optimizer, Optimizer):
                 print(f"Model: {id_optimizer+1} is not an instance of Optimizer class.")
                 continue
 
             ## Check parent directories
+            optimizer_name = self.get_unique_name(optimizer.get_name(), optimizer_names)
             path_best_fit = f"{save_path}/best_fit"
-            path_convergence = f"{save_path}/convergence/{optimizer.get_name()}"
+            path_convergence = f"{save_path}/convergence/{optimizer_name}"
             Path(path_best_fit).mkdir(parents=True, exist_ok=True)
             Path(path_convergence).mkdir(parents=True, exist_ok=True)
 
             best_fit_optimizer_results = {}
+            problem_names = []
             for id_prob, problem in enumerate(self.problems):
                 term = None
                 if self.terminations is not None:
@@ -222,13 +235,14 @@ class Multitask:
                         if verbose:
                             print(f"Solving problem: {result['problem_name']} using algorithm: {optimizer.get_name()}, on the: {result['id_trial']} trial")
 
-                best_fit_optimizer_results[result['problem_name']] = best_fit_trials
+                problem_name = self.get_unique_name(result['problem_name'], problem_names)
+                best_fit_optimizer_results[problem_name] = best_fit_trials
                 if save_convergence:
                     max_length = max([len(col) for col in convergence_trials.values()])
                     for kk, vv in convergence_trials.items():
                         convergence_trials[kk] = list(vv) + [float('nan')] * (max_length - len(vv))
                     df1 = pd.DataFrame(convergence_trials)
-                    export_function(df1, f"{path_convergence}/{result['problem_name']}_convergence")
+                    export_function(df1, f"{path_convergence}/{problem_name}_convergence")
 
             df2 = pd.DataFrame(best_fit_optimizer_results)
-            export_function(df2, f"{path_best_fit}/{optimizer.get_name()}_best_fit")
+            export_function(df2, f"{path_best_fit}/{optimizer_name}_best_fit")
-- 
2.43.0


From 94a3e37004326b519e299f7db55a0f799b513d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 108/116] fix: CRO ranks its corals under the problem direction

---
 mealpy/evolutionary_based/CRO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/evolutionary_based/CRO.py b/mealpy/evolutionary_based/CRO.py
index fd5c5dc..91d8d03 100644
--- a/mealpy/evolutionary_based/CRO.py
+++ b/mealpy/evolutionary_based/CRO.py
@@ -142,7 +142,7 @@ class OriginalCRO(Optimizer):
     def sort_occupied_reef__(self):
         def reef_fitness(idx):
             return self.pop[idx].target.fitness
-        return sorted(self.occupied_idx_list, key=reef_fitness)
+        return sorted(self.occupied_idx_list, key=reef_fitness, reverse=self.problem.minmax == "max")
 
     def broadcast_spawning_brooding__(self):
         # Step 1a
-- 
2.43.0


From 02e4c8b9e38ad0a425b8d92ae7d9362e5484ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 109/116] fix: ICA finds the weakest empire under the problem
 direction

---
 mealpy/human_based/ICA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/ICA.py b/mealpy/human_based/ICA.py
index 274f1ae..7a0b9df 100644
--- a/mealpy/human_based/ICA.py
+++ b/mealpy/human_based/ICA.py
@@ -182,7 +182,7 @@ class OriginalICA(Optimizer):
         vector_D = prob_empires_list - uniform_list
         idx_empire = np.argmax(vector_D)
         # Find the weakest empire and weakest colony inside it
-        idx_weakest_empire = np.argmax(cost_empires_list)
+        idx_weakest_empire = np.argmax(cost_empires_list) if self.problem.minmax == "min" else np.argmin(cost_empires_list)
         if len(self.empires[idx_weakest_empire]) > 0:
             colonies_sorted, _ = self.get_sorted_population(self.empires[idx_weakest_empire], self.problem.minmax)
             self.empires[idx_empire].append(colonies_sorted.pop(-1))
-- 
2.43.0


From 26094c155a544da39a183c3f2f85a885b43271c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 110/116] fix: SRSR finds its best improvement under the
 problem direction

---
 mealpy/swarm_based/SRSR.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/SRSR.py b/mealpy/swarm_based/SRSR.py
index 49649bf..af44f69 100644
--- a/mealpy/swarm_based/SRSR.py
+++ b/mealpy/swarm_based/SRSR.py
@@ -132,7 +132,8 @@ class OriginalSRSR(Optimizer):
 
         # --------- Determining Sigma Improvement Factor (Sif) Based On Vvss Movement -------------------
         ## Get best improved fitness
-        fit_id = np.argmax([agent.target_move for agent in self.pop])
+        list_moves = [agent.target_move for agent in self.pop]
+        fit_id = np.argmax(list_moves) if self.problem.minmax == "min" else np.argmin(list_moves)
         sigma_factor = 1 + self.generator.uniform() * np.max(self.problem.ub - self.problem.lb)
         self.SIF = sigma_factor * self.sigma_temp[fit_id]
         # Controlling Parameter Of Algorithm
-- 
2.43.0


From 7fce8d82bb0402525dc1226e40ca4e9ae9a67c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:13 +0000
Subject: [PATCH 111/116] fix: BFO ranks its cells by their nutrients under the
 problem direction

---
 mealpy/swarm_based/BFO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mealpy/swarm_based/BFO.py b/mealpy/swarm_based/BFO.py
index ede923a..b373a57 100644
--- a/mealpy/swarm_based/BFO.py
+++ b/mealpy/swarm_based/BFO.py
@@ -134,7 +134,8 @@ class OriginalBFO(Optimizer):
 
     def evaluate__(self, idx, cells):
         cells[idx].interaction = self.attract_repel__(idx, cells)
-        cells[idx].cost = cells[idx].target.fitness + cells[idx].interaction
+        fitness = cells[idx].target.fitness
+        cells[idx].cost = (fitness if self.problem.minmax == "min" else -fitness) + cells[idx].interaction
         return cells
 
     def tumble_cell__(self, cell, step_size):
-- 
2.43.0


From 8f4570cef2673111a6c581024ae656730b86ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 112/116] fix: GA picks its second roulette parent among the
 others, instead of redrawing until it differs

---
 mealpy/evolutionary_based/GA.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mealpy/evolutionary_based/GA.py b/mealpy/evolutionary_based/GA.py
index 453a525..d0a88e0 100644
--- a/mealpy/evolutionary_based/GA.py
+++ b/mealpy/evolutionary_based/GA.py
@@ -135,9 +135,8 @@ class BaseGA(Optimizer):
         """
         if self.selection == "roulette":
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            id_others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = id_others[self.get_index_roulette_wheel_selection(list_fitness[id_others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(self.pop_size), 2, replace=False)
         else:   ## tournament
@@ -161,9 +160,8 @@ class BaseGA(Optimizer):
         if self.selection == "roulette":
             list_fitness = np.array([agent.target.fitness for agent in pop_selected])
             id_c1 = self.get_index_roulette_wheel_selection(list_fitness)
-            id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
-            while id_c2 == id_c1:
-                id_c2 = self.get_index_roulette_wheel_selection(list_fitness)
+            id_others = np.delete(np.arange(len(list_fitness)), id_c1)
+            id_c2 = id_others[self.get_index_roulette_wheel_selection(list_fitness[id_others])]
         elif self.selection == "random":
             id_c1, id_c2 = self.generator.choice(range(len(pop_selected)), 2, replace=False)
         else:   ## tournament
-- 
2.43.0


From d18707b47dfa1e8796a007f6808e8c8a197af70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 113/116] fix: HCO gives up replacing a poor initial agent
 instead of redrawing for ever

---
 mealpy/human_based/HCO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mealpy/human_based/HCO.py b/mealpy/human_based/HCO.py
index 9adb38e..e0d0e1e 100644
--- a/mealpy/human_based/HCO.py
+++ b/mealpy/human_based/HCO.py
@@ -110,7 +110,7 @@ class OriginalHCO(Optimizer):
         pfit = (worst.target.fitness - best.target.fitness) * self.wfp + best.target.fitness
         for idx in range(0, self.pop_size):
             if self.compare_fitness(pfit, self.pop[idx].target.fitness, self.problem.minmax):
-                while True:
+                for _ in range(0, 100):
                     agent = self.generate_agent()
                     if self.compare_fitness(agent.target.fitness, pfit, self.problem.minmax):
                         self.pop[idx] = agent
-- 
2.43.0


From c055dbb85220b5059778fa6a93701a84e6642363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:15 +0000
Subject: [PATCH 114/116] fix: BRO keeps its shrinking bounds on itself, not on
 the caller's problem

---
 mealpy/human_based/BRO.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index c6043f1..2b36052 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -73,8 +73,8 @@ class DevBRO(Optimizer):
     def initialize_variables(self):
         shrink = np.ceil(np.log10(self.epoch))
         self.dyn_delta = np.round(self.epoch / shrink)
-        self.problem.lb_updated = self.problem.lb.copy()
-        self.problem.ub_updated = self.problem.ub.copy()
+        self.lb_updated = self.problem.lb.copy()
+        self.ub_updated = self.problem.ub.copy()
 
     def generate_empty_agent(self, solution: np.ndarray = None) -> Agent:
         if solution is None:
@@ -124,7 +124,7 @@ class DevBRO(Optimizer):
                     dam_new = self.pop[jdx].damage + 1
                     self.pop[jdx].target = self.get_target(self.pop[jdx].solution)
                 else:  ## Loser dead and respawn again
-                    pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                    pos_new = self.generator.uniform(self.lb_updated, self.ub_updated)
                     dam_new = 0
                 pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
@@ -144,8 +144,8 @@ class DevBRO(Optimizer):
             pos_std = np.std(pos_list, axis=0)
             lb = self.g_best.solution - pos_std
             ub = self.g_best.solution + pos_std
-            self.problem.lb_updated = np.clip(lb, self.problem.lb_updated, self.problem.ub_updated)
-            self.problem.ub_updated = np.clip(ub, self.problem.lb_updated, self.problem.ub_updated)
+            self.lb_updated = np.clip(lb, self.lb_updated, self.ub_updated)
+            self.ub_updated = np.clip(ub, self.lb_updated, self.ub_updated)
             self.dyn_delta += np.round(self.dyn_delta / 2)
 
 
@@ -222,7 +222,7 @@ class OriginalBRO(DevBRO):
                 self.pop[dam] = agent
                 self.pop[vic].damage = 0
             else:
-                pos_new = self.generator.uniform(self.problem.lb_updated, self.problem.ub_updated)
+                pos_new = self.generator.uniform(self.lb_updated, self.ub_updated)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
@@ -230,6 +230,6 @@ class OriginalBRO(DevBRO):
             pos_std = np.std(pos_list, axis=0)
             lb = self.g_best.solution - pos_std
             ub = self.g_best.solution + pos_std
-            self.problem.lb_updated = np.clip(lb, self.problem.lb_updated, self.problem.ub_updated)
-            self.problem.ub_updated = np.clip(ub, self.problem.lb_updated, self.problem.ub_updated)
+            self.lb_updated = np.clip(lb, self.lb_updated, self.ub_updated)
+            self.ub_updated = np.clip(ub, self.lb_updated, self.ub_updated)
             self.dyn_delta += round(self.dyn_delta / 2)
-- 
2.43.0


From 0cf9a349434e611d1ed744345ae1c38500b011d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:15 +0000
Subject: [PATCH 115/116] fix: a run starts from its own float arrays, not from
 the caller's starting positions

---
 mealpy/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/optimizer.py b/mealpy/optimizer.py
index 7972607..057def4 100644
--- a/mealpy/optimizer.py
+++ b/mealpy/optimizer.py
@@ -132,6 +132,7 @@ class Optimizer:
             pass
         elif type(starting_solutions) in self.SUPPORTED_ARRAYS and len(starting_solutions) == self.pop_size:
             if all(type(solution) in self.SUPPORTED_ARRAYS and len(solution) == self.problem.n_dims for solution in starting_solutions):
+                starting_solutions = [np.array(solution, dtype=float) for solution in starting_solutions]
                 if self.mode in self.AVAILABLE_MODES:
                     self.pop = [self.generate_empty_agent(solution) for solution in starting_solutions]
                     self.pop = self.update_target_for_population(self.pop)
-- 
2.43.0


From 00d1367386edef3312614dac62ba0d0735316625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:28 +0000
Subject: [PATCH 116/116] fix: OriginalBRO corrects the position of a soldier
 that respawns

---
 mealpy/human_based/BRO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mealpy/human_based/BRO.py b/mealpy/human_based/BRO.py
index 2b36052..abed14c 100644
--- a/mealpy/human_based/BRO.py
+++ b/mealpy/human_based/BRO.py
@@ -223,6 +223,7 @@ class OriginalBRO(DevBRO):
                 self.pop[vic].damage = 0
             else:
                 pos_new = self.generator.uniform(self.lb_updated, self.ub_updated)
+                pos_new = self.correct_solution(pos_new)
                 agent = self.generate_agent(pos_new)
                 self.pop[dam] = agent
         if epoch >= self.dyn_delta:
-- 
2.43.0

