From dd509d9805bb070a43158262e69b2c5709c99527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:06 +0000
Subject: [PATCH 01/58] fix: CRO depredation flattened the reef (np.delete
 without axis)

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..9a805d0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From 37e2539799bde1c8d0773e285d96482db94d348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 02/58] fix: HybridBatAlgorithm passes the best solution by
 name to its DE strategy

---
 src/niapy/algorithms/modified/hba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/hba.py b/src/niapy/algorithms/modified/hba.py
index c047ba2..729edbb 100644
--- a/src/niapy/algorithms/modified/hba.py
+++ b/src/niapy/algorithms/modified/hba.py
@@ -116,4 +116,4 @@ class HybridBatAlgorithm(BatAlgorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, best), rng=self.rng)
+        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, x_b=best), rng=self.rng)
-- 
2.43.0


From 9f1d5534037d9e47d1b7d5b0918e8d486d7af345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 03/58] fix: ClonalSelection always makes at least one clone
 per antibody

---
 src/niapy/algorithms/basic/clonalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/clonalg.py b/src/niapy/algorithms/basic/clonalg.py
index 7261705..5c76ede 100644
--- a/src/niapy/algorithms/basic/clonalg.py
+++ b/src/niapy/algorithms/basic/clonalg.py
@@ -74,7 +74,7 @@ class ClonalSelectionAlgorithm(Algorithm):
         """
         super().__init__(population_size, *args, **kwargs)
         self.clone_factor = clone_factor
-        self.num_clones = int(self.population_size * self.clone_factor)
+        self.num_clones = max(1, int(self.population_size * self.clone_factor))
         self.mutation_factor = mutation_factor
         self.num_rand = num_rand
         self.bits_per_param = bits_per_param
@@ -96,7 +96,7 @@ class ClonalSelectionAlgorithm(Algorithm):
         """
         super().set_parameters(population_size=population_size, **kwargs)
         self.clone_factor = clone_factor
-        self.num_clones = int(self.population_size * self.clone_factor)
+        self.num_clones = max(1, int(self.population_size * self.clone_factor))
         self.mutation_factor = mutation_factor
         self.num_rand = num_rand
         self.bits_per_param = bits_per_param
-- 
2.43.0


From 10585a568f29a3a93132503b81ca1972372c768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 04/58] fix: AgingNpDE lifetimes are undefined on a population
 of equal or zero fitness

---
 src/niapy/algorithms/basic/de.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 31a0eab..37fcf99 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -750,9 +750,11 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
         new_population = []
         for x in pop:
             x.age += 1
-            lifetime = round(
-                self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f))
-            if x.age <= lifetime:
+            try:
+                lifetime = self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f)
+            except ZeroDivisionError:
+                lifetime = np.inf
+            if x.age <= (round(lifetime) if np.isfinite(lifetime) else self.max_lifetime):
                 new_population.append(x)
         if len(new_population) == 0:
             new_population = objects_to_array([self.individual_type(task=task, rng=self.rng, e=True) for _ in range(self.population_size)])
-- 
2.43.0


From bd1a745564871f2b29cfbdc8b312fe20d52a2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 05/58] fix: AgingNpDE forgot the best individual of a
 recreated population

---
 src/niapy/algorithms/basic/de.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 37fcf99..c59322d 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -817,6 +817,7 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
         new_population = np.append(new_population, self.increment_population(task))
         best_x, best_fitness = self.get_best(new_population, np.asarray([e.f for e in new_population]), best_x, best_fitness)
         population = self.aging(task, new_population)
+        best_x, best_fitness = self.get_best(population, np.asarray([e.f for e in population]), best_x, best_fitness)
         return population, best_x, best_fitness
 
     def post_selection(self, pop, task, xb, fxb, **kwargs):
-- 
2.43.0


From eeb3431566a5c118496cc14cb93de97ef938fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:54 +0000
Subject: [PATCH 06/58] fix: reflect repair returned NaN for a zero-width
 dimension

---
 src/niapy/util/repair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 3c94f03..69e4cc4 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -90,6 +90,8 @@ def reflect(x, lower, upper, **_kwargs):
         numpy.ndarray: Fix solution.
 
     """
+    ir = np.where(lower == upper)
+    x[ir] = lower[ir]
     ir = np.where(x > upper)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
     ir = np.where(x < lower)
-- 
2.43.0


From 3441d7f6567a0f8425ab2d81d75f3e4717cc34a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:09 +0000
Subject: [PATCH 07/58] fix: Nelder-Mead evaluated points outside of the search
 space

---
 src/niapy/algorithms/other/nmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..b7cd956 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -140,25 +140,26 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
         new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From c9c36e9102db95fa5eedac80ca05596ea3aa436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:09 +0000
Subject: [PATCH 08/58] fix: Nelder-Mead built a one point simplex for one
 dimensional problems

---
 src/niapy/algorithms/other/nmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b7cd956..199d123 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -120,7 +120,8 @@ class NelderMeadMethod(Algorithm):
                 2. New initialized population fitness/function values.
 
         """
-        population_size = task.dimension if population_size is None or population_size < task.dimension else population_size
+        min_size = max(2, task.dimension)
+        population_size = min_size if population_size is None or population_size < min_size else population_size
         population = self.uniform(task.lower, task.upper, (population_size, task.dimension))
         population_fitness = np.apply_along_axis(task.eval, 1, population)
         return population, population_fitness
-- 
2.43.0


From 771dc5b45cda13ac0f3eca3dfb8729cbbdc45d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:33 +0000
Subject: [PATCH 09/58] fix: MShOA lost the best initial solution by evaluating
 and normalizing the population twice

---
 src/niapy/algorithms/basic/mshoa.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..748fbd5 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
-- 
2.43.0


From 93ce3ce8be0501618ada5b933db028a274959de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:33 +0000
Subject: [PATCH 10/58] fix: MShOA repaired normalized positions with the
 bounds of the problem

---
 src/niapy/algorithms/basic/mshoa.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 748fbd5..e51c112 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -407,16 +407,19 @@ class MantisSearchAlgorithm(Algorithm):
             # Reflection-based boundary handling
             for i in range(self.population_size):
                 pop_new[i] = self._reflect_repair(pop_new[i], lower_work, upper_work)
-        else:
+        elif not self.normalize_space:
             # Standard repair
             pop_new = np.apply_along_axis(task.repair, 1, pop_new, rng=self.rng)
 
         # Convert to real space for evaluation if normalization is enabled
         if self.normalize_space:
-            pop_real = np.apply_along_axis(
-                lambda z: self._normalize_to_real(z, task.lower, task.upper),
-                1, pop_new
-            )
+            pop_real = self._normalize_to_real(pop_new, task.lower, task.upper)
+            if self.use_reflection:
+                pop_real = np.clip(pop_real, task.lower, task.upper)
+            else:
+                # Standard repair works on the bounds of the problem
+                pop_real = np.apply_along_axis(task.repair, 1, pop_real, rng=self.rng)
+                pop_new = self._normalize_from_real(pop_real, task.lower, task.upper)
             fpop = np.apply_along_axis(task.eval, 1, pop_real)
         else:
             fpop = np.apply_along_axis(task.eval, 1, pop_new)
@@ -426,10 +429,9 @@ class MantisSearchAlgorithm(Algorithm):
         if fpop[best_idx] < fxb:
             if self.normalize_space:
                 # Update normalized best
-                xb_normalized = pop_new[best_idx].copy()
+                xb_work = pop_new[best_idx].copy()
                 # Also update real-space best for return
-                xb = self._normalize_to_real(xb_normalized, task.lower, task.upper)
-                xb_work = xb_normalized
+                xb = pop_real[best_idx].copy()
             else:
                 xb = pop_new[best_idx].copy()
                 xb_work = xb.copy()
@@ -483,10 +485,7 @@ class MantisSearchAlgorithm(Algorithm):
         # Return population in the correct space
         # If normalization is enabled, convert back to real space for return
         if self.normalize_space:
-            pop_return = np.apply_along_axis(
-                lambda z: self._normalize_to_real(z, task.lower, task.upper),
-                1, pop_new
-            )
+            pop_return = pop_real
         else:
             pop_return = pop_new
 
-- 
2.43.0


From 1721cfbd34221615545e57db65bfe9a26b14b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 11/58] fix: FWA and EFWA returned the best spark of the last
 generation instead of the best so far

---
 src/niapy/algorithms/basic/fwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..a5fe174 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -423,8 +423,10 @@ class FireworksAlgorithm(Algorithm):
 
         all_sparks = np.concatenate((all_sparks, gaussian_sparks), axis=0)
 
-        population, population_fitness, best_x, best_fitness = self.selection(population, population_fitness,
-                                                                              all_sparks, task)
+        population, population_fitness, new_best_x, new_best_fitness = self.selection(population, population_fitness,
+                                                                                      all_sparks, task)
+        if new_best_fitness <= best_fitness:
+            best_x, best_fitness = new_best_x, new_best_fitness
 
         return population, population_fitness, best_x, best_fitness, {}
 
-- 
2.43.0


From 44c751dc54cf35865a0cda97f7dfd32a898d86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:26 +0000
Subject: [PATCH 12/58] fix: BareBonesFireworks starts from a solution, not
 from a population of one

---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index a5fe174..78c3922 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -121,7 +121,7 @@ class BareBonesFireworksAlgorithm(Algorithm):
         """
         x, x_fit, d = super().init_population(task)
         d.update({'amplitude': task.range})
-        return x, x_fit, d
+        return x[0], x_fit[0], d
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bare Bones Fireworks Algorithm.
-- 
2.43.0


From 50913a77c4e628dcc2208a4abc206fff6a7cc14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:26 +0000
Subject: [PATCH 13/58] fix: fireworks algorithms crashed on infinite fitness
 values

---
 src/niapy/algorithms/basic/fwa.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 78c3922..f4d0011 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -15,6 +15,20 @@ __all__ = ['FireworksAlgorithm', 'EnhancedFireworksAlgorithm', 'DynamicFireworks
            'DynamicFireworksAlgorithmGauss', 'BareBonesFireworksAlgorithm']
 
 
+def _finite_fitness(fitness):
+    r"""Replace the fitness values that are not finite with the worst finite one.
+
+    Args:
+        fitness (numpy.ndarray): Fitness values.
+
+    Returns:
+        numpy.ndarray: Finite fitness values.
+
+    """
+    finite = np.isfinite(fitness)
+    return np.where(finite, fitness, np.amax(fitness[finite]) if np.any(finite) else 0.0)
+
+
 class BareBonesFireworksAlgorithm(Algorithm):
     r"""Implementation of Bare Bones Fireworks Algorithm.
 
@@ -268,6 +282,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Number of sparks that for all fireworks.
 
         """
+        population_fitness = _finite_fitness(population_fitness)
         worst_fitness = np.amax(population_fitness)
         sparks_num = self.num_sparks * (worst_fitness - population_fitness + self.epsilon)
         sparks_num /= np.sum(worst_fitness - population_fitness) + self.epsilon
@@ -287,6 +302,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Explosion amplitude of sparks.
 
         """
+        population_fitness = _finite_fitness(population_fitness)
         best_fitness = np.amin(population_fitness)
         amplitudes = self.max_amplitude * (population_fitness - best_fitness + self.epsilon)
         amplitudes /= np.sum(population_fitness - best_fitness) + self.epsilon
@@ -789,8 +805,9 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         sparks_num = self.sparks_num(population_fitness)
         amplitudes = self.explosion_amplitudes(population_fitness)
 
-        cf_sparks_num = self.num_sparks * (np.amax(population_fitness) - best_fitness + self.epsilon) /\
-            (np.sum(np.amax(population_fitness - best_fitness)) + self.epsilon)
+        finite_fitness = _finite_fitness(np.append(population_fitness, best_fitness))
+        cf_sparks_num = self.num_sparks * (np.amax(finite_fitness) - finite_fitness[-1] + self.epsilon) / \
+            (np.sum(np.amax(finite_fitness - finite_fitness[-1])) + self.epsilon)
 
         if cf_sparks_num < self.a * self.num_sparks:
             cf_sparks_num = round(self.a * self.num_sparks)
@@ -897,8 +914,9 @@ class DynamicFireworksAlgorithm(DynamicFireworksAlgorithmGauss):
         sparks_num = self.sparks_num(population_fitness)
         amplitudes = self.explosion_amplitudes(population_fitness)
 
-        cf_sparks_num = self.num_sparks * (np.amax(population_fitness) - best_fitness + self.epsilon) / \
-            (np.sum(np.amax(population_fitness - best_fitness)) + self.epsilon)
+        finite_fitness = _finite_fitness(np.append(population_fitness, best_fitness))
+        cf_sparks_num = self.num_sparks * (np.amax(finite_fitness) - finite_fitness[-1] + self.epsilon) / \
+            (np.sum(np.amax(finite_fitness - finite_fitness[-1])) + self.epsilon)
 
         if cf_sparks_num < self.a * self.num_sparks:
             cf_sparks_num = round(self.a * self.num_sparks)
-- 
2.43.0


From 0ef6af15ffbdeff3033e2f13b290164ff4b3aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:38 +0000
Subject: [PATCH 14/58] fix: CamelAlgorithm forgot the best solution of a camel
 that died

---
 src/niapy/algorithms/basic/ca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..6825c77 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -354,6 +354,7 @@ class CamelAlgorithm(Algorithm):
 
         """
         new_caravan = objects_to_array([self.walk(c, best_x, task) for c in population])
+        best_x, best_fitness = self.get_best(new_caravan, np.asarray([c.f for c in new_caravan]), best_x, best_fitness)
         new_caravan = objects_to_array([self.oasis(c) for c in new_caravan])
         new_caravan = objects_to_array([self.life_cycle(c, task) for c in new_caravan])
         new_caravan_fitness = np.asarray([c.f for c in new_caravan])
-- 
2.43.0


From 78451e61fb9ed6d2c053f58e4849e1b551cf24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 15/58] fix: CatSwarmOptimization lost best positions found in
 seeking mode

---
 src/niapy/algorithms/basic/cso.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..a55056b 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -261,20 +261,22 @@ class CatSwarmOptimization(Algorithm):
         velocities = params.pop('velocities')
 
         pop_copies = population.copy()
+        new_best_x, new_best_fitness = best_x, best_fitness
         for k in range(len(pop_copies)):
             if modes[k] == 0:
-                pop_copies[k], population_fitness[k], pop_copies, population_fitness = self.seeking_mode(task,
-                                                                                                         pop_copies[k],
-                                                                                                         population_fitness[k],
-                                                                                                         pop_copies,
-                                                                                                         population_fitness,
-                                                                                                         best_fitness)
+                cat, cat_fitness, pop_copies, population_fitness = self.seeking_mode(task,
+                                                                                     pop_copies[k],
+                                                                                     population_fitness[k],
+                                                                                     pop_copies,
+                                                                                     population_fitness,
+                                                                                     best_fitness)
+                # a copy better than the global best may be overwritten before the end of the iteration
+                new_best_x, new_best_fitness = self.get_best(pop_copies, population_fitness, new_best_x, new_best_fitness)
             else:  # if cat in tracing mode
-                pop_copies[k], population_fitness[k], velocities[k] = self.tracing_mode(task,
-                                                                                        pop_copies[k],
-                                                                                        velocities[k],
-                                                                                        best_x)
-        best_index = np.argmin(population_fitness)
-        if population_fitness[best_index] < best_fitness:
-            best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
-        return pop_copies, population_fitness, best_x, best_fitness, {'velocities': velocities}
+                cat, cat_fitness, velocities[k] = self.tracing_mode(task,
+                                                                    pop_copies[k],
+                                                                    velocities[k],
+                                                                    best_x)
+            pop_copies[k], population_fitness[k] = cat, cat_fitness
+            new_best_x, new_best_fitness = self.get_best(pop_copies, population_fitness, new_best_x, new_best_fitness)
+        return pop_copies, population_fitness, new_best_x, new_best_fitness, {'velocities': velocities}
-- 
2.43.0


From 8c2fd97e19930d7d66fab05ecc6be2e9b53552e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 16/58] fix: CatSwarmOptimization repairs with its own random
 generator

---
 src/niapy/algorithms/basic/cso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index a55056b..ce10d24 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -194,7 +194,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -233,7 +233,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
-- 
2.43.0


From ca79968cf7a028b1199891d310d1e0632e2babdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 17/58] fix: MonarchButterflyOptimization lost its best
 butterfly when the budget ended mid-iteration

---
 src/niapy/algorithms/basic/mbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..18f82d7 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -263,6 +263,7 @@ class MonarchButterflyOptimization(Algorithm):
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
                                                                  population, current_best))
         population_fitness, population = self.evaluate_and_sort(task, population)
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         current_best = population[0]
         population[-self.keep:] = elite
         population_fitness, population = self.evaluate_and_sort(task, population)
-- 
2.43.0


From 96b2ab6c5aa0a1610886192a1240de05d82e5987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 18/58] fix: MonarchButterflyOptimization adjusting operator
 always copied dimension 1

---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 18f82d7..fee49f1 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -182,7 +182,7 @@ class MonarchButterflyOptimization(Algorithm):
                     butterflies[k2, i] = best[i]
                 else:
                     r4 = self.integers(np2 - 1)
-                    butterflies[k2, i] = pop2[r4, 1]
+                    butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
         return butterflies
-- 
2.43.0


From 2982ebcd498e4063d91325362cf3e60a8c5341ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:21 +0000
Subject: [PATCH 19/58] fix: MonarchButterflyOptimization repairs with its own
 random generator

---
 src/niapy/algorithms/basic/mbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index fee49f1..3a3720f 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,10 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population), rng=self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best), rng=self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         current_best = population[0]
-- 
2.43.0


From 6df9b7cdb899f9ec32560db70e9a88677e327949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:18 +0000
Subject: [PATCH 20/58] fix: MTS local search 3 kept moving the solution it had
 accepted

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..9557719 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -262,7 +262,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0


From 7913933c3d2f2e1783d4ca8cc97de32d3fca6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 21/58] fix: MTS local search 1 version 1 moved to a new best
 without updating the fitness

---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 9557719..9f4fdfd 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -118,6 +118,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+            current_fitness = new_fitness
         elif new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
@@ -126,6 +127,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+                current_fitness = new_fitness
             elif new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
-- 
2.43.0


From d451edb6714c5bab4866c2871e3f211e3159999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:38 +0000
Subject: [PATCH 22/58] fix: MTS local search 3 produced NaN coordinates from
 infinite fitness values

---
 src/niapy/algorithms/other/mts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 9f4fdfd..6ca3920 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -256,7 +256,8 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
         if d3 > 0:
             grade, improve = grade + bonus2, True
         a, b, c = 0.4 + rng.random() * 0.1, 0.1 + rng.random() * 0.2, rng.random()
-        x_new[i] += a * (d1 - d2) + b * (d3 - 2 * d1) + c
+        step = a * (d1 - d2) + b * (d3 - 2 * d1) + c
+        x_new[i] += step if np.isfinite(step) else c
         x_new = task.repair(x_new, rng)
         x_new_fitness = task.eval(x_new)
         if x_new_fitness < current_fitness:
-- 
2.43.0


From a0fff4883c7381615617451ed44525693122f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 23/58] fix: RandomSearch started from a solution that did not
 match its fitness

---
 src/niapy/algorithms/other/rs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..4cc09bc 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -109,7 +109,8 @@ class RandomSearch(Algorithm):
                     self.candidates.append(x)
                     break
 
-        x_fit = task.eval(self.candidates[0])
+        x = self.candidates[0]
+        x_fit = task.eval(x)
         return x, x_fit, {}
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
-- 
2.43.0


From 80f6ee7968c60e430aa1734751ad29f09fe4198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 24/58] fix: RandomSearch crashed on a task limited only by a
 cutoff value

---
 src/niapy/algorithms/other/rs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 4cc09bc..c55ae6f 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -99,7 +99,7 @@ class RandomSearch(Algorithm):
         elif task.max_evals != np.inf:
             total_candidates = task.max_evals
         else:
-            total_candidates = 0
+            total_candidates = 1
         self.candidates = []
         x = None
         for i in range(total_candidates):
@@ -134,7 +134,10 @@ class RandomSearch(Algorithm):
 
         """
         current_candidate = task.iters if task.max_iters != np.inf else task.evals
-        x = self.candidates[current_candidate]
+        if current_candidate < len(self.candidates):
+            x = self.candidates[current_candidate]
+        else:
+            x = task.lower + task.range * self.random(task.dimension)
         x_fit = task.eval(x)
         best_x, best_fitness = self.get_best(x, x_fit, best_x, best_fitness)
         return x, x_fit, best_x, best_fitness, {}
-- 
2.43.0


From fb738f568090b8c204147530185b90a6cc008f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 25/58] fix: GSA masses were NaN on a population of equal or
 infinite fitness

---
 src/niapy/algorithms/basic/gsa.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index fd50dfb..1c4b832 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -159,8 +159,13 @@ class GravitationalSearchAlgorithm(Algorithm):
         """
         velocities = params.pop('velocities')
 
-        ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
-        m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
+        finite = np.isfinite(population_fitness)
+        if np.unique(population_fitness[finite]).size > 1:
+            ib, iw = np.min(population_fitness[finite]), np.max(population_fitness[finite])
+            m = np.where(finite, (np.where(finite, population_fitness, iw) - iw) / (ib - iw), 0.0)
+        else:
+            # masses cannot be told apart
+            m = np.ones(len(population_fitness))
         m = m / np.sum(m)
         forces = np.asarray([[self.gravity((task.iters + 1)) * ((m[i] * m[j]) / (euclidean(population[i], population[j]) + self.epsilon)) * (
                 population[j] - population[i]) for j in range(len(m))] for i in range(len(m))])
-- 
2.43.0


From 0b73a050259a6a60d193ec27825af2c8e27d6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:13 +0000
Subject: [PATCH 26/58] fix: KrillHerd moved to NaN positions on zero or
 infinite fitness values

---
 src/niapy/algorithms/basic/kh.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 05915d9..99aefc6 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -233,7 +233,8 @@ class KrillHerd(Algorithm):
             numpy.ndarray: K.
 
         """
-        return ((x - y) + self.epsilon) / ((w - b) + self.epsilon)
+        k = ((x - y) + self.epsilon) / ((w - b) + self.epsilon)
+        return k if np.isfinite(k) else 1.0
 
     def induce_neighbors_motion(self, i, n, weights, population, population_fitness, best_index, worst_index, task):
         r"""Induced neighbours motion operator.
@@ -349,8 +350,11 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        x_food = task.repair(np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness),
-                             rng=self.rng)
+        x_food = np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness)
+        if not np.all(np.isfinite(x_food)):
+            # fitness values of zero or infinity have no finite weight
+            x_food = np.mean(population, axis=0)
+        x_food = task.repair(x_food, rng=self.rng)
         x_food_f = task.eval(x_food)
         return x_food, x_food_f
 
-- 
2.43.0


From 906ee9435b443fb9ddbd903d2d1d3c5abe98050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 27/58] fix: FSS produced NaN positions after leaving a point
 of infinite fitness

---
 src/niapy/algorithms/basic/fss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index db73791..bf9f097 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -225,7 +225,7 @@ class FishSchoolSearch(Algorithm):
             cost = task.eval(new_pos)
             if cost < fish.f:
                 xb, fxb = self.get_best(new_pos, cost, xb, fxb)
-                fish.delta_cost = abs(cost - fish.f)
+                fish.delta_cost = abs(cost - fish.f) if np.isfinite(cost - fish.f) else 0
                 fish.f = cost
                 fish.delta_pos = new_pos - fish.x
                 fish.x = new_pos
-- 
2.43.0


From 02853a18b09339f19e5d52d8ec9fe817b91e8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 28/58] fix: CuckooSearch repaired whole populations, which
 most repair functions do not support

---
 src/niapy/algorithms/basic/cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..6b3d854 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
-- 
2.43.0


From e536ae7dc6cf54693fa1f1f2b8064c517a2ee8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:39 +0000
Subject: [PATCH 29/58] fix: SHADE family and jDE passed a method instead of
 the random generator to repair

---
 src/niapy/algorithms/modified/ilshade.py | 2 +-
 src/niapy/algorithms/modified/jde.py     | 2 +-
 src/niapy/algorithms/modified/shade.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From 26cdb35de18d8a04628883fc901de8ddcfb432da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 30/58] fix: repairs drew from operating system entropy instead
 of the algorithm's random generator

---
 src/niapy/algorithms/basic/ba.py      |  2 +-
 src/niapy/algorithms/basic/bea.py     |  2 +-
 src/niapy/algorithms/basic/bfo.py     |  2 +-
 src/niapy/algorithms/basic/es.py      |  2 +-
 src/niapy/algorithms/basic/fa.py      |  2 +-
 src/niapy/algorithms/basic/loa.py     | 14 +++++++-------
 src/niapy/algorithms/modified/plba.py |  2 +-
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..508b607 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -568,7 +568,7 @@ class EvolutionStrategyML(EvolutionStrategyMpL):
 
         """
         cn = objects_to_array(
-            [IndividualES(x=self.mutate_rand(c, task), task=task, rand=self.rng) for _ in range(self.lam)])
+            [IndividualES(x=self.mutate_rand(c, task), task=task, rng=self.rng) for _ in range(self.lam)])
         c = self.new_pop(cn)
         fc = np.asarray([x.f for x in c])
         best_x, best_fitness = self.get_best(c, fc, best_x, best_fitness)
diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..86edbe0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
-- 
2.43.0


From 2a155545a068d6ce5c28d505a9830bce47763303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:50 +0000
Subject: [PATCH 31/58] fix: LionOptimizationAlgorithm divided by the fitness
 of a lion at zero

---
 src/niapy/algorithms/basic/loa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 86edbe0..9c7c190 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -378,7 +378,9 @@ class LionOptimizationAlgorithm(Algorithm):
             lion.x = np.copy(lion.current_x)
             lion.f = lion.current_f
 
-            improvement = 1 - lion.f / lion.previous_iter_best_f
+            improvement = 0.0
+            if lion.previous_iter_best_f != 0 and np.isfinite(lion.previous_iter_best_f):
+                improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
             return task.repair(prey_x, rng=self.rng)
 
-- 
2.43.0


From b205320642972e3da3073498442d6c44898c58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 32/58] fix: SHADE family memory became NaN after improving an
 infinite fitness

---
 src/niapy/algorithms/modified/shade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index d628432..65159ec 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -329,6 +329,10 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
                 success_f = np.append(success_f, vi.differential_weight)
                 success_cr = np.append(success_cr, vi.crossover_probability)
                 arr[i] = vi
+        infinite = np.isinf(fitness_diff)
+        if np.any(infinite):
+            # improvements on an infinite fitness outweigh all the others
+            fitness_diff = infinite.astype(float)
         best_x, best_fitness = self.get_best(arr, np.asarray([ui.f for ui in arr]), best_x, best_fitness)
         return arr, success_f, success_cr, fitness_diff, archive, arc_ind_cnt, best_x, best_fitness
 
-- 
2.43.0


From 27604d897c7ea646afe67966c66af1b7089a5f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 33/58] fix: ABC onlookers never chose a food source when
 fitness was negative or infinite

---
 src/niapy/algorithms/basic/abc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..c37c104 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -122,7 +122,12 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
             numpy.ndarray: Probabilities.
 
         """
-        probs = np.asarray([1.0 / (foods[i].f + 0.01) for i in range(self.food_number)])
+        fitness = np.asarray([foods[i].f for i in range(self.food_number)])
+        finite = np.isfinite(fitness)
+        if not np.any(finite):
+            return np.full(self.food_number, 1.0 / self.food_number)
+        fitness = np.where(finite, fitness, np.amax(fitness[finite]))
+        probs = np.where(finite, 1.0 / (fitness - min(np.amin(fitness), 0.0) + 0.01), 0.0)
         return probs / np.sum(probs)
 
     def init_population(self, task):
-- 
2.43.0


From ab89d4300aaded6d97744ee1facaee50561136b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 34/58] fix: ABC looked forever for the neighbour of its only
 food source

---
 src/niapy/algorithms/basic/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index c37c104..a2eb960 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -200,7 +200,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                 solution = copy.deepcopy(population[s])
                 param2change = int(self.random() * task.dimension)
                 neighbor = int(self.food_number * self.random())
-                while neighbor == s:
+                while neighbor == s and self.food_number > 1:
                     neighbor = int(self.food_number * self.random())
                 solution.x[param2change] = population[s].x[param2change] + self.uniform(-1, 1) * (
                         population[s].x[param2change] - population[neighbor].x[param2change])
-- 
2.43.0


From f8991308472c25cbbf164913f04c6be92807e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 35/58] fix: ABC onlookers replaced the wrong exhausted food
 source

---
 src/niapy/algorithms/basic/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index a2eb960..265d6d1 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -213,10 +213,10 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                         best_fitness = solution.f
                 else:
                     trials[s] += 1
-                    if trials[i] >= self.limit:
-                        population[i], trials[i] = SolutionABC(task=task, rng=self.rng), 0
-                        if population[i].f < best_fitness:
-                            best_x, best_fitness = population[i].x.copy(), population[i].f
+                    if trials[s] >= self.limit:
+                        population[s], trials[s] = SolutionABC(task=task, rng=self.rng), 0
+                        if population[s].f < best_fitness:
+                            best_x, best_fitness = population[s].x.copy(), population[s].f
             s += 1
             if s == self.food_number:
                 s = 0
-- 
2.43.0


From dfbe4680ba41a3099d0315b2af02855453241cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:41 +0000
Subject: [PATCH 36/58] fix: ASO crashed on one dimensional problems

---
 src/niapy/algorithms/other/aso.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/other/aso.py b/src/niapy/algorithms/other/aso.py
index 6c5d83e..b4b9e09 100644
--- a/src/niapy/algorithms/other/aso.py
+++ b/src/niapy/algorithms/other/aso.py
@@ -50,7 +50,7 @@ def _mp_c(x, f, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x), 2, replace=len(x) < 2))
         xn[b[0]:b[1]] = xn[b[0]:b[1]] + f * rng.standard_normal(b[1] - b[0])
     else:
         mask = rng.random(len(x)) < cr
@@ -77,13 +77,13 @@ def _mp_s(x, xr, xb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.25:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x), 2, replace=len(x) < 2))
         xn[b[0]:b[1]] = xb[b[0]:b[1]]
     elif mp < 0.5:
         mask = rng.random(len(x)) < cr
         xn[mask] = xb[mask]
     elif mp < 0.75:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x), 2, replace=len(x) < 2))
         xn[b[0]:b[1]] = xr[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
@@ -109,7 +109,7 @@ def _mp_p(x, xpb, cr, mp, rng):
     """
     xn = x.copy()
     if mp < 0.5:
-        b = np.sort(rng.choice(len(x), 2, replace=False))
+        b = np.sort(rng.choice(len(x), 2, replace=len(x) < 2))
         xn[b[0]:b[1]] = xpb[b[0]:b[1]]
     else:
         mask = rng.random(len(x)) < cr
-- 
2.43.0


From 467078798047bb9f21ae977c2862c4f32d5e6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 37/58] fix: evaluation convergence data had the wrong sign for
 maximization

---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From ec995b8c051b663239b33a651adc95e811dcd471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 38/58] fix: bad_run kept reporting the exception of an earlier
 run

---
 src/niapy/algorithms/algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..c250883 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -305,6 +305,7 @@ class Algorithm:
             * :func:`niapy.algorithms.Algorithm.run_iteration`
 
         """
+        self.exception = None
         try:
             self.callbacks.before_run()
             pop, fpop, params = self.init_population(task)
-- 
2.43.0


From 58f915c093d84ac575faa4cc07a82ed702f03ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 39/58] fix: get_best ignored scalar fitness values of other
 numeric types

---
 src/niapy/algorithms/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index c250883..ff194fa 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -237,9 +237,9 @@ class Algorithm:
 
         """
         ib = np.argmin(population_fitness)
-        if isinstance(population_fitness, (float, int)) and best_fitness >= population_fitness:
+        if np.ndim(population_fitness) == 0 and best_fitness >= population_fitness:
             best_x, best_fitness = population, population_fitness
-        elif isinstance(population_fitness, (np.ndarray, list)) and best_fitness >= population_fitness[ib]:
+        elif np.ndim(population_fitness) > 0 and best_fitness >= population_fitness[ib]:
             best_x, best_fitness = population[ib], population_fitness[ib]
         return (best_x.x.copy() if isinstance(best_x, Individual) else best_x.copy()), best_fitness
 
-- 
2.43.0


From 6361c369901769e0e1fe852e8e4ea48efdcfee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 40/58] fix: concurrent runners raced to create the export
 directory

---
 src/niapy/runner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 0cd3319..b5d2905 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -67,8 +67,7 @@ class Runner:
 
     @classmethod
     def __create_export_dir(cls):
-        if not os.path.exists("export"):
-            os.makedirs("export")
+        os.makedirs("export", exist_ok=True)
 
     @classmethod
     def __generate_export_name(cls, extension):
-- 
2.43.0


From cd8be150ba4c568ea4b10a180d35739e6433cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 41/58] fix: exports overwrote an earlier export made at the
 same clock reading

---
 src/niapy/runner.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index b5d2905..ca28619 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -72,7 +72,16 @@ class Runner:
     @classmethod
     def __generate_export_name(cls, extension):
         Runner.__create_export_dir()
-        return "export/" + str(datetime.datetime.now()).replace(":", ".") + "." + extension
+        base = "export/" + str(datetime.datetime.now()).replace(":", ".")
+        name, n = base + "." + extension, 0
+        while True:
+            try:
+                # reserve the name, the clock alone does not make it unique
+                with open(name, "x"):
+                    return name
+            except FileExistsError:
+                n += 1
+                name = base + "-" + str(n) + "." + extension
 
     def __export_to_dataframe_pickle(self):
         dataframe = pd.DataFrame.from_dict(self.results)
-- 
2.43.0


From aeb496a0dd763b2ee903c50499475fccf2423d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 42/58] fix: BacterialForagingOptimization continued the step
 counters of an earlier run

---
 src/niapy/algorithms/basic/bfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..bf9c04b 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -180,6 +180,7 @@ class BacterialForagingOptimization(Algorithm):
 
         """
         pop, fpop, d = super().init_population(task)
+        self.i = self.j = self.k = 0
         d.update({
             'cost': np.zeros(self.population_size, dtype=np.float64),
             'health': np.zeros(self.population_size, dtype=np.float64)
-- 
2.43.0


From 1f7a900bc6440792c472e27f49e6725b457f89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:35 +0000
Subject: [PATCH 43/58] fix: dynamic fireworks handed out a best solution that
 later iterations overwrote

---
 src/niapy/algorithms/basic/fwa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index f4d0011..5e1e635 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -739,9 +739,9 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         xnb_f = np.apply_along_axis(task.eval, 1, xnb)
         ib_f = np.argmin(xnb_f)
         if xnb_f[ib_f] <= xb_f:
-            xb, xb_f = xnb[ib_f], xnb_f[ib_f]
+            xb, xb_f = xnb[ib_f].copy(), xnb_f[ib_f]
         if xb_f >= xcb_f:
-            xb, xb_f, amplitude_cf = xcb, xcb_f, amplitude_cf * self.amplification_coeff
+            xb, xb_f, amplitude_cf = xcb.copy(), xcb_f, amplitude_cf * self.amplification_coeff
         else:
             amplitude_cf = amplitude_cf * self.reduction_coeff
         return xb, xb_f, amplitude_cf
-- 
2.43.0


From 381ba1ef314b4a46d8c7aa6701f8316d55d1fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:32 +0000
Subject: [PATCH 44/58] fix: LionOptimizationAlgorithm dropped the lions of
 prides without females

---
 src/niapy/algorithms/basic/loa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 9c7c190..6fc79dd 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -637,10 +637,6 @@ class LionOptimizationAlgorithm(Algorithm):
             size = pride_size[pride_i]
             pride = population[idx : idx + size]
             idx += size
-            num_males = gender_distribution[pride_i][0]
-            if num_males == 0:
-                continue
-
             males = [lion for lion in pride if lion.gender == "m"]
 
             females = [lion for lion in pride if lion.gender == "f"]
-- 
2.43.0


From 582d2cdb76cd7cd7d26c20a93a382de3632e79fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 45/58] fix: LionOptimizationAlgorithm lost the best solution
 of a nomad removed for its current position

---
 src/niapy/algorithms/basic/loa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 6fc79dd..955ccb2 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -1043,6 +1043,10 @@ class LionOptimizationAlgorithm(Algorithm):
         lions, excess = self.mating(lions, pride_size, gender_distribution, task)
         lions, excess = self.defense(lions, pride_size, gender_distribution, excess)
         lions, excess = self.migration(lions, pride_size, gender_distribution, excess)
+        # Lions are removed by their current fitness, which may be worse than their best.
+        best_x, best_fitness = self.get_best(
+            lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness
+        )
         lions = self.population_equilibrium(
             lions, pride_size, gender_distribution, excess
         )
-- 
2.43.0


From 6f92975539e5e406e1a0509930c29c0cbf819512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 46/58] fix: CoralReefsOptimization depredated the reef until
 too few corals were left to spawn

---
 src/niapy/algorithms/basic/cro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 9a805d0..c3ce77a 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -272,7 +272,9 @@ class CoralReefsOptimization(Algorithm):
                 2. Best individual fitness/function value
 
         """
-        depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
+        # leave enough corals for the next broadcast spawning
+        num_depredation = max(0, min(self.num_depredation, len(reef) - max(1, self.num_broadcast)))
+        depredation_index = np.argsort(reef_fitness)[::-1][:num_depredation]
         return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
-- 
2.43.0


From 965112cadbc28289a36690b2a2c60c2f4e3d3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:41 +0000
Subject: [PATCH 47/58] fix: HarrisHawksOptimization lost a dive that was the
 last evaluation

---
 src/niapy/algorithms/basic/hho.py | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 581535b..b3eae31 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -93,6 +93,27 @@ class HarrisHawksOptimization(Algorithm):
         })
         return d
 
+    @staticmethod
+    def dive(x, x_fitness, cand1, cand2, task):
+        r"""Move to the first of the two candidates that is better than the current position.
+
+        Args:
+            x (numpy.ndarray): Current position.
+            x_fitness (float): Fitness of the current position.
+            cand1 (numpy.ndarray): First candidate.
+            cand2 (numpy.ndarray): Second candidate.
+            task (Task): Optimization task.
+
+        Returns:
+            Tuple[numpy.ndarray, float]: New position and its fitness.
+
+        """
+        for cand in (cand1, cand2):
+            cand_fitness = task.eval(cand)
+            if cand_fitness < x_fitness:
+                return cand, cand_fitness
+        return x, x_fitness
+
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Harris Hawks Optimization.
 
@@ -148,20 +169,16 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                population[i], population_fitness[i] = self.dive(population[i], population_fitness[i], cand1, cand2, task)
+                continue
             elif escaping_energy_abs < 0.5 and random_number < 0.5:
                 # 5. Exploitation: Hard besiege with progressive rapid dives
                 cand1 = task.repair(best_x - escaping_energy * np.abs(jumping_energy * best_x - mean_sol), rng=self.rng)
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                population[i], population_fitness[i] = self.dive(population[i], population_fitness[i], cand1, cand2, task)
+                continue
             # Repair agent (from population) values
             population[i] = task.repair(population[i], rng=self.rng)
             # Eval population
-- 
2.43.0


From c31b386c380ae6c5206ccfaef007768b59f4db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 48/58] fix: CoralReefsOptimization depredated the reef until
 no coral was left for brooding

---
 src/niapy/algorithms/basic/cro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index c3ce77a..64ac620 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -272,8 +272,8 @@ class CoralReefsOptimization(Algorithm):
                 2. Best individual fitness/function value
 
         """
-        # leave enough corals for the next broadcast spawning
-        num_depredation = max(0, min(self.num_depredation, len(reef) - max(1, self.num_broadcast)))
+        # leave enough corals for the next broadcast spawning and at least one for brooding
+        num_depredation = max(0, min(self.num_depredation, len(reef) - self.num_broadcast - 1))
         depredation_index = np.argsort(reef_fitness)[::-1][:num_depredation]
         return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
-- 
2.43.0


From ec4fb410ef6a12b45a6e26a53a5646a06efa4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 49/58] fix: MultipleTrajectorySearchV1.set_parameters ignored
 its arguments

---
 src/niapy/algorithms/other/mts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 6ca3920..13bbc8f 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -656,4 +656,7 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches,
+                               num_searches_best=0, num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2,
+                               local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From d559b09773bee7f0c4e1d8d993e1f3cb83255f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 50/58] fix: CoralReefsOptimization.set_parameters always
 raised TypeError

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 64ac620..ffb55d3 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
-- 
2.43.0


From 24d69df54fb85bf1661ba123669c1b62124c9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 51/58] fix: EvolutionStrategyMp1.set_parameters always raised
 TypeError

---
 src/niapy/algorithms/basic/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 508b607..c17a493 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From b538269bac657e313a50e998f0cc18810ec3df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 52/58] fix: a repeated Runner.run kept results of algorithms
 it no longer runs and changed the dictionary returned before

---
 src/niapy/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index ca28619..3dab2ea 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -112,6 +112,7 @@ class Runner:
             TypeError: Raises TypeError if export type is not supported
 
         """
+        self.results = {}
         for alg in self.algorithms:
             if not isinstance(alg, "".__class__):
                 alg_name = str(type(alg).__name__)
-- 
2.43.0


From 02e695e6fd716a3c5874112deb0d6e9764a2fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 53/58] fix: harmony search kept the harmony it had before
 repair when the repair function returns a new array

---
 src/niapy/algorithms/basic/hs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 41d1834..02e5617 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -162,8 +162,8 @@ class HarmonySearch(Algorithm):
                 5. Additional arguments.
 
         """
-        harmony = self.improvise(population, task)
-        harmony_fitness = task.eval(task.repair(harmony, self.rng))
+        harmony = task.repair(self.improvise(population, task), self.rng)
+        harmony_fitness = task.eval(harmony)
         iw = np.argmax(population_fitness)
         if harmony_fitness <= population_fitness[iw]:
             population[iw], population_fitness[iw] = harmony, harmony_fitness
-- 
2.43.0


From 4355612bdea4e0a04bb08427dcd84e65ea209d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 54/58] fix: MTS searched around the best solution in the array
 it had handed out

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 13bbc8f..5f7d790 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -568,7 +568,7 @@ class MultipleTrajectorySearch(Algorithm):
             population[i], population_fitness[i], best_x, best_fitness, improve[i], search_range[i], grades[i] = self.run_local_search(k, population[i], population_fitness[i], best_x, best_fitness, improve[i],
                                                                                                                                        search_range[i], grades[i], task)
         for _ in range(self.num_searches_best):
-            _, _, best_x, best_fitness, _, _, _ = mts_ls1(best_x, best_fitness, best_x, best_fitness, False, task.range.copy() / 10, task,
+            _, _, best_x, best_fitness, _, _, _ = mts_ls1(best_x.copy(), best_fitness, best_x, best_fitness, False, task.range.copy() / 10, task,
                                                           rng=self.rng)
         enable[np.argsort(grades)[:self.num_enabled]] = True
         return population, population_fitness, best_x, best_fitness, {'enable': enable, 'improve': improve, 'search_range': search_range, 'grades': grades}
-- 
2.43.0


From 438d56e1e0d07307c09796adb58759c14778af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 55/58] fix: a zero fitness was negative zero when maximising
 and could steer the search differently

---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index ee89779..c6589b4 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -142,7 +142,7 @@ class Task:
             return np.inf
 
         self.evals += 1
-        x_f = self.problem.evaluate(x) * self.optimization_type.value
+        x_f = self.problem.evaluate(x) * self.optimization_type.value + 0.0  # zero has no sign in either direction
 
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
-- 
2.43.0


From 83d0c9772839ee8b6aee4e77ec39b446d90bd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 56/58] fix: OVCPSO swapped its first velocity limits and
 failed with the repair function rand

---
 src/niapy/algorithms/basic/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..e5f8b1f 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -488,8 +488,8 @@ class OppositionVelocityClampingParticleSwarmOptimization(ParticleSwarmAlgorithm
         pop, fpop, _, _ = self.opposite_learning(s_l, s_h, pop, fpop, task)
         pb_indices = np.where(fpop < d['personal_best_fitness'])
         d['personal_best'][pb_indices], d['personal_best_fitness'][pb_indices] = pop[pb_indices], fpop[pb_indices]
-        d['min_velocity'], d['max_velocity'] = self.sigma * (task.upper - task.lower), self.sigma * (
-                task.lower - task.upper)
+        d['min_velocity'], d['max_velocity'] = self.sigma * (task.lower - task.upper), self.sigma * (
+                task.upper - task.lower)
         d.update({'s_l': s_l, 's_h': s_h})
         return pop, fpop, d
 
-- 
2.43.0


From 56c80e41497c3a83d84c148ae37048a21430ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:36 +0000
Subject: [PATCH 57/58] fix: SimulatedAnnealing failed with a division by zero
 when its temperature reached zero

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..9df7a96 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -196,7 +196,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or r < np.exp(delta_fit / current_temperature):
+        if delta_fit < 0 or r < np.exp(np.divide(delta_fit, current_temperature)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From f2e171e097d748d9036de8f3576c97874c556eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:22 +0000
Subject: [PATCH 58/58] fix: particle swarms repaired velocities with a
 generator seeded by the operating system

---
 src/niapy/algorithms/basic/pso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index e5f8b1f..4b8ba49 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -207,7 +207,7 @@ class ParticleSwarmAlgorithm(Algorithm):
         """
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) + self.c2 * self.random(task.dimension) * (gb - p),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of Particle Swarm Optimization algorithm.
@@ -937,7 +937,7 @@ class MutatedCenterUnifiedParticleSwarmOptimization(MutatedCenterParticleSwarmOp
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) * r3 + self.c2 * self.random(task.dimension) * (
                         gb - p) * (1 - r3),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
 
 class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
@@ -1096,7 +1096,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             numpy.ndarray: Updated velocity of particle.
 
         """
-        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity)
+        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of algorithm.
-- 
2.43.0

