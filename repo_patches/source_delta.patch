From c7437fd09f28e092ec5e5984c5ea90d178b950e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 01/99] fix: record best fitness in the problem's sense on the
 evaluations axis

Task.eval appended the sign-flipped internal value to fitness_evals, so
convergence_data('evals') of a maximization run reported negated values
while convergence_data('iters') reported the real ones.
---
 src/niapy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/task.py b/src/niapy/task.py
index d3ed498..ee89779 100644
--- a/src/niapy/task.py
+++ b/src/niapy/task.py
@@ -147,7 +147,7 @@ class Task:
         if x_f < self.x_f * self.optimization_type.value:
             self.x_f = x_f * self.optimization_type.value
             self.n_evals.append(self.evals)
-            self.fitness_evals.append(x_f)
+            self.fitness_evals.append(self.x_f)
             if self.enable_logging:
                 logger.info('evals:%d => %s' % (self.evals, self.x_f))
         return x_f
-- 
2.43.0


From abb66aea8e87e35eb9d34614ea6eaa88d486a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 02/99] fix: keep the fitness value when copying an Individual

Individual.__init__ ignores the f keyword, so copy() returned an
individual with f = inf.
---
 src/niapy/algorithms/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index f1a7f97..122fd57 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -408,7 +408,9 @@ class Individual:
             Individual: Copy of self.
 
         """
-        return Individual(x=self.x.copy(), e=False, f=self.f)
+        individual = Individual(x=self.x.copy(), e=False)
+        individual.f = self.f
+        return individual
 
     def __eq__(self, other):
         r"""Compare the individuals for equalities.
-- 
2.43.0


From e470cccab3bb49de8d750b65c86d79e8608f4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 03/99] fix: an unevaluated Individual is never better than an
 evaluated one

Fitness of individuals is kept in the internal minimization sense, so the
initial -inf on maximization tasks made unevaluated individuals look like
the best possible ones.
---
 src/niapy/algorithms/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index 122fd57..5a2f592 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -360,7 +360,7 @@ class Individual:
             e (Optional[bool]): True to evaluate the individual on initialization. Default value is True.
 
         """
-        self.f = task.optimization_type.value * np.inf if task is not None else np.inf
+        self.f = np.inf
         if x is not None:
             self.x = x if isinstance(x, np.ndarray) else np.asarray(x)
         elif task is not None:
-- 
2.43.0


From c353bf162acc776233316ee11e855ec3781f876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 04/99] fix: BatAlgorithm local search repairs with its own
 generator

Without rng a randomised repair is seeded from the OS, so seeded runs differ.
---
 src/niapy/algorithms/basic/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 76ce334..4657136 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -162,7 +162,7 @@ class BatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness)
+        return task.repair(best + 0.1 * self.standard_normal(task.dimension) * loudness, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bat Algorithm.
-- 
2.43.0


From 1f9486094df30ae8e41637f128e1161428c53f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 05/99] fix: ParameterFreeBatAlgorithm local search repairs
 with its own generator

---
 src/niapy/algorithms/modified/plba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/plba.py b/src/niapy/algorithms/modified/plba.py
index 8c65ec9..793d5d9 100644
--- a/src/niapy/algorithms/modified/plba.py
+++ b/src/niapy/algorithms/modified/plba.py
@@ -104,7 +104,7 @@ class ParameterFreeBatAlgorithm(Algorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension))
+        return task.repair(best + 0.001 * self.normal(0, 1, task.dimension), rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Parameter-free Bat Algorithm.
-- 
2.43.0


From 56e7b028a125880047e51426a45527af405ded6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 06/99] fix: FireflyAlgorithm repairs with its own generator

---
 src/niapy/algorithms/basic/fa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fa.py b/src/niapy/algorithms/basic/fa.py
index b488d80..0c7d705 100644
--- a/src/niapy/algorithms/basic/fa.py
+++ b/src/niapy/algorithms/basic/fa.py
@@ -168,7 +168,7 @@ class FireflyAlgorithm(Algorithm):
                     beta = self.beta0 * np.exp(-self.gamma * r ** 2)
                     steps = alpha * (self.random(task.dimension) - 0.5) * task.range
                     population[i] += beta * (population[j] - population[i]) + steps
-                    population[i] = task.repair(population[i])
+                    population[i] = task.repair(population[i], rng=self.rng)
                     population_fitness[i] = task.eval(population[i])
                     best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
 
-- 
2.43.0


From 3535d33448edf5f0bc593f562c2e522e724f39ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 07/99] fix: BeesAlgorithm repairs with its own generator

---
 src/niapy/algorithms/basic/bea.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/bea.py b/src/niapy/algorithms/basic/bea.py
index ba9022d..3325caf 100644
--- a/src/niapy/algorithms/basic/bea.py
+++ b/src/niapy/algorithms/basic/bea.py
@@ -136,7 +136,7 @@ class BeesAlgorithm(Algorithm):
         ind = self.integers(task.dimension)
         y = x.copy()
         y[ind] = x[ind] + self.uniform(-ngh, ngh)
-        y = task.repair(y)
+        y = task.repair(y, rng=self.rng)
         y_fitness = task.eval(y)
         return y, y_fitness
 
-- 
2.43.0


From a87c55390e7cb141cded2751588f09f8e72a6f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 08/99] fix: BacterialForagingOptimization repairs with its own
 generator

---
 src/niapy/algorithms/basic/bfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index 9a17344..cd422bc 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -250,7 +250,7 @@ class BacterialForagingOptimization(Algorithm):
 
             m = 0
             while True:
-                population[i] = task.repair(population[i] + self.step_size * step_direction)
+                population[i] = task.repair(population[i] + self.step_size * step_direction, rng=self.rng)
                 population_fitness[i] = task.eval(population[i])
 
                 if population_fitness[i] < best_fitness:
-- 
2.43.0


From 5ea9d6690a47e6980fda2653b9ffd289b85e6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 09/99] fix: CatSwarmOptimization repairs with its own
 generator

---
 src/niapy/algorithms/basic/cso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 738123f..ca2504c 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -194,7 +194,7 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies[j][to_vary_indexes] += cat_copies[j][to_vary_indexes] * self.srd
             else:
                 cat_copies[j][to_vary_indexes] -= cat_copies[j][to_vary_indexes] * self.srd
-            cat_copies[j] = task.repair(cat_copies[j])
+            cat_copies[j] = task.repair(cat_copies[j], rng=self.rng)
             cat_copies_fs.append(task.eval(cat_copies[j]))
         if self.spc:
             cat_copies.append(cat.copy())
@@ -233,7 +233,7 @@ class CatSwarmOptimization(Algorithm):
         """
         new_velocity = np.clip(velocity + (self.random(len(velocity)) * self.c1 * (xb - cat)),
                                -self.max_velocity, self.max_velocity)
-        cat_new = task.repair(cat + new_velocity)
+        cat_new = task.repair(cat + new_velocity, rng=self.rng)
         return cat_new, task.eval(cat_new), new_velocity
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
-- 
2.43.0


From 6ecfa7f9c4656b5adaf0ba040ca7b48faff420c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:18 +0000
Subject: [PATCH 10/99] fix: LionOptimizationAlgorithm repairs with its own
 generator

---
 src/niapy/algorithms/basic/loa.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 19c621f..86edbe0 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -342,7 +342,7 @@ class LionOptimizationAlgorithm(Algorithm):
         if hunters:
             prey_x /= len(hunters)
 
-        return task.repair(prey_x), group_fitness, hunters
+        return task.repair(prey_x, rng=self.rng), group_fitness, hunters
 
     def _move_opposition(self, lion, prey_x, task):
         for i in range(task.dimension):
@@ -352,7 +352,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif opposite > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], opposite)
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_center(self, lion, prey_x, task):
@@ -362,7 +362,7 @@ class LionOptimizationAlgorithm(Algorithm):
             elif lion.current_x[i] > prey_x[i]:
                 lion.current_x[i] = self.uniform(prey_x[i], lion.current_x[i])
 
-        lion.current_x = task.repair(lion.current_x)
+        lion.current_x = task.repair(lion.current_x, rng=self.rng)
         lion.current_f = task.eval(lion.current_x)
 
     def _move_hunter(self, lion, prey_x, left, right, center, task):
@@ -380,7 +380,7 @@ class LionOptimizationAlgorithm(Algorithm):
 
             improvement = 1 - lion.f / lion.previous_iter_best_f
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
-            return task.repair(prey_x)
+            return task.repair(prey_x, rng=self.rng)
 
         return prey_x
 
@@ -480,7 +480,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     + rnd_u * np.tan(angle) * d * r_two
                 )
 
-                lion.current_x = task.repair(lion.current_x)
+                lion.current_x = task.repair(lion.current_x, rng=self.rng)
                 lion.current_f = task.eval(lion.current_x)
 
                 if lion.current_f < lion.f:
@@ -530,7 +530,7 @@ class LionOptimizationAlgorithm(Algorithm):
                     angle = self.uniform(-np.pi / 6, np.pi / 6)
 
                     lion.current_x += x * d * np.tan(angle)
-                    lion.current_x = task.repair(lion.current_x)
+                    lion.current_x = task.repair(lion.current_x, rng=self.rng)
                     lion.current_f = task.eval(lion.current_x)
 
                     if lion.current_f < lion.f:
@@ -602,7 +602,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.has_improved = True
             cub.gender = gender
 
-            cub.evaluate(task)
+            cub.evaluate(task, rng=self.rng)
             cub.current_x = x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
-- 
2.43.0


From f55ad9db1471303378cefbcb8ab6b38905cc9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 11/99] fix: pass the generator, not the random method, when
 jDE/SHADE/ILSHADE repair

evaluate(task, rng=self.random) raised TypeError with a randomised repair.
---
 src/niapy/algorithms/modified/ilshade.py | 2 +-
 src/niapy/algorithms/modified/jde.py     | 2 +-
 src/niapy/algorithms/modified/shade.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index de3d7b2..0145dff 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -213,7 +213,7 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
diff --git a/src/niapy/algorithms/modified/jde.py b/src/niapy/algorithms/modified/jde.py
index ecd7d95..56092be 100644
--- a/src/niapy/algorithms/modified/jde.py
+++ b/src/niapy/algorithms/modified/jde.py
@@ -174,7 +174,7 @@ class SelfAdaptiveDifferentialEvolution(DifferentialEvolution):
         for i, e in enumerate(new_pop):
             new_pop[i].x = self.strategy(new_pop, i, e.differential_weight, e.crossover_probability, rng=self.rng, x_b=xb)
         for e in new_pop:
-            e.evaluate(task, rng=self.random)
+            e.evaluate(task, rng=self.rng)
         return new_pop
 
 
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index deefd65..d628432 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -279,7 +279,7 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             new_pop[i].x = cross_curr2pbest1(pop, i, xi.differential_weight, xi.crossover_probability, self.rng,
                                              p_num, archive, arc_ind_cnt, task)  # trial vectors are created
         for xi in new_pop:
-            xi.evaluate(task, rng=self.random)
+            xi.evaluate(task, rng=self.rng)
 
         return new_pop
 
-- 
2.43.0


From 4e60492df09165cacffa93ee94573859b985806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 12/99] fix: MonarchButterflyOptimization repairs with its own
 generator

---
 src/niapy/algorithms/basic/mbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 2072c0e..ffdfbbb 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -258,10 +258,10 @@ class MonarchButterflyOptimization(Algorithm):
         elite = np.copy(population[:self.keep])
         max_t = task.max_iters if not np.isinf(task.max_iters) else task.max_evals / self.population_size
         population = np.apply_along_axis(task.repair, 1,
-                                         self.migration_operator(task.dimension, self.np1, self.np2, population))
+                                         self.migration_operator(task.dimension, self.np1, self.np2, population), self.rng)
         population = np.apply_along_axis(task.repair, 1,
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
-                                                                 population, current_best))
+                                                                 population, current_best), self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
         current_best = population[0]
         population[-self.keep:] = elite
-- 
2.43.0


From ccf2d21d94dc971e48a4b2d621ff7c21c1a773ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 13/99] fix: MonarchButterflyOptimization copies the i-th
 component in the adjusting operator

Every component was taken from column 1, which also raised IndexError on
one-dimensional problems.
---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index ffdfbbb..7afe2fd 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -182,7 +182,7 @@ class MonarchButterflyOptimization(Algorithm):
                     butterflies[k2, i] = best[i]
                 else:
                     r4 = self.integers(np2 - 1)
-                    butterflies[k2, i] = pop2[r4, 1]
+                    butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
         return butterflies
-- 
2.43.0


From ac139f3c60d8a8f991932ba26a359e567f0060a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 14/99] fix: MonarchButterflyOptimization keeps the best when
 the budget ends in the second evaluation

The best was taken only after the population is evaluated again, which
yields inf for every butterfly once the evaluations are spent.
---
 src/niapy/algorithms/basic/mbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 7afe2fd..80ffdbe 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -263,6 +263,7 @@ class MonarchButterflyOptimization(Algorithm):
                                          self.adjusting_operator(task.iters, max_t, task.dimension, self.np1, self.np2,
                                                                  population, current_best), self.rng)
         population_fitness, population = self.evaluate_and_sort(task, population)
+        best_x, best_fitness = self.get_best(population, population_fitness, best_x, best_fitness)
         current_best = population[0]
         population[-self.keep:] = elite
         population_fitness, population = self.evaluate_and_sort(task, population)
-- 
2.43.0


From 45d82b672f3cbc8ec68ee02d0f52ccfa061644bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:38 +0000
Subject: [PATCH 15/99] fix: CamelAlgorithm keeps the best camel even if it
 dies in the same iteration

With negative fitness the life cycle can replace the camel that has just
found the best solution before the best is recorded.
---
 src/niapy/algorithms/basic/ca.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/ca.py b/src/niapy/algorithms/basic/ca.py
index e0b0b35..89a7baf 100644
--- a/src/niapy/algorithms/basic/ca.py
+++ b/src/niapy/algorithms/basic/ca.py
@@ -355,6 +355,7 @@ class CamelAlgorithm(Algorithm):
         """
         new_caravan = objects_to_array([self.walk(c, best_x, task) for c in population])
         new_caravan = objects_to_array([self.oasis(c) for c in new_caravan])
+        best_x, best_fitness = self.get_best(new_caravan, np.asarray([c.f for c in new_caravan]), best_x, best_fitness)
         new_caravan = objects_to_array([self.life_cycle(c, task) for c in new_caravan])
         new_caravan_fitness = np.asarray([c.f for c in new_caravan])
         best_x, best_fitness = self.get_best(new_caravan, new_caravan_fitness, best_x, best_fitness)
-- 
2.43.0


From 8c4f9dc7ca26a70010fe8d41a271e91594195409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:54 +0000
Subject: [PATCH 16/99] fix: BacterialForagingOptimization restarts its step
 counters on every run

The counters survived on the instance, so a second run with the same
instance started in the middle of the reproduction schedule.
---
 src/niapy/algorithms/basic/bfo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index cd422bc..b7b3094 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -179,6 +179,7 @@ class BacterialForagingOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.init_population`
 
         """
+        self.i, self.j, self.k = 0, 0, 0
         pop, fpop, d = super().init_population(task)
         d.update({
             'cost': np.zeros(self.population_size, dtype=np.float64),
-- 
2.43.0


From 092a004ed8e056a4c3e84aec264fb6a0622d76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 17/99] fix: MantisSearchAlgorithm does not evaluate its
 initial population twice

The second evaluation overwrote known fitness values with inf when the
budget ended inside it, losing the best solution, and with normalize_space
the returned population was in normalized coordinates although every later
iteration works with real ones.
---
 src/niapy/algorithms/basic/mshoa.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6c35dbf..748fbd5 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -289,15 +289,6 @@ class MantisSearchAlgorithm(Algorithm):
         """
         pop, fpop, d = super().init_population(task)
 
-        # Optional normalization: convert to normalized space if enabled
-        if self.normalize_space:
-            pop = self._normalize_from_real(pop, task.lower, task.upper)
-            # Convert back to real space for initial evaluation
-            pop_real = self._normalize_to_real(pop, task.lower, task.upper)
-            fpop = np.apply_along_axis(task.eval, 1, pop_real)
-        else:
-            fpop = np.apply_along_axis(task.eval, 1, pop)
-
         # Initialize PTI vector: round(1 + 2 * rand) gives values {1, 2, 3}
         pti = np.round(1 + 2 * self.random(self.population_size)).astype(int)
         d['pti'] = pti
-- 
2.43.0


From f6bdf766f5c6cab49cbcf8ac3bd27570f8ed46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 18/99] fix: MantisSearchAlgorithm repairs in the space it
 works in

With normalize_space and without use_reflection the normalized population
was repaired against the bounds of the problem.
---
 src/niapy/algorithms/basic/mshoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 748fbd5..6a34436 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -409,7 +409,7 @@ class MantisSearchAlgorithm(Algorithm):
                 pop_new[i] = self._reflect_repair(pop_new[i], lower_work, upper_work)
         else:
             # Standard repair
-            pop_new = np.apply_along_axis(task.repair, 1, pop_new, rng=self.rng)
+            pop_new = np.apply_along_axis(task.repair_function, 1, pop_new, lower_work, upper_work, rng=self.rng)
 
         # Convert to real space for evaluation if normalization is enabled
         if self.normalize_space:
-- 
2.43.0


From 9c89853638b5f097e6505e62434bdf93a18d4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 19/99] fix: CatSwarmOptimization keeps the best copy found in
 seeking mode

The best copy was only written into a random slot of the population, which
the selected copy of that cat (or a later cat) overwrites before the best
is recorded, so the best evaluated solution could be lost.
---
 src/niapy/algorithms/basic/cso.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index ca2504c..8436bf2 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -176,11 +176,13 @@ class CatSwarmOptimization(Algorithm):
             fxb (float): Current best cat fitness/function value.
 
         Returns:
-            Tuple[numpy.ndarray, float, numpy.ndarray, float]:
+            Tuple[numpy.ndarray, float, numpy.ndarray, numpy.ndarray, numpy.ndarray, float]:
                 1. Updated individual's position
                 2. Updated individual's fitness/function value
-                3. Updated global best position
-                4. Updated global best fitness/function value
+                3. Updated population
+                4. Updated population fitness/function values
+                5. Best copy's position
+                6. Best copy's fitness/function value
 
         """
         cat_copies = []
@@ -209,12 +211,13 @@ class CatSwarmOptimization(Algorithm):
                 cat_copies_select_probs = np.full(len(cat_copies), fb)
             else:
                 cat_copies_select_probs = np.abs(cat_copies_fs - fb) / (worst_fitness - best_fitness)
+        best_copy = cat_copies[np.argmin(cat_copies_fs)]
         if best_fitness < fxb:
             ind = self.integers(self.population_size)
-            pop[ind] = cat_copies[np.where(cat_copies_fs == best_fitness)[0][0]]
+            pop[ind] = best_copy
             fpop[ind] = best_fitness
         sel_index = self.weighted_selection(cat_copies_select_probs)
-        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop
+        return cat_copies[sel_index], cat_copies_fs[sel_index], pop, fpop, best_copy, best_fitness
 
     def tracing_mode(self, task, cat, velocity, xb):
         r"""Tracing mode.
@@ -261,19 +264,21 @@ class CatSwarmOptimization(Algorithm):
         velocities = params.pop('velocities')
 
         pop_copies = population.copy()
+        seek_x, seek_fitness = best_x, best_fitness  # best copy of all the cats in seeking mode
         for k in range(len(pop_copies)):
             if modes[k] == 0:
-                pop_copies[k], population_fitness[k], pop_copies, population_fitness = self.seeking_mode(task,
-                                                                                                         pop_copies[k],
-                                                                                                         population_fitness[k],
-                                                                                                         pop_copies,
-                                                                                                         population_fitness,
-                                                                                                         best_fitness)
+                pop_copies[k], population_fitness[k], pop_copies, population_fitness, copy_x, copy_fitness = \
+                    self.seeking_mode(task, pop_copies[k], population_fitness[k], pop_copies, population_fitness,
+                                      best_fitness)
+                if copy_fitness < seek_fitness:
+                    seek_x, seek_fitness = copy_x.copy(), copy_fitness
             else:  # if cat in tracing mode
                 pop_copies[k], population_fitness[k], velocities[k] = self.tracing_mode(task,
                                                                                         pop_copies[k],
                                                                                         velocities[k],
                                                                                         best_x)
+        if seek_fitness < best_fitness:
+            best_x, best_fitness = seek_x, seek_fitness
         best_index = np.argmin(population_fitness)
         if population_fitness[best_index] < best_fitness:
             best_x, best_fitness = pop_copies[best_index].copy(), population_fitness[best_index]
-- 
2.43.0


From abfd3ffd089c99f3ec43236e01bb3e796c01a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 20/99] fix: HarrisHawksOptimization keeps an improving dive
 when the budget ends

An accepted dive is evaluated again with the rest of the population; if the
evaluations are spent in between, its fitness became inf and the best
evaluated solution was lost.
---
 src/niapy/algorithms/basic/hho.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 581535b..1239c2d 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -115,6 +115,8 @@ class HarrisHawksOptimization(Algorithm):
         # Decreasing energy factor
         decreasing_energy_factor = 2 * (1 - (task.iters + 1) / task.max_iters)
         mean_sol = np.mean(population)
+        # Best candidate of the progressive rapid dives
+        xb_dive, fxb_dive = best_x, best_fitness
         # Update population
         for i in range(self.population_size):
             jumping_energy = self.rng.uniform(0, 2)
@@ -148,25 +150,33 @@ class HarrisHawksOptimization(Algorithm):
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                for cand in (cand1, cand2):
+                    cand_fitness = task.eval(cand)
+                    if cand_fitness < fxb_dive:
+                        xb_dive, fxb_dive = cand.copy(), cand_fitness
+                    if cand_fitness < population_fitness[i]:
+                        population[i] = cand
+                        break
             elif escaping_energy_abs < 0.5 and random_number < 0.5:
                 # 5. Exploitation: Hard besiege with progressive rapid dives
                 cand1 = task.repair(best_x - escaping_energy * np.abs(jumping_energy * best_x - mean_sol), rng=self.rng)
                 random_vector = self.rng.random(task.dimension)
                 cand2 = task.repair(cand1 + random_vector * levy_flight(alpha=self.levy, size=task.dimension, rng=self.rng),
                                     rng=self.rng)
-                if task.eval(cand1) < population_fitness[i]:
-                    population[i] = cand1
-                elif task.eval(cand2) < population_fitness[i]:
-                    population[i] = cand2
+                for cand in (cand1, cand2):
+                    cand_fitness = task.eval(cand)
+                    if cand_fitness < fxb_dive:
+                        xb_dive, fxb_dive = cand.copy(), cand_fitness
+                    if cand_fitness < population_fitness[i]:
+                        population[i] = cand
+                        break
             # Repair agent (from population) values
             population[i] = task.repair(population[i], rng=self.rng)
             # Eval population
             population_fitness[i] = task.eval(population[i])
-        # Get best of population
+        # Get best of dives and population
+        if fxb_dive < best_fitness:
+            best_x, best_fitness = xb_dive, fxb_dive
         best_index = np.argmin(population_fitness)
         xb_cand = population[best_index].copy()
         fxb_cand = population_fitness[best_index].copy()
-- 
2.43.0


From 0b815fb0b133d642a04ef5c15a77761e6597ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:36 +0000
Subject: [PATCH 21/99] fix: LionOptimizationAlgorithm survives a previous best
 fitness of zero

The relative improvement divided by it, raising ZeroDivisionError (or
moving the prey to NaN).
---
 src/niapy/algorithms/basic/loa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 86edbe0..44c0445 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -378,7 +378,8 @@ class LionOptimizationAlgorithm(Algorithm):
             lion.x = np.copy(lion.current_x)
             lion.f = lion.current_f
 
-            improvement = 1 - lion.f / lion.previous_iter_best_f
+            previous_f = lion.previous_iter_best_f
+            improvement = 1 - lion.f / previous_f if previous_f != 0 else 0
             prey_x = prey_x + self.random() * improvement * (prey_x - lion.current_x)
             return task.repair(prey_x, rng=self.rng)
 
-- 
2.43.0


From 2b267649114a24a033706f8179f590b8bdd65c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:51 +0000
Subject: [PATCH 22/99] fix: LionOptimizationAlgorithm keeps the best solution
 of a removed lion

Excess nomads are removed by their current fitness before the best is
recorded, so the lion that found the best solution could vanish with it.
---
 src/niapy/algorithms/basic/loa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 44c0445..51cdb84 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -1044,6 +1044,10 @@ class LionOptimizationAlgorithm(Algorithm):
         lions = self.move_to_safe_place(lions, pride_size, task)
         lions = self.roaming(lions, pride_size, task)
         lions, excess = self.mating(lions, pride_size, gender_distribution, task)
+        # Excess lions are removed below, they may have found the best solution
+        best_x, best_fitness = self.get_best(
+            lions, np.asarray([lion.f for lion in lions]), best_x, best_fitness
+        )
         lions, excess = self.defense(lions, pride_size, gender_distribution, excess)
         lions, excess = self.migration(lions, pride_size, gender_distribution, excess)
         lions = self.population_equilibrium(
-- 
2.43.0


From 252764ea64a0380ddeee1ad60431cde04fa15a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 23/99] fix: LionOptimizationAlgorithm keeps prides that have
 no females

The check meant for males looked at the number of females and dropped the
whole pride from the population while its size was still accounted for.
---
 src/niapy/algorithms/basic/loa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 51cdb84..b106b07 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -636,10 +636,6 @@ class LionOptimizationAlgorithm(Algorithm):
             size = pride_size[pride_i]
             pride = population[idx : idx + size]
             idx += size
-            num_males = gender_distribution[pride_i][0]
-            if num_males == 0:
-                continue
-
             males = [lion for lion in pride if lion.gender == "m"]
 
             females = [lion for lion in pride if lion.gender == "f"]
-- 
2.43.0


From 43366f48942d5f8df98b3dd9de5f3735d79ed522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 24/99] fix: CoralReefsOptimization depredation removes whole
 corals

np.delete without an axis flattened the reef and removed single components.
---
 src/niapy/algorithms/basic/cro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 93c2b92..9a805d0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -273,7 +273,7 @@ class CoralReefsOptimization(Algorithm):
 
         """
         depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
-        return np.delete(reef, depredation_index), np.delete(reef_fitness, depredation_index)
+        return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
         r"""Operator for setting reefs.
-- 
2.43.0


From d9747ad9f86620f9ff1a7dd9415152282bd37d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 25/99] fix: GravitationalSearchAlgorithm survives a population
 of equal fitness

The masses were 0 / 0, so every agent moved to NaN.
---
 src/niapy/algorithms/basic/gsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index fd50dfb..9ea2ab3 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -160,7 +160,10 @@ class GravitationalSearchAlgorithm(Algorithm):
         velocities = params.pop('velocities')
 
         ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
-        m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
+        if population_fitness[ib] == population_fitness[iw]:
+            m = np.ones(len(population_fitness))
+        else:
+            m = (population_fitness - population_fitness[iw]) / (population_fitness[ib] - population_fitness[iw])
         m = m / np.sum(m)
         forces = np.asarray([[self.gravity((task.iters + 1)) * ((m[i] * m[j]) / (euclidean(population[i], population[j]) + self.epsilon)) * (
                 population[j] - population[i]) for j in range(len(m))] for i in range(len(m))])
-- 
2.43.0


From 9f69ecb20514db68f274ecae82e55b232ea74f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 26/99] fix: KrillHerd places the food at the best krill when
 the centre is undefined

The fitness weighted centre is not finite when a fitness is zero or the
inverse fitness values cancel out, and NaN was passed to the objective.
---
 src/niapy/algorithms/basic/kh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index 05915d9..f4970ac 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -349,8 +349,10 @@ class KrillHerd(Algorithm):
                 2. Foods function/fitness value.
 
         """
-        x_food = task.repair(np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness),
-                             rng=self.rng)
+        x_food = np.asarray([np.sum(population[:, i] / population_fitness) for i in range(task.dimension)]) / np.sum(1 / population_fitness)
+        if not np.all(np.isfinite(x_food)):
+            x_food = population[np.argmin(population_fitness)].copy()
+        x_food = task.repair(x_food, rng=self.rng)
         x_food_f = task.eval(x_food)
         return x_food, x_food_f
 
-- 
2.43.0


From 6ed6938806c0dc6d26a47da381b30a5374b66768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 27/99] fix: CuckooSearch repairs every nest on its own

Only the limit repair accepts a whole population; with the other repair
functions the run ended in an IndexError.
---
 src/niapy/algorithms/basic/cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 5828e42..6b3d854 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -96,14 +96,14 @@ class CuckooSearch(Algorithm):
     def get_cuckoos(self, population, best_x, task):
         step_size = levy_flight(self.rng, size=population.shape) * (population - best_x)
         new_population = population + step_size * self.standard_normal(population.shape)
-        return task.repair(new_population, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, new_population, rng=self.rng)
 
     def empty_nests(self, population, task):
         abandoned = self.random(population.shape) > self.pa
         i = self.rng.permutation(self.population_size)
         j = self.rng.permutation(self.population_size)
         step_size = self.random() * (population[i] - population[j])
-        return task.repair(population + step_size * abandoned, rng=self.rng)
+        return np.apply_along_axis(task.repair, 1, population + step_size * abandoned, rng=self.rng)
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of CuckooSearch algorithm.
-- 
2.43.0


From 7b92333a9074c2b89fda8e3c2328ac1d0e282d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 28/99] fix: RandomSearch starts from the candidate it
 evaluates

The last candidate was returned with the fitness of the first one.
---
 src/niapy/algorithms/other/rs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index 0a3fd63..f2ed27a 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -101,7 +101,6 @@ class RandomSearch(Algorithm):
         else:
             total_candidates = 0
         self.candidates = []
-        x = None
         for i in range(total_candidates):
             while True:
                 x = task.lower + task.range * self.random(task.dimension)
@@ -109,7 +108,8 @@ class RandomSearch(Algorithm):
                     self.candidates.append(x)
                     break
 
-        x_fit = task.eval(self.candidates[0])
+        x = self.candidates[0]
+        x_fit = task.eval(x)
         return x, x_fit, {}
 
     def run_iteration(self, task, x, x_fit, best_x, best_fitness, **params):
-- 
2.43.0


From 5b408e2d44cd846ca299407ec5de393e054ba8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 29/99] fix: BareBonesFireworksAlgorithm works with a single
 vector from the start

Until the first improvement the solution had the shape (1, dimension).
---
 src/niapy/algorithms/basic/fwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index be7b7f6..2920efe 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -121,7 +121,7 @@ class BareBonesFireworksAlgorithm(Algorithm):
         """
         x, x_fit, d = super().init_population(task)
         d.update({'amplitude': task.range})
-        return x, x_fit, d
+        return x[0], x_fit[0], d
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Bare Bones Fireworks Algorithm.
-- 
2.43.0


From 4877ec384a3cfbd7458e26d2b8ee369021af7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:20 +0000
Subject: [PATCH 30/99] fix: FireworksAlgorithm selects uniformly when all the
 sparks coincide

The selection probabilities were 0 / 0, which ended the run with an error.
---
 src/niapy/algorithms/basic/fwa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 2920efe..46acbfa 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -363,7 +363,8 @@ class FireworksAlgorithm(Algorithm):
         fitness = np.delete(sparks_fitness, best_index)
 
         distances = np.sum(euclidean(all_sparks[:, np.newaxis, :], all_sparks[np.newaxis, :, :]), axis=0)
-        probabilities = distances / np.sum(distances)
+        total_distance = np.sum(distances)
+        probabilities = distances / total_distance if total_distance > 0 else None
 
         selected_indices = self.rng.choice(len(all_sparks), self.population_size - 1, replace=False, p=probabilities)
 
-- 
2.43.0


From 5748bb5b6188cf476d45ea9bf1cb2d15d9ff0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 31/99] fix: FireworksAlgorithm keeps the best when the budget
 ends in the selection

The fireworks are evaluated again with the sparks; when the evaluations are
spent before the best one is reached, a worse solution was reported.
---
 src/niapy/algorithms/basic/fwa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index 46acbfa..a61efdf 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -424,8 +424,10 @@ class FireworksAlgorithm(Algorithm):
 
         all_sparks = np.concatenate((all_sparks, gaussian_sparks), axis=0)
 
-        population, population_fitness, best_x, best_fitness = self.selection(population, population_fitness,
-                                                                              all_sparks, task)
+        population, population_fitness, spark_x, spark_fitness = self.selection(population, population_fitness,
+                                                                                all_sparks, task)
+        if spark_fitness < best_fitness:
+            best_x, best_fitness = spark_x, spark_fitness
 
         return population, population_fitness, best_x, best_fitness, {}
 
-- 
2.43.0


From dbd27d76bfa968283048e374638eb5641fc521d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 32/99] fix: NelderMeadMethod repairs the points it generates

Reflected, expanded, contracted and shrunk vertices were evaluated (and
returned as the result) outside of the bounds of the problem.
---
 src/niapy/algorithms/other/nmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index b8c7409..fb25515 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -140,25 +140,25 @@ class NelderMeadMethod(Algorithm):
 
         """
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
-        xr = x0 + self.alpha * (x0 - population[-1])
+        xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
         if population_fitness[0] >= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-            xe = x0 + self.gamma * (x0 - population[-1])
+            xe = task.repair(x0 + self.gamma * (x0 - population[-1]), rng=self.rng)
             re = task.eval(xe)
             if re < rs:
                 population[-1], population_fitness[-1] = xe, re
             else:
                 population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
-        xc = x0 + self.rho * (x0 - population[-1])
+        xc = task.repair(x0 + self.rho * (x0 - population[-1]), rng=self.rng)
         rc = task.eval(xc)
         if rc < population_fitness[-1]:
             population[-1], population_fitness[-1] = xc, rc
             return population, population_fitness
-        new_population = population[0] + self.sigma * (population[1:] - population[0])
+        new_population = np.apply_along_axis(task.repair, 1, population[0] + self.sigma * (population[1:] - population[0]), rng=self.rng)
         new_population_fitness = np.apply_along_axis(task.eval, 1, new_population)
         population[1:], population_fitness[1:] = new_population, new_population_fitness
         return population, population_fitness
-- 
2.43.0


From 873e33da9a15491cc41c0c6d99b73696bbbe0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 33/99] fix: NelderMeadMethod builds a simplex of dimension + 1
 vertices

With only dimension vertices the simplex is degenerate, and on
one-dimensional problems the centroid of no vertices is NaN.
---
 src/niapy/algorithms/other/nmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index fb25515..0c9e4be 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -120,7 +120,7 @@ class NelderMeadMethod(Algorithm):
                 2. New initialized population fitness/function values.
 
         """
-        population_size = task.dimension if population_size is None or population_size < task.dimension else population_size
+        population_size = task.dimension + 1 if population_size is None or population_size < task.dimension + 1 else population_size
         population = self.uniform(task.lower, task.upper, (population_size, task.dimension))
         population_fitness = np.apply_along_axis(task.eval, 1, population)
         return population, population_fitness
-- 
2.43.0


From 5d5e124b15c05e7474f4bdd5f951b9f067d7edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 34/99] fix: mts_ls1v1 updates the current fitness when it
 finds a new best

The solution was moved to the new best but kept its old fitness value.
---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b484daa..4b021e3 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -118,6 +118,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
         new_fitness = task.eval(current_x)
         if new_fitness < best_fitness:
             grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+            improve, current_fitness = True, new_fitness
         elif new_fitness == current_fitness:
             current_x[i] = x_old
         elif new_fitness > current_fitness:
@@ -126,6 +127,7 @@ def mts_ls1v1(current_x, current_fitness, best_x, best_fitness, improve, search_
             new_fitness = task.eval(current_x)
             if new_fitness < best_fitness:
                 grade, best_x, best_fitness = grade + bonus1, current_x.copy(), new_fitness
+                improve, current_fitness = True, new_fitness
             elif new_fitness >= current_fitness:
                 current_x[i] = x_old
             else:
-- 
2.43.0


From 1952d9d3bf523eb1876874de434b2ca144bafda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 35/99] fix: mts_ls3 returns a solution that matches its
 fitness

The accepted solution was the work array, which is changed by the later
steps of the search.
---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 4b021e3..e13c266 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -264,7 +264,7 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
                 best_x, best_fitness, grade = x_new.copy(), x_new_fitness, grade + bonus1
             else:
                 grade += bonus2
-            current_x, current_fitness, improve = x_new, x_new_fitness, True
+            current_x, current_fitness, improve = x_new.copy(), x_new_fitness, True
     return current_x, current_fitness, best_x, best_fitness, improve, grade, search_range
 
 
-- 
2.43.0


From 3f9c6390544890c008d68c83eff13ed5295b2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 36/99] fix: MultipleTrajectorySearch grades every local search
 on its own solution

All local searches shared one list (and one array), so they were not graded
from the same starting point and could change each other's results.
---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index e13c266..9ce3a41 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -459,7 +459,7 @@ class MultipleTrajectorySearch(Algorithm):
                 4. Global best solutions fitness/function value.
 
         """
-        ls_grades, new_x = np.zeros(3), [[x, x_f]] * len(self.local_searches)
+        ls_grades, new_x = np.zeros(3), [[x.copy(), x_f] for _ in self.local_searches]
         k = None
         for k in range(len(self.local_searches)):
             for _ in range(self.num_tests):
-- 
2.43.0


From c724a25fb66e546e64bcfca316f7e982ee5adee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 37/99] fix: MultipleTrajectorySearch passes its bonuses to the
 graded searches

The upper case names were swallowed by **kwargs and ignored.
---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 9ce3a41..5b3a67b 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -464,7 +464,7 @@ class MultipleTrajectorySearch(Algorithm):
         for k in range(len(self.local_searches)):
             for _ in range(self.num_tests):
                 new_x[k][0], new_x[k][1], xb, fxb, improve, g, search_range = self.local_searches[k](new_x[k][0], new_x[k][1], xb, fxb, improve, search_range,
-                                                                                                     task, BONUS1=self.bonus1, BONUS2=self.bonus2,
+                                                                                                     task, bonus1=self.bonus1, bonus2=self.bonus2,
                                                                                                      rng=self.rng)
                 ls_grades[k] += g
         xn, xn_f = min(new_x, key=lambda val: val[1])
-- 
2.43.0


From b5d6ecfc196c2fd0b1fe18d429f67b3798e0bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:23 +0000
Subject: [PATCH 38/99] fix: AgingNpDifferentialEvolution survives an undefined
 lifetime

---
 src/niapy/algorithms/basic/de.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 31a0eab..89a0730 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -745,14 +745,16 @@ class AgingNpDifferentialEvolution(DifferentialEvolution):
 
         """
         fpop = np.asarray([x.f for x in pop])
-        x_b, x_w = pop[np.argmin(fpop)], pop[np.argmax(fpop)]
+        x_gb, x_gw = np.min(fpop), np.max(fpop)
         avg = np.mean(fpop[np.isfinite(fpop)])
         new_population = []
         for x in pop:
             x.age += 1
-            lifetime = round(
-                self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=x.f, avg=avg, x_gw=x_w.f, x_gb=x_b.f))
-            if x.age <= lifetime:
+            lifetime = self.age(min_lifetime=self.min_lifetime, max_lifetime=self.max_lifetime, mu=self.mu, x_f=np.float64(x.f), avg=avg,
+                                x_gw=x_gw, x_gb=x_gb)
+            if not np.isfinite(lifetime):
+                lifetime = self.max_lifetime
+            if x.age <= round(lifetime):
                 new_population.append(x)
         if len(new_population) == 0:
             new_population = objects_to_array([self.individual_type(task=task, rng=self.rng, e=True) for _ in range(self.population_size)])
-- 
2.43.0


From 39422c7c3db3523153621af32d0bede50168f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:30 +0000
Subject: [PATCH 39/99] fix: MantisSearchAlgorithm never decodes past the upper
 bound

---
 src/niapy/algorithms/basic/mshoa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mshoa.py b/src/niapy/algorithms/basic/mshoa.py
index 6a34436..25fcc40 100644
--- a/src/niapy/algorithms/basic/mshoa.py
+++ b/src/niapy/algorithms/basic/mshoa.py
@@ -177,7 +177,7 @@ class MantisSearchAlgorithm(Algorithm):
             numpy.ndarray: Position in real search space.
 
         """
-        return lower + (z_normalized + 1.0) * 0.5 * (upper - lower)
+        return np.clip(lower + (z_normalized + 1.0) * 0.5 * (upper - lower), lower, upper)
 
     def _normalize_from_real(self, x_real, lower, upper):
         r"""Convert real search space [lower, upper] to normalized space [-1, 1].
-- 
2.43.0


From 512b4848349b33d5540680d2a0a766496742a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:30 +0000
Subject: [PATCH 40/99] fix: ClonalSelectionAlgorithm never decodes past the
 upper bound

---
 src/niapy/algorithms/basic/clonalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/clonalg.py b/src/niapy/algorithms/basic/clonalg.py
index 7261705..6ea4833 100644
--- a/src/niapy/algorithms/basic/clonalg.py
+++ b/src/niapy/algorithms/basic/clonalg.py
@@ -120,7 +120,7 @@ class ClonalSelectionAlgorithm(Algorithm):
     def decode(self, bitstrings, task):
         bits = np.flip(np.arange(self.bits_per_param))
         z = np.sum(bitstrings * 2 ** bits, axis=-1)
-        return task.lower + task.range * z / (2 ** self.bits_per_param - 1)
+        return np.clip(task.lower + task.range * z / (2 ** self.bits_per_param - 1), task.lower, task.upper)
 
     def evaluate(self, bitstrings, task):
         population = self.decode(bitstrings, task)
-- 
2.43.0


From c6001b4395c061e8dc9791f7f103da649ae3107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:54 +0000
Subject: [PATCH 41/99] fix: reflect never rounds past the upper bound

---
 src/niapy/util/repair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 3c94f03..85b7796 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -94,4 +94,4 @@ def reflect(x, lower, upper, **_kwargs):
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
     ir = np.where(x < lower)
     x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
-    return x
+    return np.clip(x, lower, upper, out=x)
-- 
2.43.0


From 77ea95796b8c6a613f341ac24a3274097969a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 42/99] fix: Alpine1 computes x sin(x) + 0.1 x

---
 src/niapy/problems/alpine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/alpine.py b/src/niapy/problems/alpine.py
index 934ab83..56ccd80 100644
--- a/src/niapy/problems/alpine.py
+++ b/src/niapy/problems/alpine.py
@@ -70,7 +70,7 @@ class Alpine1(Problem):
         return r'''$f(\mathbf{x}) = \sum_{i=1}^{D} \lvert x_i \sin(x_i)+0.1x_i \rvert$'''
 
     def _evaluate(self, x):
-        return np.sum(np.abs(np.sin(x) + 0.1 * x))
+        return np.sum(np.abs(x * np.sin(x) + 0.1 * x))
 
 
 class Alpine2(Problem):
-- 
2.43.0


From 484605713f78509a4f642492545b2efe95448b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 43/99] fix: Discus squares the first component

---
 src/niapy/problems/discus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/discus.py b/src/niapy/problems/discus.py
index e3df6f0..bf7fba8 100644
--- a/src/niapy/problems/discus.py
+++ b/src/niapy/problems/discus.py
@@ -69,4 +69,4 @@ class Discus(Problem):
         return r'''$f(\textbf{x}) = x_1^2 10^6 + \sum_{i=2}^D x_i^2$'''
 
     def _evaluate(self, x):
-        return x[0] * 1000000 + np.sum(np.square(x[1:]))
+        return x[0] ** 2 * 1000000 + np.sum(np.square(x[1:]))
-- 
2.43.0


From 315814ef21cfd5d11dec9e7fda580a325aa9084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 44/99] fix: DixonPrice sums over all the components

---
 src/niapy/problems/dixon_price.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/dixon_price.py b/src/niapy/problems/dixon_price.py
index e9a3888..3c0d6b3 100644
--- a/src/niapy/problems/dixon_price.py
+++ b/src/niapy/problems/dixon_price.py
@@ -69,6 +69,6 @@ class DixonPrice(Problem):
         return r'''$f(\textbf{x}) = (x_1 - 1)^2 + \sum_{i = 2}^D i (2x_i^2 - x_{i - 1})^2$'''
 
     def _evaluate(self, x):
-        indices = np.arange(2, self.dimension)
-        val = np.sum(indices * (2 * x[2:] ** 2 - x[1:self.dimension - 1]) ** 2)
+        indices = np.arange(2, self.dimension + 1)
+        val = np.sum(indices * (2 * x[1:] ** 2 - x[:-1]) ** 2)
         return (x[0] - 1) ** 2 + val
-- 
2.43.0


From f84f571e633b14700ffebede011c1b15a47a588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 45/99] fix: ExpandedGriewankPlusRosenbrock follows its
 definition

---
 src/niapy/problems/griewank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/griewank.py b/src/niapy/problems/griewank.py
index e478a1c..9fd46c3 100644
--- a/src/niapy/problems/griewank.py
+++ b/src/niapy/problems/griewank.py
@@ -138,6 +138,6 @@ class ExpandedGriewankPlusRosenbrock(Problem):
         return r'''$f(\textbf{x}) = h(g(x_D, x_1)) + \sum_{i=2}^D h(g(x_{i - 1}, x_i)) \\ g(x, y) = 100 (x^2 - y)^2 + (x - 1)^2 \\ h(z) = \frac{z^2}{4000} - \cos \left( \frac{z}{\sqrt{1}} \right) + 1$'''
 
     def _evaluate(self, x):
-        x1 = 100.0 * (x[1:] - x[:-1] ** 2.0) ** 2.0 + (1 - x[:-1]) ** 2.0
-        x2 = x1 * x1 / 4000.0 - np.cos(x1 / np.sqrt(np.arange(1, self.dimension)))
+        x1 = 100.0 * (np.roll(x, -1) - x ** 2.0) ** 2.0 + (1 - x) ** 2.0
+        x2 = x1 * x1 / 4000.0 - np.cos(x1) + 1.0
         return np.sum(x2)
-- 
2.43.0


From c9a11e9d819d3a3ffac20bf4692327d8cbd31bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 46/99] fix: Katsuura measures the distance to the nearest
 integer

---
 src/niapy/problems/katsuura.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/katsuura.py b/src/niapy/problems/katsuura.py
index c33afe3..9769dae 100644
--- a/src/niapy/problems/katsuura.py
+++ b/src/niapy/problems/katsuura.py
@@ -69,5 +69,5 @@ class Katsuura(Problem):
     def _evaluate(self, x):
         k = np.atleast_2d(np.arange(1, 33)).T
         i = np.arange(1, self.dimension + 1)
-        inner = np.round(2 ** k * x) * (2.0 ** (-k))
+        inner = np.abs(2.0 ** k * x - np.round(2.0 ** k * x)) * (2.0 ** (-k))
         return np.prod(np.sum(inner, axis=0) * i + 1)
-- 
2.43.0


From ec8d59c5584891219c9fe7096203907f9278b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 47/99] fix: Levy squares the sine of the middle terms

---
 src/niapy/problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/levy.py b/src/niapy/problems/levy.py
index ce98134..3579247 100644
--- a/src/niapy/problems/levy.py
+++ b/src/niapy/problems/levy.py
@@ -72,6 +72,6 @@ class Levy(Problem):
         w = 1 + (x - 1) / 4
         term1 = np.sin(np.pi * w[0]) ** 2
         wi = w[:-1]
-        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1)))
+        term2 = np.sum((wi - 1) ** 2 * (1 + 10 * np.sin(np.pi * wi + 1) ** 2))
         term3 = (w[-1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[-1]) ** 2)
         return term1 + term2 + term3
-- 
2.43.0


From 89912bcc919fb5df3b51099789d1d33d14f93478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 48/99] fix: Perm raises every component to every power

---
 src/niapy/problems/perm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/niapy/problems/perm.py b/src/niapy/problems/perm.py
index 3aeeb46..81bc813 100644
--- a/src/niapy/problems/perm.py
+++ b/src/niapy/problems/perm.py
@@ -70,8 +70,7 @@ class Perm(Problem):
         return r'''$f(\textbf{x}) = \sum_{i = 1}^D \left( \sum_{j = 1}^D (j - \beta) \left( x_j^i - \frac{1}{j^i} \right) \right)^2$'''
 
     def _evaluate(self, x):
-        ii = np.arange(1, self.dimension + 1)
-        jj = np.tile(ii, (self.dimension, 1))
-        x_matrix = np.tile(x, (self.dimension, 1))
-        inner = np.sum((jj + self.beta) * (np.power(x_matrix, ii) - np.power(1.0 / jj, ii)), axis=0)
+        jj = np.arange(1, self.dimension + 1)
+        ii = jj[:, np.newaxis]
+        inner = np.sum((jj + self.beta) * (np.power(x, ii) - np.power(1.0 / jj, ii)), axis=1)
         return np.sum(inner ** 2)
-- 
2.43.0


From cd29581507c417e3091e3631615db04c1f288530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 49/99] fix: ModifiedSchwefel selects its case by the shifted
 component

---
 src/niapy/problems/schwefel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/problems/schwefel.py b/src/niapy/problems/schwefel.py
index 6e59860..fdd593e 100644
--- a/src/niapy/problems/schwefel.py
+++ b/src/niapy/problems/schwefel.py
@@ -262,8 +262,8 @@ class ModifiedSchwefel(Problem):
 
     def _evaluate(self, x):
         xx = x + 420.9687462275036
-        conditions = [x > 500.0, x < -500.0]
-        xx_mod = np.fmod(xx, 500.0)
+        conditions = [xx > 500.0, xx < -500.0]
+        xx_mod = np.fmod(np.abs(xx), 500.0)
         choices = [(500.0 - xx_mod) * np.sin(np.sqrt(np.abs(500.0 - xx_mod))) - (xx - 500.0) ** 2 / (10000 * self.dimension),
                    (xx_mod - 500.0) * np.sin(np.sqrt(np.abs(xx_mod - 500.0))) + (xx - 500.0) ** 2 / (10000 * self.dimension)]
         default = xx * np.sin(np.sqrt(np.abs(xx)))
-- 
2.43.0


From 3e7e3bc956cef9900bce6ca047cd33d0d4526a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 50/99] fix: Elliptic is defined in one dimension

---
 src/niapy/problems/elliptic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/problems/elliptic.py b/src/niapy/problems/elliptic.py
index 843034e..2b76327 100644
--- a/src/niapy/problems/elliptic.py
+++ b/src/niapy/problems/elliptic.py
@@ -70,4 +70,4 @@ class Elliptic(Problem):
 
     def _evaluate(self, x):
         indices = np.arange(self.dimension)
-        return np.sum(1000000.0 ** (indices / (self.dimension - 1)) * x ** 2)
+        return np.sum(1000000.0 ** (indices / max(self.dimension - 1, 1)) * x ** 2)
-- 
2.43.0


From 1a959a3ec8433425048cc9b846aa963ce7f737ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 51/99] fix: set_parameters of CoralReefsOptimization and
 EvolutionStrategyMp1 no longer fails

---
 src/niapy/algorithms/basic/cro.py | 2 +-
 src/niapy/algorithms/basic/es.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 9a805d0..45e44b0 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -197,7 +197,7 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.Algorithm.set_parameters`
 
         """
-        super().set_parameters(self, population_size=population_size, **kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.phi = phi
         self.k = k
         self.crossover_rate = crossover_rate
diff --git a/src/niapy/algorithms/basic/es.py b/src/niapy/algorithms/basic/es.py
index 5696272..f52b01c 100644
--- a/src/niapy/algorithms/basic/es.py
+++ b/src/niapy/algorithms/basic/es.py
@@ -284,7 +284,7 @@ class EvolutionStrategyMp1(EvolutionStrategy1p1):
 
         """
         mu = kwargs.pop('mu', 40)
-        super().set_parameters(self, mu=mu, **kwargs)
+        super().set_parameters(mu=mu, **kwargs)
 
 
 class EvolutionStrategyMpL(EvolutionStrategy1p1):
-- 
2.43.0


From 1070df89a70a3d458e244d346342284d59d3e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 52/99] fix: the factory knows every exported algorithm

---
 src/niapy/util/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/util/factory.py b/src/niapy/util/factory.py
index 8b6f4eb..528dcc4 100644
--- a/src/niapy/util/factory.py
+++ b/src/niapy/util/factory.py
@@ -141,6 +141,7 @@ def _algorithm_options():
         "DynamicFireworksAlgorithmGauss": basic_algorithms.DynamicFireworksAlgorithmGauss,
         "GravitationalSearchAlgorithm": basic_algorithms.GravitationalSearchAlgorithm,
         "MothFlameOptimizer": basic_algorithms.MothFlameOptimizer,
+        "MantisSearchAlgorithm": basic_algorithms.MantisSearchAlgorithm,
         "FishSchoolSearch": basic_algorithms.FishSchoolSearch,
         "CuckooSearch": basic_algorithms.CuckooSearch,
         "CoralReefsOptimization": basic_algorithms.CoralReefsOptimization,
@@ -169,6 +170,7 @@ def _algorithm_options():
         "MultiStrategySelfAdaptiveDifferentialEvolution": modified_algorithms.MultiStrategySelfAdaptiveDifferentialEvolution,
         "SuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.SuccessHistoryAdaptiveDifferentialEvolution,
         "LpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.LpsrSuccessHistoryAdaptiveDifferentialEvolution,
+        "ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution": modified_algorithms.ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution,
         "NelderMeadMethod": other_algorithms.NelderMeadMethod,
         "HillClimbAlgorithm": other_algorithms.HillClimbAlgorithm,
         "SimulatedAnnealing": other_algorithms.SimulatedAnnealing,
-- 
2.43.0


From 42279986b1635d076ee20659e7eb97a9c0d3f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:51 +0000
Subject: [PATCH 53/99] fix: Runner accepts a single algorithm or problem name,
 its defaults

---
 src/niapy/runner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/runner.py b/src/niapy/runner.py
index 0cd3319..958a716 100644
--- a/src/niapy/runner.py
+++ b/src/niapy/runner.py
@@ -49,8 +49,8 @@ class Runner:
         self.dimension = dimension
         self.max_evals = max_evals
         self.runs = runs
-        self.algorithms = algorithms
-        self.problems = problems
+        self.algorithms = [algorithms] if isinstance(algorithms, str) else algorithms
+        self.problems = [problems] if isinstance(problems, str) else problems
         self.results = {}
 
     def task_factory(self, name):
-- 
2.43.0


From de49ca2d00a3f72189dd6450c8208a943cd8616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 54/99] fix: mutated PSO variants survive a swarm at rest

---
 src/niapy/algorithms/basic/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index ae8bce4..6525c58 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -754,7 +754,7 @@ class MutatedParticleSwarmOptimization(ParticleSwarmAlgorithm):
         pop, fpop, xb, fxb, d = ParticleSwarmAlgorithm.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_a = v_a / (np.max(np.abs(v_a)) or 1.0)
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
@@ -865,7 +865,7 @@ class MutatedCenterParticleSwarmOptimization(CenterParticleSwarmOptimization):
         pop, fpop, xb, fxb, d = CenterParticleSwarmOptimization.run_iteration(self, task, pop, fpop, xb, fxb, **params)
         v = d['v']
         v_a = (np.sum(v, axis=0) / len(v))
-        v_a = v_a / np.max(np.abs(v_a))
+        v_a = v_a / (np.max(np.abs(v_a)) or 1.0)
         for _ in range(self.num_mutations):
             g = task.repair(xb + v_a * self.uniform(task.lower, task.upper), self.rng)
             fg = task.eval(g)
-- 
2.43.0


From a143dc42927603f80d21f7bd32a2f1edafcdf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:23 +0000
Subject: [PATCH 55/99] fix: MultipleTrajectorySearch grades any number of
 local searches

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 5b3a67b..b8b0fc8 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -459,7 +459,7 @@ class MultipleTrajectorySearch(Algorithm):
                 4. Global best solutions fitness/function value.
 
         """
-        ls_grades, new_x = np.zeros(3), [[x.copy(), x_f] for _ in self.local_searches]
+        ls_grades, new_x = np.zeros(len(self.local_searches)), [[x.copy(), x_f] for _ in self.local_searches]
         k = None
         for k in range(len(self.local_searches)):
             for _ in range(self.num_tests):
-- 
2.43.0


From f5e1c02b0d5800ba08d3b9a70e6edd18d6aa0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 56/99] fix: keep the center particle inside the bounds
 (rounding of the mean could leave them by an ulp)

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 6525c58..9f7cb0a 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -644,7 +644,7 @@ class CenterParticleSwarmOptimization(ParticleSwarmAlgorithm):
 
         """
         pop, fpop, xb, fxb, d = super().run_iteration(task, pop, fpop, xb, fxb, **params)
-        c = np.sum(pop, axis=0) / len(pop)
+        c = task.repair(np.sum(pop, axis=0) / len(pop), rng=self.rng)
         fc = task.eval(c)
         if fc <= fxb:
             xb, fxb = c, fc
-- 
2.43.0


From 67e26f52fdd053d09a318308d1d4b019fdd49ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 57/99] fix: reflect no longer yields NaN for an empty range
 (velocity limits of a converged OVCPSO swarm)

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 src/niapy/util/repair.py          | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 9f7cb0a..6d22006 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -455,7 +455,7 @@ class OppositionVelocityClampingParticleSwarmOptimization(ParticleSwarmAlgorithm
 
         """
         s_r = s_l + s_h
-        s = np.asarray([s_r - e for e in pop])
+        s = np.asarray([np.clip(s_r - e, s_l, s_h) for e in pop])
         s_f = np.asarray([task.eval(e) for e in s])
         s, s_f = np.concatenate([pop, s]), np.concatenate([fpop, s_f])
         sorted_indices = np.argsort(s_f)
diff --git a/src/niapy/util/repair.py b/src/niapy/util/repair.py
index 85b7796..f73b12e 100644
--- a/src/niapy/util/repair.py
+++ b/src/niapy/util/repair.py
@@ -90,8 +90,7 @@ def reflect(x, lower, upper, **_kwargs):
         numpy.ndarray: Fix solution.
 
     """
-    ir = np.where(x > upper)
-    x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
-    ir = np.where(x < lower)
-    x[ir] = lower[ir] + x[ir] % (upper[ir] - lower[ir])
+    span = upper - lower
+    for ir in (np.where(x > upper), np.where(x < lower)):
+        x[ir] = lower[ir] + np.mod(x[ir], span[ir], out=np.zeros(len(ir[0])), where=span[ir] > 0)
     return np.clip(x, lower, upper, out=x)
-- 
2.43.0


From cd0077d7f320a4ce47b233340003836957b4f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:45 +0000
Subject: [PATCH 58/99] fix: pass the generator of the algorithm to the
 velocity repair of the PSO family

---
 src/niapy/algorithms/basic/pso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 6d22006..8d15ef1 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -207,7 +207,7 @@ class ParticleSwarmAlgorithm(Algorithm):
         """
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) + self.c2 * self.random(task.dimension) * (gb - p),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of Particle Swarm Optimization algorithm.
@@ -937,7 +937,7 @@ class MutatedCenterUnifiedParticleSwarmOptimization(MutatedCenterParticleSwarmOp
         return self.repair(
             w * v + self.c1 * self.random(task.dimension) * (pb - p) * r3 + self.c2 * self.random(task.dimension) * (
                         gb - p) * (1 - r3),
-            min_velocity, max_velocity)
+            min_velocity, max_velocity, rng=self.rng)
 
 
 class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
@@ -1096,7 +1096,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             numpy.ndarray: Updated velocity of particle.
 
         """
-        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity)
+        return self.repair(w * v + self.c * self.random(task.dimension) * (pb - p), min_velocity, max_velocity, rng=self.rng)
 
     def run_iteration(self, task, pop, fpop, xb, fxb, **params):
         r"""Core function of algorithm.
-- 
2.43.0


From 837a59b276f1b47ab41fadf89da20f8a179bd58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 59/99] fix: SimulatedAnnealing does not divide by a
 temperature of exactly zero

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 4e27e5a..0a746b9 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -196,7 +196,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or r < np.exp(delta_fit / current_temperature):
+        if delta_fit < 0 or (current_temperature != 0 and r < np.exp(delta_fit / current_temperature)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From a06d12d218625877d98182e234c2154b03dec14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:12 +0000
Subject: [PATCH 60/99] fix: HybridBatAlgorithm accepts every crossover
 strategy (best solution passed by keyword)

---
 src/niapy/algorithms/modified/hba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/modified/hba.py b/src/niapy/algorithms/modified/hba.py
index c047ba2..6aa15cc 100644
--- a/src/niapy/algorithms/modified/hba.py
+++ b/src/niapy/algorithms/modified/hba.py
@@ -116,4 +116,4 @@ class HybridBatAlgorithm(BatAlgorithm):
             numpy.ndarray: New solution based on global best individual.
 
         """
-        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, self.rng, best), rng=self.rng)
+        return task.repair(self.strategy(population, i, self.differential_weight, self.crossover_probability, rng=self.rng, x_b=best), rng=self.rng)
-- 
2.43.0


From e3fb4c04b63d8dc7db3c5c5a6d6c30522d25c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:37 +0000
Subject: [PATCH 61/99] fix: initial velocity limits of OVCPSO are no longer
 inverted

---
 src/niapy/algorithms/basic/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index 8d15ef1..f281d61 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -488,8 +488,8 @@ class OppositionVelocityClampingParticleSwarmOptimization(ParticleSwarmAlgorithm
         pop, fpop, _, _ = self.opposite_learning(s_l, s_h, pop, fpop, task)
         pb_indices = np.where(fpop < d['personal_best_fitness'])
         d['personal_best'][pb_indices], d['personal_best_fitness'][pb_indices] = pop[pb_indices], fpop[pb_indices]
-        d['min_velocity'], d['max_velocity'] = self.sigma * (task.upper - task.lower), self.sigma * (
-                task.lower - task.upper)
+        d['min_velocity'], d['max_velocity'] = self.sigma * (task.lower - task.upper), self.sigma * (
+                task.upper - task.lower)
         d.update({'s_l': s_l, 's_h': s_h})
         return pop, fpop, d
 
-- 
2.43.0


From fecfe3e15356304c0b0113fb49fe4bd3591eb8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 62/99] fix: set_parameters of MultipleTrajectorySearchV1 no
 longer drops its arguments

---
 src/niapy/algorithms/other/mts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index b8b0fc8..f053d2b 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -655,4 +655,7 @@ class MultipleTrajectorySearchV1(MultipleTrajectorySearch):
 
         """
         kwargs.pop('num_searches_best', None)
-        super().set_parameters(num_searches_best=0, local_searches=(mts_ls1v1, mts_ls2), **kwargs)
+        kwargs.pop('local_searches', None)
+        super().set_parameters(population_size=population_size, num_tests=num_tests, num_searches=num_searches,
+                               num_searches_best=0, num_enabled=num_enabled, bonus1=bonus1, bonus2=bonus2,
+                               local_searches=(mts_ls1v1, mts_ls2), **kwargs)
-- 
2.43.0


From b4980de8959e046ba743ea8b02ae456634ebe232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 63/99] fix: set_parameters has the same defaults as the
 constructor (CS, FSS, BA, FPA)

---
 src/niapy/algorithms/basic/ba.py  | 2 +-
 src/niapy/algorithms/basic/cs.py  | 2 +-
 src/niapy/algorithms/basic/fpa.py | 2 +-
 src/niapy/algorithms/basic/fss.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/ba.py b/src/niapy/algorithms/basic/ba.py
index 4657136..8052791 100644
--- a/src/niapy/algorithms/basic/ba.py
+++ b/src/niapy/algorithms/basic/ba.py
@@ -84,7 +84,7 @@ class BatAlgorithm(Algorithm):
         self.min_frequency = min_frequency
         self.max_frequency = max_frequency
 
-    def set_parameters(self, population_size=20, loudness=1.0, pulse_rate=1.0, alpha=0.97, gamma=0.1, min_frequency=0.0,
+    def set_parameters(self, population_size=40, loudness=1.0, pulse_rate=1.0, alpha=0.97, gamma=0.1, min_frequency=0.0,
                        max_frequency=2.0, **kwargs):
         r"""Set the parameters of the algorithm.
 
diff --git a/src/niapy/algorithms/basic/cs.py b/src/niapy/algorithms/basic/cs.py
index 6b3d854..2a47dd8 100644
--- a/src/niapy/algorithms/basic/cs.py
+++ b/src/niapy/algorithms/basic/cs.py
@@ -71,7 +71,7 @@ class CuckooSearch(Algorithm):
         super().__init__(population_size, *args, **kwargs)
         self.pa = pa
 
-    def set_parameters(self, population_size=50, pa=0.2, **kwargs):
+    def set_parameters(self, population_size=25, pa=0.25, **kwargs):
         r"""Set the arguments of an algorithm.
 
         Args:
diff --git a/src/niapy/algorithms/basic/fpa.py b/src/niapy/algorithms/basic/fpa.py
index 1a34c25..cf4f581 100644
--- a/src/niapy/algorithms/basic/fpa.py
+++ b/src/niapy/algorithms/basic/fpa.py
@@ -70,7 +70,7 @@ class FlowerPollinationAlgorithm(Algorithm):
         super().__init__(population_size, *args, **kwargs)
         self.p = p
 
-    def set_parameters(self, population_size=25, p=0.8, **kwargs):
+    def set_parameters(self, population_size=20, p=0.8, **kwargs):
         r"""Set core parameters of FlowerPollinationAlgorithm algorithm.
 
         Args:
diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index db73791..f88e556 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -115,7 +115,7 @@ class FishSchoolSearch(Algorithm):
         self.w_scale = w_scale
 
     def set_parameters(self, population_size=30, step_individual_init=0.1, step_individual_final=0.0001,
-                       step_volitive_init=0.01, step_volitive_final=0.001, min_w=1.0, w_scale=5000.0, **kwargs):
+                       step_volitive_init=0.01, step_volitive_final=0.001, min_w=1.0, w_scale=500.0, **kwargs):
         r"""Set core arguments of FishSchoolSearch algorithm.
 
         Args:
-- 
2.43.0


From 8c7f9b4440a79c1cc1fbf09ec7778fa4bec5e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:36 +0000
Subject: [PATCH 64/99] fix: the default problem of the command line is Ackley,
 not the abstract Problem

---
 src/niapy/util/argparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/util/argparser.py b/src/niapy/util/argparser.py
index 175dc29..8e0f224 100644
--- a/src/niapy/util/argparser.py
+++ b/src/niapy/util/argparser.py
@@ -20,7 +20,7 @@ __all__ = ['get_argparser', 'get_args', 'get_args_dict']
 
 def _get_problem_names():
     r"""Get problem names."""
-    return problems.__all__
+    return [name for name in problems.__all__ if name != 'Problem']
 
 
 def _optimization_type(x):
@@ -80,7 +80,7 @@ def get_argparser():
     """
     parser, problem_names = ArgumentParser(description='Runner example.'), _get_problem_names()
     parser.add_argument('-a', '--algorithm', dest='algo', default='jDE', type=str)
-    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default=problem_names[0], choices=problem_names, type=str)
+    parser.add_argument('-p', '--problem', dest='problem', nargs='*', default='Ackley', choices=problem_names, type=str)
     parser.add_argument('-d', '--dimension', dest='dimension', default=10, type=int)
     parser.add_argument('--max-evals', dest='max_evals', default=np.inf, type=int)
     parser.add_argument('--max-iters', dest='max_iters', default=np.inf, type=int)
-- 
2.43.0


From 317f43c31737e8fc988a1a2f8ec844670c697e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:32 +0000
Subject: [PATCH 65/99] fix: Algorithm.integers skips a single number and draws
 arrays without the skipped numbers

---
 src/niapy/algorithms/algorithm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index 5a2f592..2256a66 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -218,7 +218,14 @@ class Algorithm:
 
         """
         r = self.rng.integers(low, high, size)
-        return r if skip is None or r not in skip else self.integers(low, high, size, skip)
+        if skip is None:
+            return r
+        skip = [skip] if np.isscalar(skip) else list(skip)
+        skipped = np.isin(r, skip)
+        while np.any(skipped):
+            r = np.where(skipped, self.rng.integers(low, high, size), r)[()]
+            skipped = np.isin(r, skip)
+        return r
 
     @staticmethod
     def get_best(population, population_fitness, best_x=None, best_fitness=np.inf):
-- 
2.43.0


From 97e7cea4aff9a0fa36cced16dd4b5f81d5dddfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:43 +0000
Subject: [PATCH 66/99] fix: genetic crossovers mate with another individual
 and leave the parents alone

---
 src/niapy/algorithms/basic/ga.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/niapy/algorithms/basic/ga.py b/src/niapy/algorithms/basic/ga.py
index feb0ddf..fdf1685 100644
--- a/src/niapy/algorithms/basic/ga.py
+++ b/src/niapy/algorithms/basic/ga.py
@@ -65,10 +65,10 @@ def two_point_crossover(pop, ic, _cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     r = np.sort(rng.choice(len(pop[ic]), 2))
-    x = pop[ic].x
+    x = pop[ic].x.copy()
     x[r[0]:r[1]] = pop[io].x[r[0]:r[1]]
     return np.asarray(x)
 
@@ -87,9 +87,9 @@ def multi_point_crossover(pop, ic, n, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
-    r, x = np.sort(rng.choice(len(pop[ic]), 2 * n)), pop[ic].x
+    r, x = np.sort(rng.choice(len(pop[ic]), 2 * n)), pop[ic].x.copy()
     for i in range(n):
         x[r[2 * i]:r[2 * i + 1]] = pop[io].x[r[2 * i]:r[2 * i + 1]]
     return np.asarray(x)
@@ -109,7 +109,7 @@ def uniform_crossover(pop, ic, cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     j = rng.integers(len(pop[ic]))
     x = [pop[io][i] if rng.random() < cr or i == j else pop[ic][i] for i in range(len(pop[ic]))]
@@ -130,7 +130,7 @@ def crossover_uros(pop, ic, cr, rng):
 
     """
     io = ic
-    while io != ic:
+    while io == ic and len(pop) > 1:
         io = rng.integers(len(pop))
     alpha = cr + (1 + 2 * cr) * rng.random(len(pop[ic]))
     x = alpha * pop[ic] + (1 - alpha) * pop[io]
-- 
2.43.0


From 961292f856ff3603f2abf524292a21c62be1ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 67/99] fix: MultipleTrajectorySearch applies the local search
 with the best test grade, not always the last one

---
 src/niapy/algorithms/other/mts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index f053d2b..58d787d 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -452,15 +452,15 @@ class MultipleTrajectorySearch(Algorithm):
             task (Task): Optimization task.
 
         Returns:
-            Tuple[numpy.ndarray, float, numpy.ndarray, float]:
+            Tuple[numpy.ndarray, float, numpy.ndarray, float, int]:
                 1. New solution.
                 2. New solutions function/fitness value.
                 3. Global best solution.
                 4. Global best solutions fitness/function value.
+                5. Index of the local search with the best grade.
 
         """
         ls_grades, new_x = np.zeros(len(self.local_searches)), [[x.copy(), x_f] for _ in self.local_searches]
-        k = None
         for k in range(len(self.local_searches)):
             for _ in range(self.num_tests):
                 new_x[k][0], new_x[k][1], xb, fxb, improve, g, search_range = self.local_searches[k](new_x[k][0], new_x[k][1], xb, fxb, improve, search_range,
@@ -468,7 +468,7 @@ class MultipleTrajectorySearch(Algorithm):
                                                                                                      rng=self.rng)
                 ls_grades[k] += g
         xn, xn_f = min(new_x, key=lambda val: val[1])
-        return xn, xn_f, xb, fxb, k
+        return xn, xn_f, xb, fxb, np.argmax(ls_grades)
 
     def run_local_search(self, k, x, x_f, xb, fxb, improve, search_range, g, task):
         r"""Run a selected local search.
-- 
2.43.0


From 1d9ea4f80694d7a6fd1e9d764c5b097bf7c8d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 68/99] fix: MultipleTrajectorySearch keeps the solutions with
 the best grades enabled, not the worst

---
 src/niapy/algorithms/other/mts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 58d787d..757b3bf 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -569,7 +569,7 @@ class MultipleTrajectorySearch(Algorithm):
         for _ in range(self.num_searches_best):
             _, _, best_x, best_fitness, _, _, _ = mts_ls1(best_x, best_fitness, best_x, best_fitness, False, task.range.copy() / 10, task,
                                                           rng=self.rng)
-        enable[np.argsort(grades)[:self.num_enabled]] = True
+        enable[np.argsort(-grades)[:self.num_enabled]] = True
         return population, population_fitness, best_x, best_fitness, {'enable': enable, 'improve': improve, 'search_range': search_range, 'grades': grades}
 
 
-- 
2.43.0


From ff6d181b2520ea4a54cd86250742f3e400484cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:54 +0000
Subject: [PATCH 69/99] fix: DE with MTS local searches records the grades of
 the individuals and enables the best graded ones

---
 src/niapy/algorithms/modified/hde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/modified/hde.py b/src/niapy/algorithms/modified/hde.py
index 62f6d20..646b536 100644
--- a/src/niapy/algorithms/modified/hde.py
+++ b/src/niapy/algorithms/modified/hde.py
@@ -128,10 +128,10 @@ class DifferentialEvolutionMTS(DifferentialEvolution, MultipleTrajectorySearch):
         for x in population:
             if not x.enable:
                 continue
-            x.enable, x.grades = False, 0
+            x.enable, x.grade = False, 0
             x.x, x.f, xb, fxb, k = self.grading_run(x.x, x.f, xb, fxb, x.improved, x.search_range, task)
-            x.x, x.f, xb, fxb, x.improved, x.search_range, x.grades = self.run_local_search(k, x.x, x.f, xb, fxb, x.improved, x.search_range, 0, task)
-        for i in population[np.argsort([x.grade for x in population])[:self.num_enabled:]]:
+            x.x, x.f, xb, fxb, x.improved, x.search_range, x.grade = self.run_local_search(k, x.x, x.f, xb, fxb, x.improved, x.search_range, 0, task)
+        for i in population[np.argsort([-x.grade for x in population])[:self.num_enabled:]]:
             i.enable = True
         return population, xb, fxb
 
-- 
2.43.0


From 5252b731eabffc429a2b38e2e3fd848ca8f0f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:46 +0000
Subject: [PATCH 70/99] fix: ArtificialBeeColonyAlgorithm abandons the
 exhausted food source in the onlooker phase, not the last one

---
 src/niapy/algorithms/basic/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2d1ecb8..2f301ca 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -208,10 +208,10 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                         best_fitness = solution.f
                 else:
                     trials[s] += 1
-                    if trials[i] >= self.limit:
-                        population[i], trials[i] = SolutionABC(task=task, rng=self.rng), 0
-                        if population[i].f < best_fitness:
-                            best_x, best_fitness = population[i].x.copy(), population[i].f
+                    if trials[s] >= self.limit:
+                        population[s], trials[s] = SolutionABC(task=task, rng=self.rng), 0
+                        if population[s].f < best_fitness:
+                            best_x, best_fitness = population[s].x.copy(), population[s].f
             s += 1
             if s == self.food_number:
                 s = 0
-- 
2.43.0


From 1ffc44216e3143d3e0150ae410e7b9f6a651e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 71/99] fix: HarmonySearchV1 bandwidth decreases from bw_max to
 bw_min instead of falling below bw_min

---
 src/niapy/algorithms/basic/hs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 41d1834..122ed1f 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -259,4 +259,4 @@ class HarmonySearchV1(HarmonySearch):
             float: New bandwidth.
 
         """
-        return self.bw_min * np.exp(np.log(self.bw_min / self.bw_max) * (task.iters + 1) / task.max_iters)
+        return self.bw_max * np.exp(np.log(self.bw_min / self.bw_max) * (task.iters + 1) / task.max_iters)
-- 
2.43.0


From b90e4356e2de29577b0595b0503dc019fe3cd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 72/99] fix: SimulatedAnnealing accepts worse solutions with
 the Metropolis probability, not always

---
 src/niapy/algorithms/other/sa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/sa.py b/src/niapy/algorithms/other/sa.py
index 0a746b9..a32dba0 100644
--- a/src/niapy/algorithms/other/sa.py
+++ b/src/niapy/algorithms/other/sa.py
@@ -196,7 +196,7 @@ class SimulatedAnnealing(Algorithm):
         c = task.repair(x - self.delta / 2 + self.random(task.dimension) * self.delta, rng=self.rng)
         c_fit = task.eval(c)
         delta_fit, r = c_fit - x_fit, self.random()
-        if delta_fit < 0 or (current_temperature != 0 and r < np.exp(delta_fit / current_temperature)):
+        if delta_fit < 0 or (current_temperature > 0 and r < np.exp(-delta_fit / current_temperature)):
             x, x_fit = c, c_fit
         current_temperature = self.cooling_method(current_temperature, starting_temperature=self.starting_temperature,
                                                   delta_temperature=self.delta_temperature, max_evals=task.max_evals)
-- 
2.43.0


From 93e3a088280140567bd8a35e8a84dcf77892ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 73/99] fix: SineCosineAlgorithm moves its agents, the step
 factor was always zero

---
 src/niapy/algorithms/basic/sca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/sca.py b/src/niapy/algorithms/basic/sca.py
index 50aab39..fe2db77 100644
--- a/src/niapy/algorithms/basic/sca.py
+++ b/src/niapy/algorithms/basic/sca.py
@@ -151,7 +151,7 @@ class SineCosineAlgorithm(Algorithm):
                 5. Additional arguments.
 
         """
-        r1 = self.a - (task.iters + 1) * (self.a / (task.iters + 1))
+        r1 = self.a - (task.iters + 1) * (self.a / task.max_iters)
         r2 = self.uniform(0, 2 * np.pi)
         r3 = self.uniform(self.r_min, self.r_max)
         r4 = self.random()
-- 
2.43.0


From fc6d46608bcb7f782b9e684b2eaaec6140042935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 74/99] fix: GlowwormSwarmOptimization moves a glowworm towards
 a neighbour drawn by its probability

---
 src/niapy/algorithms/basic/gso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gso.py b/src/niapy/algorithms/basic/gso.py
index 772e239..68c95a2 100644
--- a/src/niapy/algorithms/basic/gso.py
+++ b/src/niapy/algorithms/basic/gso.py
@@ -177,7 +177,7 @@ class GlowwormSwarmOptimization(Algorithm):
         """
         r, b_l, b_u = self.random(), 0, 0
         for j in range(self.population_size):
-            b_l, b_u = b_u, b_u + pb[i]
+            b_l, b_u = b_u, b_u + pb[j]
             if b_l < r < b_u:
                 return j
         return self.integers(self.population_size)
-- 
2.43.0


From 88e50381e01cc1c1b8afc7b226b014407bd8f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 75/99] fix: NelderMeadMethod tries the expansion when the
 reflected point is the best

---
 src/niapy/algorithms/other/nmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/other/nmm.py b/src/niapy/algorithms/other/nmm.py
index 0c9e4be..7b99d1b 100644
--- a/src/niapy/algorithms/other/nmm.py
+++ b/src/niapy/algorithms/other/nmm.py
@@ -142,7 +142,7 @@ class NelderMeadMethod(Algorithm):
         x0 = np.sum(population[:-1], axis=0) / (len(population) - 1)
         xr = task.repair(x0 + self.alpha * (x0 - population[-1]), rng=self.rng)
         rs = task.eval(xr)
-        if population_fitness[0] >= rs < population_fitness[-2]:
+        if population_fitness[0] <= rs < population_fitness[-2]:
             population[-1], population_fitness[-1] = xr, rs
             return population, population_fitness
         if rs < population_fitness[0]:
-- 
2.43.0


From ba2d64736d58d31d5dd31b9c16f5d710957d5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 76/99] fix: MonkeyKingEvolutionV3 adds the scaled difference
 of two monkeys to the best one

---
 src/niapy/algorithms/basic/mke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mke.py b/src/niapy/algorithms/basic/mke.py
index 479282c..b2685b7 100644
--- a/src/niapy/algorithms/basic/mke.py
+++ b/src/niapy/algorithms/basic/mke.py
@@ -518,7 +518,7 @@ class MonkeyKingEvolutionV3(MonkeyKingEvolutionV1):
         c = params.pop('c')
 
         x_gb = np.apply_along_axis(task.repair, 1,
-                                   best_x + self.fc * population[self.rng.choice(len(population), c)] - population[self.rng.choice(len(population), c)],
+                                   best_x + self.fc * (population[self.rng.choice(len(population), c)] - population[self.rng.choice(len(population), c)]),
                                    self.rng)
         x_gb_f = np.apply_along_axis(task.eval, 1, x_gb)
         best_x, best_fitness = self.get_best(x_gb, x_gb_f, best_x, best_fitness)
-- 
2.43.0


From 9829c888acc9c66fc7931d5ce966e9e15d469bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 77/99] fix: HarrisHawksOptimization uses the mean hawk, not
 the mean over all coordinates

---
 src/niapy/algorithms/basic/hho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/hho.py b/src/niapy/algorithms/basic/hho.py
index 1239c2d..bb4a123 100644
--- a/src/niapy/algorithms/basic/hho.py
+++ b/src/niapy/algorithms/basic/hho.py
@@ -114,7 +114,7 @@ class HarrisHawksOptimization(Algorithm):
         """
         # Decreasing energy factor
         decreasing_energy_factor = 2 * (1 - (task.iters + 1) / task.max_iters)
-        mean_sol = np.mean(population)
+        mean_sol = np.mean(population, axis=0)
         # Best candidate of the progressive rapid dives
         xb_dive, fxb_dive = best_x, best_fitness
         # Update population
-- 
2.43.0


From 4f8c717bdfe1b0227bb8db9ed0664cc9045ad91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:33 +0000
Subject: [PATCH 78/99] fix: ArtificialBeeColonyAlgorithm neither hangs nor
 fails when the selection probabilities are undefined

---
 src/niapy/algorithms/basic/abc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 2f301ca..7c9056b 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -122,8 +122,12 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
             numpy.ndarray: Probabilities.
 
         """
-        probs = np.asarray([1.0 / (foods[i].f + 0.01) for i in range(self.food_number)])
-        return probs / np.sum(probs)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            probs = 1.0 / (np.asarray([foods[i].f for i in range(self.food_number)], dtype=float) + 0.01)
+            probs = probs / np.sum(probs)
+        if not np.all(np.isfinite(probs)):
+            probs = np.full(self.food_number, 1.0 / self.food_number)
+        return probs
 
     def init_population(self, task):
         r"""Initialize the starting population.
-- 
2.43.0


From 50cd15a078511ed080593074985060dff85b316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:12 +0000
Subject: [PATCH 79/99] fix: GeneticAlgorithm mutates the crossover of the
 selected individuals instead of dropping both

---
 src/niapy/algorithms/basic/ga.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/ga.py b/src/niapy/algorithms/basic/ga.py
index fdf1685..e032d54 100644
--- a/src/niapy/algorithms/basic/ga.py
+++ b/src/niapy/algorithms/basic/ga.py
@@ -359,11 +359,13 @@ class GeneticAlgorithm(Algorithm):
                 5. Additional arguments.
 
         """
-        new_pop = np.empty(self.population_size, dtype=object)
+        selected, crossed, new_pop = (np.empty(self.population_size, dtype=object) for _ in range(3))
         for i in range(self.population_size):
-            ind = self.individual_type(x=self.selection(population, i, self.tournament_size, best_x, self.rng), e=False)
-            ind.x = self.crossover(population, i, self.crossover_rate, self.rng)
-            ind.x = self.mutation(population, i, self.mutation_rate, task, self.rng)
+            selected[i] = self.individual_type(x=self.selection(population, i, self.tournament_size, best_x, self.rng), e=False)
+        for i in range(self.population_size):
+            crossed[i] = self.individual_type(x=self.crossover(selected, i, self.crossover_rate, self.rng), e=False)
+        for i in range(self.population_size):
+            ind = self.individual_type(x=self.mutation(crossed, i, self.mutation_rate, task, self.rng), e=False)
             ind.evaluate(task, rng=self.rng)
             new_pop[i] = ind
             if new_pop[i].f < best_fitness:
-- 
2.43.0


From 1c2c5722e5f868eae12c55e87e79012f67a5edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 80/99] fix: HarmonySearch and MultipleTrajectorySearch keep
 the repaired point when the repair function returns a new array

---
 src/niapy/algorithms/basic/hs.py  | 4 ++--
 src/niapy/algorithms/other/mts.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/hs.py b/src/niapy/algorithms/basic/hs.py
index 122ed1f..1157558 100644
--- a/src/niapy/algorithms/basic/hs.py
+++ b/src/niapy/algorithms/basic/hs.py
@@ -162,8 +162,8 @@ class HarmonySearch(Algorithm):
                 5. Additional arguments.
 
         """
-        harmony = self.improvise(population, task)
-        harmony_fitness = task.eval(task.repair(harmony, self.rng))
+        harmony = task.repair(self.improvise(population, task), self.rng)
+        harmony_fitness = task.eval(harmony)
         iw = np.argmax(population_fitness)
         if harmony_fitness <= population_fitness[iw]:
             population[iw], population_fitness[iw] = harmony, harmony_fitness
diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 757b3bf..8f6d1ca 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -567,7 +567,7 @@ class MultipleTrajectorySearch(Algorithm):
             population[i], population_fitness[i], best_x, best_fitness, improve[i], search_range[i], grades[i] = self.run_local_search(k, population[i], population_fitness[i], best_x, best_fitness, improve[i],
                                                                                                                                        search_range[i], grades[i], task)
         for _ in range(self.num_searches_best):
-            _, _, best_x, best_fitness, _, _, _ = mts_ls1(best_x, best_fitness, best_x, best_fitness, False, task.range.copy() / 10, task,
+            _, _, best_x, best_fitness, _, _, _ = mts_ls1(best_x.copy(), best_fitness, best_x, best_fitness, False, task.range.copy() / 10, task,
                                                           rng=self.rng)
         enable[np.argsort(-grades)[:self.num_enabled]] = True
         return population, population_fitness, best_x, best_fitness, {'enable': enable, 'improve': improve, 'search_range': search_range, 'grades': grades}
-- 
2.43.0


From e0e4e0c7b95a52ed0dc87d8626ffb48968b821bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 81/99] fix: Algorithm.get_best accepts any scalar fitness,
 such as the numpy.float32 an objective may return

---
 src/niapy/algorithms/algorithm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/algorithm.py b/src/niapy/algorithms/algorithm.py
index 2256a66..a71760d 100644
--- a/src/niapy/algorithms/algorithm.py
+++ b/src/niapy/algorithms/algorithm.py
@@ -244,9 +244,10 @@ class Algorithm:
 
         """
         ib = np.argmin(population_fitness)
-        if isinstance(population_fitness, (float, int)) and best_fitness >= population_fitness:
-            best_x, best_fitness = population, population_fitness
-        elif isinstance(population_fitness, (np.ndarray, list)) and best_fitness >= population_fitness[ib]:
+        if np.ndim(population_fitness) == 0:
+            if best_fitness >= population_fitness:
+                best_x, best_fitness = population, population_fitness
+        elif best_fitness >= population_fitness[ib]:
             best_x, best_fitness = population[ib], population_fitness[ib]
         return (best_x.x.copy() if isinstance(best_x, Individual) else best_x.copy()), best_fitness
 
-- 
2.43.0


From 2d19264901f28f282f53502115690f694ed10e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:30 +0000
Subject: [PATCH 82/99] fix: algorithms that weigh by fitness differences
 survive infinite (penalized) objective values

---
 src/niapy/algorithms/basic/fss.py        |  2 +-
 src/niapy/algorithms/basic/fwa.py        | 15 +++++++++++----
 src/niapy/algorithms/basic/gsa.py        |  2 ++
 src/niapy/algorithms/basic/kh.py         |  3 +++
 src/niapy/algorithms/modified/ilshade.py |  2 ++
 src/niapy/algorithms/modified/shade.py   |  2 ++
 src/niapy/util/array.py                  | 18 +++++++++++++++++-
 7 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index f88e556..3ec5467 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -225,7 +225,7 @@ class FishSchoolSearch(Algorithm):
             cost = task.eval(new_pos)
             if cost < fish.f:
                 xb, fxb = self.get_best(new_pos, cost, xb, fxb)
-                fish.delta_cost = abs(cost - fish.f)
+                fish.delta_cost = abs(cost - fish.f) if np.isfinite(fish.f) else 0
                 fish.f = cost
                 fish.delta_pos = new_pos - fish.x
                 fish.x = new_pos
diff --git a/src/niapy/algorithms/basic/fwa.py b/src/niapy/algorithms/basic/fwa.py
index a61efdf..8dfaca7 100644
--- a/src/niapy/algorithms/basic/fwa.py
+++ b/src/niapy/algorithms/basic/fwa.py
@@ -4,6 +4,7 @@ import logging
 import numpy as np
 
 from niapy.algorithms.algorithm import Algorithm
+from niapy.util.array import finite_fitness
 from niapy.util.distances import euclidean
 import niapy.util.repair as repair
 
@@ -268,6 +269,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Number of sparks that for all fireworks.
 
         """
+        population_fitness = finite_fitness(population_fitness)
         worst_fitness = np.amax(population_fitness)
         sparks_num = self.num_sparks * (worst_fitness - population_fitness + self.epsilon)
         sparks_num /= np.sum(worst_fitness - population_fitness) + self.epsilon
@@ -287,6 +289,7 @@ class FireworksAlgorithm(Algorithm):
             numpy.ndarray: Explosion amplitude of sparks.
 
         """
+        population_fitness = finite_fitness(population_fitness)
         best_fitness = np.amin(population_fitness)
         amplitudes = self.max_amplitude * (population_fitness - best_fitness + self.epsilon)
         amplitudes /= np.sum(population_fitness - best_fitness) + self.epsilon
@@ -790,8 +793,10 @@ class DynamicFireworksAlgorithmGauss(EnhancedFireworksAlgorithm):
         sparks_num = self.sparks_num(population_fitness)
         amplitudes = self.explosion_amplitudes(population_fitness)
 
-        cf_sparks_num = self.num_sparks * (np.amax(population_fitness) - best_fitness + self.epsilon) /\
-            (np.sum(np.amax(population_fitness - best_fitness)) + self.epsilon)
+        fitness = finite_fitness(population_fitness)
+        core_fitness = min(best_fitness, np.amax(fitness))
+        cf_sparks_num = self.num_sparks * (np.amax(fitness) - core_fitness + self.epsilon) /\
+            (np.sum(np.amax(fitness - core_fitness)) + self.epsilon)
 
         if cf_sparks_num < self.a * self.num_sparks:
             cf_sparks_num = round(self.a * self.num_sparks)
@@ -898,8 +903,10 @@ class DynamicFireworksAlgorithm(DynamicFireworksAlgorithmGauss):
         sparks_num = self.sparks_num(population_fitness)
         amplitudes = self.explosion_amplitudes(population_fitness)
 
-        cf_sparks_num = self.num_sparks * (np.amax(population_fitness) - best_fitness + self.epsilon) / \
-            (np.sum(np.amax(population_fitness - best_fitness)) + self.epsilon)
+        fitness = finite_fitness(population_fitness)
+        core_fitness = min(best_fitness, np.amax(fitness))
+        cf_sparks_num = self.num_sparks * (np.amax(fitness) - core_fitness + self.epsilon) /\
+            (np.sum(np.amax(fitness - core_fitness)) + self.epsilon)
 
         if cf_sparks_num < self.a * self.num_sparks:
             cf_sparks_num = round(self.a * self.num_sparks)
diff --git a/src/niapy/algorithms/basic/gsa.py b/src/niapy/algorithms/basic/gsa.py
index 9ea2ab3..d157a01 100644
--- a/src/niapy/algorithms/basic/gsa.py
+++ b/src/niapy/algorithms/basic/gsa.py
@@ -4,6 +4,7 @@ import logging
 import numpy as np
 
 from niapy.algorithms.algorithm import Algorithm
+from niapy.util.array import finite_fitness
 from niapy.util.distances import euclidean
 
 __all__ = ['GravitationalSearchAlgorithm']
@@ -159,6 +160,7 @@ class GravitationalSearchAlgorithm(Algorithm):
         """
         velocities = params.pop('velocities')
 
+        population_fitness = finite_fitness(population_fitness)
         ib, iw = np.argmin(population_fitness), np.argmax(population_fitness)
         if population_fitness[ib] == population_fitness[iw]:
             m = np.ones(len(population_fitness))
diff --git a/src/niapy/algorithms/basic/kh.py b/src/niapy/algorithms/basic/kh.py
index f4970ac..48ecd08 100644
--- a/src/niapy/algorithms/basic/kh.py
+++ b/src/niapy/algorithms/basic/kh.py
@@ -5,6 +5,7 @@ import numpy as np
 
 from niapy.algorithms.algorithm import Algorithm
 from niapy.util import full_array, euclidean
+from niapy.util.array import finite_fitness
 
 logging.basicConfig()
 logger = logging.getLogger('niapy.algorithms.basic')
@@ -445,6 +446,8 @@ class KrillHerd(Algorithm):
         x_food, x_food_f = self.get_food_location(population, population_fitness, task)
         if x_food_f < best_fitness:
             best_x, best_fitness = x_food, x_food_f  # noqa: F841
+        population_fitness = finite_fitness(population_fitness)
+        x_food_f = x_food_f if np.isfinite(x_food_f) else population_fitness[ikh_w]
         induced_speed = np.asarray([self.induce_neighbors_motion(i, induced_speed[i], w_neighbor, population, population_fitness, ikh_b, ikh_w, task) for i in range(self.population_size)])
         foraging_speed = np.asarray([self.induce_foraging_motion(i, x_food, x_food_f, foraging_speed[i], w_foraging, population, population_fitness, ikh_b, ikh_w, task) for i in range(self.population_size)])
         diffusion = np.asarray([self.induce_physical_diffusion(task) for _ in range(self.population_size)])
diff --git a/src/niapy/algorithms/modified/ilshade.py b/src/niapy/algorithms/modified/ilshade.py
index 0145dff..2caa5fb 100644
--- a/src/niapy/algorithms/modified/ilshade.py
+++ b/src/niapy/algorithms/modified/ilshade.py
@@ -358,6 +358,8 @@ class ImprovedLpsrSuccessHistoryAdaptiveDifferentialEvolution(SuccessHistoryAdap
             sum_sf = 0
             sum_cr = 0
             diff_sum = np.sum(fit_diff)
+            if not np.isfinite(diff_sum):  # improvements of infinite (penalized) fitness weigh the same
+                fit_diff, diff_sum = np.ones(num_of_success_params), num_of_success_params
             for i in range(num_of_success_params):
                 weight = fit_diff[i] / diff_sum
 
diff --git a/src/niapy/algorithms/modified/shade.py b/src/niapy/algorithms/modified/shade.py
index d628432..6aa9c59 100644
--- a/src/niapy/algorithms/modified/shade.py
+++ b/src/niapy/algorithms/modified/shade.py
@@ -434,6 +434,8 @@ class SuccessHistoryAdaptiveDifferentialEvolution(DifferentialEvolution):
             sum_sf = 0
             sum_cr = 0
             diff_sum = np.sum(fit_diff)
+            if not np.isfinite(diff_sum):  # improvements of infinite (penalized) fitness weigh the same
+                fit_diff, diff_sum = np.ones(num_of_success_params), num_of_success_params
             for i in range(num_of_success_params):
                 weight = fit_diff[i] / diff_sum
 
diff --git a/src/niapy/util/array.py b/src/niapy/util/array.py
index 293814a..427bdb9 100644
--- a/src/niapy/util/array.py
+++ b/src/niapy/util/array.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-__all__ = ['full_array', 'objects_to_array']
+__all__ = ['full_array', 'objects_to_array', 'finite_fitness']
 
 
 def full_array(a, dimension):
@@ -42,3 +42,19 @@ def objects_to_array(objs):
     for i, e in enumerate(objs):
         a[i] = e
     return a
+
+
+def finite_fitness(fitness):
+    r"""Replace infinite (penalized) fitness values with the worst finite one.
+
+    Args:
+        fitness (numpy.ndarray): Fitness values, to be used as weights.
+
+    Returns:
+        numpy.ndarray: The same values with each infinity replaced by the worst finite value (zero if there is none).
+
+    """
+    finite = np.isfinite(fitness)
+    if np.all(finite):
+        return fitness
+    return np.where(finite, fitness, np.max(fitness[finite]) if np.any(finite) else 0.0)
-- 
2.43.0


From 2070fcab88d7ac7f6dcca55c74f8dc1e9d6c17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 83/99] fix: mts_ls3 takes finite steps when the current
 fitness is infinite (penalized)

---
 src/niapy/algorithms/other/mts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/other/mts.py b/src/niapy/algorithms/other/mts.py
index 8f6d1ca..6715d87 100644
--- a/src/niapy/algorithms/other/mts.py
+++ b/src/niapy/algorithms/other/mts.py
@@ -255,6 +255,8 @@ def mts_ls3(current_x, current_fitness, best_x, best_fitness, improve, search_ra
             grade, improve = grade + bonus2, True
         if d3 > 0:
             grade, improve = grade + bonus2, True
+        if not np.isfinite(current_fitness):  # the step cannot follow differences of infinite (penalized) size
+            d1, d2, d3 = 0, 0, 0
         a, b, c = 0.4 + rng.random() * 0.1, 0.1 + rng.random() * 0.2, rng.random()
         x_new[i] += a * (d1 - d2) + b * (d3 - 2 * d1) + c
         x_new = task.repair(x_new, rng)
-- 
2.43.0


From 8315c63308f916dcaedbc2a1a0b83cdfc93514b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 84/99] fix: set_parameters has the same defaults as the
 constructor (DE variants and their MTS hybrids)

---
 src/niapy/algorithms/basic/de.py     | 10 ++++++----
 src/niapy/algorithms/modified/hde.py | 11 +++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/niapy/algorithms/basic/de.py b/src/niapy/algorithms/basic/de.py
index 89a0730..d7b90d1 100644
--- a/src/niapy/algorithms/basic/de.py
+++ b/src/niapy/algorithms/basic/de.py
@@ -477,18 +477,19 @@ class DynNpDifferentialEvolution(DifferentialEvolution):
         self.p_max = p_max
         self.rp = rp
 
-    def set_parameters(self, p_max=50, rp=3, **kwargs):
+    def set_parameters(self, p_max=50, rp=3, population_size=10, **kwargs):
         r"""Set the algorithm parameters.
 
         Args:
             p_max (Optional[int]): Number of population reductions.
             rp (Optional[int]): Small non-negative number which is added to value of generations.
+            population_size (Optional[int]): Population size.
 
         See Also:
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(**kwargs)
+        super().set_parameters(population_size=population_size, **kwargs)
         self.p_max = p_max
         self.rp = rp
 
@@ -914,18 +915,19 @@ class MultiStrategyDifferentialEvolution(DifferentialEvolution):
         super().__init__(population_size, strategy=multi_mutations, *args, **kwargs)
         self.strategies = strategies
 
-    def set_parameters(self, strategies=(cross_rand1, cross_best1, cross_curr2best1, cross_rand2), **kwargs):
+    def set_parameters(self, strategies=(cross_rand1, cross_best1, cross_curr2best1, cross_rand2), population_size=40, **kwargs):
         r"""Set the arguments of the algorithm.
 
         Args:
             strategies (Optional[Iterable[Callable[[numpy.ndarray[Individual], int, Individual, float, float, numpy.random.Generator], numpy.ndarray[Individual]]]]):
                 List of mutation strategies.
+            population_size (Optional[int]): Population size.
 
         See Also:
             * :func:`niapy.algorithms.basic.DifferentialEvolution.set_parameters`
 
         """
-        super().set_parameters(strategy=multi_mutations, **kwargs)
+        super().set_parameters(strategy=multi_mutations, population_size=population_size, **kwargs)
         self.strategies = strategies
 
     def get_parameters(self):
diff --git a/src/niapy/algorithms/modified/hde.py b/src/niapy/algorithms/modified/hde.py
index 646b536..914a35b 100644
--- a/src/niapy/algorithms/modified/hde.py
+++ b/src/niapy/algorithms/modified/hde.py
@@ -95,15 +95,18 @@ class DifferentialEvolutionMTS(DifferentialEvolution, MultipleTrajectorySearch):
         """Initialize DifferentialEvolutionMTS."""
         super().__init__(population_size, individual_type=kwargs.pop('individual_type', MtsIndividual), *args, **kwargs)
 
-    def set_parameters(self, **kwargs):
+    def set_parameters(self, population_size=40, **kwargs):
         r"""Set the algorithm parameters.
 
+        Args:
+            population_size (Optional[int]): Population size.
+
         See Also:
             :func:`niapy.algorithms.basic.de.DifferentialEvolution.set_parameters`
 
         """
-        MultipleTrajectorySearch.set_parameters(self, **kwargs)
-        DifferentialEvolution.set_parameters(self, individual_type=kwargs.pop('individual_type', MtsIndividual),
+        MultipleTrajectorySearch.set_parameters(self, population_size=population_size, **kwargs)
+        DifferentialEvolution.set_parameters(self, population_size=population_size, individual_type=kwargs.pop('individual_type', MtsIndividual),
                                              **kwargs)
 
     def get_parameters(self):
@@ -231,7 +234,7 @@ class DynNpDifferentialEvolutionMTS(DifferentialEvolutionMTS, DynNpDifferentialE
         """Initialize DynNpDifferentialEvolutionMTS."""
         super().__init__(*args, **kwargs)
 
-    def set_parameters(self, p_max=10, rp=3, **kwargs):
+    def set_parameters(self, p_max=50, rp=3, **kwargs):
         r"""Set core parameters or DynNpDifferentialEvolutionMTS algorithm.
 
         Args:
-- 
2.43.0


From 9092ad386d48052ec65abf827d65a2afd05a0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 85/99] fix: RandomSearch draws a new point in its first
 iteration instead of evaluating the starting point again

---
 src/niapy/algorithms/other/rs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/other/rs.py b/src/niapy/algorithms/other/rs.py
index f2ed27a..d8db46d 100644
--- a/src/niapy/algorithms/other/rs.py
+++ b/src/niapy/algorithms/other/rs.py
@@ -95,7 +95,7 @@ class RandomSearch(Algorithm):
 
         """
         if task.max_iters != np.inf:
-            total_candidates = task.max_iters
+            total_candidates = task.max_iters + 1  # the starting point and one per iteration
         elif task.max_evals != np.inf:
             total_candidates = task.max_evals
         else:
@@ -132,7 +132,7 @@ class RandomSearch(Algorithm):
             5. Additional arguments
 
         """
-        current_candidate = task.iters if task.max_iters != np.inf else task.evals
+        current_candidate = task.iters + 1 if task.max_iters != np.inf else task.evals
         x = self.candidates[current_candidate]
         x_fit = task.eval(x)
         best_x, best_fitness = self.get_best(x, x_fit, best_x, best_fitness)
-- 
2.43.0


From 3d035607d6476fc04c11828597b2566b670691eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 86/99] fix: LionOptimizationAlgorithm keeps the repaired
 position of a cub as its current position

---
 src/niapy/algorithms/basic/loa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index b106b07..88e7f8f 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -604,7 +604,7 @@ class LionOptimizationAlgorithm(Algorithm):
             cub.gender = gender
 
             cub.evaluate(task, rng=self.rng)
-            cub.current_x = x.copy()
+            cub.current_x = cub.x.copy()
             cub.current_f = cub.f
             cub.previous_iter_best_f = cub.f + 1
 
-- 
2.43.0


From 2a1b3ce2d2e3886dfd741f1ea4943a9180e25f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 87/99] fix: CLPSO decreases its inertia weight from w0 to w1

---
 src/niapy/algorithms/basic/pso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index f281d61..e8d3aed 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -1137,7 +1137,7 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
         flag = params.pop('flag')
         pc = params.pop('pc')
 
-        w = self.w0 * (self.w0 - self.w1) * (task.iters + 1) / task.max_iters
+        w = self.w0 - (self.w0 - self.w1) * (task.iters + 1) / task.max_iters
         for i in range(len(pop)):
             if flag[i] >= self.m:
                 v[i] = self.update_velocity(v[i], pop[i], personal_best[i], xb, 1, min_velocity, max_velocity, task)
-- 
2.43.0


From f2e4a6ce9fd9a71ade690a27e0eea82f9217a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 88/99] fix: MonarchButterflyOptimization keeps the best
 butterfly of the initial population

---
 src/niapy/algorithms/basic/mbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index 80ffdbe..d98ff15 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -230,7 +230,7 @@ class MonarchButterflyOptimization(Algorithm):
         sorted_indices = np.argsort(fitness)
         population = population[sorted_indices]
         fitness = fitness[sorted_indices]
-        return population, fitness, {'current_best': population[0]}
+        return population, fitness, {'current_best': population[0].copy()}
 
     def run_iteration(self, task, population, population_fitness, best_x, best_fitness, **params):
         r"""Core function of Forest Optimization Algorithm.
-- 
2.43.0


From 42c206c06294d5dd9651d0feaf3b1cd934f1fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 89/99] fix: MonarchButterflyOptimization chooses among all
 butterflies of a land

---
 src/niapy/algorithms/basic/mbo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/mbo.py b/src/niapy/algorithms/basic/mbo.py
index d98ff15..8fbeae7 100644
--- a/src/niapy/algorithms/basic/mbo.py
+++ b/src/niapy/algorithms/basic/mbo.py
@@ -149,10 +149,10 @@ class MonarchButterflyOptimization(Algorithm):
             for i in range(dimension):
                 r1 = self.random() * self.period
                 if r1 <= self.partition:
-                    r2 = self.integers(np1 - 1)
+                    r2 = self.integers(np1)
                     butterflies[k1, i] = pop1[r2, i]
                 else:
-                    r3 = self.integers(np2 - 1)
+                    r3 = self.integers(np2)
                     butterflies[k1, i] = pop2[r3, i]
         return butterflies
 
@@ -181,7 +181,7 @@ class MonarchButterflyOptimization(Algorithm):
                 if self.uniform(0.0, 1.0) >= self.partition:
                     butterflies[k2, i] = best[i]
                 else:
-                    r4 = self.integers(np2 - 1)
+                    r4 = self.integers(np2)
                     butterflies[k2, i] = pop2[r4, i]
                     if self.uniform(0.0, 1.0) > self.bar:
                         butterflies[k2, i] += scale * (delta_x[i] - 0.5)
-- 
2.43.0


From 8498291f6c887fb08f2f0fc243f7a0f63c0b4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 90/99] fix: LionOptimizationAlgorithm with no nomads does not
 take the whole population for nomads

---
 src/niapy/algorithms/basic/loa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index 88e7f8f..b279d0d 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -659,7 +659,7 @@ class LionOptimizationAlgorithm(Algorithm):
             new_population.extend(pride_cubs)
 
         nomad_size = pride_size[-1]
-        nomads = population[-nomad_size:]
+        nomads = population[len(population) - nomad_size:]
 
         nomad_males = [lion for lion in nomads if lion.gender == "m"]
         nomad_females = [lion for lion in nomads if lion.gender == "f"]
@@ -726,7 +726,7 @@ class LionOptimizationAlgorithm(Algorithm):
         moved_population.extend(original_pride_lions)
 
         original_nomads_size = pride_size[-1]
-        moved_population.extend(population[-original_nomads_size:])
+        moved_population.extend(population[len(population) - original_nomads_size:])
 
         for lion in new_nomads:
             excess[lion.pride][1] -= 1
@@ -743,7 +743,7 @@ class LionOptimizationAlgorithm(Algorithm):
             moved_population.append(lion)
 
         nomads_size = pride_size[-1]
-        nomads = moved_population[-nomads_size:]
+        nomads = moved_population[len(moved_population) - nomads_size:]
 
         for nomad in nomads:
             attack_mask = self.random(size=num_of_prides) < 0.5
@@ -988,7 +988,7 @@ class LionOptimizationAlgorithm(Algorithm):
         nomad_size = pride_size[-1]
         # Number of males and females that need to be removed.
         remove_females, remove_males = excess[-1]
-        nomads = population[-nomad_size:]
+        nomads = population[len(population) - nomad_size:]
         nomad_males = [nomad for nomad in nomads if nomad.gender == "m"]
         nomad_females = [nomad for nomad in nomads if nomad.gender == "f"]
 
-- 
2.43.0


From ca5abc3c20b4d9750cc69d70aa8b84d7b4aed355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 91/99] fix: LionOptimizationAlgorithm accepts prides without
 lions

---
 src/niapy/algorithms/basic/loa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/niapy/algorithms/basic/loa.py b/src/niapy/algorithms/basic/loa.py
index b279d0d..4a29a0a 100644
--- a/src/niapy/algorithms/basic/loa.py
+++ b/src/niapy/algorithms/basic/loa.py
@@ -435,6 +435,9 @@ class LionOptimizationAlgorithm(Algorithm):
             curr_pride_size = pride_size[pride_idx]
             pride = population[index_counter : index_counter + curr_pride_size]
 
+            if len(pride) == 0:
+                continue
+
             # Build pride territory
             territory = []
             num_of_improvements = 0
-- 
2.43.0


From 17ec37a51b1f2ab87330dc3cd9911b6cb1f4265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 92/99] fix: ArtificialBeeColonyAlgorithm with one food source
 does not loop forever

---
 src/niapy/algorithms/basic/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/abc.py b/src/niapy/algorithms/basic/abc.py
index 7c9056b..b242264 100644
--- a/src/niapy/algorithms/basic/abc.py
+++ b/src/niapy/algorithms/basic/abc.py
@@ -199,7 +199,7 @@ class ArtificialBeeColonyAlgorithm(Algorithm):
                 solution = copy.deepcopy(population[s])
                 param2change = int(self.random() * task.dimension)
                 neighbor = int(self.food_number * self.random())
-                while neighbor == s:
+                while neighbor == s and self.food_number > 1:
                     neighbor = int(self.food_number * self.random())
                 solution.x[param2change] = population[s].x[param2change] + self.uniform(-1, 1) * (
                         population[s].x[param2change] - population[neighbor].x[param2change])
-- 
2.43.0


From f50e1cc86cd1e6c17be2fe49da1e173b032d19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 93/99] fix: CoralReefsOptimization survives when few corals
 settle and accepts reefs without spawners or brooders

---
 src/niapy/algorithms/basic/cro.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/niapy/algorithms/basic/cro.py b/src/niapy/algorithms/basic/cro.py
index 45e44b0..e6dc26c 100644
--- a/src/niapy/algorithms/basic/cro.py
+++ b/src/niapy/algorithms/basic/cro.py
@@ -29,7 +29,7 @@ def default_sexual_crossover(pop, p, task, rng, **_kwargs):
     """
     for i in range(len(pop) // 2):
         pop[i] = np.asarray([pop[i, d] if rng.random() < p else pop[i * 2, d] for d in range(task.dimension)])
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 def default_brooding(pop, p, task, rng, **_kwargs):
@@ -51,7 +51,7 @@ def default_brooding(pop, p, task, rng, **_kwargs):
         pop[i] = task.repair(np.asarray(
             [pop[i, d] if rng.random() < p else task.lower[d] + task.range[d] * rng.random() for d in
              range(task.dimension)]), rng=rng)
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 def move_corals(pop, p, f, task, rng, **_kwargs):
@@ -75,7 +75,7 @@ def move_corals(pop, p, f, task, rng, **_kwargs):
             np.asarray(
                 [pop[i, d] if rng.random() < p else pop[i, d] + f * rng.random() for d in range(task.dimension)]),
             rng=rng)
-    return pop, np.apply_along_axis(task.eval, 1, pop)
+    return pop, np.asarray([task.eval(x) for x in pop])
 
 
 class CoralReefsOptimization(Algorithm):
@@ -252,6 +252,8 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.basic.default_brooding`
 
         """
+        if self.num_asexual_reproduction == 0:
+            return reef, reef_fitness, best_x, best_fitness
         brooding_indices = np.argsort(reef_fitness)[:self.num_asexual_reproduction]
         new_reef, new_reef_fitness = self.brooding(reef[brooding_indices], self.mutation_rate, task, rng=self.rng)
         best_x, best_fitness = self.get_best(new_reef, new_reef_fitness, best_x, best_fitness)
@@ -272,7 +274,7 @@ class CoralReefsOptimization(Algorithm):
                 2. Best individual fitness/function value
 
         """
-        depredation_index = np.argsort(reef_fitness)[::-1][:self.num_depredation]
+        depredation_index = np.argsort(reef_fitness)[1:][::-1][:self.num_depredation]
         return np.delete(reef, depredation_index, axis=0), np.delete(reef_fitness, depredation_index)
 
     def settling(self, reef, reef_fitness, new_reef, new_reef_fitness, best_x, best_fitness, task):
@@ -339,22 +341,24 @@ class CoralReefsOptimization(Algorithm):
             * :func:`niapy.algorithms.basic.CoralReefsOptimization.brooding`
 
         """
-        broadcast_index = self.rng.choice(len(population), size=self.num_broadcast, replace=False)
+        num_broadcast = min(self.num_broadcast, len(population))
+        broadcast_index = self.rng.choice(len(population), size=num_broadcast, replace=False)
         reef_broadcast, reef_broadcast_fitness = self.sexual_crossover(population[broadcast_index],
                                                                        self.crossover_rate,
                                                                        task,
                                                                        rng=self.rng)
-        best_x, best_fitness = self.get_best(reef_broadcast, reef_broadcast_fitness, best_x, best_fitness)
         reef_brooding, reef_brooding_fitness = self.brooding(np.delete(population, broadcast_index, 0),
                                                              self.mutation_rate,
                                                              task,
                                                              rng=self.rng)
-        best_x, best_fitness = self.get_best(reef_brooding, reef_brooding_fitness, best_x, best_fitness)
+        larvae = np.append(reef_broadcast, reef_brooding, 0)
+        larvae_fitness = np.append(reef_broadcast_fitness, reef_brooding_fitness, 0)
+        best_x, best_fitness = self.get_best(larvae, larvae_fitness, best_x, best_fitness)
         new_reef, new_reef_fitness, best_x, best_fitness = self.settling(population,
                                                                          population_fitness,
-                                                                         np.append(reef_broadcast, reef_brooding, 0),
-                                                                         np.append(reef_broadcast_fitness,
-                                                                                   reef_brooding_fitness, 0), best_x,
+                                                                         larvae,
+                                                                         larvae_fitness,
+                                                                         best_x,
                                                                          best_fitness,
                                                                          task)
         population, population_fitness, best_x, best_fitness = self.asexual_reproduction(new_reef,
-- 
2.43.0


From f5f52a9b7b26165dafbe65f289349446b69f93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:19 +0000
Subject: [PATCH 94/99] fix: BacterialForagingOptimization keeps the size of an
 odd population when it reproduces

---
 src/niapy/algorithms/basic/bfo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/niapy/algorithms/basic/bfo.py b/src/niapy/algorithms/basic/bfo.py
index b7b3094..86039cd 100644
--- a/src/niapy/algorithms/basic/bfo.py
+++ b/src/niapy/algorithms/basic/bfo.py
@@ -277,9 +277,10 @@ class BacterialForagingOptimization(Algorithm):
             population_fitness = population_fitness[sorted_indices]
             cost = cost[sorted_indices]
 
-            population = np.tile(population[:self.population_size // 2], (2, 1))
-            population_fitness = np.tile(population_fitness[:self.population_size // 2], 2)
-            cost = np.tile(cost[:self.population_size // 2], 2)
+            num_survivors = (self.population_size + 1) // 2
+            population = np.tile(population[:num_survivors], (2, 1))[:self.population_size]
+            population_fitness = np.tile(population_fitness[:num_survivors], 2)[:self.population_size]
+            cost = np.tile(cost[:num_survivors], 2)[:self.population_size]
 
             health = np.zeros(len(population), dtype=np.float64)
 
-- 
2.43.0


From 52a158f592ac4276d2cd2f92dd64be892548acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:08 +0000
Subject: [PATCH 95/99] fix: CatSwarmOptimization does not lose the best traced
 position of an iteration

---
 src/niapy/algorithms/basic/cso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/cso.py b/src/niapy/algorithms/basic/cso.py
index 8436bf2..f63bd36 100644
--- a/src/niapy/algorithms/basic/cso.py
+++ b/src/niapy/algorithms/basic/cso.py
@@ -277,6 +277,8 @@ class CatSwarmOptimization(Algorithm):
                                                                                         pop_copies[k],
                                                                                         velocities[k],
                                                                                         best_x)
+                if population_fitness[k] < seek_fitness:
+                    seek_x, seek_fitness = pop_copies[k].copy(), population_fitness[k]
         if seek_fitness < best_fitness:
             best_x, best_fitness = seek_x, seek_fitness
         best_index = np.argmin(population_fitness)
-- 
2.43.0


From 41749edaec9005c6bd7d01095f4c1876c8210e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:48 +0000
Subject: [PATCH 96/99] fix: ComprehensiveLearningParticleSwarmOptimizer counts
 its refreshing gap

---
 src/niapy/algorithms/basic/pso.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/niapy/algorithms/basic/pso.py b/src/niapy/algorithms/basic/pso.py
index e8d3aed..c2bc53e 100644
--- a/src/niapy/algorithms/basic/pso.py
+++ b/src/niapy/algorithms/basic/pso.py
@@ -1151,9 +1151,11 @@ class ComprehensiveLearningParticleSwarmOptimizer(ParticleSwarmAlgorithm):
             pbest = self.generate_personal_best_cl(i, pc[i], personal_best, personal_best_fitness)
             v[i] = self.update_velocity_cl(v[i], pop[i], pbest, w, min_velocity, max_velocity, task)
             pop[i] = pop[i] + v[i]
+            flag[i] += 1
             if task.is_feasible(pop[i]):
                 fpop[i] = task.eval(pop[i])
                 if fpop[i] < personal_best_fitness[i]:
+                    flag[i] = 0
                     personal_best[i], personal_best_fitness[i] = pop[i].copy(), fpop[i]
                     if fpop[i] < fxb:
                         xb, fxb = pop[i].copy(), fpop[i]
-- 
2.43.0


From fb21abf42d9085ad9b4465d99788d8e1f078379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 97/99] fix: FishSchoolSearch compares the weight of the school
 with that of the last iteration

---
 src/niapy/algorithms/basic/fss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index 3ec5467..76e0faf 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -338,6 +338,7 @@ class FishSchoolSearch(Algorithm):
         population = self.collective_instinctive_movement(population, task)
         population, best_x, best_fitness = self.collective_volitive_movement(population, step_volitive, school_weight,
                                                                              best_x, best_fitness, task)
+        school_weight = sum(fish.weight for fish in population)
         step_individual, step_volitive = self.update_steps(task)
         return population, np.asarray([f.f for f in population]), best_x, best_fitness, {'step_individual': step_individual,
                                                                                          'step_volitive': step_volitive,
-- 
2.43.0


From 89765e312fca5db821e7fba033626fe8d416ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:03 +0000
Subject: [PATCH 98/99] fix: FishSchoolSearch scales its step lengths by the
 range in every iteration

---
 src/niapy/algorithms/basic/fss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/niapy/algorithms/basic/fss.py b/src/niapy/algorithms/basic/fss.py
index 76e0faf..dc974b2 100644
--- a/src/niapy/algorithms/basic/fss.py
+++ b/src/niapy/algorithms/basic/fss.py
@@ -180,9 +180,9 @@ class FishSchoolSearch(Algorithm):
                 2. New volitive step.
 
         """
-        step_individual = np.full(task.dimension, self.step_individual_init - (task.iters + 1) * (
+        step_individual = task.range * (self.step_individual_init - (task.iters + 1) * (
                     self.step_individual_init - self.step_individual_final) / task.max_iters)
-        step_volitive = np.full(task.dimension, self.step_volitive_init - (task.iters + 1) * (
+        step_volitive = task.range * (self.step_volitive_init - (task.iters + 1) * (
                     self.step_volitive_init - self.step_volitive_final) / task.max_iters)
         return step_individual, step_volitive
 
-- 
2.43.0


From f604ee04f3cc8312b2512bed05888750b663b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:46 +0000
Subject: [PATCH 99/99] fix: GlowwormSwarmOptimizationV3 shrinks the range of a
 crowded glowworm instead of blinding it

---
 src/niapy/algorithms/basic/gso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/niapy/algorithms/basic/gso.py b/src/niapy/algorithms/basic/gso.py
index 68c95a2..f36105a 100644
--- a/src/niapy/algorithms/basic/gso.py
+++ b/src/niapy/algorithms/basic/gso.py
@@ -444,4 +444,4 @@ class GlowwormSwarmOptimizationV3(GlowwormSwarmOptimization):
 
     def range_update(self, range_, neighbors, sensing_range):
         """Update range."""
-        return range_ + (self.beta * np.sum(neighbors)) if np.sum(neighbors) < self.nt else (-self.beta1 * np.sum(neighbors))
+        return range_ + (self.beta * np.sum(neighbors) if np.sum(neighbors) < self.nt else -self.beta1 * np.sum(neighbors))
-- 
2.43.0

