From b6ad039554e6d6f479d72fade23d773849082312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 01/19] fix: insertion_selection lets every offspring compete,
 not only the first

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 4a098de..8be52c0 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -990,7 +990,7 @@ def insertion_selection(offspring: List, parents: List, key = None) -> List:
                                                         copied_parents[
                                                             selected_parent_index])
 
-        return copied_parents
+    return copied_parents
 
 
 ##############################
-- 
2.43.0


From 5c6fe38a53402508f6747462f7c2e844789d268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 02/19] fix: grouped_evaluate decodes the current genome
 instead of reusing a stale phenome

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 8be52c0..5292bfa 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -290,7 +290,7 @@ def grouped_evaluate(population: list, max_individuals_per_chunk: int = None) ->
     for chunk in chunks(population, max_individuals_per_chunk):
         # XXX Always passing individuals along to the problem.
         #     Does this create problems with dask, even when we aren't using individuals?
-        fit = problem.evaluate_multiple([c.phenome for c in chunk], individuals=chunk)
+        fit = problem.evaluate_multiple([c.decode() for c in chunk], individuals=chunk)
         fitnesses.extend(fit)
 
     for fit, ind in zip(fitnesses, population):
-- 
2.43.0


From 81dea82f5846bd6eb8c3854052ce0ca486e1850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:30 +0000
Subject: [PATCH 03/19] fix: Problem.evaluate_multiple accepts the arguments
 grouped_evaluate passes

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 71adc50..9e3f1b6 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -55,7 +55,7 @@ class Problem(ABC):
         """
         raise NotImplementedError
 
-    def evaluate_multiple(self, phenomes):
+    def evaluate_multiple(self, phenomes, *args, **kwargs):
         """Evaluate multiple phenomes all at once, returning a list of fitness
         values.
 
@@ -344,7 +344,7 @@ class AverageFitnessProblem(Problem):
         fitnesses = [ self.wrapped_problem.evaluate(phenome) for _ in range(self.n) ]
         return np.mean(fitnesses)
 
-    def evaluate_multiple(self, phenomes: list):
+    def evaluate_multiple(self, phenomes: list, *args, **kwargs):
         """
         Evaluate a collections of phenomes by creating n jobs for each phenome,
         sending all the jobs to the wrapped evaluate_multiple() function, and then
-- 
2.43.0


From 20523b667f3e2c485047b59b638b05817f3ed225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:42 +0000
Subject: [PATCH 04/19] fix: birth_brander brands every individual of a stream
 or population, not only the first

---
 leap_ec/util.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/leap_ec/util.py b/leap_ec/util.py
index e45e889..0c633a8 100644
--- a/leap_ec/util.py
+++ b/leap_ec/util.py
@@ -326,10 +326,6 @@ def birth_brander():
     # incremented with each birth
     num_births = itertools.count()
 
-    # sometimes next_thing is a population, so we need this to track that
-    # the next individual in the population
-    iterator = None
-
     def brand(individual):
         """ brand the given individual
         :param individual: to be branded
@@ -358,22 +354,8 @@ def birth_brander():
         :param next_thing: either the next individual in the pipeline or a population of individuals to be branded
         :return: branded individual
         """
-        nonlocal num_births
-        nonlocal iterator
-
-        while True:
-            if is_iterable(next_thing):
-                # We're being passed in a single individual in a pipeline
-                next_thing = next(next_thing)
-            else:
-                # We're being passed a test_sequence/population
-                if iterator is None:
-                    iterator = iter(next_thing)
-                next_thing = next(iterator)
-
-            next_thing = brand(next_thing)
-
-            yield next_thing
+        for individual in next_thing:
+            yield brand(individual)
 
     do_birth_branding.brand_population = brand_population
 
-- 
2.43.0


From 989fb4cc0feba61c33f5f24cfb1bb6b6d39637ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:06 +0000
Subject: [PATCH 05/19] fix: n-ary crossover dropped the tail of a longer
 second parent

---
 leap_ec/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 5292bfa..5116d84 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -590,6 +590,8 @@ class NAryCrossover(Crossover):
 
         # Pick crossover points
         xpts = self._pick_crossover_points(len(parent_a.genome))
+        # The last section runs to the end of the longer genome
+        xpts[-1] = max(len(parent_a.genome), len(parent_b.genome))
 
         for start, stop in toolz.itertoolz.sliding_window(2, xpts):
             genome1_sections.append(children[src1].genome[start:stop])
-- 
2.43.0


From de66e003ebc59b57e95e392bce748368f386bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:35 +0000
Subject: [PATCH 06/19] fix: uniform crossover failed on parents whose genomes
 differ in length

---
 leap_ec/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/ops.py b/leap_ec/ops.py
index 5116d84..8f78d1a 100644
--- a/leap_ec/ops.py
+++ b/leap_ec/ops.py
@@ -489,7 +489,7 @@ class UniformCrossover(Crossover):
 
         # generate which indices we should swap
         min_length = min(parent_a.genome.shape[0], parent_b.genome.shape[0])
-        indices_to_swap = random_bernoulli_vector(min_length, self.p_swap)
+        indices_to_swap = np.flatnonzero(random_bernoulli_vector(min_length, self.p_swap))
 
         # perform swap
         tmp = parent_a.genome[indices_to_swap]
-- 
2.43.0


From 8f53d9e7e3d0d3411624a79f6611ff2dc7a16766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:05 +0000
Subject: [PATCH 07/19] fix: copy_segment inserted an alias of the segment
 rather than a copy

---
 leap_ec/segmented_rep/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index daa8b6e..f79a934 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -3,6 +3,7 @@
     Segmented representation specific pipeline operators.
 """
 from typing import Iterator, Callable
+import copy
 import random
 
 import numpy as np
@@ -203,8 +204,9 @@ def copy_segment(next_individual: Iterator,
         individual = next(next_individual)
 
         if random.random() < probability:
-            copied_segment = \
-                individual.genome[random.randrange(len(individual.genome))]
+            # A copy of its own: operators may later change one segment in place
+            copied_segment = copy.deepcopy(
+                individual.genome[random.randrange(len(individual.genome))])
 
             if append:
                 individual.genome.append(copied_segment)
-- 
2.43.0


From 142c80ebf210ebfda5d464d545bcc982d9218645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:05 +0000
Subject: [PATCH 08/19] fix: segmented_mutate raised NameError while reporting
 a segment/mutator mismatch

---
 leap_ec/segmented_rep/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/segmented_rep/ops.py b/leap_ec/segmented_rep/ops.py
index f79a934..6f42983 100644
--- a/leap_ec/segmented_rep/ops.py
+++ b/leap_ec/segmented_rep/ops.py
@@ -75,7 +75,7 @@ def segmented_mutate(next_individual: Iterator, mutator_functions: list):
     """
     while True:
         individual = next(next_individual)
-        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutators)} mutators."
+        assert(len(individual.genome) == len(mutator_functions)), f"Found {len(individual.genome)} segments in this genome, but we've got {len(mutator_functions)} mutators."
 
         mutated_genome = []
         for segment, m in zip(individual.genome, mutator_functions):
-- 
2.43.0


From 6f287f5af7d032abe58901c6f834746e8cd07bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 09/19] fix: random_search counted evaluations in the global
 context instead of the one it was given

---
 leap_ec/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/algorithm.py b/leap_ec/algorithm.py
index 380207d..dc31ad4 100644
--- a/leap_ec/algorithm.py
+++ b/leap_ec/algorithm.py
@@ -355,7 +355,8 @@ def random_search(evaluations, problem, representation, pipeline,
 
     # Set up an evaluation counter that records the current generation to
     # context; start at 1 to account for individual we already created.
-    evaluation_counter = util.inc_generation(start_generation=1)
+    evaluation_counter = util.inc_generation(start_generation=1,
+                                             context=context)
 
     while evaluation_counter.generation() < evaluations:
         # Apply the provided reproductive operators to create a new individual.
-- 
2.43.0


From 5f5d57041ac053cccf4c9b5dcfa7d8f170ed321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 10/19] fix: CooperativeProblem with a log_stream failed on its
 first trial (collaborators are genomes, not individuals)

---
 leap_ec/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/problem.py b/leap_ec/problem.py
index 9e3f1b6..ad9c108 100644
--- a/leap_ec/problem.py
+++ b/leap_ec/problem.py
@@ -532,8 +532,8 @@ class CooperativeProblem(Problem):
                              'subpopulation'             : context['leap']['current_subpopulation'],
                              'individual_type'           : 'Collaborator',
                              'collaborator_subpopulation': i,
-                             'genome'                    : collab.genome,
-                             'fitness'                   : collab.fitness})
+                             'genome'                    : collab,
+                             'fitness'                   : None})
 
         writer.writerow({'generation'                : context['leap']['generation'],
                          'subpopulation'             : context['leap']['current_subpopulation'],
-- 
2.43.0


From 9b530c69a08a6c3ec87c8552a74ccac8c3d0ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:47 +0000
Subject: [PATCH 11/19] fix: per_rank_crowding_calc must not lose fronts whose
 individuals share all fitnesses

---
 leap_ec/multiobjective/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leap_ec/multiobjective/ops.py b/leap_ec/multiobjective/ops.py
index 3f9749c..063b9e9 100644
--- a/leap_ec/multiobjective/ops.py
+++ b/leap_ec/multiobjective/ops.py
@@ -209,7 +209,8 @@ def per_rank_crowding_calc(ranked_population: list, is_maximizing) -> list:
 
     objective_ranges = f_max - f_min
 
-    sorted_pop = []
+    # If no objective sets the individuals apart, they are returned as they came
+    sorted_pop = list(ranked_population)
 
     for objective in range(num_objectives):
         if objective_ranges[objective] == 0:
-- 
2.43.0


From cef792ea90ad635682123cf32e1a9a1041549862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:47 +0000
Subject: [PATCH 12/19] fix: enlu_inds_rank must only insert a layer if the
 whole layer below is really dominated

---
 leap_ec/multiobjective/asynchronous.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/multiobjective/asynchronous.py b/leap_ec/multiobjective/asynchronous.py
index b208aff..f4d1ba2 100644
--- a/leap_ec/multiobjective/asynchronous.py
+++ b/leap_ec/multiobjective/asynchronous.py
@@ -90,8 +90,8 @@ def enlu_inds_rank(start_point, layer_pops):
         # Further check if those individuals are properly dominated
         true_dominated = _set_domination(moving_points, dominated)
 
-        # CASE III: If nondominated is empty, insert moving points as a layer and re-update all ranks
-        if not nondominated:
+        # CASE III: If the whole layer is dominated, insert moving points as a layer and re-update all ranks
+        if not nondominated and all(true_dominated):
             layer_pops.insert(depth, moving_points)
             for i, lp in enumerate(layer_pops[depth:]):
                 for ind in lp:
-- 
2.43.0


From 5f5c66d1fe7a0fbdf31e5557e6114bb82f508d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 13/19] fix: GaussianProblem ignored its width and height
 parameters

---
 leap_ec/real_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/real_rep/problems.py b/leap_ec/real_rep/problems.py
index 9bf44bd..da8db4d 100644
--- a/leap_ec/real_rep/problems.py
+++ b/leap_ec/real_rep/problems.py
@@ -934,8 +934,8 @@ class GaussianProblem(ScalarProblem):
     def __init__(self, width=1, height=1, maximize=True):
         assert(width > 0)
         super().__init__(maximize)
-        self.width = 1
-        self.height = 1
+        self.width = width
+        self.height = height
 
     def evaluate(self, phenome):
         assert(phenome is not None)
-- 
2.43.0


From 37051bb2e52d206d4a1660ec057569bbb9d36398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 14/19] fix: MaxOnes and LeadingOnes raised NameError while
 reporting a phenome of the wrong length

---
 leap_ec/binary_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/binary_rep/problems.py b/leap_ec/binary_rep/problems.py
index c5e045e..33e85e3 100644
--- a/leap_ec/binary_rep/problems.py
+++ b/leap_ec/binary_rep/problems.py
@@ -55,7 +55,7 @@ class MaxOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         # If we've 
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             return np.sum(phenome == self.target_string)
         else:
             return np.count_nonzero(phenome == 1)
@@ -106,7 +106,7 @@ class LeadingOnes(ScalarProblem):
                               f"Got {type(phenome)}."))
         
         if self.target_string is not None:
-            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(individual.phenome)} dimensions."
+            assert(len(phenome) == len(self.target_string)), f"Fitness function target string has {len(self.target_string)} dimensions, but received a phenome with {len(phenome)} dimensions."
             match_str = (phenome == self.target_string)
         else:
             match_str = (phenome == 1)
-- 
2.43.0


From f834810852c1143b7595831331c3be59ed4b2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 15/19] fix: EnvironmentProblem.num_inputs and num_outputs
 always returned None

---
 leap_ec/executable_rep/problems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leap_ec/executable_rep/problems.py b/leap_ec/executable_rep/problems.py
index 008312b..7bb67a7 100644
--- a/leap_ec/executable_rep/problems.py
+++ b/leap_ec/executable_rep/problems.py
@@ -41,12 +41,12 @@ class EnvironmentProblem(ScalarProblem):
     @property
     def num_inputs(self):
         """Return the number of dimensions in the environment's input space."""
-        self.space_dimensions(self.environment.observation_space)
+        return self.space_dimensions(self.environment.observation_space)
 
     @property
     def num_outputs(self):
         """Return the number of dimensions in the environment's action space."""
-        self.space_dimensions(self.environment.action_space)
+        return self.space_dimensions(self.environment.action_space)
 
     @classmethod
     def _reward_fitness(cls, observations, rewards):
-- 
2.43.0


From fada34ea0067aa6b80715ad3dadc09e58bec11f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 16/19] fix: PlotPittRuleProbe raised NameError whenever a
 modulo above 1 was given, and would have plotted between the intervals

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 5a915ec..87b13b4 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -847,7 +847,7 @@ class PlotPittRuleProbe:
         if self.modulo > 1:
             assert ('generation' in self.context['leap'])
             step = self.context['leap']['generation']
-            if step % modulo == 0:
+            if step % self.modulo != 0:
                 return population
 
         # Otherwise, do our thang!
-- 
2.43.0


From d9a0eaf1ef17bfb1720bf11a3a0f8e1cc504c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:54 +0000
Subject: [PATCH 17/19] fix: CGPWithParametersDecoder raised AttributeError
 while reporting a wrong number of parameters

---
 leap_ec/executable_rep/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/cgp.py b/leap_ec/executable_rep/cgp.py
index 6039c5f..c334b8a 100644
--- a/leap_ec/executable_rep/cgp.py
+++ b/leap_ec/executable_rep/cgp.py
@@ -569,7 +569,7 @@ class CGPWithParametersDecoder(CGPDecoder):
         executable = super().decode(circuit_genome)
 
         # Add the parameter attributes to each node of the phenotype
-        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.cgp_decoder.nodes_per_layer*self.cgp_decoder.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
+        assert(len(parameters_genome) == self.num_parameters_per_node*self.nodes_per_layer*self.num_layers), f"Expected the parameter segment of the genome to contain {self.num_parameters_per_node*self.nodes_per_layer*self.num_layers} parameters ({self.num_parameters_per_node} for each computational node), but found {len(parameters_genome)}."
         for layer in range(self.num_layers):
             for node in range(self.nodes_per_layer):
                 computational_node_id = layer*self.nodes_per_layer + node
-- 
2.43.0


From 4e75a26b4fb582e4694036718b7316f2a4349997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:25 +0000
Subject: [PATCH 18/19] fix: PittRulesDecoder.initializer put the condition
 genes in the wrong order for input spaces of shape (1, n)

---
 leap_ec/executable_rep/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 87b13b4..41914db 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -229,7 +229,7 @@ class PittRulesDecoder(Decoder):
                 # Sample values uniformly within each variable's range
                 low = self.input_space.sample()
                 high = self.input_space.sample()
-                condition_pairs = list(zip(low, high))
+                condition_pairs = list(zip(low.flatten(), high.flatten()))
                 condition_genes = np.array(condition_pairs).flatten()
 
 
-- 
2.43.0


From 0fb9c4086968926270660b9ea87820d4b2b4fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:25 +0000
Subject: [PATCH 19/19] fix: PlotPittRuleProbe ignored plot_dimensions and
 always drew the first two inputs

---
 leap_ec/executable_rep/rules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/leap_ec/executable_rep/rules.py b/leap_ec/executable_rep/rules.py
index 41914db..1d0b3b7 100644
--- a/leap_ec/executable_rep/rules.py
+++ b/leap_ec/executable_rep/rules.py
@@ -816,9 +816,10 @@ class PlotPittRuleProbe:
             if len(rule.conditions) < 2:
                 raise ValueError(f"Found a rule with less than two input dimensions when trying to run {PlotPittRuleProbe.__name__}.  We need at least two conditions to plot a rule box!")
                 
-            # Get bounds for the first two conditions
-            x_low, x_high = rule.conditions[0]
-            y_low, y_high = rule.conditions[1]
+            # Get bounds for the two conditions we were asked to plot
+            x_dim, y_dim = self.plot_dimensions
+            x_low, x_high = rule.conditions[x_dim]
+            y_low, y_high = rule.conditions[y_dim]
 
             # Visualize wildcard rules as covering the whole range
             if x_low > x_high:
-- 
2.43.0

