From 6426503966fa5030c9cb4d393a73a9a2e2403e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:58 +0000
Subject: [PATCH 001/111] fix: seed remote clones of problems which have their
 own generators

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e2b4324..a7f0b57 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -137,7 +137,7 @@ class EvaluationActor:
         np.random.seed(np_global)
         torch.manual_seed(torch_global)
         if self._problem.has_own_generator:
-            self._problem.seed(probseed)
+            self._problem.manual_seed(probseed)
         self._problem._use_pickle_data_from_main(state)
         self._problem.remote_hook(self._problem)
         if isinstance(self._problem._num_gpus_per_actor, str) and (self._problem._num_gpus_per_actor == "all"):
-- 
2.43.0


From 35777a7cd66da10eae4f02d55eda217397ebef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:07 +0000
Subject: [PATCH 002/111] fix: average matrix-shaped gradients in distributed
 mode (XNES)

---
 src/evotorch/algorithms/distributed/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/distributed/gaussian.py b/src/evotorch/algorithms/distributed/gaussian.py
index bf01a71..8cbcbc9 100644
--- a/src/evotorch/algorithms/distributed/gaussian.py
+++ b/src/evotorch/algorithms/distributed/gaussian.py
@@ -246,7 +246,9 @@ class GaussianSearchAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         # For each gradient (in most cases among 'mu' and 'sigma'), we allocate a new 0-filled tensor.
         avg_gradients = {}
         for key in grad_keys:
-            avg_gradients[key] = self._distribution.make_zeros(num_solutions=1).reshape(-1)
+            avg_gradients[key] = torch.zeros_like(
+                list_of.gradients[0][key], dtype=self._distribution.dtype, device=self._distribution.device
+            )
 
         # Below, we iterate over all collected results and add their gradients, in a weighted manner, onto the
         # `avg_gradients` we allocated above.
-- 
2.43.0


From c1830c3f6a0d19a0eb80b1b29e9cd85558c6bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:07 +0000
Subject: [PATCH 003/111] fix: do not ask remote actors for gradients of empty
 populations

---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index a7f0b57..e8cb6f0 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2911,6 +2911,9 @@ class Problem(TensorMakerMixin, Serializable):
                 # a way that each actor will have its share.
                 popsize_per_task = split_workload(popsize, len(self._actors))
 
+            # A task with no solution at all would produce NaN gradients, so, we drop the empty tasks.
+            popsize_per_task = [task_popsize for task_popsize in popsize_per_task if task_popsize > 0]
+
             if ensure_even_popsize:
                 # If `ensure_even_popsize` argument is True, then we need to make sure that each tasks's popsize is
                 # an even number.
-- 
2.43.0


From 6178f567cd7307e278b58780ce2a9ace5894b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:30 +0000
Subject: [PATCH 004/111] fix: honour obj_index=None and with_stats in remote
 gradient computation

---
 src/evotorch/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index e8cb6f0..001feb5 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2960,13 +2960,15 @@ class Problem(TensorMakerMixin, Serializable):
                 self._actor_pool.map_unordered(
                     (
                         lambda a, v: a.call.remote(
-                            "_sample_and_compute_gradients",
+                            "_gradient_computation_helper",
                             [dist_on_cpu, v[0]],
                             {
                                 "obj_index": obj_index,
                                 "num_interactions": v[1],
                                 "popsize_max": v[2],
                                 "ranking_method": ranking_method,
+                                "with_stats": with_stats,
+                                "move_results_to_device": "cpu",
                             },
                         )
                     ),
-- 
2.43.0


From b72605dc6a26d97194c9f3a556a25f07be194487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:55 +0000
Subject: [PATCH 005/111] fix: make the crowding ranks actual ranks, so that
 take_best keeps the least crowded solutions

---
 src/evotorch/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 001feb5..33d706e 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3532,7 +3532,8 @@ def _compute_pareto_ranks(utils: torch.Tensor, crowdsort: bool) -> Tuple[torch.T
         if crowdsort:
             crowdsort_distances = _crowding_distance_assignment(utils[new_non_dominated])
             # Note the descending sort -- we want to maximize distances
-            crowdsort_ranks[new_non_dominated] = torch.argsort(crowdsort_distances, descending=True)
+            # The inner argsort gives the solution indices ordered by distance, the outer one turns these into ranks.
+            crowdsort_ranks[new_non_dominated] = torch.argsort(torch.argsort(crowdsort_distances, descending=True))
 
         # Update the number of dominations for remaining solutions by removing any domination counts introduce by the solutions we just sorted
         n_dominations += -dominated_matrix[:, new_non_dominated].sum(dim=-1)
@@ -3569,7 +3570,7 @@ def _pareto_sort(utils: torch.Tensor, crowdsort: bool) -> Tuple[List[torch.Tenso
         # Sort according to crowdsort_ranks if crowdsort
         if crowdsort:
             front_crowdsort_ranks = crowdsort_ranks[front]
-            front = front[front_crowdsort_ranks]
+            front = front[torch.argsort(front_crowdsort_ranks)]
 
         fronts.append(front)
     return fronts, ranks
-- 
2.43.0


From ea3fa9873a64524131ad86a078e37d92b0f97814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:02 +0000
Subject: [PATCH 006/111] fix: raise IndexError when getting the solution right
 after the last one

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 33d706e..f8ed44d 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -4765,7 +4765,7 @@ class Solution(Serializable):
         index = int(index)
         if index < 0:
             index = len(parent) + index
-        if not ((index >= 0) and (index <= len(parent))):
+        if not ((index >= 0) and (index < len(parent))):
             raise IndexError(f"Invalid index: {index}")
         self._batch: SolutionBatch = parent[index : index + 1]
 
-- 
2.43.0


From 3d663be4d34df6a1052f4a102e5b1324d52ce6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:02 +0000
Subject: [PATCH 007/111] fix: fill batches made via SolutionBatch(problem,
 like=...)

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index f8ed44d..5a4d008 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3701,7 +3701,7 @@ class SolutionBatch(Serializable):
             self._num_objs = like._num_objs
 
             if not _opt_bool(empty, default=False):
-                self._fill_via_problem(problem)
+                self._data[:] = problem.generate_values(len(self._data))
         elif merging_of is not None:
             expect_none(
                 "While making a new SolutionBatch via merging",
-- 
2.43.0


From cdf6c5d546fca99151c71d77e56de64e623bef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:21 +0000
Subject: [PATCH 008/111] fix: refuse an objective index which equals the
 number of objectives

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 5a4d008..13fc027 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -3796,7 +3796,7 @@ class SolutionBatch(Serializable):
         if i < 0:
             i = self._num_objs + i
 
-        if (i < 0) or (i > (self._num_objs)):
+        if (i < 0) or (i >= self._num_objs):
             raise IndexError(f"Invalid objective index: {org_i}")
 
         return i
-- 
2.43.0


From 4338da6f7629689439247b125e8c51ffc107fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:22 +0000
Subject: [PATCH 009/111] fix: report the best and worst solutions when all
 fitnesses so far are infinite

---
 src/evotorch/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 13fc027..c251e3e 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2377,10 +2377,12 @@ class Problem(TensorMakerMixin, Serializable):
             scores = batch.access_evals(i_obj)
             best_score = scores[best_sln_index]
             worst_score = scores[worst_sln_index]
-            if first_is_better(best_score, self._best_evals[i_obj], i_obj):
+            no_best_yet = self._best[i_obj] is None
+            if first_is_better(best_score, self._best_evals[i_obj], i_obj) or (no_best_yet and torch.isinf(best_score)):
                 self._best_evals[i_obj] = best_score
                 self._best[i_obj] = batch[best_sln_index].clone()
-            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj):
+            no_worst_yet = self._worst[i_obj] is None
+            if first_is_worse(worst_score, self._worst_evals[i_obj], i_obj) or (no_worst_yet and torch.isinf(worst_score)):
                 self._worst_evals[i_obj] = worst_score
                 self._worst[i_obj] = batch[worst_sln_index].clone()
 
-- 
2.43.0


From 7f86211c580f169c5824fff1d912e654f157e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:17 +0000
Subject: [PATCH 010/111] fix: keep ClipUp free of NaN when the gradient is
 zero

---
 src/evotorch/algorithms/functional/funcclipup.py | 5 ++++-
 src/evotorch/optimizers.py                       | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/functional/funcclipup.py b/src/evotorch/algorithms/functional/funcclipup.py
index 3503299..d0bed9e 100644
--- a/src/evotorch/algorithms/functional/funcclipup.py
+++ b/src/evotorch/algorithms/functional/funcclipup.py
@@ -100,7 +100,10 @@ def _clipup_step(
     momentum: torch.Tensor,
     max_speed: torch.Tensor,
 ) -> tuple:
-    velocity = (momentum * velocity) + (center_learning_rate * (g / torch.norm(g)))
+    gnorm = torch.norm(g)
+    # A zero gradient has no direction to follow, and dividing it by its norm would result in NaN.
+    normalized_g = torch.where((gnorm == 0).expand(g.shape), g, g / gnorm)
+    velocity = (momentum * velocity) + (center_learning_rate * normalized_g)
     vnorm = torch.norm(velocity)
     must_clip = (vnorm > max_speed).expand(velocity.shape)
     velocity = torch.where(must_clip, max_speed * (velocity / vnorm), velocity)
diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index 8f2276c..f564e04 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -345,7 +345,9 @@ class ClipUp:
             about=f"{type(self).__name__}.ascent",
         )
 
-        grad = (globalg / torch.norm(globalg)) * self._stepsize
+        gnorm = torch.norm(globalg)
+        # A zero gradient has no direction to follow, and dividing it by its norm would result in NaN.
+        grad = globalg if gnorm == 0 else (globalg / gnorm) * self._stepsize
 
         self._velocity = self._clip((self._momentum * self._velocity) + grad, self._max_speed)
 
-- 
2.43.0


From 04ba280121dd0a3d632471b133a33e74a24addce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:17 +0000
Subject: [PATCH 011/111] fix: actually validate the hyperparameters assigned
 to a ClipUp parameter group

---
 src/evotorch/optimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/optimizers.py b/src/evotorch/optimizers.py
index f564e04..3a1d1fd 100644
--- a/src/evotorch/optimizers.py
+++ b/src/evotorch/optimizers.py
@@ -400,11 +400,11 @@ class ClipUpParameterGroup(Mapping):
     def __setitem__(self, key: str, value: float):
         attrname = ClipUp._param_group_items[key]
         value = float(value)
-        if attrname in ClipUp._param_group_item_lb:
+        if key in ClipUp._param_group_item_lb:
             lb = ClipUp._param_group_item_lb[key]
             if value < lb:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-        if attrname in ClipUp._param_group_item_ub:
+        if key in ClipUp._param_group_item_ub:
             ub = ClipUp._param_group_item_ub[key]
             if value > ub:
                 raise ValueError(f"Invalid value for {repr(key)}: {value}")
-- 
2.43.0


From fd2b47d9dd3ac60c1c7e041455051c29ebf93ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:14 +0000
Subject: [PATCH 012/111] fix: let ExpGaussian follow its gradients via an
 optimizer (XNES with optimizer)

---
 src/evotorch/distributions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 2636a3e..6580b15 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -996,10 +996,14 @@ class ExpGaussian(Distribution):
         d_grad = gradients["d"]
         M_grad = gradients["M"]
 
-        if "d" not in learning_rates:
-            learning_rates["d"] = learning_rates["mu"]
-        if "M" not in learning_rates:
-            learning_rates["M"] = learning_rates["sigma"]
+        # The step sizes for d and M can also be given in terms of mu and sigma
+        learning_rates = {} if learning_rates is None else copy(learning_rates)
+        optimizers = {} if optimizers is None else copy(optimizers)
+        for grad_name, param_name in (("d", "mu"), ("M", "sigma")):
+            if (grad_name not in learning_rates) and (grad_name not in optimizers):
+                for step_sizes in (learning_rates, optimizers):
+                    if param_name in step_sizes:
+                        step_sizes[grad_name] = step_sizes[param_name]
 
         # Follow gradients for d, and M
         update_d = self._follow_gradient("d", d_grad, learning_rates=learning_rates, optimizers=optimizers)
-- 
2.43.0


From 1cced417b17f5a0fbd728bce6e6914087985166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:14 +0000
Subject: [PATCH 013/111] fix: do not write into the parameter dictionary given
 to ExpGaussian

---
 src/evotorch/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 6580b15..06c81fd 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -827,6 +827,8 @@ class ExpGaussian(Distribution):
         device: Optional[Device] = None,
         dtype: Optional[DType] = None,
     ):
+        parameters = copy(parameters)
+
         [mu_length] = parameters["mu"].shape
 
         # Make sigma 2D
-- 
2.43.0


From 575197bb05cfa4b0b4975db364946aeaa5a6e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:14 +0000
Subject: [PATCH 014/111] fix: do not keep a stale inverse when the sigma of an
 ExpGaussian is replaced

---
 src/evotorch/distributions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 06c81fd..0a214dc 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -924,6 +924,17 @@ class ExpGaussian(Distribution):
             new_sigma (torch.Tensor): The new value of sigma, the square root of the covariance matrix
         """
         self.parameters["sigma"] = torch.as_tensor(new_sigma, dtype=self.dtype, device=self.device)
+        # The stored inverse belongs to the previous sigma
+        self.parameters.pop("sigma_inv", None)
+
+    def modified_copy(
+        self, *, dtype: Optional[DType] = None, device: Optional[Device] = None, **parameters
+    ) -> "ExpGaussian":
+        if ("sigma" in parameters) and ("sigma_inv" not in parameters):
+            # The stored inverse belongs to the previous sigma
+            sigma = parameters["sigma"]
+            parameters["sigma_inv"] = torch.inverse(torch.diag(sigma) if sigma.ndim == 1 else sigma)
+        return super().modified_copy(dtype=dtype, device=device, **parameters)
 
     def to_global_coordinates(self, local_coordinates: torch.Tensor) -> torch.Tensor:
         """Map samples from local coordinate space N(0, I_d) to global coordinate space N(mu, A^T A)
-- 
2.43.0


From a02e5beac5a0f3c3d8be2b7e44bbd73080301606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:08 +0000
Subject: [PATCH 015/111] fix: make the nes ranking usable with batched
 functional searches (vmap)

---
 src/evotorch/tools/ranking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/ranking.py b/src/evotorch/tools/ranking.py
index 26534d8..7f5efd6 100644
--- a/src/evotorch/tools/ranking.py
+++ b/src/evotorch/tools/ranking.py
@@ -114,7 +114,7 @@ def nes(fitnesses: torch.Tensor, *, higher_is_better: bool = True) -> torch.Tens
         )
 
         indices = torch.argsort(x, descending=(not higher_is_better))
-        ranks = torch.empty(n, dtype=indices.dtype, device=device)
+        ranks = torch.empty_like(indices)
         ranks[indices] = torch.arange(n, dtype=indices.dtype, device=device)
 
         utils = weights[ranks]
-- 
2.43.0


From c4043279c7c301c29fda1ac906f12027f5265fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:34 +0000
Subject: [PATCH 016/111] fix: do not advance the global random generator when
 another generator is used

---
 src/evotorch/tools/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index d219d38..4f42b38 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -2307,4 +2307,5 @@ def make_batched_false_for_vmap(device: Device) -> torch.Tensor:
         a batch of scalar tensors (i.e. a `BatchedTensor`) if we are inside
         `vmap(..., randomness="different")`.
     """
-    return torch.randint(0, 1, tuple(), dtype=torch.bool, device=device)
+    # The random tensor below is empty, so that the state of the global generator does not change.
+    return torch.randint(0, 1, (0,), dtype=torch.bool, device=device).any()
-- 
2.43.0


From cc6a4ba979374f323672ceed67cf8ca99914a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:21 +0000
Subject: [PATCH 017/111] fix: keep PolynomialMutation free of NaN when a
 variable has equal bounds

---
 src/evotorch/operators/real.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/operators/real.py b/src/evotorch/operators/real.py
index f723253..ee05479 100644
--- a/src/evotorch/operators/real.py
+++ b/src/evotorch/operators/real.py
@@ -562,6 +562,8 @@ class PolynomialMutation(CopyingOperator):
             # If a probability of mutation is given, then we produce a boolean mask that probabilistically marks which
             # decision variables will be affected by this mutation operation.
             to_mutate = self.problem.make_uniform_shaped_like(data) < self._prob
+        # A decision variable whose bounds are equal cannot be mutated
+        to_mutate = to_mutate & (self._lb < self._ub)
 
         # Obtain a flattened (1-dimensional) tensor which addresses only the variables that are subject to mutation
         # (i.e. variables that are not subject to mutation are filtered out).
-- 
2.43.0


From cd6f8ac7e287d2112c0428e391c4c3afdf186dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:20 +0000
Subject: [PATCH 018/111] fix: choose among the evaluated parents in the
 non-elitist mode of GeneticAlgorithm

---
 src/evotorch/algorithms/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/ga.py b/src/evotorch/algorithms/ga.py
index 701a143..c2d7db0 100644
--- a/src/evotorch/algorithms/ga.py
+++ b/src/evotorch/algorithms/ga.py
@@ -673,7 +673,7 @@ class GeneticAlgorithm(SearchAlgorithm, SinglePopulationAlgorithmMixin, Extended
             if num_children < popsize:
                 # If the number of children is less than the population size, then we keep the best m solutions from
                 # the parents, m being `popsize - num_children`.
-                chosen_parents = self._population.take_best(popsize - num_children)
+                chosen_parents = parents.take_best(popsize - num_children)
 
                 # Combine the children with the chosen parents, and declare them as the new population.
                 self._population = SolutionBatch.cat([chosen_parents, children])
-- 
2.43.0


From 6cd8a76d03af1efd9a54c1fd73b81e9473809409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:36 +0000
Subject: [PATCH 019/111] fix: fill the cells of MAPElites also with solutions
 of infinitely bad fitness

---
 src/evotorch/algorithms/mapelites.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 7709c20..1917aff 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -45,6 +45,9 @@ def _best_solution_considering_feature(
     suitable = _all_across_rightmost_dim(features >= feature_lb) & _all_across_rightmost_dim(features <= feature_ub)
     processed_fitnesses = torch.where(suitable, fitnesses, penalty)
     index = argbest(processed_fitnesses)
+    # A suitable solution might itself have the penalty as its fitness. If the index points to an unsuitable solution,
+    # then all the suitable ones (if there are any) are in this situation, and we pick one of them.
+    index = torch.where(torch.index_select(suitable, 0, index)[0], index, torch.argmax(suitable.to(torch.int64)))
 
     selected_dec_values = torch.index_select(decision_values, 0, index)[0]
     selected_evals = torch.index_select(evals, 0, index)[0]
-- 
2.43.0


From 31b2b83695ca6ed6a6ae3a031a71428f8643d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:36 +0000
Subject: [PATCH 020/111] fix: make the feature grid of MAPElites with the
 requested dtype

---
 src/evotorch/algorithms/mapelites.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 1917aff..8f02971 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -500,7 +500,7 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
 
         def _make_feature_grid(lb, ub, num_bins):
-            sp = torch.linspace(lb, ub, num_bins - 1, device=device)
+            sp = torch.linspace(lb, ub, num_bins - 1, dtype=dtype, device=device)
             sp = torch.cat((n_inf, sp, p_inf))
             return sp.unfold(dimension=0, size=2, step=1).unsqueeze(1)
 
-- 
2.43.0


From 74e25e0c72d483cf66abf0eb281d7c56b6e12089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 021/111] fix: do not let RunningNorm write into the first
 observation it receives

---
 src/evotorch/neuroevolution/net/runningnorm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index dae84b8..ab47b17 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -322,7 +322,8 @@ class RunningNorm:
                 # the sum of observations extracted from x is x itself,
                 # and the sum of squared observations extracted from x is
                 # the square of x itself.
-                sum_of_x = x
+                # We clone x, so that the stored sum never shares its storage with the observation of the caller.
+                sum_of_x = x.clone()
                 sum_of_x_squared = x.square()
                 # We extracted a single observation from x
                 n = 1
-- 
2.43.0


From 195fadd64fe0b9d204d13fbe56b0a986b3c9576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 022/111] fix: keep RunningNorm usable after an update without
 observations

---
 src/evotorch/neuroevolution/net/runningnorm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index ab47b17..211c606 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -389,6 +389,11 @@ class RunningNorm:
             # (sum of all squared observations), and n (number of observations extracted
             # from x).
 
+            if n == 0:
+                # No observation was extracted from x (i.e. x is an empty batch, or all of its observations
+                # are masked out). There is nothing to add to the stored data.
+                return
+
             if self._has_no_data():
                 # If our RunningNorm is empty, the observation data we extracted from x
                 # become our RunningNorm's new data.
-- 
2.43.0


From faa166ad1487b6e992d844beb924fa831b7abf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 023/111] fix: ignore masked-out observations of RunningNorm
 also when they are not finite

---
 src/evotorch/neuroevolution/net/runningnorm.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index 211c606..be804de 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -359,14 +359,12 @@ class RunningNorm:
                     # This integer gives us how many observations we extract from x.
                     n = int(torch.sum(torch.as_tensor(mask, dtype=torch.int64, device=self._device)))
 
-                    # We now re-cast the mask as the observation dtype (so that True items turn to 1.0
-                    # and False items turn to 0.0), and then increase its number of dimensions so that
-                    # it can operate directly with x.
-                    mask = self._like_its_own(mask).reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
-
-                    # Finally, we multiply x with the mask. This means that the observations with corresponding
-                    # mask values as False are zeroed out.
-                    x = x * mask
+                    # We now increase the number of dimensions of the mask so that it can operate directly with x.
+                    mask = mask.reshape(torch.Size([x.shape[0]] + ([1] * (x.ndim - 1))))
+
+                    # Finally, the observations with corresponding mask values as False are zeroed out
+                    # (which, unlike multiplying with the mask, also works if they contain NaN or inf).
+                    x = torch.where(mask, x, torch.zeros_like(x))
                 else:
                     # This is the case where we did not receive a mask.
                     # We can simply say that the number of observations to extract from x
-- 
2.43.0


From 7123cac317c11bb3ea64dabb8b3ec64e53d2ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 024/111] fix: report observations of wrong length as
 ValueError in RunningNorm

---
 src/evotorch/neuroevolution/net/runningnorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index be804de..be7b28b 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -193,7 +193,7 @@ class RunningNorm:
             if x.shape != self._shape:
                 raise ValueError(
                     f"This RunningNorm instance was initialized with shape: {self._shape}."
-                    f" However, the provided tensor has an incompatible shape: {x._shape}."
+                    f" However, the provided tensor has an incompatible shape: {x.shape}."
                 )
         elif x.ndim == (self._ndim + 1):
             if x.shape[1:] != self._shape:
-- 
2.43.0


From b36f6ba0450b958e0d6fffded9449544d133d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:33 +0000
Subject: [PATCH 025/111] fix: allow moving a RunningNorm without data to
 another device

---
 src/evotorch/neuroevolution/net/runningnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/runningnorm.py b/src/evotorch/neuroevolution/net/runningnorm.py
index be7b28b..ea9c689 100644
--- a/src/evotorch/neuroevolution/net/runningnorm.py
+++ b/src/evotorch/neuroevolution/net/runningnorm.py
@@ -130,8 +130,8 @@ class RunningNorm:
             new_running_norm = object.__new__(type(self))
 
             already_handled = {"_sum", "_sum_of_squares", "_device"}
-            new_running_norm._sum = self._sum.to(device)
-            new_running_norm._sum_of_squares = self._sum_of_squares.to(device)
+            new_running_norm._sum = None if self._sum is None else self._sum.to(device)
+            new_running_norm._sum_of_squares = None if self._sum_of_squares is None else self._sum_of_squares.to(device)
             new_running_norm._device = device
 
             for k, v in self.__dict__.items():
-- 
2.43.0


From 71e7d45aee715c0bf1db7b71da28f3810d14a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 026/111] fix: address each batch item separately when CMemory
 has a multi-dimensional batch shape

---
 src/evotorch/tools/structures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 21d81fe..ebe221b 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -418,7 +418,9 @@ class CMemory:
 
         self._for_all_batches = tuple(
             (
-                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device)
+                torch.arange(self._batch_shape[i], dtype=torch.int64, device=self._device).reshape(
+                    (-1,) + ((1,) * (self._batch_ndim - 1 - i))
+                )
                 for i in range(self._batch_ndim)
             )
         )
-- 
2.43.0


From bcb42f971d8a3017f854be26b3e3ad4d5fd86ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 027/111] fix: ignore the keys of masked-out items in CMemory

---
 src/evotorch/tools/structures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index ebe221b..561d6e4 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -458,9 +458,11 @@ class CMemory:
             min_key = (
                 torch.tensor(0, dtype=torch.int64, device=self._data.device) if self._min_key is None else self._min_key
             )
-            key = do_where(where, key, min_key.expand(expected_shape))
+            if (self._min_key is None) and (self._key_offset is not None):
+                min_key = self._key_offset
+            result = do_where(where, result, min_key.expand(expected_shape))
         if self._verify:
-            self._key_must_be_valid(key)
+            self._key_must_be_valid(result)
 
         return result
 
-- 
2.43.0


From 058cf2e0cf944661ff5ace89afbc248ad54fccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 028/111] fix: multiply (instead of adding) in
 CMemory.multiply_ without a mask

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 561d6e4..e1b6e8a 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -660,7 +660,7 @@ class CMemory:
             if self._is_dtype_bool:
                 self._data[address] &= value
             else:
-                self._data[address] += value
+                self._data[address] *= value
         else:
             if self._is_dtype_bool:
                 self._data[address] &= do_where(
-- 
2.43.0


From 0f8ae32dd1f9b98f5fa30a161cd5b843a632e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 029/111] fix: accept sequences in CMemory.subtract_ and
 CMemory.divide_

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index e1b6e8a..679c4a8 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -681,7 +681,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.add_(key, -value, where)
+        self.add_(key, -self._get_value(value), where)
 
     def divide_(self, key: Numbers, value: Numbers, where: Optional[Numbers] = None):
         """
@@ -695,7 +695,7 @@ class CMemory:
                 If a `where` mask is given, then modifications will happen only
                 on the memory slots whose corresponding mask values are True.
         """
-        self.multiply_(key, 1 / value, where)
+        self.multiply_(key, 1 / self._get_value(value), where)
 
     def __getitem__(self, key: Numbers) -> torch.Tensor:
         """
-- 
2.43.0


From 0a9855be544c58965445f777867428a8c251c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 030/111] fix: start a CDict without any existing key

---
 src/evotorch/tools/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 679c4a8..255aad6 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1206,6 +1206,7 @@ class CDict(Structure):
             dtype=torch.bool,
             device=device,
             verify=verify,
+            fill_with=False,
         )
 
     def get(self, key: Numbers, default: Optional[Numbers] = None) -> torch.Tensor:
-- 
2.43.0


From f56f4a76c935067f788cb4cc6eb5894930e2c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 031/111] fix: make masked clear(...) of CDict and CList work

---
 src/evotorch/tools/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 255aad6..d36da1f 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1367,7 +1367,7 @@ class CDict(Structure):
             self._exist.data[:] = False
         else:
             where = self._get_where(where)
-            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.shape)
+            all_false = torch.tensor(False, dtype=torch.bool, device=self._exist.device).expand(self._exist.data.shape)
             self._exist.data[:] = do_where(where, all_false, self._exist.data[:])
 
     @property
@@ -1995,7 +1995,7 @@ class CList(Structure):
             self._end.data[:] = -1
         else:
             where = self._get_where(where)
-            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.shape)
+            all_minus_ones = torch.tensor(-1, dtype=torch.int64, device=self._begin.device).expand(self._begin.data.shape)
             self._begin.data[:] = do_where(where, all_minus_ones, self._begin.data)
             self._end.data[:] = do_where(where, all_minus_ones, self._end.data)
 
-- 
2.43.0


From 8529fa6e44edb3c7916b9d0a919fd7134efda025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 032/111] fix: make is_batched of CDict, CList and CBag work

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index d36da1f..7f6d33c 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -837,7 +837,7 @@ class Structure:
         """
         True if this structure is batched; False otherwise.
         """
-        return self._batch_ndim > 0
+        return self._data.is_batched
 
     @property
     def dtype(self) -> torch.dtype:
-- 
2.43.0


From 6633fec2eb48c093fe48c7e47904e245911cf38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 033/111] fix: do not consider an empty CList of maximum length
 1 as full

---
 src/evotorch/tools/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 7f6d33c..f0e1f12 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1644,7 +1644,7 @@ class CList(Structure):
     def _is_full(self) -> torch.Tensor:
         begin = self._begin[self._all_zeros]
         end = self._end[self._all_zeros]
-        return ((end - begin) % self._max_length) == (self._max_length - 1)
+        return (~self._is_empty()) & (((end - begin) % self._max_length) == (self._max_length - 1))
 
     @staticmethod
     def _considering_where(other_mask: torch.Tensor, where: Optional[torch.Tensor]) -> torch.Tensor:
-- 
2.43.0


From 5379bdd90637ffb1a9b8b0c45899deb45212dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 034/111] fix: report out-of-range indices of a CList instead
 of letting them wrap around

---
 src/evotorch/tools/structures.py | 37 ++++++--------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index f0e1f12..48eaac2 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -1710,34 +1710,11 @@ class CList(Structure):
                 )
         return key
 
-    def _is_underlying_key_valid(self, underlying_key: torch.Tensor) -> torch.Tensor:
-        within_valid_range = (underlying_key >= 0) & (underlying_key < self._max_length)
-        begin = self._begin[self._all_zeros]
-        end = self._end[self._all_zeros]
-        empty = self._is_empty()
-        non_empty = ~empty
-        larger_end = non_empty & (end > begin)
-        smaller_end = non_empty & (end < begin)
-        same_begin_end = (begin == end) & (~empty)
-        valid = within_valid_range & (
-            (same_begin_end & (underlying_key == begin))
-            | (larger_end & (underlying_key >= begin) & (underlying_key <= end))
-            | (smaller_end & ((underlying_key <= end) | (underlying_key >= begin)))
-        )
-        return valid
-
-    def _mod_underlying_key(self, underlying_key: torch.Tensor, *, verify: Optional[bool] = None) -> torch.Tensor:
-        verify = self._verify if verify is None else verify
-        if self._verify:
-            where_negative = underlying_key < 0
-            where_too_large = underlying_key >= self._max_length
-            underlying_key = underlying_key.clone()
-            underlying_key[where_negative] += self._max_length
-            underlying_key[where_too_large] -= self._max_length
-        else:
-            underlying_key = underlying_key % self._max_length
-
-        return underlying_key
+    def _is_key_valid(self, key: torch.Tensor) -> torch.Tensor:
+        # Note that the validity cannot be decided by looking at the underlying key: an out-of-range key can refer to
+        # an occupied slot of the circular storage.
+        length = self.length
+        return (key < length) & (key >= -length)
 
     def _get_underlying_key(
         self,
@@ -1754,10 +1731,10 @@ class CList(Structure):
         underlying_key_for_pos_index = self._begin[self._all_zeros] + key
         underlying_key_for_neg_index = self._end[self._all_zeros] + key + 1
         underlying_key = torch.where(key >= 0, underlying_key_for_pos_index, underlying_key_for_neg_index)
-        underlying_key = self._mod_underlying_key(underlying_key, verify=verify)
+        underlying_key = underlying_key % self._max_length
 
         if verify or return_validity:
-            valid = self._is_underlying_key_valid(underlying_key)
+            valid = self._is_key_valid(key)
         else:
             valid = None
 
-- 
2.43.0


From 3afd25b3e40daa9ecd49ef1fffa86421a0481e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:09 +0000
Subject: [PATCH 035/111] fix: keep the values of a CBag intact while shuffling
 (unbatched bags, value ranges, small integer types)

---
 src/evotorch/tools/structures.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/src/evotorch/tools/structures.py b/src/evotorch/tools/structures.py
index 48eaac2..f86cce3 100644
--- a/src/evotorch/tools/structures.py
+++ b/src/evotorch/tools/structures.py
@@ -2357,14 +2357,6 @@ class CBag(Structure):
 
         self._low_item = int(a)
         self._high_item = int(b)  # upper bound is exclusive
-        self._choice_count = self._high_item - self._low_item
-        self._bignum = self._choice_count + 1
-
-        if self._low_item < 1:
-            self._shift = 1 - self._low_item
-        else:
-            self._shift = 0
-
         self._empty = self._low_item - 1
         self._data.data[:] = self._empty
         self._sampling_phase: bool = False
@@ -2384,20 +2376,12 @@ class CBag(Structure):
         self._data.push_(value, where)
 
     def _shuffle(self):
-        dtype = self._data.dtype
-        device = self._data.device
-        nrows, ncols = self._data.data.shape
-
-        try:
-            gaussian_noise = torch.randn(nrows, ncols, dtype=torch.float32, device=device, **(self._gen_kwargs))
-            noise = gaussian_noise.argsort().to(dtype=dtype) * self._bignum
-            self._data.data[:] += torch.where(
-                self._data.data != self._empty, self._shift + noise, torch.tensor(0, dtype=dtype, device=device)
-            )
-            self._data.data[:] = self._data.data.sort(dim=-1, descending=True, stable=False).values
-        finally:
-            self._data.data[:] %= self._bignum
-            self._data.data[:] -= self._shift
+        data = self._data.data
+        noise = torch.randn(data.shape, dtype=torch.float32, device=data.device, **(self._gen_kwargs))
+
+        # The elements get sorted by their noises, the empty slots remaining at the end.
+        noise = torch.where(data != self._empty, noise, float("-inf"))
+        data[:] = data.gather(-1, noise.argsort(dim=-1, descending=True))
 
     def pop_(self, where: Optional[Numbers] = None) -> torch.Tensor:
         """
-- 
2.43.0


From 7e23023df9ffa7d159ff35ccdb22837912bb52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:55 +0000
Subject: [PATCH 036/111] fix: make as_immutable(...) work with an ObjectArray

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index cccf530..11befe2 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -66,7 +66,7 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, torch.Tensor):
         result = x.clone().as_subclass(ReadOnlyTensor)
     elif isinstance(x, ObjectArray):
-        result = x.clone().get_read_only_view()
+        result = x.clone(preserve_read_only=True).get_read_only_view()
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
-- 
2.43.0


From 929f2e2022ef3ef4cc98d797d1a9d2a5cbfc4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:55 +0000
Subject: [PATCH 037/111] fix: keep ObjectArray(slice_of=...) of a read-only
 ObjectArray read-only

---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index b958951..53e749d 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -198,7 +198,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                 self._objects = clone(self._objects)
 
         self._device = torch.device("cpu")
-        self._read_only = False
+        self._read_only = False if slice_of is None else slice_of[0]._read_only
 
     @property
     def shape(self) -> Size:
-- 
2.43.0


From 6c0f83f85835bac324b630ef8ef872e7760580b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 038/111] fix: preserve the read-only mode in
 ObjectArray.clone(preserve_read_only=True)

---
 src/evotorch/tools/objectarray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 53e749d..c543eea 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -435,6 +435,7 @@ class ObjectArray(Sequence, RecursivePrintable):
             for i, item in enumerate(self):
                 result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
+            result._read_only = self._read_only
             return result
 
     def __copy__(self) -> "ObjectArray":
-- 
2.43.0


From 835887e10e80e3911e5a22d39d5c3c84c20f343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 039/111] fix: make ObjectArray.repeat(n) work with an integer

---
 src/evotorch/tools/objectarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index c543eea..210eb59 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -284,7 +284,7 @@ class ObjectArray(Sequence, RecursivePrintable):
                     f" This is because {type_name} supports only 1-dimensional storage."
                     f" The received size tuple is: {sizes}."
                 )
-        num_repetitions = int(sizes[0])
+        num_repetitions = int(sizes[0] if is_sequence(sizes) else sizes)
         self_length = len(self)
         result = ObjectArray(num_repetitions * self_length)
 
-- 
2.43.0


From 654be4713739da2d30a07eafa77f98c7bbb697fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 040/111] fix: do not mix up the items of a generator while
 making them immutable

---
 src/evotorch/tools/immutable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 11befe2..2c83fcb 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -92,6 +92,9 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if put_into_memo:
         memo[x_id] = result
+        # The ids in the memo are meaningful only as long as their objects live. Here, like in Python's `deepcopy(...)`,
+        # we keep x alive (otherwise, when given a generator, the ids of already processed items would be reused).
+        memo.setdefault(id(memo), []).append(x)
 
     return result
 
-- 
2.43.0


From 45e759a600dee463e6fb02fcab71c51d0129af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 041/111] fix: make ImmutableSet picklable

---
 src/evotorch/tools/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 2c83fcb..7277731 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -142,6 +142,8 @@ class ImmutableContainer(ReadOnlyClonable, RecursivePrintable):
             all_values = self.values()
         elif isinstance(self, Sequence):
             all_values = self
+        elif isinstance(self, Set):
+            all_values = self
         else:
             raise NotImplementedError
 
-- 
2.43.0


From c9c351fa7c88fc9307a6328178ec82ee82fd842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 042/111] fix: make mutable copies of ImmutableDict work with
 tuple keys

---
 src/evotorch/tools/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 7277731..56ad67f 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -280,7 +280,7 @@ class ImmutableDict(ImmutableContainer, Mapping):
         result = {}
         memo[id(self)] = result
         for k, v in self.items():
-            k = mutable_copy(k, memo=memo)
+            # Note that the keys do not need to be copied: they are integers, strings, and tuples of those
             v = mutable_copy(v, memo=memo)
             result[k] = v
         return result
-- 
2.43.0


From 82bed45c377c099651d869a029a4d7f414f54d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 043/111] fix: preserve shared and cyclic references when
 making numpy object arrays immutable

---
 src/evotorch/tools/immutable.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 56ad67f..84b9911 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -70,9 +70,10 @@ def as_immutable(x: Any, *, memo: Optional[dict] = None) -> Any:
     elif isinstance(x, np.ndarray):
         if _numpy_array_stores_objects(x):
             result = ObjectArray(len(x))
+            memo[x_id] = result
             for i, element in enumerate(x):
-                result[i] = element
-            result = result.get_read_only_view()
+                result.set_item(i, element, memo=memo)
+            result._read_only = True
         else:
             result = x.copy()
             result.flags["WRITEABLE"] = False
-- 
2.43.0


From efb919cb310032f40775336bb89cfc6b79cb2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 044/111] fix: preserve shared and cyclic references when
 making mutable copies of object arrays

---
 src/evotorch/tools/immutable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/immutable.py b/src/evotorch/tools/immutable.py
index 84b9911..45aada4 100644
--- a/src/evotorch/tools/immutable.py
+++ b/src/evotorch/tools/immutable.py
@@ -113,8 +113,10 @@ def mutable_copy(x: Any, *, memo: Optional[dict] = None) -> Any:
 
     if _is_basic_data(x):
         result = x
-    elif isinstance(x, (ReadOnlyTensor, ObjectArray)):
+    elif isinstance(x, ReadOnlyTensor):
         result = x.clone(preserve_read_only=False)
+    elif isinstance(x, ObjectArray):
+        result = x.clone(preserve_read_only=False, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
     elif isinstance(x, torch.Tensor):
-- 
2.43.0


From 925c241e8edf946b0fa892d4a8099bf28847613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 045/111] fix: clone also the objects stored by numpy object
 arrays in deep_clone(...)

---
 src/evotorch/tools/cloning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index 1fe87e6..de752ae 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -145,6 +145,11 @@ def deep_clone(  # noqa: C901
         result = deepcopy(x, memo=memo)
     elif isinstance(x, np.ndarray):
         result = x.copy()
+        if x.dtype == np.dtype(object):
+            # The array stores arbitrary objects: the copy above shares them, therefore we clone them as well.
+            memo[x_id] = result
+            for index in np.ndindex(x.shape):
+                result[index] = call_self(x[index])
         result.flags["WRITEABLE"] = x.flags["WRITEABLE"]
     elif isinstance(x, (ObjectArray, ReadOnlyClonable)):
         result = x.clone(preserve_read_only=True, memo=memo)
-- 
2.43.0


From 101e88f62bedf6a67e8b2bf3d6e10162ffc1772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 046/111] fix: keep tuples as tuples when deep_clone(...) meets
 a cyclic reference to them

---
 src/evotorch/tools/cloning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/cloning.py b/src/evotorch/tools/cloning.py
index de752ae..d2b772d 100644
--- a/src/evotorch/tools/cloning.py
+++ b/src/evotorch/tools/cloning.py
@@ -176,9 +176,11 @@ def deep_clone(  # noqa: C901
             result.add(call_self(item))
     elif isinstance(x, tuple):
         result = []
-        memo[x_id] = result
         for item in x:
             result.append(call_self(item))
+        if x_id in memo:
+            # The tuple contains itself, and was already cloned while cloning its items.
+            return memo[x_id]
         if hasattr(x, "_fields"):
             result = type(x)(*result)
         else:
-- 
2.43.0


From 9c7745d2bd69184ba94b8a5a63eaf4b996504449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 047/111] fix: refuse a ReadOnlyTensor also when it is among
 multiple output arguments

---
 src/evotorch/tools/readonlytensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 253c47e..f9d0e66 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -131,7 +131,8 @@ class ReadOnlyTensor(torch.Tensor):
     @classmethod
     def __torch_function__(cls, func: Callable, types: Iterable, args: tuple = (), kwargs: Optional[Mapping] = None):
         if (kwargs is not None) and ("out" in kwargs):
-            if isinstance(kwargs["out"], ReadOnlyTensor):
+            out = kwargs["out"]
+            if any(isinstance(x, ReadOnlyTensor) for x in (out if isinstance(out, (tuple, list)) else [out])):
                 raise TypeError(
                     f"The `out` keyword argument passed to {func} is a ReadOnlyTensor."
                     f" A ReadOnlyTensor explicitly fails when referenced via the `out` keyword argument of any torch"
-- 
2.43.0


From 717ba1475f8d4df3cca4ef0025584a274437c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:56 +0000
Subject: [PATCH 048/111] fix: refuse in-place functions on a ReadOnlyTensor

---
 src/evotorch/tools/readonlytensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index f9d0e66..6ac4057 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -140,6 +140,17 @@ class ReadOnlyTensor(torch.Tensor):
                     f" This restriction is for making sure that the torch operations which could normally do in-place"
                     f" modifications do not operate on ReadOnlyTensor instances."
                 )
+        # In-place operations can also be requested via functions (e.g. `torch.Tensor.add_(x, y)`, or
+        # `torch.nn.functional.relu(x, inplace=True)`).
+        func_name = getattr(func, "__name__", "")
+        in_place = (
+            (func_name.endswith("_") and (not func_name.endswith("__")))
+            or (getattr(ReadOnlyTensor, func_name, None) is ReadOnlyTensor.__cannot_modify)
+            or ((kwargs is not None) and bool(kwargs.get("inplace", False)))
+        )
+        if in_place and (len(args) > 0) and isinstance(args[0], ReadOnlyTensor):
+            raise TypeError(f"The contents of a ReadOnlyTensor cannot be modified, therefore, {func} was refused.")
+
         return super().__torch_function__(func, types, args, kwargs)
 
 
-- 
2.43.0


From 13a6bc2f92ad6c977e50b0aea9665c9b924a4c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:20 +0000
Subject: [PATCH 049/111] fix: refuse assignments to the attributes data, imag
 and real of a ReadOnlyTensor

---
 src/evotorch/tools/readonlytensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/tools/readonlytensor.py b/src/evotorch/tools/readonlytensor.py
index 6ac4057..4a654ab 100644
--- a/src/evotorch/tools/readonlytensor.py
+++ b/src/evotorch/tools/readonlytensor.py
@@ -55,6 +55,12 @@ class ReadOnlyTensor(torch.Tensor):
         else:
             return super().__getattribute__(attribute_name)
 
+    def __setattr__(self, attribute_name: str, value: Any):
+        if attribute_name in ("data", "imag", "real"):
+            # Assigning to these attributes would overwrite the contents of the tensor.
+            raise TypeError(f"The attribute {repr(attribute_name)} of a ReadOnlyTensor cannot be modified")
+        super().__setattr__(attribute_name, value)
+
     def __cannot_modify(self, *ignore, **ignore_too):
         raise TypeError("The contents of a ReadOnlyTensor cannot be modified")
 
-- 
2.43.0


From c534314be9221d613fa62ec63fc1c858ca1b0fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:20 +0000
Subject: [PATCH 050/111] fix: preserve cyclic references when cloning an
 ObjectArray

---
 src/evotorch/tools/objectarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 210eb59..0483afc 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -433,7 +433,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             memo[self_id] = result
 
             for i, item in enumerate(self):
-                result[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
+                # Note that the item, being stored by an ObjectArray, is already in its immutable form.
+                result._objects[i] = deep_clone(item, otherwise_deepcopy=True, memo=memo)
 
             result._read_only = self._read_only
             return result
-- 
2.43.0


From 3ecb4397a80a56bb697d10431dc6fd59980bac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:09 +0000
Subject: [PATCH 051/111] fix: do not let ObjectArray slice assignments
 overwrite their own source

---
 src/evotorch/tools/objectarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/tools/objectarray.py b/src/evotorch/tools/objectarray.py
index 0483afc..d914b9b 100644
--- a/src/evotorch/tools/objectarray.py
+++ b/src/evotorch/tools/objectarray.py
@@ -381,7 +381,8 @@ class ObjectArray(Sequence, RecursivePrintable):
             if slice_refers_to_whole_array:
                 memo[id(x)] = self
 
-            if not hasattr(x, "__len__"):
+            if isinstance(x, ObjectArray) or (not hasattr(x, "__len__")):
+                # An ObjectArray might be sharing its storage with self, therefore, it is read before starting to write.
                 x = list(x)
 
             if len(x) != len(indices):
-- 
2.43.0


From c238d5edc12b7deea05e81e91703d808e2125519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:00 +0000
Subject: [PATCH 052/111] fix: keep clones of an already used NEProblem usable

---
 src/evotorch/neuroevolution/neproblem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index 4f03195..acddc55 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -316,9 +316,9 @@ class NEProblem(BaseNEProblem):
 
     def _prepare(self) -> None:
         """Instantiate the network on the target device, if not already done"""
+        # Note that the reference to the original network is kept: the instantiated network is not serialized, therefore,
+        # the clones of this problem (which might be made after this preparation) will instantiate it again.
         self.instantiated_network = self._instantiate_net(self._original_network)
-        # Clear reference to original network
-        self._original_network = None
 
     def make_net(self, parameters: Iterable) -> nn.Module:
         """
-- 
2.43.0


From 09ce17978700a7ce825101cf4049b835c5a17cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:00 +0000
Subject: [PATCH 053/111] fix: allow cloning and pickling an already used
 SupervisedNE

---
 src/evotorch/neuroevolution/supervisedne.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/supervisedne.py b/src/evotorch/neuroevolution/supervisedne.py
index 9366e3b..3f95ac6 100644
--- a/src/evotorch/neuroevolution/supervisedne.py
+++ b/src/evotorch/neuroevolution/supervisedne.py
@@ -305,6 +305,11 @@ class SupervisedNE(NEProblem):
         else:
             return self._loss_func(y_hat, y)
 
+    @property
+    def _nonserialized_attribs(self) -> List[str]:
+        # The iterator of a DataLoader cannot be cloned or pickled
+        return super()._nonserialized_attribs + ["dataloader_iterator"]
+
     def _prepare(self) -> None:
         self.dataloader = self.make_dataloader()
 
-- 
2.43.0


From 6d964d7c58735666e1e248e61f0502ab939aadab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:32 +0000
Subject: [PATCH 054/111] fix: do not skip a hook callable when an earlier one
 unregisters itself

---
 src/evotorch/tools/hook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/hook.py b/src/evotorch/tools/hook.py
index 1c189ef..67a2df4 100644
--- a/src/evotorch/tools/hook.py
+++ b/src/evotorch/tools/hook.py
@@ -82,7 +82,7 @@ class Hook(MutableSequence):
 
         result: Optional[Union[dict, list]] = None
 
-        for f in self._funcs:
+        for f in tuple(self._funcs):
             tmp = f(*all_args, **all_kwargs)
             if tmp is not None:
                 if isinstance(tmp, Mapping):
-- 
2.43.0


From 03f123e1236a6fc205dcb8ae7abda09ca0b888b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:06 +0000
Subject: [PATCH 055/111] fix: keep earlier multi-objective status reports from
 changing with later evaluations

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index c251e3e..5837c6a 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2394,7 +2394,7 @@ class Problem(TensorMakerMixin, Serializable):
                 worst_eval=float(self._worst[0].evals[0]),
             )
         else:
-            return {"best": self._best, "worst": self._worst}
+            return {"best": list(self._best), "worst": list(self._worst)}
 
     def compare_solutions(self, a: "Solution", b: "Solution", obj_index: Optional[int] = None) -> float:
         """
-- 
2.43.0


From 446c8375681a312e4a65ce5319b6c202d352e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:24 +0000
Subject: [PATCH 056/111] fix: allow reading the status of IPOP when the
 restarted algorithm has no population yet

---
 src/evotorch/algorithms/restarter/modify_restart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 47c6599..1898eb7 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -59,7 +59,8 @@ class IPOP(ModifyingRestart):
 
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
-        if self.search_algorithm.population.evals.std() < self.min_fitness_stdev:
+        population = self.search_algorithm.population
+        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From a27537b3dce1dcf912f8c30eca293656eb0876db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:24 +0000
Subject: [PATCH 057/111] fix: leave the evaluation data out of the fitness
 deviation considered by IPOP

---
 src/evotorch/algorithms/restarter/modify_restart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 1898eb7..6cf5552 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -60,7 +60,9 @@ class IPOP(ModifyingRestart):
     def _search_algorithm_terminated(self) -> bool:
         # Additional check on standard deviation of fitnesses of population
         population = self.search_algorithm.population
-        if (population is not None) and (population.evals.std() < self.min_fitness_stdev):
+        if (population is not None) and (
+            population.evals[:, : len(self.problem.senses)].std() < self.min_fitness_stdev
+        ):
             return True
         return super()._search_algorithm_terminated()
 
-- 
2.43.0


From eabbdef0dc5c21a73fdcccbdacd25465a3b46c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:41 +0000
Subject: [PATCH 058/111] fix: let restarts of IPOP keep using the given
 operators and problem instead of deep copies of them

---
 src/evotorch/algorithms/restarter/modify_restart.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/restarter/modify_restart.py b/src/evotorch/algorithms/restarter/modify_restart.py
index 6cf5552..ab6dca8 100644
--- a/src/evotorch/algorithms/restarter/modify_restart.py
+++ b/src/evotorch/algorithms/restarter/modify_restart.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from copy import deepcopy
 from typing import Type
 
 from .restart import Restart
@@ -69,7 +68,7 @@ class IPOP(ModifyingRestart):
     def _modify_algorithm_args(self) -> None:
         # Only modify arguments if this isn't the first restart
         if self.num_restarts >= 1:
-            new_args = deepcopy(self._algorithm_args)
+            new_args = dict(self._algorithm_args)
             # Multiply population size
             new_args["popsize"] = int(self.popsize_multiplier * len(self.search_algorithm.population))
             self._algorithm_args = new_args
-- 
2.43.0


From 8d087ee6e4196117449a4fc4047125f3b4b91e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:02 +0000
Subject: [PATCH 059/111] fix: keep the covariance of CMAES positive definite
 when limiting its standard deviations

---
 src/evotorch/algorithms/cmaes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index c7039a8..74d2e30 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -74,8 +74,9 @@ def _limit_stdev(sigma: torch.Tensor, C: torch.Tensor, stdev_min: Optional[float
         C = unscaled_stdevs.pow(2.0)
     else:
         # Non-separable case
-        C = C.clone()
-        torch.diagonal(C)[:] = unscaled_stdevs.pow(2.0)
+        # Rescale the rows and the columns, so that the correlations (hence also the positive definiteness) are preserved
+        scale = unscaled_stdevs / torch.sqrt(torch.diag(C))
+        C = C * torch.outer(scale, scale)
 
     return C
 
-- 
2.43.0


From e0fe7e88bc6efe50b4b6cbca8d768cda9d71bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:02 +0000
Subject: [PATCH 060/111] fix: normalize the evolution path of CMAES by the
 number of completed updates

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index 74d2e30..f65e857 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -40,7 +40,7 @@ def _h_sig(p_sigma: torch.Tensor, c_sigma: float, iter: int) -> torch.Tensor:
     # infer dimension from p_sigma
     d = p_sigma.shape[-1]
     # Compute the discounted squared sum
-    squared_sum = torch.norm(p_sigma).pow(2.0) / (1 - (1 - c_sigma) ** (2 * iter + 1))
+    squared_sum = torch.norm(p_sigma).pow(2.0) / (1 - (1 - c_sigma) ** (2 * (iter + 1)))
     # Check boolean flag and return
     stall = (squared_sum / d) - 1 < 1 + 4.0 / (d + 1)
     return stall.any().to(p_sigma.dtype)
-- 
2.43.0


From 335ee9e6403cddab618273fece6d8de911a79b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:40 +0000
Subject: [PATCH 061/111] fix: accept explicitly given rank-1 and rank-mu
 learning rates in CMAES

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index f65e857..d555625 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -381,7 +381,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
 
         # How often to decompose C
         if limit_C_decomposition:
-            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * (self.c_1.cpu() + self.c_mu.cpu())))))
+            self.decompose_C_freq = max(1, int(np.floor(_safe_divide(1, 10 * d * float(self.c_1 + self.c_mu)))))
         else:
             self.decompose_C_freq = 1
 
-- 
2.43.0


From e1aa588afff6db23ba159b5143dd26445a768b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:40 +0000
Subject: [PATCH 062/111] fix: allow CMAES to work on problems of length 1

---
 src/evotorch/algorithms/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/cmaes.py b/src/evotorch/algorithms/cmaes.py
index d555625..3f63d8b 100644
--- a/src/evotorch/algorithms/cmaes.py
+++ b/src/evotorch/algorithms/cmaes.py
@@ -252,7 +252,7 @@ class CMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
             center_init = center_init.values.clone()
 
         # Store the center
-        self.m = self._problem.make_tensor(center_init).squeeze()
+        self.m = torch.atleast_1d(self._problem.make_tensor(center_init).squeeze())
         valid_shaped_m = (self.m.ndim == 1) and (len(self.m) == self._problem.solution_length)
         if not valid_shaped_m:
             raise ValueError(
-- 
2.43.0


From ed147d303fd35b2351cd1f4b117290d8d64fa3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:08 +0000
Subject: [PATCH 063/111] fix: keep the dtype and device of the center when the
 spread is given as a radius

---
 src/evotorch/algorithms/functional/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/algorithms/functional/misc.py b/src/evotorch/algorithms/functional/misc.py
index b0683fa..9922b6a 100644
--- a/src/evotorch/algorithms/functional/misc.py
+++ b/src/evotorch/algorithms/functional/misc.py
@@ -154,7 +154,9 @@ def _get_stdev_init(
         # the vector(s) is/are equal to the given radius value(s).
         radius_init = torch.as_tensor(radius_init, dtype=dtype, device=device)
         stdev_element = torch.sqrt((radius_init**2) / solution_length)
-        final_stdev = stdev_element[..., None] * torch.ones(solution_length)
+        final_stdev = stdev_element[..., None] * torch.ones(
+            solution_length, dtype=dtype, device=device
+        )
         return final_stdev
     else:
         raise ValueError(
-- 
2.43.0


From 33ea242397c02c2f3e9839cf6b98d5b6479500c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:38 +0000
Subject: [PATCH 064/111] fix: ignore arguments without a declared number of
 dimensions when converting scalars in expects_ndim

---
 src/evotorch/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index d8e40c0..9e75f15 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -712,7 +712,7 @@ def expects_ndim(  # noqa: C901
                         cls.encountered_dtypes = set()
                         cls.encountered_devices = set()
                         for expected_arg_ndim, arg in zip(expected_ndims, args):
-                            if (expected_arg_ndims is not None) and isinstance(arg, torch.Tensor):
+                            if (expected_arg_ndim is not None) and isinstance(arg, torch.Tensor):
                                 # If the argument has a declared expected ndim, and also if it is a PyTorch tensor,
                                 # then we add its dtype and device information to the sets `encountered_dtypes` and
                                 # `encountered_devices`.
-- 
2.43.0


From e332a65f91cb209ebb2e4d2b4698f157101ce2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:38 +0000
Subject: [PATCH 065/111] fix: refuse undeclared positional arguments in
 expects_ndim instead of dropping them

---
 src/evotorch/decorators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/decorators.py b/src/evotorch/decorators.py
index 9e75f15..ec1265d 100644
--- a/src/evotorch/decorators.py
+++ b/src/evotorch/decorators.py
@@ -783,6 +783,12 @@ def expects_ndim(  # noqa: C901
                     # Finally, using our new dtype and new device, we convert the scalar to a tensor.
                     return torch.as_tensor(scalar, dtype=dtype, device=device)
 
+            if len(args) > len(expected_ndims):
+                raise TypeError(
+                    f"Received {len(args)} positional arguments, but the numbers of dimensions were declared only for"
+                    f" {len(expected_ndims)} of them."
+                )
+
             # First, we want to make sure that each positional argument is a PyTorch tensor.
             # So, we initialize `new_args` as an empty list, which will be filled with the tensor counterparts
             # of the original positional arguments.
-- 
2.43.0


From 9c5a14054e9e14e8974aeb7869f76d40be9f0387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 066/111] fix: accept dtypes given as strings when making
 random tensors

---
 src/evotorch/tools/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 4f42b38..17af59b 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1280,6 +1280,7 @@ def _out_tensor_for_random_operation(
     device: Optional[Device] = None,
 ) -> torch.Tensor:
     if out is None:
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         out = torch.empty(tuple(), dtype=dtype, device=device).expand(*size)
         out = out + make_batched_false_for_vmap(out.device)
     else:
-- 
2.43.0


From 291f39202902609bea9b6ac3cec37ad8b705e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 067/111] fix: respect the bounds of make_uniform(...) when
 their range exceeds the integer type

---
 src/evotorch/tools/misc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 17af59b..b29cf69 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1632,15 +1632,19 @@ def make_uniform(
         else:
             _invalid_bound_args()
     elif out.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
-        out.random_(**gen_kwargs)
         if (lb is None) and (ub is None):
+            out.random_(**gen_kwargs)
             out %= 2
         elif (lb is not None) and (ub is not None):
             _cast_bounds()
-            diff = (ub - lb) + 1
-            out -= lb
-            out %= diff
-            out += lb
+            # The size of the interval might not be representable by the (possibly small) dtype of `out`.
+            lb = lb.to(torch.int64)
+            ub = ub.to(torch.int64)
+            values = out.to(torch.int64)
+            values.random_(**gen_kwargs)
+            values %= (ub - lb) + 1
+            values += lb
+            out.copy_(values)
         else:
             _invalid_bound_args()
     else:
-- 
2.43.0


From b341a637e7345fc08dc3e70a341a9d5f2ac78edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 068/111] fix: raise (instead of returning) the error about the
 device of an ObjectArray

---
 src/evotorch/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index b29cf69..6a8ce78 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1243,7 +1243,7 @@ def make_empty(
                 size = size[0]
             return ObjectArray(size)
         else:
-            return ValueError(
+            raise ValueError(
                 f"Invalid device for ObjectArray: {repr(device)}. Note: an ObjectArray can only be stored on 'cpu'."
             )
     else:
-- 
2.43.0


From 9fe8d12ba2bcb263b8a72c1e8025c921da74ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 069/111] fix: let as_tensor(...) infer the dtype and move
 tensors between devices, as documented

---
 src/evotorch/tools/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 6a8ce78..b1e8063 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1856,7 +1856,7 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
     """
     from .objectarray import ObjectArray
 
-    if (dtype is None) and isinstance(x, (torch.Tensor, ObjectArray)):
+    if (dtype is None) and isinstance(x, ObjectArray):
         if (device is None) or (str(device) == "cpu"):
             return x
         else:
@@ -1877,7 +1877,7 @@ def as_tensor(x: Any, *, dtype: Optional[DType] = None, device: Optional[Device]
             result[:] = x
             return result
     else:
-        dtype = to_torch_dtype(dtype)
+        dtype = None if dtype is None else to_torch_dtype(dtype)
         return torch.as_tensor(x, dtype=dtype, device=device)
 
 
-- 
2.43.0


From 1cece5eec9e789c6183b3d7d96dee63fc786ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 070/111] fix: accept an integer as shape in
 empty_tensor_like(...) for an ObjectArray

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index b1e8063..0a876e7 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -963,6 +963,8 @@ def empty_tensor_like(
                         f" Therefore, this given shape is incompatible: {shape}"
                     )
                 n = int(shape[0])
+            else:
+                n = int(shape)
         elif length is None and shape is None:
             n = len(source)
         else:
-- 
2.43.0


From 6bc1338e770e5f3cb94edb1e86f7872eb5b0d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 071/111] fix: let make_ones(...) and make_nan(...) fill also
 scalar output tensors

---
 src/evotorch/tools/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 0a876e7..b4de960 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1404,7 +1404,7 @@ def make_ones(
         return _scalar_tensor(1, out=out, dtype=dtype, device=device)
     else:
         out = _out_tensor(*size, out=out, dtype=dtype, device=device)
-        out[:] = 1
+        out.fill_(1)
         return out
 
 
@@ -1452,7 +1452,7 @@ def make_nan(
         return _scalar_tensor(float("nan"), out=out, dtype=dtype, device=device)
     else:
         out = _out_tensor(*size, out=out, dtype=dtype, device=device)
-        out[:] = float("nan")
+        out.fill_(float("nan"))
         return out
 
 
-- 
2.43.0


From 3c57942946c28ca598b02ed6d06d191070455a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:32 +0000
Subject: [PATCH 072/111] fix: allow use_eval_dtype in the method
 make_randint(...)

---
 src/evotorch/tools/tensormaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/tools/tensormaker.py b/src/evotorch/tools/tensormaker.py
index fcf8d17..cde7a5c 100644
--- a/src/evotorch/tools/tensormaker.py
+++ b/src/evotorch/tools/tensormaker.py
@@ -736,7 +736,7 @@ class TensorMakerMixin:
             distributed values.
         """
 
-        if (dtype is None) and (out is None):
+        if (dtype is None) and (out is None) and (not use_eval_dtype):
             dtype = torch.int64
 
         args, kwargs = self.__get_all_args_for_random_maker(
-- 
2.43.0


From f9f3584604d72263710d30b34ac6346878b385cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:41 +0000
Subject: [PATCH 073/111] fix: accept torch dtypes in numpy_copy(...)

---
 src/evotorch/tools/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index b4de960..2c151c6 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1070,6 +1070,8 @@ def numpy_copy(x: Iterable, dtype: Optional[DType] = None) -> np.ndarray:
     from .objectarray import ObjectArray
 
     needs_casting = dtype is not None
+    if needs_casting:
+        dtype = to_numpy_dtype(dtype)
 
     if isinstance(x, ObjectArray):
         result = x.numpy()
-- 
2.43.0


From 394e3801c6bf5729c0fab469460f95d580fa7675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:37 +0000
Subject: [PATCH 074/111] fix: respect the number of choices of
 make_randint(...) when it exceeds the integer type or is a float

---
 src/evotorch/tools/misc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index 2c151c6..a145558 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -1814,8 +1814,15 @@ def make_randint(
         dtype = torch.int64
     out = _out_tensor_for_random_operation(*size, out=out, dtype=dtype, device=device)
     gen_kwargs = _generator_kwargs(generator)
-    out.random_(**gen_kwargs)
-    out %= n
+    if out.dtype in (torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64):
+        # The number of choices might not be representable by the (possibly small) dtype of `out`.
+        values = out.to(torch.int64)
+        values.random_(**gen_kwargs)
+        values %= torch.as_tensor(n, dtype=torch.int64, device=out.device)
+        out.copy_(values)
+    else:
+        out.random_(**gen_kwargs)
+        out %= n
 
     if scalar_requested:
         out = out[0]
-- 
2.43.0


From 5d5b261f90f85a1c3c65d1cb43bdde7ad04794f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:46 +0000
Subject: [PATCH 075/111] fix: let network strings refer only to module types,
 not to other names of the searched namespaces

---
 src/evotorch/neuroevolution/net/parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/parser.py b/src/evotorch/neuroevolution/net/parser.py
index c00e25b..d1dcc2d 100644
--- a/src/evotorch/neuroevolution/net/parser.py
+++ b/src/evotorch/neuroevolution/net/parser.py
@@ -98,12 +98,11 @@ def concat_modules(a: nn.Module, b: nn.Module) -> nn.Module:
 
 
 def _get_nn_module(name: str) -> Type:
-    if hasattr(layers, name):
-        return getattr(layers, name)
-    elif hasattr(nn, name):
-        return getattr(nn, name)
-    else:
-        raise NetParsingError(f"Unrecognized module class: {repr(name)}")
+    for namespace in (layers, nn):
+        module_class = getattr(namespace, name, None)
+        if isinstance(module_class, type) and issubclass(module_class, nn.Module):
+            return module_class
+    raise NetParsingError(f"Unrecognized module class: {repr(name)}")
 
 
 def _eval_with_constants(node: ast.expr, constants: dict) -> Any:
-- 
2.43.0


From ed905e3850d737cc372b44e00fe14cd8ff5eb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:46 +0000
Subject: [PATCH 076/111] fix: report unrecognized forms of layer calls in
 network strings as parsing errors

---
 src/evotorch/neuroevolution/net/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/parser.py b/src/evotorch/neuroevolution/net/parser.py
index d1dcc2d..2d77931 100644
--- a/src/evotorch/neuroevolution/net/parser.py
+++ b/src/evotorch/neuroevolution/net/parser.py
@@ -188,11 +188,16 @@ def _eval_with_constants(node: ast.expr, constants: dict) -> Any:
 
 
 def _process_call_expr(node: ast.Call, constants: dict) -> nn.Module:
+    if not isinstance(node.func, ast.Name):
+        raise NetParsingError("Expected a simple name for the module class.", node.lineno, node.col_offset)
+
     args = [_eval_with_constants(arg, constants=constants) for arg in node.args]
 
     kwargs = {}
     for kw in node.keywords:
         kwname = kw.arg
+        if kwname is None:
+            raise NetParsingError("Unpacking via '**' is not recognized.", node.lineno, node.col_offset)
         kwvalue = _eval_with_constants(kw.value, constants=constants)
         kwargs[kwname] = kwvalue
 
-- 
2.43.0


From 6393143e059125b6062571b21221ea05d13f01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:31 +0000
Subject: [PATCH 077/111] fix: refuse repeated keyword arguments in network
 strings

---
 src/evotorch/neuroevolution/net/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/neuroevolution/net/parser.py b/src/evotorch/neuroevolution/net/parser.py
index 2d77931..8372192 100644
--- a/src/evotorch/neuroevolution/net/parser.py
+++ b/src/evotorch/neuroevolution/net/parser.py
@@ -198,6 +198,8 @@ def _process_call_expr(node: ast.Call, constants: dict) -> nn.Module:
         kwname = kw.arg
         if kwname is None:
             raise NetParsingError("Unpacking via '**' is not recognized.", node.lineno, node.col_offset)
+        if kwname in kwargs:
+            raise NetParsingError(f"Repeated keyword argument: {kwname}", node.lineno, node.col_offset)
         kwvalue = _eval_with_constants(kw.value, constants=constants)
         kwargs[kwname] = kwvalue
 
-- 
2.43.0


From 4b1fc763a7bfecc6ecd53cc6869cb974085cc50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:43 +0000
Subject: [PATCH 078/111] fix: return the stored buffers (instead of their
 names) from ModuleExpectingFlatParameters.buffers

---
 src/evotorch/neuroevolution/net/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index 4c912db..5ef88d1 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -149,7 +149,7 @@ class ModuleExpectingFlatParameters:
     @property
     def buffers(self) -> tuple:
         """Get the stored buffers"""
-        return tuple(self.__buffer_dict)
+        return tuple(self.__buffer_dict.values())
 
     @property
     def parameter_length(self) -> int:
-- 
2.43.0


From 51711637b3849c35c3f7b71599919574d063f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:43 +0000
Subject: [PATCH 079/111] fix: do not write into the parameter tensor of the
 caller when replacing some parameters of a Policy

---
 src/evotorch/neuroevolution/net/vecrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index cfb04cc..3ad1047 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1226,6 +1226,7 @@ class Policy:
             if indices is None:
                 self.__parameters = parameters
             else:
+                self.__parameters = self.__parameters.clone()
                 self.__parameters[indices] = parameters
 
         if reset:
-- 
2.43.0


From eaea87fb090136c09567bb282b676c2a5928ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:09 +0000
Subject: [PATCH 080/111] fix: let the networks made by
 Policy.to_torch_module(...) have their own parameters

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 3ad1047..58151b0 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1358,7 +1358,7 @@ class Policy:
         """
         with torch.no_grad():
             net = deepcopy(self.__module).to(parameter_vector.device)
-            nnu.vector_to_parameters(parameter_vector, net.parameters())
+            nnu.vector_to_parameters(parameter_vector.clone(), net.parameters())
         return net
 
 
-- 
2.43.0


From 9542bf0cf552b1132f42be6e5e9b993c4e3ecc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:16:09 +0000
Subject: [PATCH 081/111] fix: reset also the modules which manage their own
 states, like LocomotorNet, before a new episode

---
 src/evotorch/neuroevolution/neproblem.py        |  3 ++-
 src/evotorch/neuroevolution/net/functional.py   |  8 ++++++++
 .../neuroevolution/net/statefulmodule.py        | 17 +++++++++++++++++
 src/evotorch/neuroevolution/net/vecrl.py        |  1 +
 4 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/neproblem.py b/src/evotorch/neuroevolution/neproblem.py
index acddc55..a5f58d9 100644
--- a/src/evotorch/neuroevolution/neproblem.py
+++ b/src/evotorch/neuroevolution/neproblem.py
@@ -27,7 +27,7 @@ from ..tools.misc import Device, is_sequence, pass_info_if_needed
 from .baseneproblem import BaseNEProblem
 from .net.misc import count_parameters, fill_parameters
 from .net.parser import str_to_net
-from .net.statefulmodule import ensure_stateful
+from .net.statefulmodule import ensure_stateful, reset_module_states
 
 
 class NEProblem(BaseNEProblem):
@@ -337,6 +337,7 @@ class NEProblem(BaseNEProblem):
             parameters = self.as_tensor(parameters)
         with torch.no_grad():
             net = deepcopy(self.parameterize_net(parameters))
+            reset_module_states(net)
         return net
 
     def parameterize_net(self, parameters: torch.Tensor) -> nn.Module:
diff --git a/src/evotorch/neuroevolution/net/functional.py b/src/evotorch/neuroevolution/net/functional.py
index 5ef88d1..603b1ef 100644
--- a/src/evotorch/neuroevolution/net/functional.py
+++ b/src/evotorch/neuroevolution/net/functional.py
@@ -25,6 +25,8 @@ except ImportError:
 
 from contextlib import nullcontext
 
+from .statefulmodule import reset_module_states
+
 
 def _shape_length(shape: tuple) -> int:
     """
@@ -155,6 +157,12 @@ class ModuleExpectingFlatParameters:
     def parameter_length(self) -> int:
         return self.__param_length
 
+    def reset(self):
+        """
+        Reset the wrapped module, if it has modules which manage their own states.
+        """
+        reset_module_states(self.__net)
+
     def __call__(self, parameter_vector: torch.Tensor, x: torch.Tensor, h: Any = None) -> Any:
         """
         Call the wrapped module's forward pass procedure.
diff --git a/src/evotorch/neuroevolution/net/statefulmodule.py b/src/evotorch/neuroevolution/net/statefulmodule.py
index 40eae87..01a281d 100644
--- a/src/evotorch/neuroevolution/net/statefulmodule.py
+++ b/src/evotorch/neuroevolution/net/statefulmodule.py
@@ -18,6 +18,22 @@ import torch
 from torch import nn
 
 
+def reset_module_states(net: nn.Module):
+    """
+    Reset the states of the modules which manage their states themselves.
+
+    Such modules (e.g. `LocomotorNet`) have their own `reset()` methods.
+    All these `reset()` methods within the given network are called.
+
+    Args:
+        net: The network whose modules will be reset.
+    """
+    for module in net.modules():
+        reset = getattr(module, "reset", None)
+        if callable(reset):
+            reset()
+
+
 class StatefulModule(nn.Module):
     """
     A wrapper that provides a stateful interface for recurrent torch modules.
@@ -84,6 +100,7 @@ class StatefulModule(nn.Module):
         Reset the hidden state, if any.
         """
         self._hidden = None
+        reset_module_states(self.wrapped_module)
 
 
 def ensure_stateful(net: nn.Module) -> StatefulModule:
diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 58151b0..7fd1acb 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1308,6 +1308,7 @@ class Policy:
         """
         if indices is None:
             self.__state = None
+            self.__fmodule.reset()
         else:
             if self.__state is not None:
                 with torch.no_grad():
-- 
2.43.0


From 7cb8398fea1c981346ce132735095d96684febb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:43 +0000
Subject: [PATCH 082/111] fix: accept tuples of indices when resetting or
 replacing some of the networks of a Policy

---
 src/evotorch/neuroevolution/net/vecrl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 7fd1acb..77f1b3b 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -998,7 +998,8 @@ def reset_tensors(x: Any, indices: MaskOrIndices):
     """
     if isinstance(x, torch.Tensor):
         # If the first argument is a tensor, then we clear it according to the indices we received.
-        x[indices] = 0
+        # (Indices given as a tuple would be interpreted by PyTorch as a multi-dimensional index.)
+        x[list(indices) if isinstance(indices, tuple) else indices] = 0
     elif isinstance(x, (str, bytes, bytearray)):
         # str, bytes, and bytearray are the types of `Iterable` that we do not wish to process.
         # Therefore, we explicitly add a condition for them here, and explicitly state that nothing should be done
@@ -1227,7 +1228,7 @@ class Policy:
                 self.__parameters = parameters
             else:
                 self.__parameters = self.__parameters.clone()
-                self.__parameters[indices] = parameters
+                self.__parameters[list(indices) if isinstance(indices, tuple) else indices] = parameters
 
         if reset:
             self.reset(indices)
-- 
2.43.0


From f6a9cfe6e3989097a27979a04638ba313cf9b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:48 +0000
Subject: [PATCH 083/111] fix: do not start an episode beyond the requested
 number of episodes in SyncVectorEnv

---
 src/evotorch/neuroevolution/net/vecrl.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 77f1b3b..7229e28 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1869,10 +1869,8 @@ class SyncVectorEnv(BaseVectorEnv):
             if terminated or truncated:
                 was_last_episode = is_last_episode(env_index)
                 decrement_episode_counter(env_index)
-                obs_after_reset, info_after_reset = env.reset()
                 if not was_last_episode:
-                    observation = obs_after_reset
-                    info = info_after_reset
+                    observation, info = env.reset()
 
             return observation, reward, terminated, truncated, info
 
-- 
2.43.0


From 31e0fe55cfcbe3040b89dffb717312e051aa1ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:48 +0000
Subject: [PATCH 084/111] fix: refuse sub-environments with different action
 shapes in SyncVectorEnv

---
 src/evotorch/neuroevolution/net/vecrl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/net/vecrl.py b/src/evotorch/neuroevolution/net/vecrl.py
index 7229e28..dd0bc53 100644
--- a/src/evotorch/neuroevolution/net/vecrl.py
+++ b/src/evotorch/neuroevolution/net/vecrl.py
@@ -1633,7 +1633,7 @@ class SyncVectorEnv(BaseVectorEnv):
                 elif isinstance(env.action_space, Box):
                     if not isinstance(single_action_space, Box):
                         raise TypeError("The action space types of the sub-environments do not match")
-                    if env.observation_space.shape != single_observation_space.shape:
+                    if env.action_space.shape != single_action_space.shape:
                         raise ValueError("The action space shapes of the sub-environments do not match")
                 else:
                     assert False, "Code execution should not have reached here. This is most probably a bug."
-- 
2.43.0


From c8f94072feb66a22d83516583c5aecb4a27b7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:00 +0000
Subject: [PATCH 085/111] fix: pass the environment limit to the remote actors
 of VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index f46e7c1..5252d2f 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -447,7 +447,7 @@ class VecGymNE(BaseNEProblem):
                     if self._max_num_envs is not None:
                         max_num_envs_per_actor = split_workload(self._max_num_envs, len(self._actors))
                         for i_actor, actor in enumerate(self._actors):
-                            actor.call.remote("_set_actor_max_num_envs", max_num_envs_per_actor[i_actor])
+                            actor.call.remote("_set_actor_max_num_envs", [max_num_envs_per_actor[i_actor]], {})
                 self._actor_max_num_envs_ready = True
 
     def _set_actor_max_num_envs(self, n: int):
-- 
2.43.0


From 93606e9f42a7755ecd16e2685a5c535c762fc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:00 +0000
Subject: [PATCH 086/111] fix: make the action noise of VecGymNE Gaussian

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 5252d2f..05875f7 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -841,7 +841,7 @@ class VecGymNE(BaseNEProblem):
             if self._action_noise_stdev is not None:
                 # If we are to apply action noise, we sample from a Gaussian distribution and add the noise onto
                 # the actions.
-                action_per_env = action_per_env + (torch.rand_like(action_per_env) * self._action_noise_stdev)
+                action_per_env = action_per_env + (torch.randn_like(action_per_env) * self._action_noise_stdev)
 
             # Apply the actions, get the observations, rewards, and the 'done' flags.
             obs_per_env, reward_per_env, done_per_env, _ = env.step(action_per_env)
-- 
2.43.0


From c94fcf7cd795f413ac66f2780cddaec397828362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:00 +0000
Subject: [PATCH 087/111] fix: accept idle remote actors in VecGymNE with
 observation normalization

---
 src/evotorch/neuroevolution/vecgymne.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 05875f7..629e5ad 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -709,7 +709,8 @@ class VecGymNE(BaseNEProblem):
             total_episode_count += data["episode_count"]
             total_interaction_count += data["interaction_count"]
             if self.observation_normalization:
-                self.update_observation_stats(data["obs_stats_delta"])
+                if data["obs_stats_delta"] is not None:
+                    self.update_observation_stats(data["obs_stats_delta"])
 
         self.set_episode_count(total_episode_count)
         self.set_interaction_count(total_interaction_count)
-- 
2.43.0


From 1843268b78308f162f6c43fdf1e3f1992c3556f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 088/111] fix: count the interactions of the main process and
 of recreated actors once in GymNE

---
 src/evotorch/neuroevolution/gymne.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index 74d1ba9..d181203 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -278,6 +278,11 @@ class GymNE(NEProblem):
         self._interaction_count: int = 0
         self._episode_count: int = 0
 
+        # These are the values of the counters which were most recently reported by this instance to the main Problem
+        # object, for when this instance is a remote one.
+        self._reported_interaction_count: int = 0
+        self._reported_episode_count: int = 0
+
         super().__init__(
             objective_sense="max",  # RL is maximization
             network=network,  # Using the policy as the network
@@ -546,7 +551,12 @@ class GymNE(NEProblem):
         return result
 
     def _make_sync_data_for_main(self) -> Any:
-        result = dict(episode_count=self.episode_count, interaction_count=self.interaction_count)
+        result = dict(
+            episode_count_delta=(self.episode_count - self._reported_episode_count),
+            interaction_count_delta=(self.interaction_count - self._reported_interaction_count),
+        )
+        self._reported_episode_count = self.episode_count
+        self._reported_interaction_count = self.interaction_count
 
         if self.observation_normalization:
             result["obs_stats_delta"] = self.pop_observation_stats()
@@ -559,13 +569,13 @@ class GymNE(NEProblem):
         self._obs_stats.update(rs)
 
     def _use_sync_data_from_actors(self, received: list):
-        total_episode_count = 0
-        total_interaction_count = 0
+        total_episode_count = self.episode_count
+        total_interaction_count = self.interaction_count
 
         for data in received:
             data: dict
-            total_episode_count += data["episode_count"]
-            total_interaction_count += data["interaction_count"]
+            total_episode_count += data["episode_count_delta"]
+            total_interaction_count += data["interaction_count_delta"]
             if self.observation_normalization:
                 self.update_observation_stats(data["obs_stats_delta"])
 
@@ -591,6 +601,12 @@ class GymNE(NEProblem):
             else:
                 raise ValueError(f"When restoring the inner state of a remote worker, unrecognized state key: {k}")
 
+        # Whatever was inherited from the main Problem object is already known by the main Problem object.
+        self._reported_episode_count = self.episode_count
+        self._reported_interaction_count = self.interaction_count
+        if self.observation_normalization:
+            self.pop_observation_stats()
+
     def _extra_status(self, batch: SolutionBatch):
         return dict(total_interaction_count=self.interaction_count, total_episode_count=self.episode_count)
 
-- 
2.43.0


From 2025d1ef5095d3a02207c982cbab6aabdb615b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 089/111] fix: count the interactions of the main process and
 of recreated actors once in VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 629e5ad..165cd62 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -400,6 +400,11 @@ class VecGymNE(BaseNEProblem):
         self._interaction_count: int = 0
         self._episode_count: int = 0
 
+        # These are the values of the counters which were most recently reported by this instance to the main Problem
+        # object, for when this instance is a remote one.
+        self._reported_interaction_count: int = 0
+        self._reported_episode_count: int = 0
+
         device_is_cpu = (device is None) or (str(device) == "cpu")
         actors_use_gpu = (
             (num_actors is not None)
@@ -682,7 +687,12 @@ class VecGymNE(BaseNEProblem):
         return result
 
     def _make_sync_data_for_main(self) -> Any:
-        result = dict(episode_count=self.episode_count, interaction_count=self.interaction_count)
+        result = dict(
+            episode_count_delta=(self.episode_count - self._reported_episode_count),
+            interaction_count_delta=(self.interaction_count - self._reported_interaction_count),
+        )
+        self._reported_episode_count = self.episode_count
+        self._reported_interaction_count = self.interaction_count
 
         if self.observation_normalization:
             collected = self.pop_observation_stats()
@@ -701,13 +711,13 @@ class VecGymNE(BaseNEProblem):
             self._obs_stats.update(rn)
 
     def _use_sync_data_from_actors(self, received: list):
-        total_episode_count = 0
-        total_interaction_count = 0
+        total_episode_count = self.episode_count
+        total_interaction_count = self.interaction_count
 
         for data in received:
             data: dict
-            total_episode_count += data["episode_count"]
-            total_interaction_count += data["interaction_count"]
+            total_episode_count += data["episode_count_delta"]
+            total_interaction_count += data["interaction_count_delta"]
             if self.observation_normalization:
                 if data["obs_stats_delta"] is not None:
                     self.update_observation_stats(data["obs_stats_delta"])
@@ -734,6 +744,12 @@ class VecGymNE(BaseNEProblem):
             else:
                 raise ValueError(f"When restoring the inner state of a remote worker, unrecognized state key: {k}")
 
+        # Whatever was inherited from the main Problem object is already known by the main Problem object.
+        self._reported_episode_count = self.episode_count
+        self._reported_interaction_count = self.interaction_count
+        if self.observation_normalization:
+            self.pop_observation_stats()
+
     def _evaluate_batch(self, batch: SolutionBatch):
         if self._actor_max_num_envs is None:
             self._evaluate_subbatch(batch)
-- 
2.43.0


From 6dc584d9e51ebec70f8ca04cbaa9f0b3d0d31fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 090/111] fix: pass the environment limit also to recreated
 remote actors of VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 165cd62..87d93fd 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -443,9 +443,10 @@ class VecGymNE(BaseNEProblem):
         self.after_eval_hook.append(self._extra_status)
 
     def _parallelize(self):
+        actors_before = self._actors
         super()._parallelize()
         if self.is_main:
-            if not self._actor_max_num_envs_ready:
+            if (not self._actor_max_num_envs_ready) or (self._actors is not actors_before):
                 if self._actors is None:
                     self._actor_max_num_envs = self._max_num_envs
                 else:
-- 
2.43.0


From 4550270a3212a016237911b9b51a1ba00ec955b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 091/111] fix: report an invalid alive bonus schedule properly
 in VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 87d93fd..44a9ff9 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -389,8 +389,8 @@ class VecGymNE(BaseNEProblem):
                 # `alive_bonus_schedule` sequences with unrecognized lengths trigger an error.
                 raise ValueError(
                     f"Received invalid number elements as the alive bonus schedule."
-                    f" Expected 2 or 3 items, but got these: {self._alive_bonus_schedule}"
-                    f" (having a length of {len(self._alive_bonus_schedule)})."
+                    f" Expected 2 or 3 items, but got these: {alive_bonus_schedule}"
+                    f" (having a length of {alive_bonus_schedule_length})."
                 )
 
         # If `action_noise_stdev` is specified, store it.
-- 
2.43.0


From f36aa07eaa7e0e1098292e8e7f05fd11700349dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 092/111] fix: accept the string values of num_actors and
 num_gpus_per_actor in VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 44a9ff9..8df0b8f 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -408,9 +408,9 @@ class VecGymNE(BaseNEProblem):
         device_is_cpu = (device is None) or (str(device) == "cpu")
         actors_use_gpu = (
             (num_actors is not None)
-            and (num_actors > 1)
+            and (isinstance(num_actors, str) or (num_actors > 1))
             and (num_gpus_per_actor is not None)
-            and (num_gpus_per_actor > 0)
+            and (isinstance(num_gpus_per_actor, str) or (num_gpus_per_actor > 0))
         )
 
         if not device_is_cpu:
-- 
2.43.0


From add5073c4d3a314b06f92136b17977e634ac760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 093/111] fix: take num_subbatches into account in GymNE

---
 src/evotorch/neuroevolution/gymne.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evotorch/neuroevolution/gymne.py b/src/evotorch/neuroevolution/gymne.py
index d181203..8d8acfc 100644
--- a/src/evotorch/neuroevolution/gymne.py
+++ b/src/evotorch/neuroevolution/gymne.py
@@ -290,6 +290,7 @@ class GymNE(NEProblem):
             initial_bounds=initial_bounds,
             num_actors=num_actors,
             actor_config=actor_config,
+            num_subbatches=num_subbatches,
             subbatch_size=subbatch_size,
             device="cpu",
         )
-- 
2.43.0


From fd259fb5658df28b445267424948fa125b2e7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 094/111] fix: make the exported policies of VecGymNE usable
 when the observations are not float32

---
 src/evotorch/neuroevolution/vecgymne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 8df0b8f..523c325 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -982,7 +982,7 @@ class VecGymNE(BaseNEProblem):
             if self.observation_normalization and (self._obs_stats is not None):
                 # If observation normalization is needed and there are collected observation stats, then we wrap the
                 # policy with an ObsNormWrapperModule.
-                result = ObsNormWrapperModule(result, self._obs_stats)
+                result = ObsNormWrapperModule(result, self._obs_stats).to(self.dtype)
 
             if needs_clipping:
                 # If clipping is needed, then we wrap the policy with an ActClipWrapperModule
-- 
2.43.0


From 35fc3c50b4f2e05ccd7e0ae4877a37c17f96f832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:36 +0000
Subject: [PATCH 095/111] fix: let kill_actors do nothing when there are no
 actors

---
 src/evotorch/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 5837c6a..ec0038f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2122,8 +2122,9 @@ class Problem(TensorMakerMixin, Serializable):
                 " Problem instance."
                 " However, this Problem instance is on a remote actor."
             )
-        for actor in self._actors:
-            ray.kill(actor)
+        if self._actors is not None:
+            for actor in self._actors:
+                ray.kill(actor)
         self._actors = None
         self._actor_pool = None
 
-- 
2.43.0


From e498997e943d8afc94f17c4e9398983409934720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:07 +0000
Subject: [PATCH 096/111] fix: normalize integer observations in VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 523c325..4399ae6 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -838,6 +838,9 @@ class VecGymNE(BaseNEProblem):
             t_per_env = torch.zeros(num_envs, dtype=torch.int64, device=self._simulator_device)
 
         def normalize(observations: torch.Tensor, *, mask: torch.Tensor) -> torch.Tensor:
+            if not observations.dtype.is_floating_point:
+                # Observations of integers are normalized as real numbers.
+                observations = observations.to(params_per_env.dtype)
             original_observations = observations
             observations = observations[mask]
             if observations.shape[0] == 0:
-- 
2.43.0


From c2416ca009b262102a6a5225182338059880b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:20 +0000
Subject: [PATCH 097/111] fix: do not share the given observation statistics
 with VecGymNE

---
 src/evotorch/neuroevolution/vecgymne.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/neuroevolution/vecgymne.py b/src/evotorch/neuroevolution/vecgymne.py
index 4399ae6..214d64d 100644
--- a/src/evotorch/neuroevolution/vecgymne.py
+++ b/src/evotorch/neuroevolution/vecgymne.py
@@ -15,6 +15,7 @@
 import pickle
 import random
 from collections.abc import Mapping
+from copy import deepcopy
 from datetime import datetime
 from pathlib import Path
 from typing import Any, Callable, Iterable, Optional, Union
@@ -673,7 +674,7 @@ class VecGymNE(BaseNEProblem):
     def set_observation_stats(self, rn: RunningNorm):
         """Set the observation stats"""
         self._ensure_obsnorm()
-        self._obs_stats = rn
+        self._obs_stats = deepcopy(rn)
 
     def _use_sync_data_from_main(self, received: dict):
         for k, v in received.items():
-- 
2.43.0


From 815e32bfbf109649e5330f20c57823525091dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:08 +0000
Subject: [PATCH 098/111] fix: do not send empty pieces of a population to the
 remote actors

---
 src/evotorch/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index ec0038f..156fb16 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2591,7 +2591,8 @@ class Problem(TensorMakerMixin, Serializable):
             #    batch._evdata[row_begin:row_end, :] = evals
 
             mapresult = self._actor_pool.map_unordered(
-                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]), list(enumerate(pieces))
+                lambda a, v: a.evaluate_batch_piece.remote(v[0], v[1]),
+                [(i_piece, piece) for i_piece, piece in enumerate(pieces) if len(piece) > 0],
             )
             for i, evals in mapresult:
                 row_begin, row_end = pieces.indices_of(i)
-- 
2.43.0


From 6065c21071fbef90381f635eb7fdbfc6067e6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:45 +0000
Subject: [PATCH 099/111] fix: do not truncate fractional bounds when
 assert_almost_between examines integers

---
 src/evotorch/testing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index b41e926..44b8359 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -181,8 +181,9 @@ def assert_almost_between(
     if ub.shape != x.shape:
         ub = np.broadcast_to(ub, x.shape)
 
-    lb = np.asarray(lb, dtype=x.dtype)
-    ub = np.asarray(ub, dtype=x.dtype)
+    if np.issubdtype(x.dtype, np.floating):
+        lb = np.asarray(lb, dtype=x.dtype)
+        ub = np.asarray(ub, dtype=x.dtype)
 
     if atol is not None:
         atol = float(atol)
-- 
2.43.0


From 790b12eb96d15e9030b9cd073d66179968221107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:45 +0000
Subject: [PATCH 100/111] fix: do not truncate a fractional value when
 assert_eachclose examines integers

---
 src/evotorch/testing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/testing.py b/src/evotorch/testing.py
index 44b8359..df032f4 100644
--- a/src/evotorch/testing.py
+++ b/src/evotorch/testing.py
@@ -16,7 +16,7 @@
 Utility functions for evotorch-related unit testing.
 """
 
-from numbers import Real
+from numbers import Integral, Real
 from typing import Any, Iterable, Optional, Type, Union
 
 import numpy as np
@@ -268,7 +268,11 @@ def assert_eachclose(x: Iterable, value: Any, *, rtol: Optional[float] = None, a
         value = float(value)
 
     x = _to_numpy(x)
-    desired = np.empty_like(x)
+    if np.issubdtype(x.dtype, np.floating) or isinstance(value, Integral):
+        desired = np.empty_like(x)
+    else:
+        # Storing a fractional value with a non-float dtype would truncate it
+        desired = np.empty_like(x, dtype="float64")
     desired[:] = value
 
     assert_allclose(x, desired, rtol=rtol, atol=atol)
-- 
2.43.0


From a57f47bfccfb37a6ec57e4e0daab38ca7abb97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:31:59 +0000
Subject: [PATCH 101/111] fix: allow num_actors="num_devices" when the main
 device is not the cpu

---
 src/evotorch/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 156fb16..395356f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1394,8 +1394,8 @@ class Problem(TensorMakerMixin, Serializable):
                     # If the main device is not CPU, then the user most probably wishes to put all the
                     # computations (both evaluations and the population) on the GPU, without allocating
                     # any actor.
-                    # So, we set `_num_actors` as None, and overwrite `num_gpus_per_actor` with None.
-                    self._num_actors = None
+                    # So, we set `_num_actors` as 0, and overwrite `num_gpus_per_actor` with None.
+                    self._num_actors = 0
                     num_gpus_per_actor = None
                 else:
                     # If the device argument is "cpu" or left as None, then we assume that actor allocations
-- 
2.43.0


From 67f43520337741c93e70a4fb5ffa530f1508fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:05 +0000
Subject: [PATCH 102/111] fix: prepare the remote actors which are created
 after kill_actors()

---
 src/evotorch/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 395356f..4d64f84 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2125,6 +2125,8 @@ class Problem(TensorMakerMixin, Serializable):
         if self._actors is not None:
             for actor in self._actors:
                 ray.kill(actor)
+            # The actors to be created later will have to be prepared again
+            self._prepared = False
         self._actors = None
         self._actor_pool = None
 
-- 
2.43.0


From 20a66cfea6cd1be15dc7a55b8050a09d2dae85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:50 +0000
Subject: [PATCH 103/111] fix: prepare the remote actors of a copied Problem

---
 src/evotorch/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 4d64f84..231c9ec 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2732,6 +2732,11 @@ class Problem(TensorMakerMixin, Serializable):
                             otherwise_deepcopy=True,
                             memo=memo,
                         )
+
+        if self._actors is not None:
+            # The copy will create its own actors, and those will have to be prepared
+            result["_prepared"] = False
+
         return result
 
     def _get_local_interaction_count(self) -> int:
-- 
2.43.0


From f48c0796c993d7203a84f5652ec9d0dd2fe9ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:50 +0000
Subject: [PATCH 104/111] fix: send the shared attributes to the remote actors
 before computing gradients

---
 src/evotorch/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 231c9ec..42aab0f 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2962,6 +2962,9 @@ class Problem(TensorMakerMixin, Serializable):
             # If this problem instance has nothing to synchronize, then `must_sync_after` will be False.
             must_sync_after = self._sync_before()
 
+            # We make sure that the shared attributes are sent to the remote actors.
+            self._start_preparations()
+
             # Because we want to send the distribution to remote actors, we first copy the distribution to cpu
             # (unless it is already on cpu)
             dist_on_cpu = distribution.to("cpu")
-- 
2.43.0


From 772cbd81a4782e3573c69d3f9bce9a78faa13867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:38 +0000
Subject: [PATCH 105/111] fix: refuse a device declaration on _evaluate_all as
 intended

---
 src/evotorch/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 42aab0f..4597bb8 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -2514,7 +2514,7 @@ class Problem(TensorMakerMixin, Serializable):
         for candidate_fn in (self._objective_func, self._evaluate_all, self._evaluate_batch, self._evaluate):
             device = device_of_fn(candidate_fn)
             if device is not None:
-                if candidate_fn is self._evaluate_all:
+                if candidate_fn == self._evaluate_all:
                     raise RuntimeError(
                         "It seems that the `_evaluate_all(...)` method of this Problem object is either decorated"
                         " by @on_aux_device or by @on_device, or it is specifying a target device via a `device`"
-- 
2.43.0


From ca6b5711438206bc2dff650687a24ce62d8f5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:36:42 +0000
Subject: [PATCH 106/111] fix: let ExpGaussian.cov be the covariance of its
 samples

---
 src/evotorch/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evotorch/distributions.py b/src/evotorch/distributions.py
index 0a214dc..ccd3e49 100644
--- a/src/evotorch/distributions.py
+++ b/src/evotorch/distributions.py
@@ -885,8 +885,8 @@ class ExpGaussian(Distribution):
 
     @property
     def cov(self) -> torch.Tensor:
-        """The covariance matrix A^T A"""
-        return self.sigma.transpose(0, 1) @ self.sigma
+        """The covariance matrix A A^T"""
+        return self.sigma @ self.sigma.transpose(0, 1)
 
     @property
     def sigma(self) -> torch.Tensor:
-- 
2.43.0


From 458a669b7e98c997541f4f7f93b6313c775d5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:42:57 +0000
Subject: [PATCH 107/111] fix: accept a vector as the initial standard
 deviation of PyCMAES, as documented

---
 src/evotorch/algorithms/pycmaes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/algorithms/pycmaes.py b/src/evotorch/algorithms/pycmaes.py
index ab583ee..1fc41ab 100644
--- a/src/evotorch/algorithms/pycmaes.py
+++ b/src/evotorch/algorithms/pycmaes.py
@@ -219,6 +219,12 @@ class PyCMAES(SearchAlgorithm, SinglePopulationAlgorithmMixin):
         store_opt("CMA_rankone", "rankone_learning_rate", rankone_learning_rate, float)
         store_opt("minstd", "stdev_min", stdev_min, array_or_float)
         store_opt("maxstd", "stdev_max", stdev_max, array_or_float)
+        if sigma0.size == 1:
+            sigma0 = float(sigma0.item())
+        else:
+            # pycma expects the coordinate-wise standard deviations as multipliers for a scalar standard deviation.
+            store_opt("CMA_stds", "stdev_init", sigma0, array_or_float)
+            sigma0 = 1.0
         if separable:
             store_opt("CMA_diagonal", "separable", separable, bool)
 
-- 
2.43.0


From dc99da2d84fb67f9f2a698c581a181e438713e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:01 +0000
Subject: [PATCH 108/111] fix: validate the objective sense of single-objective
 problems too

---
 src/evotorch/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 4597bb8..95cadda 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1173,10 +1173,6 @@ class Problem(TensorMakerMixin, Serializable):
             senses = list(objective_sense)
             num_senses = len(objective_sense)
 
-            # Ensure that each provided objective sense is valid
-            for sense in senses:
-                validate_sense(sense)
-
             if num_senses == 0:
                 # If the given sequence of objective senses is empty, then we raise an error.
                 raise ValueError(
@@ -1186,6 +1182,10 @@ class Problem(TensorMakerMixin, Serializable):
                     " each element being 'min' or 'max'."
                 )
 
+        # Ensure that each provided objective sense is valid
+        for sense in senses:
+            validate_sense(sense)
+
         # Store the objective senses
         self._senses: Iterable[str] = senses
 
-- 
2.43.0


From 0c859f6210deb164597561c11ce3067852f85c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:06 +0000
Subject: [PATCH 109/111] fix: refuse an eval_dtype which is not a float type,
 as documented

---
 src/evotorch/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evotorch/core.py b/src/evotorch/core.py
index 95cadda..31498d6 100644
--- a/src/evotorch/core.py
+++ b/src/evotorch/core.py
@@ -1007,6 +1007,8 @@ class Problem(TensorMakerMixin, Serializable):
         if eval_dtype is not None:
             # If an `eval_dtype` is explicitly stated, then accept it as the `_eval_dtype` of the Problem
             self._eval_dtype = to_torch_dtype(eval_dtype)
+            if not self._eval_dtype.is_floating_point:
+                raise ValueError(f"`eval_dtype` was expected as a float type, but it was received as {repr(eval_dtype)}.")
         else:
             # This is the case where an `eval_dtype` is not explicitly stated by the user.
             # We need to choose a default.
-- 
2.43.0


From b63ad10ebf7836b792eeb79b8731650dbde9c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:06 +0000
Subject: [PATCH 110/111] fix: refuse a feature grid with a number of bins for
 some of the features only

---
 src/evotorch/algorithms/mapelites.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/evotorch/algorithms/mapelites.py b/src/evotorch/algorithms/mapelites.py
index 8f02971..909b858 100644
--- a/src/evotorch/algorithms/mapelites.py
+++ b/src/evotorch/algorithms/mapelites.py
@@ -495,6 +495,11 @@ class MAPElites(SearchAlgorithm, SinglePopulationAlgorithmMixin, ExtendedPopulat
         num_bins = torch.as_tensor(num_bins, dtype=torch.int64, device=device)
         if num_bins.dim() == 0:
             num_bins = num_bins.expand(lower_bounds.size())
+        elif num_bins.size() != lower_bounds.size():
+            raise ValueError(
+                f"When given as a sequence, `num_bins` is expected to have one element for each of the"
+                f" {len(lower_bounds)} features. However, its shape is {tuple(num_bins.shape)}."
+            )
 
         p_inf = torch.tensor([float("inf")], dtype=dtype, device=device)
         n_inf = torch.tensor([float("-inf")], dtype=dtype, device=device)
-- 
2.43.0


From 65dc2aaedef1d2665ea384359953f6837456e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:06 +0000
Subject: [PATCH 111/111] fix: let the type queries work with torch types which
 numpy does not have

---
 src/evotorch/tools/misc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/evotorch/tools/misc.py b/src/evotorch/tools/misc.py
index a145558..785eeb3 100644
--- a/src/evotorch/tools/misc.py
+++ b/src/evotorch/tools/misc.py
@@ -161,6 +161,8 @@ def is_dtype_integer(t: DType) -> bool:
     Returns:
         True if t is an integer type; False otherwise.
     """
+    if isinstance(t, torch.dtype):
+        return not (t.is_floating_point or t.is_complex or (t is torch.bool))
     t: np.dtype = to_numpy_dtype(t)
     return t.kind.startswith("u") or t.kind.startswith("i")
 
@@ -175,6 +177,8 @@ def is_dtype_float(t: DType) -> bool:
     Returns:
         True if t is an float type; False otherwise.
     """
+    if isinstance(t, torch.dtype):
+        return t.is_floating_point
     t: np.dtype = to_numpy_dtype(t)
     return t.kind.startswith("f")
 
@@ -189,6 +193,8 @@ def is_dtype_bool(t: DType) -> bool:
     Returns:
         True if t is a bool type; False otherwise.
     """
+    if isinstance(t, torch.dtype):
+        return t is torch.bool
     t: np.dtype = to_numpy_dtype(t)
     return t.kind.startswith("b")
 
-- 
2.43.0

