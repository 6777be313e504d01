From 85d2ddefafa7f58b508327c345ebad2d9c3e6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 01/40] fix: de-duplication ignored pending/ignored locations
 made only of zeros

---
 GPyOpt/util/duplicate_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/util/duplicate_manager.py b/GPyOpt/util/duplicate_manager.py
index fe1807c..bc056d1 100644
--- a/GPyOpt/util/duplicate_manager.py
+++ b/GPyOpt/util/duplicate_manager.py
@@ -21,10 +21,10 @@ class DuplicateManager(object):
         self.unique_points = set()
         self.unique_points.update(tuple(x.flatten()) for x in zipped_X)
 
-        if np.any(pending_zipped_X):
+        if pending_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in pending_zipped_X)
 
-        if np.any(ignored_zipped_X):
+        if ignored_zipped_X is not None:
             self.unique_points.update(tuple(x.flatten()) for x in ignored_zipped_X)
 
 
-- 
2.43.0


From 36f3735bf86c1617b02163899ed26296f8deebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/40] fix: batch evaluators dropped an all-zero first element
 of the batch

---
 GPyOpt/core/evaluators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d2ab81f..8cfa11f 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -57,7 +57,7 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
 
         x0 = self.initialize_batch(duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
-        if np.any(x0):
+        if x0 is not None:
             batch.append(x0)
             already_suggested_points.add(self.zip_and_tuple(x0))
 
-- 
2.43.0


From d4f34d1109e4684e29f318c0eb70749bf9fc0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 03/40] fix: evaluate the objective with num_cores workers, not
 batch_size workers

---
 GPyOpt/methods/bayesian_optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index c3ad58b..f914247 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -103,7 +103,7 @@ class BayesianOptimization(BO):
         self.num_cores = num_cores
         if f is not None:
             self.f = self._sign(f)
-            self.objective = SingleObjective(self.f, self.batch_size,self.objective_name)
+            self.objective = SingleObjective(self.f, self.num_cores,self.objective_name)
         else:
             self.f = None
             self.objective = None
-- 
2.43.0


From 83b9f06d055e687b36b941926887c59fa89f9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 04/40] fix: CMA reseeded the global random generator from the
 clock

---
 GPyOpt/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index 5ca8f37..a3559fb 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -123,7 +123,7 @@ class OptCma(Optimizer):
                 return g
             lB = np.asarray(self.bounds)[:,0]
             uB = np.asarray(self.bounds)[:,1]
-            x = cma.fmin(CMA_f_wrapper(f), x0, 0.6, options={"bounds":[lB, uB], "verbose":-1})[0]
+            x = cma.fmin(CMA_f_wrapper(f), x0, 0.6, options={"bounds":[lB, uB], "verbose":-1, "seed":np.nan})[0]
             return np.atleast_2d(x), f(np.atleast_2d(x))
         except ImportError:
             print("Cannot find cma library, please install it to use this option.")
-- 
2.43.0


From e4bf6d1d83a15ba25f2aa8bd4372a6624284efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 05/40] fix: the MCMC sampler of entropy search ignored the
 global random seed

---
 GPyOpt/util/mcmc_sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/util/mcmc_sampler.py b/GPyOpt/util/mcmc_sampler.py
index 091435a..1bfe068 100644
--- a/GPyOpt/util/mcmc_sampler.py
+++ b/GPyOpt/util/mcmc_sampler.py
@@ -1,4 +1,5 @@
 import emcee
+import numpy as np
 
 from ..experiment_design import initial_design
 
@@ -49,6 +50,8 @@ class AffineInvariantEnsembleSampler(McmcSampler):
         """
         restarts = initial_design('random', self.space, n_samples)
         sampler = emcee.EnsembleSampler(n_samples, self.space.input_dim(), log_p_function)
+        # the ensemble seeds its own generator from OS entropy: seed it from the global generator instead
+        sampler.random_state = np.random.RandomState(np.random.randint(2**31 - 1)).get_state()
         samples, samples_log, _ = sampler.run_mcmc(restarts, burn_in_steps)
 
         # make sure we have an array of shape (n samples, space input dim)
-- 
2.43.0


From cc50959ac730c766becdbb7966b6e8b06836329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 06/40] fix: entropy search kept using representer points of an
 outdated model

---
 GPyOpt/acquisitions/ES.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/GPyOpt/acquisitions/ES.py b/GPyOpt/acquisitions/ES.py
index a0378c6..b87c39f 100644
--- a/GPyOpt/acquisitions/ES.py
+++ b/GPyOpt/acquisitions/ES.py
@@ -111,6 +111,16 @@ class AcquisitionEntropySearch(AcquisitionBase):
         # add a second dimension to the array
         self.logP = np.reshape(self.logP, (self.logP.shape[0], 1))
 
+    def optimize(self, duplicate_manager=None):
+        """
+        Optimizes the acquisition function. The representer points and beliefs depend on the
+        current state of the model, hence they are computed again for each optimization.
+        """
+        self.repr_points = None
+        self.repr_points_log = None
+        self.logP = None
+        return super(AcquisitionEntropySearch, self).optimize(duplicate_manager=duplicate_manager)
+
     def _required_parameters_initialized(self):
         """
         Checks if all required parameters are initialized.
-- 
2.43.0


From c37ed846c7526090f6bf3833e9482f816373e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 07/40] fix: abnormal L-BFGS terminations were not recognised
 with recent scipy

---
 GPyOpt/optimization/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index a3559fb..f6af23e 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -51,7 +51,8 @@ class OptLbfgs(Optimizer):
             res = scipy.optimize.fmin_l_bfgs_b(_f_df, x0=x0, bounds=self.bounds, maxiter=self.maxiter)
 
         ### --- We check here if the the optimizer moved. If it didn't we report x0 and f(x0) as scipy can return NaNs
-        if res[2]['task'] == b'ABNORMAL_TERMINATION_IN_LNSRCH':
+        ### --- (depending on its version scipy reports the task as bytes or as a string)
+        if res[2]['task'] in (b'ABNORMAL_TERMINATION_IN_LNSRCH', 'ABNORMAL_TERMINATION_IN_LNSRCH'):
             result_x  = np.atleast_2d(x0)
             result_fx =  np.atleast_2d(f(x0))
         else:
-- 
2.43.0


From 7ea593ce3a1aba325c170252964c07eeaf183e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 08/40] fix: evaluating a constraint stored it in a module
 global shared by all spaces (race between threads)

---
 GPyOpt/core/task/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index e5f0b6a..de768b1 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -302,7 +302,7 @@ class Design_space(object):
         if self.constraints is not None:
             for d in self.constraints:
                 try:
-                    exec('constraint = lambda x:' + d['constraint'], globals())
+                    constraint = eval('lambda x:' + d['constraint'], globals())
                     ind_x = (constraint(x) <= 0) * 1
                     I_x *= ind_x.reshape(x.shape[0],1)
                 except:
-- 
2.43.0


From c1995bbec7a8043faa12fc3c0988729142f7a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 09/40] fix: building the space from a configuration altered
 the configuration

---
 GPyOpt/core/task/space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index de768b1..3d553b5 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -91,6 +91,7 @@ class Design_space(object):
         import six
         from ast import literal_eval
 
+        space = [d.copy() for d in space]   # the configuration itself is not altered
         for d in space:
             if isinstance(d['dimensionality'],six.string_types):
                 d['dimensionality'] = int(d['dimensionality'])
-- 
2.43.0


From fcdb6613f4fce5c1cfc4e3b066dc6304959af2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 10/40] fix: a failing objective left X with more rows than Y
 and the optimizer unusable

---
 GPyOpt/core/bo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 8fb0d93..66749a8 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -149,10 +149,7 @@ class BO(object):
 
             self.suggested_sample = self._compute_next_evaluations()
 
-            # --- Augment X
-            self.X = np.vstack((self.X,self.suggested_sample))
-
-            # --- Evaluate *f* in X, augment Y and update cost function (if needed)
+            # --- Evaluate *f* in X, augment X and Y and update cost function (if needed)
             self.evaluate_objective()
 
             # --- Update current evaluation time and function evaluations
@@ -199,9 +196,13 @@ class BO(object):
         """
         Evaluates the objective
         """
+        X_all = np.vstack((self.X,self.suggested_sample))
         self.Y_new, cost_new = self.objective.evaluate(self.suggested_sample)
+        Y_all = np.vstack((self.Y,self.Y_new))
+
+        # --- Inputs and outputs are recorded together: a failed evaluation leaves no trace
+        self.X, self.Y = X_all, Y_all
         self.cost.update_cost_model(self.suggested_sample, cost_new)
-        self.Y = np.vstack((self.Y,self.Y_new))
 
     def _compute_results(self):
         """
-- 
2.43.0


From cff959987d884b06058e5a69bccc1a48a1794c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:47 +0000
Subject: [PATCH 11/40] fix: recorded evaluations shared memory with the
 caller's and the objective's arrays

---
 GPyOpt/core/bo.py             | 4 ++--
 GPyOpt/core/task/objective.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 66749a8..6a2467c 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -48,8 +48,8 @@ class BO(object):
         self.evaluator = evaluator
         self.normalize_Y = normalize_Y
         self.model_update_interval = model_update_interval
-        self.X = X_init
-        self.Y = Y_init
+        self.X = None if X_init is None else np.array(X_init)
+        self.Y = None if Y_init is None else np.array(Y_init)
         self.cost = CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 8118515..9bc4251 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -71,7 +71,7 @@ class SingleObjective(Objective):
 
         for i in range(x.shape[0]):
             st_time    = time.time()
-            rlt = self.func(np.atleast_2d(x[i]))
+            rlt = self.func(np.atleast_2d(x[i].copy()))
             f_evals     = np.vstack([f_evals,rlt])
             cost_evals += [time.time()-st_time]
         return f_evals, cost_evals
-- 
2.43.0


From 4450a73c9a4d828fa04af5a92aab531c212c916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 12/40] fix: evaluation_time costs were never learned (measured
 durations were thrown away)

---
 GPyOpt/core/bo.py                       | 6 +++---
 GPyOpt/core/task/cost.py                | 9 +++++++--
 GPyOpt/methods/bayesian_optimization.py | 6 ++++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 6a2467c..1afc43f 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -50,7 +50,7 @@ class BO(object):
         self.model_update_interval = model_update_interval
         self.X = None if X_init is None else np.array(X_init)
         self.Y = None if Y_init is None else np.array(Y_init)
-        self.cost = CostModel(cost)
+        self.cost = cost if isinstance(cost, CostModel) else CostModel(cost)
         self.normalization_type = 'stats' ## not added in the API
         self.de_duplication = de_duplication
         self.model_parameters_iterations = None
@@ -126,7 +126,7 @@ class BO(object):
         if self.X is not None and self.Y is None:
             self.Y, cost_values = self.objective.evaluate(self.X)
             if self.cost.cost_type == 'evaluation_time':
-                self.cost.update_cost_model(self.X, cost_values)
+                self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
         # --- Initialize iterations and running time
         self.time_zero = time.time()
@@ -202,7 +202,7 @@ class BO(object):
 
         # --- Inputs and outputs are recorded together: a failed evaluation leaves no trace
         self.X, self.Y = X_all, Y_all
-        self.cost.update_cost_model(self.suggested_sample, cost_new)
+        self.cost.update_cost_model(self.space.unzip_inputs(self.suggested_sample), cost_new)
 
     def _compute_results(self):
         """
diff --git a/GPyOpt/core/task/cost.py b/GPyOpt/core/task/cost.py
index 946cc05..2da2537 100644
--- a/GPyOpt/core/task/cost.py
+++ b/GPyOpt/core/task/cost.py
@@ -42,6 +42,8 @@ class  CostModel(object):
         """
         Predicts the time cost of evaluating the function at x.
         """
+        if self.cost_model.model is None:   # nothing measured yet
+            return constant_cost_withGradients(np.atleast_2d(x))[0]
         m, _, _, _ = self.cost_model.predict_withGradients(x)
         return np.exp(m)
 
@@ -49,6 +51,8 @@ class  CostModel(object):
         """
         Predicts the time cost and its gradient of evaluating the function at x.
         """
+        if self.cost_model.model is None:   # nothing measured yet
+            return constant_cost_withGradients(np.atleast_2d(x))
         m, _, dmdx, _= self.cost_model.predict_withGradients(x)
         return np.exp(m), np.exp(m)*dmdx
 
@@ -61,9 +65,10 @@ class  CostModel(object):
         """
 
         if self.cost_type == 'evaluation_time':
-            cost_evals = np.log(np.atleast_2d(np.asarray(cost_x)).T)
+            # durations below the resolution of the clock (or spoiled by a clock step) are not usable in log scale
+            cost_evals = np.log(np.maximum(np.asarray(cost_x, dtype=float).reshape(-1,1), 1e-6))
 
-            if self.num_updates == 0:
+            if self.cost_model.model is None:
                 X_all = x
                 costs_all = cost_evals
             else:
diff --git a/GPyOpt/methods/bayesian_optimization.py b/GPyOpt/methods/bayesian_optimization.py
index f914247..6bbdaaa 100644
--- a/GPyOpt/methods/bayesian_optimization.py
+++ b/GPyOpt/methods/bayesian_optimization.py
@@ -192,10 +192,12 @@ class BayesianOptimization(BO):
         # Case 1:
         if self.X is None:
             self.X = initial_design(self.initial_design_type, self.space, self.initial_design_numdata)
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
         # Case 2
         elif self.X is not None and self.Y is None:
-            self.Y, _ = self.objective.evaluate(self.X)
+            self.Y, cost_values = self.objective.evaluate(self.X)
+            self.cost.update_cost_model(self.space.unzip_inputs(self.X), cost_values)
 
     def _sign(self,f):
          if self.maximize:
-- 
2.43.0


From 1dac0484a54e49d94e134feb23361fc372dd18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/40] fix: local penalization ignored the de-duplication
 setting

---
 .../core/evaluators/batch_local_penalization.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/core/evaluators/batch_local_penalization.py b/GPyOpt/core/evaluators/batch_local_penalization.py
index e527581..af223d9 100644
--- a/GPyOpt/core/evaluators/batch_local_penalization.py
+++ b/GPyOpt/core/evaluators/batch_local_penalization.py
@@ -3,6 +3,8 @@
 
 from .base import EvaluatorBase
 import scipy
+from copy import copy
+from ..errors import FullyExploredOptimizationDomainError
 from ...util.general import samples_multidimensional_uniform
 import numpy as np
 
@@ -28,8 +30,13 @@ class LocalPenalization(EvaluatorBase):
 
         self.acquisition.update_batches(None,None,None)
 
+        # --- The elements of the batch are duplicates for the ones that follow
+        if duplicate_manager:
+            duplicate_manager = copy(duplicate_manager)
+            duplicate_manager.unique_points = duplicate_manager.unique_points.copy()
+
         # --- GET first element in the batch
-        X_batch = self.acquisition.optimize()[0]
+        X_batch = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
         k=1
 
         if self.batch_size >1:
@@ -40,7 +47,13 @@ class LocalPenalization(EvaluatorBase):
         # --- GET the remaining elements
         while k<self.batch_size:
             self.acquisition.update_batches(X_batch,L,Min)
-            new_sample = self.acquisition.optimize()[0]
+            if duplicate_manager:
+                duplicate_manager.unique_points.add(tuple(self.acquisition.space.zip_inputs(X_batch[[-1],:]).flatten()))
+            try:
+                new_sample = self.acquisition.optimize(duplicate_manager=duplicate_manager)[0]
+            except FullyExploredOptimizationDomainError:
+                print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(X_batch)))
+                break
             X_batch = np.vstack((X_batch,new_sample))
             k +=1
 
-- 
2.43.0


From adaa7db287b25c4aeaba49087d994533a3504ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 14/40] fix: parallel evaluation waited for ever for dead
 workers and for results larger than the pipe

---
 GPyOpt/core/task/objective.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/GPyOpt/core/task/objective.py b/GPyOpt/core/task/objective.py
index 9bc4251..c186c46 100644
--- a/GPyOpt/core/task/objective.py
+++ b/GPyOpt/core/task/objective.py
@@ -51,7 +51,7 @@ class SingleObjective(Objective):
         else:
             try:
                 f_evals, cost_evals = self._syncronous_batch_evaluation(x)
-            except:
+            except Exception:
                 if not hasattr(self, 'parallel_error'):
                     print('Error in parallel computation. Fall back to single process!')
                 else:
@@ -86,17 +86,32 @@ class SingleObjective(Objective):
 
         # --- parallel evaluation of the function
         divided_samples = [x[i::self.n_procs] for i in range(self.n_procs)]
-        pipe = [Pipe() for i in range(self.n_procs)]
-        proc = [Process(target=spawn(self._eval_func),args=(c,k)) for k,(p,c) in zip(divided_samples,pipe)]
-        [p.start() for p in proc]
-        [p.join() for p in proc]
+        pipe, proc = [], []
+        try:
+            for k in divided_samples:
+                p, c = Pipe()
+                pipe.append(p)
+                worker = Process(target=spawn(self._eval_func),args=(c,k))
+                worker.start()
+                proc.append(worker)
+                # --- only the worker keeps its end of the pipe: if it dies the parent is told so instead of waiting for ever
+                c.close()
+
+            # --- read before joining: a worker cannot finish while its results do not fit in the pipe
+            results = [p.recv()[0] for p in pipe] # throw away costs
+        except:
+            [w.terminate() for w in proc]
+            raise
+        finally:
+            [p.close() for p in pipe]
+            [w.join() for w in proc]
 
         # --- time of evaluation is set to constant (=1). This is one of the hypothesis of synchronous batch methods.
         f_evals = np.zeros((x.shape[0],1))
         cost_evals = np.ones((x.shape[0],1))
         i = 0
-        for (p,c) in pipe:
-            f_evals[i::self.n_procs] = p.recv()[0] # throw away costs
+        for result in results:
+            f_evals[i::self.n_procs] = result
             i += 1
         return f_evals, cost_evals
 
-- 
2.43.0


From 64b63490fe4a84f6a0867d22d8baf0ab8df8a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:49 +0000
Subject: [PATCH 15/40] fix: with a context, constraints were evaluated without
 the fixed variables

---
 GPyOpt/optimization/anchor_points_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/optimization/anchor_points_generator.py b/GPyOpt/optimization/anchor_points_generator.py
index 22ca1c3..79b06a9 100644
--- a/GPyOpt/optimization/anchor_points_generator.py
+++ b/GPyOpt/optimization/anchor_points_generator.py
@@ -29,6 +29,9 @@ class AnchorPointsGenerator(object):
             space_configuration_without_context = [self.space.config_space_expanded[idx] for idx in context_manager.nocontext_index_obj]
             space = Design_space(space_configuration_without_context, context_manager.space.constraints)
             add_context = lambda x : context_manager._expand_vector(x)
+            if context_manager.context_index:
+                # constraints are functions of all the variables, the fixed ones included
+                space.indicator_constraints = lambda x : self.space.indicator_constraints(self.space.zip_inputs(add_context(space.unzip_inputs(x))))
         else:
             space = self.space
             add_context = lambda x: x
-- 
2.43.0


From 4ae9cd8580d5e7f3529841e3fc76e7ba92e984eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:55 +0000
Subject: [PATCH 16/40] fix: infeasible locations were proposed when the
 acquisition is not positive in the feasible region

---
 GPyOpt/optimization/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPyOpt/optimization/optimizer.py b/GPyOpt/optimization/optimizer.py
index f6af23e..82cd65c 100644
--- a/GPyOpt/optimization/optimizer.py
+++ b/GPyOpt/optimization/optimizer.py
@@ -166,6 +166,9 @@ def apply_optimizer(optimizer, x0, f=None, df=None, f_df=None, duplicate_manager
     ## --- Run duplicate_manager
     if duplicate_manager and duplicate_manager.is_unzipped_x_duplicate(suggested_x_with_context_rounded):
         suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
+    ## --- The local optimizer does not know the constraints: go back to the starting point if it left the feasible region
+    elif space.has_constraints() and not space.indicator_constraints(space.zip_inputs(suggested_x_with_context_rounded)).all():
+        suggested_x, suggested_fx = x0, np.atleast_2d(f(x0))
     else:
         suggested_x, suggested_fx = suggested_x_with_context_rounded, f(suggested_x_with_context_rounded)
 
-- 
2.43.0


From 3c13be0ade35e94ade5194cbf33fa86b3579ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 17/40] fix: the first row of the saved model parameters was
 overwritten by later iterations

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 9310be8..e6ef9fc 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -162,7 +162,7 @@ class GPModel(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
@@ -346,7 +346,7 @@ class GPModel_MCMC(BOModel):
         """
         Returns a 2D numpy array with the parameters of the model
         """
-        return np.atleast_2d(self.model[:])
+        return np.atleast_2d(self.model[:]).copy()
 
     def get_model_parameters_names(self):
         """
-- 
2.43.0


From 5c9e980186f45cedcbc27869f74d9c122ba218f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 18/40] fix: names of the model parameters did not match their
 values with fixed or vector parameters

---
 GPyOpt/models/gpmodel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index e6ef9fc..3a16656 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -168,7 +168,7 @@ class GPModel(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names_flat().tolist()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
 
     def get_covariance_between_points(self, x1, x2):
         """
@@ -352,4 +352,4 @@ class GPModel_MCMC(BOModel):
         """
         Returns a list with the names of the parameters of the model
         """
-        return self.model.parameter_names()
+        return self.model.parameter_names_flat(include_fixed=True).tolist()
-- 
2.43.0


From 3a3af0325a1fd49ba6a40929d525a3615e06cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:05 +0000
Subject: [PATCH 19/40] fix: optimizers with models that do not expose their
 parameters could not be run

---
 GPyOpt/core/bo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index 1afc43f..a129bd6 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -262,6 +262,10 @@ class BO(object):
         self._save_model_parameter_values()
 
     def _save_model_parameter_values(self):
+        # --- Optional part of the interface of the models
+        if not hasattr(self.model, 'get_model_parameters'):
+            return
+
         if self.model_parameters_iterations is None:
             self.model_parameters_iterations = self.model.get_model_parameters()
         else:
-- 
2.43.0


From d99dc290f2fc3d27e3587400e2d52c1186788408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 20/40] fix: a failing prediction left GPModel_MCMC with the
 parameters of one of its samples

---
 GPyOpt/models/gpmodel.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 3a16656..8ba620b 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -1,11 +1,28 @@
 # Copyright (c) 2016, the GPyOpt Authors
 # Licensed under the BSD 3-clause license (see LICENSE.txt)
 
+import functools
 import numpy as np
 import GPy
 
 from .base import BOModel
 
+
+def _restore_parameters_on_failure(method):
+    """
+    Decorates the methods that set the parameters of the model temporarily: if they fail the parameters are set back.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        ps = self.model.param_array.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except:
+            self.model.param_array[:] = ps
+            self.model._trigger_params_changed()
+            raise
+    return wrapper
+
 class GPModel(BOModel):
     """
     General class for handling a Gaussian Process in GPyOpt.
@@ -254,6 +271,7 @@ class GPModel_MCMC(BOModel):
         ss = self.hmc.sample(num_samples=self.n_burnin + self.n_samples* self.subsample_interval, hmc_iters=self.leapfrog_steps)
         self.hmc_samples = ss[self.n_burnin::self.subsample_interval]
 
+    @_restore_parameters_on_failure
     def predict(self, X):
         """
         Predictions with the model for all the MCMC samples. Returns posterior means and standard deviations at X. Note that this is different in GPy where the variances are given.
@@ -276,6 +294,7 @@ class GPModel_MCMC(BOModel):
         self.model._trigger_params_changed()
         return means, stds
 
+    @_restore_parameters_on_failure
     def get_fmin(self):
         """
         Returns the location where the posterior mean is takes its minimal value.
@@ -294,6 +313,7 @@ class GPModel_MCMC(BOModel):
 
         return fmins
 
+    @_restore_parameters_on_failure
     def predict_withGradients(self, X):
         """
         Returns the mean, standard deviation, mean gradient and standard deviation gradient at X for all the MCMC samples.
-- 
2.43.0


From ac1fed4660952edb5c3f5896100e8f526ce72c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 21/40] fix: GPModel_MCMC could not be copied

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 8ba620b..0b18664 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -348,7 +348,7 @@ class GPModel_MCMC(BOModel):
         Makes a safe copy of the model.
         """
 
-        copied_model = GPModel( kernel = self.model.kern.copy(),
+        copied_model = GPModel_MCMC( kernel = self.model.kern.copy(),
                                 noise_var= self.noise_var ,
                                 exact_feval= self.exact_feval,
                                 n_samples = self.n_samples,
-- 
2.43.0


From e97023ddb72241f2eb63cb15f5948b5e22d79b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:55 +0000
Subject: [PATCH 22/40] fix: predictions of the input warped GP failed
 (unsupported arguments)

---
 GPyOpt/models/input_warped_gpmodel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 0e88020..19f4f74 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -85,4 +85,13 @@ class InputWarpedGPModel(GPModel):
         if self.exact_feval:
             self.model.Gaussian_noise.constrain_fixed(1e-6, warning=False)
         else:
-            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
\ No newline at end of file
+            self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
+
+    def _predict(self, X, full_cov, include_likelihood):
+        if full_cov or not include_likelihood:
+            raise NotImplementedError("The input warped GP only provides the mean and the variance of noisy predictions.")
+        if X.ndim == 1:
+            X = X[None,:]
+        m, v = self.model.predict(X)
+        v = np.clip(v, 1e-10, np.inf)
+        return m, v
-- 
2.43.0


From c51ba7359c023e4a7a0ee78b5ba0a2798d7fc18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 23/40] fix: reports could not be saved for modular optimizers
 nor before the first run, and never listed constraints

---
 GPyOpt/core/bo.py                               |  7 ++++++-
 GPyOpt/methods/modular_bayesian_optimization.py | 12 ++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/core/bo.py b/GPyOpt/core/bo.py
index a129bd6..2dc2a51 100644
--- a/GPyOpt/core/bo.py
+++ b/GPyOpt/core/bo.py
@@ -57,6 +57,11 @@ class BO(object):
         self.context = None
         self.num_acquisitions = 0
 
+        # --- Stopping conditions and time of the last run (none so far)
+        self.max_iter = None
+        self.eps = None
+        self.cum_time = 0
+
     def suggest_next_locations(self, context = None, pending_X = None, ignored_X = None):
         """
         Run a single optimization step and return the next locations to evaluate the objective.
@@ -347,7 +352,7 @@ class BO(object):
             file.write('Number bandits               ' + str(self.space.get_bandit().shape[0]) +'\n')
             file.write('Noiseless evaluations:       ' + str(self.exact_feval) +'\n')
             file.write('Cost used:                   ' + self.cost.cost_type +'\n')
-            file.write('Constraints:                  ' + str(self.constraints==True) +'\n')
+            file.write('Constraints:                  ' + str(self.constraints is not None) +'\n')
 
             file.write('\n')
             file.write('------------------------------' + ' Optimization set up ' + '---------------------------------\n')
diff --git a/GPyOpt/methods/modular_bayesian_optimization.py b/GPyOpt/methods/modular_bayesian_optimization.py
index 45439a0..92ac0c2 100644
--- a/GPyOpt/methods/modular_bayesian_optimization.py
+++ b/GPyOpt/methods/modular_bayesian_optimization.py
@@ -38,3 +38,15 @@ class ModularBayesianOptimization(BO):
                                                             normalize_Y            = normalize_Y,
                                                             model_update_interval  = model_update_interval,
                                                             de_duplication         = de_duplication)
+
+        # --- Description of the setup used in the report
+        self.initial_design_numdata = 0 if X_init is None else len(X_init)
+        self.objective_name = getattr(objective, 'objective_name', 'no_name')
+        self.num_cores = getattr(objective, 'n_procs', 1)
+        self.exact_feval = getattr(model, 'exact_feval', False)
+        self.constraints = space.constraints
+        self.model_type = type(model).__name__
+        self.acquisition_type = type(acquisition).__name__
+        self.acquisition_optimizer = acquisition.optimizer
+        self.evaluator_type = type(evaluator).__name__
+        self.batch_size = getattr(evaluator, 'batch_size', 1)
-- 
2.43.0


From b2a5a538df574a5eacd59d385248338e63e80a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 24/40] fix: the configuration driver could not build the
 objective

---
 GPyOpt/interface/driver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index de1144f..421dc37 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -29,7 +29,10 @@ class BODriver(object):
         obj_func = self.obj_func
         
         from ..core.task import SingleObjective
-        return SingleObjective(obj_func, self.config['resources']['cores'], space=space, unfold_args=True)
+        # --- the objective takes one argument per variable, in the order of the configuration
+        limits = np.cumsum([v.dimensionality for v in space.space])[:-1]
+        unfolded_obj_func = lambda x: obj_func(*np.split(x, limits, axis=1))
+        return SingleObjective(unfolded_obj_func, self.config['resources']['cores'], space=space)
         
     def _get_space(self):
         """
-- 
2.43.0


From f5c595d7d7eac622f963f402edee29c9e84faf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 25/40] fix: the run time limit of the configuration, in
 minutes, was used as seconds

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 421dc37..25b448e 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -117,6 +117,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = 60*self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From f17533ccc643f630efcf527459f27597716c2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 26/40] fix: the objective of a configuration could not be
 loaded (removed imp module)

---
 GPyOpt/interface/func_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/func_loader.py b/GPyOpt/interface/func_loader.py
index 6456a51..64c0530 100644
--- a/GPyOpt/interface/func_loader.py
+++ b/GPyOpt/interface/func_loader.py
@@ -15,8 +15,10 @@ def load_objective(config):
     os.chdir(config['prjpath'])
     if config['language'].lower()=='python':
         assert config['main-file'].endswith('.py'), 'The python problem file has to end with .py!'
-        import imp
-        m = imp.load_source(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        import importlib.util
+        spec = importlib.util.spec_from_file_location(config['main-file'][:-3], os.path.join(config['prjpath'],config['main-file']))
+        m = importlib.util.module_from_spec(spec)
+        spec.loader.exec_module(m)
         func = m.__dict__[config['main-file'][:-3]]
     return func
 
-- 
2.43.0


From e35cc75234d992175e34165de6c3d551d93997f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 27/40] fix: the configuration driver failed when the number of
 iterations is not limited ('NA')

---
 GPyOpt/interface/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/interface/driver.py b/GPyOpt/interface/driver.py
index 25b448e..1c9e481 100644
--- a/GPyOpt/interface/driver.py
+++ b/GPyOpt/interface/driver.py
@@ -117,6 +117,6 @@ class BODriver(object):
         from ..methods import ModularBayesianOptimization
         bo = ModularBayesianOptimization(model, space, obj_func, acq, acq_eval, X_init)
                 
-        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'], max_time = 60*self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
+        bo.run_optimization(max_iter = self.config['resources']['maximum-iterations'] if self.config['resources']['maximum-iterations']!="NA" else None, max_time = 60*self.config['resources']['max-run-time'] if self.config['resources']['max-run-time']!="NA" else np.inf,
                               eps = self.config['resources']['tolerance'], verbosity=True)        
         return bo
-- 
2.43.0


From 45fe0a1f196e4369dfce009bed990f4870a8422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 28/40] fix: de-duplicated batches could be short with
 admissible locations left

---
 GPyOpt/core/evaluators/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index 8cfa11f..d323a32 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -80,6 +80,17 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             if len(batch) == self.batch_size:
                 break
 
+        # Several anchor points may have been optimized to the same location: those not used yet are still available.
+        for a in anchor_points:
+            if len(batch) >= self.batch_size:
+                break
+
+            zipped_a = self.zip_and_tuple(a)
+
+            if zipped_a not in already_suggested_points:
+                batch.append(a)
+                already_suggested_points.add(zipped_a)
+
         if len(batch) < self.batch_size:
             # Note that the case where anchor_points is empty is handled in self.get_anchor_points that would throw a FullyExploredOptimizationDomainError
             print("Warning: the batch of requested size {} could not be entirely filled in (only {} points)".format(self.batch_size, len(batch)))
-- 
2.43.0


From 731c99a6badf8a700ee009d09a3f223e4fb4157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 29/40] fix: the random batch evaluator exceeded a batch size
 of one with de-duplication

---
 GPyOpt/core/evaluators/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/evaluators/base.py b/GPyOpt/core/evaluators/base.py
index d323a32..7993e29 100644
--- a/GPyOpt/core/evaluators/base.py
+++ b/GPyOpt/core/evaluators/base.py
@@ -62,6 +62,9 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
             already_suggested_points.add(self.zip_and_tuple(x0))
 
         for a in anchor_points:
+            if len(batch) >= self.batch_size:
+                break
+
             x = self.optimize_anchor_point(a, duplicate_manager=duplicate_manager, context_manager = self.context_manager)
 
             # We first try to add the optimized anchor point; if we cannot, we then try the initial anchor point.
@@ -77,9 +80,6 @@ class SamplingBasedBatchEvaluator(EvaluatorBase):
                     batch.append(a)
                     already_suggested_points.add(zipped_a)
 
-            if len(batch) == self.batch_size:
-                break
-
         # Several anchor points may have been optimized to the same location: those not used yet are still available.
         for a in anchor_points:
             if len(batch) >= self.batch_size:
-- 
2.43.0


From 9df335fbcd914e4bd25db17b7c5eba19a999809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:13 +0000
Subject: [PATCH 30/40] fix: entropy search failed with recent GPy (covariance
 of two different sets of points)

---
 GPyOpt/models/gpmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index 0b18664..e348576 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -191,7 +191,7 @@ class GPModel(BOModel):
         """
         Given the current posterior, computes the covariance between two sets of points.
         """
-        return self.model.posterior_covariance_between_points(x1, x2)
+        return self.model.posterior_covariance_between_points(x1, x2, include_likelihood=False)
 
 
 class GPModel_MCMC(BOModel):
-- 
2.43.0


From b7e2942e7f914dcd92ca89caf44f0014989eb293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:02 +0000
Subject: [PATCH 31/40] fix: latin designs ignored the global random seed with
 recent pyDOE

---
 GPyOpt/experiment_design/latin_design.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GPyOpt/experiment_design/latin_design.py b/GPyOpt/experiment_design/latin_design.py
index 66bfbf0..173ab14 100644
--- a/GPyOpt/experiment_design/latin_design.py
+++ b/GPyOpt/experiment_design/latin_design.py
@@ -36,8 +36,11 @@ class LatinDesign(ExperimentDesign):
             upper_bound = np.asarray(bounds)[:,1].reshape(1, len(bounds))
             diff = upper_bound - lower_bound
 
+            from inspect import signature
             from pyDOE import lhs
-            X_design_aux = lhs(len(self.space.get_continuous_bounds()), init_points_count, criterion=criterion)
+            # --- recent versions have their own random generator: it follows the global random seed
+            seed = {'seed': np.random.randint(2**31 - 1)} if 'seed' in signature(lhs).parameters else {}
+            X_design_aux = lhs(len(self.space.get_continuous_bounds()), init_points_count, criterion=criterion, **seed)
             I = np.ones((X_design_aux.shape[0], 1))
             X_design = np.dot(I, lower_bound) + X_design_aux * np.dot(I, diff)
 
-- 
2.43.0


From 44d8a713706c77092df13a2d3db41b2d9679ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 32/40] fix: the warped GP could not be fitted to more
 evaluations

---
 GPyOpt/models/warpedgpmodel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/models/warpedgpmodel.py b/GPyOpt/models/warpedgpmodel.py
index fd80d50..33d9db0 100644
--- a/GPyOpt/models/warpedgpmodel.py
+++ b/GPyOpt/models/warpedgpmodel.py
@@ -50,10 +50,12 @@ class WarpedGPModel(BOModel):
                 self.model.Gaussian_noise.constrain_positive(warning=False)
 
     def updateModel(self, X_all, Y_all, X_new, Y_new):
-        if self.model is None:
-            self._create_model(X_all, Y_all)
-        else:
-            self.model.set_XY(X_all, Y_all)
+        if self.model is not None:
+            # --- the data of GPy's warped GP cannot be replaced: build a new one starting from the current kernel and warping
+            self.kernel = self.model.kern.copy()
+            if self.warping_function is not None:
+                self.warping_function = self.model.warping_function.copy()
+        self._create_model(X_all, Y_all)
 
         self.model.optimize(optimizer = self.optimizer, messages=self.verbose, max_iters=self.max_iters)
 
-- 
2.43.0


From ed6337b4e45efa7c275ac6f4801529b14eb4450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:46 +0000
Subject: [PATCH 33/40] fix: the input warped GP could not be fitted to more
 evaluations

---
 GPyOpt/models/input_warped_gpmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GPyOpt/models/input_warped_gpmodel.py b/GPyOpt/models/input_warped_gpmodel.py
index 19f4f74..866d18f 100644
--- a/GPyOpt/models/input_warped_gpmodel.py
+++ b/GPyOpt/models/input_warped_gpmodel.py
@@ -87,6 +87,13 @@ class InputWarpedGPModel(GPModel):
         else:
             self.model.Gaussian_noise.constrain_bounded(1e-9, 1e6, warning=False)
 
+    def updateModel(self, X_all, Y_all, X_new, Y_new):
+        if self.model is not None:
+            # --- the data of GPy's input warped GP cannot be replaced: build a new one starting from the current kernel
+            self.kernel = self.model.kern.copy()
+            self.model = None
+        super(InputWarpedGPModel, self).updateModel(X_all, Y_all, X_new, Y_new)
+
     def _predict(self, X, full_cov, include_likelihood):
         if full_cov or not include_likelihood:
             raise NotImplementedError("The input warped GP only provides the mean and the variance of noisy predictions.")
-- 
2.43.0


From 1d9ec17757018b734ec73de728a92c200f8f47fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 34/40] fix: report of a bandit with several columns failed
 (dimensions of the expanded variables)

---
 GPyOpt/core/task/space.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index 3d553b5..a21f1da 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -366,9 +366,11 @@ class Design_space(object):
         Returns the dimension of the continuous components of the domain.
         """
         continuous_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'continuous':
+        i = 0
+        for variable in self.space_expanded:
+            if variable.type == 'continuous':
                 continuous_dims += [i]
+            i += variable.dimensionality
         return continuous_dims
 
 
@@ -401,9 +403,11 @@ class Design_space(object):
         Returns the dimension of the discrete components of the domain.
         """
         discrete_dims = []
-        for i in range(self.dimensionality):
-            if self.space_expanded[i].type == 'discrete':
+        i = 0
+        for variable in self.space_expanded:
+            if variable.type == 'discrete':
                 discrete_dims += [i]
+            i += variable.dimensionality
         return discrete_dims
 
 
-- 
2.43.0


From 97cb9bbee31405f99d53a85e34b11a60c30de44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 35/40] fix: the progress log kept references to the caller's
 arrays

---
 GPyOpt/interface/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/output.py b/GPyOpt/interface/output.py
index a60e160..f63d876 100644
--- a/GPyOpt/interface/output.py
+++ b/GPyOpt/interface/output.py
@@ -86,8 +86,8 @@ class OutputEng(object):
     def append_iter(self, iters, elapsed_time, X, Y, bo, final=False):
         self.iters.append(iters)
         self.times.append(elapsed_time)
-        self.Xs.append(X)
-        self.Ys.append(Y)
+        self.Xs.append(np.array(X))
+        self.Ys.append(np.array(Y))
         self.offsets.append(X.shape[0])
         
         for i in range(len(self.data_savers)):
-- 
2.43.0


From 27867911ee71d22ccc234c87a8941c5154895943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 36/40] fix: a failing saver took the turn (and the closing) of
 the savers after it

---
 GPyOpt/interface/output.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/GPyOpt/interface/output.py b/GPyOpt/interface/output.py
index f63d876..a037fd1 100644
--- a/GPyOpt/interface/output.py
+++ b/GPyOpt/interface/output.py
@@ -90,15 +90,27 @@ class OutputEng(object):
         self.Ys.append(np.array(Y))
         self.offsets.append(X.shape[0])
         
+        # --- a saver that fails does not take the turn of the others
+        errors = []
         for i in range(len(self.data_savers)):
             if final:
                 if self.clock[i]==-1: self.clock[i] = 0
             elif self.clock[i]>0: self.clock[i] += -1
             if self.clock[i]==0:
-                self.data_savers[i].save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
                 self.clock[i] = self.data_savers[i].interval
+                try:
+                    self.data_savers[i].save_data(self.iters, self.times, self.offsets, self.Xs, self.Ys, bo)
+                except Exception as e:
+                    errors.append(e)
+        if errors: raise errors[0]
                 
     def close(self):
-        for ds in self.data_savers: ds.close()
+        errors = []
+        for ds in self.data_savers:
+            try:
+                ds.close()
+            except Exception as e:
+                errors.append(e)
+        if errors: raise errors[0]
         
 
-- 
2.43.0


From c34f744f30fe9370caf61ae4178272355efae66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 37/40] fix: progress log rows could get lost without an error
 when a later row could not be written

---
 GPyOpt/interface/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GPyOpt/interface/output.py b/GPyOpt/interface/output.py
index a037fd1..5c4b3b8 100644
--- a/GPyOpt/interface/output.py
+++ b/GPyOpt/interface/output.py
@@ -61,6 +61,8 @@ class Logger(DataSaver):
         idx =  np.argmin(Y)
         items = [str(iters[-1]), str(times[-1]), str(float(Y[idx]))]+[str(X[idx,i]) for i in range(X.shape[1])]
         self.fileout.write(','.join(items)+'\n')
+        # --- a row that could not be stored is reported now, not when a later row fills the buffer
+        self.fileout.flush()
         
 class OutputEng(object):
     
-- 
2.43.0


From ff3aade552f5061405c0b42bcd241ac6d9bebd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:47 +0000
Subject: [PATCH 38/40] fix: configurations with the LCB acquisition could not
 be run

---
 GPyOpt/acquisitions/LCB.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GPyOpt/acquisitions/LCB.py b/GPyOpt/acquisitions/LCB.py
index f13047a..9721233 100644
--- a/GPyOpt/acquisitions/LCB.py
+++ b/GPyOpt/acquisitions/LCB.py
@@ -32,6 +32,10 @@ class AcquisitionLCB(AcquisitionBase):
         if cost_withGradients is not None:
             print('The set cost function is ignored! LCB acquisition does not make sense with cost.')  
 
+    @staticmethod
+    def fromConfig(model, space, optimizer, cost_withGradients, config):
+        return AcquisitionLCB(model, space, optimizer, cost_withGradients, exploration_weight=config.get('exploration_weight', 2))
+
     def _compute_acq(self, x):
         """
         Computes the GP-Lower Confidence Bound 
-- 
2.43.0


From 36ede32440229139029b10f1f2dbc07e4354b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:09 +0000
Subject: [PATCH 39/40] fix: a copied model shared the arrays of its data with
 the original

---
 GPyOpt/models/gpmodel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/GPyOpt/models/gpmodel.py b/GPyOpt/models/gpmodel.py
index e348576..1cf5232 100644
--- a/GPyOpt/models/gpmodel.py
+++ b/GPyOpt/models/gpmodel.py
@@ -171,8 +171,9 @@ class GPModel(BOModel):
                             verbose=self.verbose,
                             ARD=self.ARD)
 
-        copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        X, Y = np.array(self.model.X), np.array(self.model.Y)
+        copied_model._create_model(X, Y)
+        copied_model.updateModel(X, Y, None, None)
         return copied_model
 
     def get_model_parameters(self):
@@ -358,8 +359,9 @@ class GPModel_MCMC(BOModel):
                                 leapfrog_steps= self.leapfrog_steps,
                                 verbose= self.verbose)
 
-        copied_model._create_model(self.model.X,self.model.Y)
-        copied_model.updateModel(self.model.X,self.model.Y, None, None)
+        X, Y = np.array(self.model.X), np.array(self.model.Y)
+        copied_model._create_model(X, Y)
+        copied_model.updateModel(X, Y, None, None)
         return copied_model
 
     def get_model_parameters(self):
-- 
2.43.0


From 72b4ddee5b89185da25b0a930d85c9cea8d50c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 40/40] fix: Design_space does not add keys to the constraint
 dictionaries of the caller

---
 GPyOpt/core/task/space.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/GPyOpt/core/task/space.py b/GPyOpt/core/task/space.py
index a21f1da..dcb6a18 100644
--- a/GPyOpt/core/task/space.py
+++ b/GPyOpt/core/task/space.py
@@ -81,9 +81,8 @@ class Design_space(object):
         # Because of the misspelling API used to expect "constrain" as a key
         # This fixes the API but also supports the old form
         if constraints is not None:
-            for c in constraints:
-                if 'constrain' in c:
-                    c['constraint'] = c['constrain']
+            # (on a copy, the dictionaries of the caller are not altered)
+            constraints = [dict(c, constraint=c['constrain']) if 'constrain' in c else c for c in constraints]
         self.constraints = constraints
 
     @staticmethod
-- 
2.43.0

