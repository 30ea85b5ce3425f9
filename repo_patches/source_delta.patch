From c19056103f1bd446a041115e96d53cf1a69fb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 01/53] fix: draw spectral consensus clustering from the
 mixture's own generator

---
 pyrichlet/mixture_models/_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 42edc80..8b606be 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -351,7 +351,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.gibbs_fitted:
             raise NotFittedError(
                 "Object must be fitted with the fit_gibbs method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(
+            n_clusters=n_clusters, affinity='precomputed',
+            random_state=np.random.RandomState(self.rng.bit_generator))
         return sc.fit_predict(self.gibbs_eap_affinity_matrix(y))
 
     def gibbs_map_cluster(self, y=None, full=False):
@@ -638,7 +640,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError(
                 "Object must be fitted with fit_variational init_method")
-        sc = SpectralClustering(n_clusters=n_clusters, affinity='precomputed')
+        sc = SpectralClustering(
+            n_clusters=n_clusters, affinity='precomputed',
+            random_state=np.random.RandomState(self.rng.bit_generator))
         return sc.fit_predict(self.var_eap_affinity_matrix(y))
 
     def var_map_cluster(self, y=None, full=False):
-- 
2.43.0


From 40561a4dc0ecd03b82a43853cea8dd04ff66f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 02/53] fix: gibbs_map_pairplot raises NotFittedError before
 fitting

---
 pyrichlet/mixture_models/_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 8b606be..491f07d 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -392,6 +392,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         from scipy.stats import chi2
         from scipy.linalg import ldl
 
+        if not self.gibbs_fitted:
+            raise NotFittedError(
+                "Object must be fitted with fit_gibbs method")
         names = self._column_names
         n_feats = self.y.shape[1]
         grp = self.gibbs_map_cluster()
-- 
2.43.0


From c0eb7cb0766da856e192e189d9be1294313aca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 03/53] fix: unfitted weight models raise NotFittedError from
 every variational mean and mode

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 4 ++++
 pyrichlet/weight_models/_dirichlet_process.py      | 4 ++++
 pyrichlet/weight_models/_frequency.py              | 4 ++++
 pyrichlet/weight_models/_geometric_process.py      | 8 ++++++--
 pyrichlet/weight_models/_pitman_yor_process.py     | 4 ++++
 5 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index e7995e3..21b55a4 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -94,11 +94,15 @@ class DirichletDistribution(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         alpha = self.variational_params.sum()
diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index c493052..812c469 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -114,6 +114,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
@@ -126,6 +128,8 @@ class DirichletProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         res = 1
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index 05265fd..ed85861 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -59,11 +59,15 @@ class FrequencyWeighting(BaseWeight):
         return 0
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 66852a5..2931684 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -68,10 +68,10 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
             _variational_d = self.variational_d
-            if _variational_d is None:
-                raise NotFittedError
         else:
             _variational_d = variational_d
         res = mean_log_beta(self.variational_params[0],
@@ -105,12 +105,16 @@ class GeometricProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j >= self.variational_k:
             return 1
         p = self.variational_params[0] / self.variational_params.sum()
         return p * (1 - p) ** j
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return
         if self.variational_params[0] <= 1:
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 718211b..14ffd14 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -132,6 +132,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mean_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         res = 1
@@ -142,6 +144,8 @@ class PitmanYorProcess(BaseWeight):
         return res
 
     def variational_mode_w_j(self, j):
+        if self.variational_d is None:
+            raise NotFittedError
         if j > self.variational_k:
             return 0
         res = 1
-- 
2.43.0


From 319168666bc6113cc91c7d53ed1343e5eb44bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 04/53] fix: FrequencyWeighting.variational_mean_log_p_d__w no
 longer replaces the fitted assignment

---
 pyrichlet/weight_models/_frequency.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index ed85861..fba0ad2 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -39,12 +39,10 @@ class FrequencyWeighting(BaseWeight):
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         if variational_d is None:
-            if self.variational_d is None:
-                raise NotFittedError
             variational_d = self.variational_d
-        else:
-            self.variational_d = variational_d
         return np.sum(variational_d.sum(1) * np.log(self.variational_d.sum(1) /
                                                     self.variational_d.sum()))
 
-- 
2.43.0


From b63e5b4e61020f48f50bff6f0d85be6380e7b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 05/53] fix: EqualWeighting variational fit keeps n, guards
 unfitted queries and uses log-probabilities

---
 pyrichlet/weight_models/_equal.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/weight_models/_equal.py b/pyrichlet/weight_models/_equal.py
index 46f2a2a..8214002 100644
--- a/pyrichlet/weight_models/_equal.py
+++ b/pyrichlet/weight_models/_equal.py
@@ -21,28 +21,39 @@ class EqualWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.n = self.variational_d.shape[0]
-        self.variational_k = self.n
+        self.variational_k = self.variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
-        return np.log(1 / self.n) * (j < self.n)
+        if self.variational_d is None:
+            raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
+        return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
+        if self.variational_d is None:
+            raise NotFittedError
         _variational_d = variational_d
         if _variational_d is None:
             _variational_d = self.variational_d
-            if _variational_d is None:
-                raise NotFittedError
-        return _variational_d.shape[1] * np.log(self.n)
+        return -_variational_d.shape[1] * np.log(self.variational_k)
 
     def variational_mean_log_p_w(self):
+        if self.variational_d is None:
+            raise NotFittedError
         return 0
 
     def variational_mean_log_q_w(self):
+        if self.variational_d is None:
+            raise NotFittedError
         return 0
 
     def variational_mean_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        if self.variational_d is None:
+            raise NotFittedError
+        return 1 / self.variational_k * (j < self.variational_k)
 
     def variational_mode_w_j(self, j):
-        return 1 / self.n * (j < self.n)
+        if self.variational_d is None:
+            raise NotFittedError
+        return 1 / self.variational_k * (j < self.variational_k)
-- 
2.43.0


From ebf7270239f50fd8281649818977f7eb129e4bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:41 +0000
Subject: [PATCH 06/53] fix: an aborted or non-converged fit no longer leaves
 stale fitted/converged flags

---
 pyrichlet/mixture_models/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 491f07d..3727962 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -133,6 +133,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        self.gibbs_fitted = False
         self._initialize_common_params(y)
         if not warm_start:
             self._initialize_gibbs_params(init_groups=init_groups,
@@ -204,6 +205,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if show_progress is not None:
             self.show_progress = show_progress
+        self.var_fitted = False
+        self.var_converged = False
         self._initialize_common_params(y)
         if not warm_start:
             if hasattr(self, 'n') and n_groups is None:
@@ -230,8 +233,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             if t is not None:
                 t.update()
         self.var_fitted = True
-        if iterations < self.total_iter:
-            self.var_converged = True
+        self.var_converged = bool(elbo_diff <= tol)
 
     def gibbs_eap_density(self, y=None, dim=None, component=None,
                           periods=None):
-- 
2.43.0


From bfafee88ade6b5f70b9c73d3d0c74ee3fa472d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 07/53] fix: default priors are re-estimated from the data of
 every fit

---
 pyrichlet/mixture_models/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 3727962..cc36dd7 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -68,6 +68,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.lambda_prior = lambda_prior
         self.psi_prior = psi_prior
         self.nu_prior = nu_prior
+        # Priors not given are estimated again from the data of each fit
+        self._estimate_mu_prior = mu_prior is None
+        self._estimate_psi_prior = psi_prior is None
+        self._estimate_nu_prior = nu_prior is None
 
         self.weight_model = weight_model
         self.y = np.array([])
@@ -740,15 +744,15 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             raise TypeError('Invalid type for variable y')
 
-        if self.mu_prior is None:
+        if self._estimate_mu_prior:
             self.mu_prior = self.y.mean(axis=0)
         else:
             self.mu_prior = np.array(self.mu_prior)
-        if self.psi_prior is None:
+        if self._estimate_psi_prior:
             self.psi_prior = np.atleast_2d(np.cov(self.y.T))
         else:
             self.psi_prior = np.atleast_2d(self.psi_prior)
-        if self.nu_prior is None:
+        if self._estimate_nu_prior:
             self.nu_prior = self.y.shape[1]
 
     def _initialize_gibbs_params(self, init_groups=None, method="kmeans"):
-- 
2.43.0


From 93d73c6d213455297e4e9019ddc1e46fd34c77c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 08/53] fix: a cold Gibbs fit discards the MAP draw of the
 previous fit

---
 pyrichlet/mixture_models/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index cc36dd7..c51a9be 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -790,6 +790,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.n_groups = []
         self.n_atoms = []
         self.total_saved_steps = 0
+        self.map_sim_params = None
+        self.map_log_likelihood = -np.inf
 
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
-- 
2.43.0


From 51638b77e1d71305f84ec652dc5c29c8992b748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 09/53] fix: a cold Gibbs fit starts from prior weights instead
 of the previous fit's

---
 pyrichlet/mixture_models/_base.py             | 3 +++
 pyrichlet/weight_models/_beta_in_dirichlet.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c51a9be..c5799f9 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -793,6 +793,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.map_sim_params = None
         self.map_log_likelihood = -np.inf
 
+        # Start from the prior weights, not from those of a previous fit
+        self.weight_model.reset()
+        self.weight_model.random(1)
         self.theta = defaultdict(atom_generator)
         self.affinity_matrix = np.zeros((len(self.y), len(self.y)))
         self.u = self.rng.uniform(0 + np.finfo(np.float64).eps, 1,
diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 2c92567..e661288 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -33,6 +33,7 @@ class BetaInDirichlet(BaseWeight):
         self.v = self.v[:0]
         self._v_base = self._v_base[:0]
         if len(self.d) == 0:
+            self._d_base = self._d_base[:0]
             self.complete(size)
             return self.w
         n = max(self.d) + 1
-- 
2.43.0


From 23bf03873ea567b48fa95534ac055315c8683ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 10/53] fix: fit copies the values of a DataFrame or Series
 instead of aliasing them

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index c5799f9..bddd0d0 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -719,10 +719,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         Initialize the prior variables if not given
         """
         if isinstance(y, pd.DataFrame):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy()
+            self.y = y.to_numpy(copy=True)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
-- 
2.43.0


From 4e83a69790ae7adcce1fa91600889c42a235f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 11/53] fix: a recorded draw holds an atom for every weight,
 also before the first step

---
 pyrichlet/mixture_models/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index bddd0d0..b90f415 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -876,8 +876,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         self.weight_model.fit_variational(self.var_d)
 
     def _get_run_params(self):
-        return {"w": self.weight_model.get_weights(),
-                "theta": dict(self.theta),
+        w = self.weight_model.get_weights()
+        return {"w": w,
+                "theta": {j: self.theta[j] for j in range(len(w))},
                 "u": self.u,
                 "d": self.d}
 
-- 
2.43.0


From 40688baa44ce030385e76869039f838bc332813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 12/53] fix: GeometricProcess.tail reaches the requested mass

---
 pyrichlet/weight_models/_geometric_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 2931684..8a3bde6 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -42,7 +42,7 @@ class GeometricProcess(BaseWeight):
             raise ValueError("Tail parameter not in range [0,1)")
         size = int(np.log(1 - x) / np.log(1 - self.p))
         self.complete(size)
-        return self.w
+        return super().tail(x)
 
     def fit_variational(self, variational_d):
         self.variational_d = variational_d
-- 
2.43.0


From 681c859f2f320f11cfcf48578ac35348c16c4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 13/53] fix: BetaInDirichlet.complete validates size and
 returns the weights

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index e661288..99d6d23 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -103,6 +103,7 @@ class BetaInDirichlet(BaseWeight):
         return self.w
 
     def complete(self, size):
+        super().complete(size)
         if len(self._v_base) == 0:
             self._v_base = self._rng.beta(1, self.alpha, size=1)
             self._count_base = [1]
@@ -121,3 +122,4 @@ class BetaInDirichlet(BaseWeight):
             self._d_base = np.append(self._d_base, jj)
         self.w = self.v * np.cumprod(np.concatenate(([1],
                                                      1 - self.v[:-1])))
+        return self.w
-- 
2.43.0


From 92f0f0d97646d2ee0bb9ca8ec91e5ac0eda2f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 14/53] fix: BetaBernoulli.complete works on an empty structure

---
 pyrichlet/weight_models/_beta_bernoulli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 9e4255c..089cca1 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -69,7 +69,8 @@ class BetaBernoulli(BaseWeight):
         super().complete(size)
         if len(self.v) < size:
             if len(self.v) == 0:
-                self.v = self._rng.beta(a=1, b=self.alpha, size=1)
+                self.random(size)
+                return self.w
             mask_change = self._rng.binomial(n=1,
                                              p=self.p,
                                              size=size - len(self.v))
-- 
2.43.0


From 700c4d6fb5cb5ad42b0a5a8f3eb40e962fd6ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 15/53] fix: BetaInBeta.complete draws the base stick only for
 an empty structure

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index a685a1a..40fb180 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -74,7 +74,7 @@ class BetaInBeta(BaseWeight):
 
     def complete(self, size):
         super().complete(size)
-        if len(self.v == 0):
+        if len(self.v) == 0:
             self.random_p()
         if len(self.v) < size:
             if self.x < 1:
-- 
2.43.0


From 9857475bed363a491e0846b4cf2295752d494dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 16/53] fix: BetaInBeta rejects the unimplemented p_method
 rejection-sampling up front

---
 pyrichlet/weight_models/_beta_in_beta.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 40fb180..2f2bfc0 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -140,8 +140,7 @@ class BetaInBeta(BaseWeight):
 
     def _validate_params(self):
         accepted_methods = ["static", "independent", "geometric",
-                            "rejection-sampling", "max-likelihood",
-                            "inverse-sampling"]
+                            "max-likelihood", "inverse-sampling"]
         if self.p_method not in accepted_methods:
             raise ValueError(f"p_method must be one of {accepted_methods}")
 
-- 
2.43.0


From e4006a2b099d75d77aea8ddf82c298dca4294098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 17/53] fix: BetaBinomialMixture and BetaInBetaMixture accept
 show_progress like the others

---
 pyrichlet/mixture_models/_beta_binomial_mixture.py | 4 ++--
 pyrichlet/mixture_models/_beta_in_beta_mixture.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_beta_binomial_mixture.py b/pyrichlet/mixture_models/_beta_binomial_mixture.py
index b5b69b1..de96693 100644
--- a/pyrichlet/mixture_models/_beta_binomial_mixture.py
+++ b/pyrichlet/mixture_models/_beta_binomial_mixture.py
@@ -5,10 +5,10 @@ from ..weight_models import BetaBinomial
 class BetaBinomialMixture(BaseGaussianMixture):
     def __init__(self, *, n=0, alpha=1, mu_prior=None, lambda_prior=1,
                  psi_prior=None, nu_prior=None, total_iter=1000, burn_in=100,
-                 subsample_steps=1, rng=None):
+                 subsample_steps=1, show_progress=False, rng=None):
         weight_model = BetaBinomial(n=n, alpha=alpha, rng=rng)
         super().__init__(weight_model=weight_model, mu_prior=mu_prior,
                          lambda_prior=lambda_prior, psi_prior=psi_prior,
                          nu_prior=nu_prior, total_iter=total_iter,
                          burn_in=burn_in, subsample_steps=subsample_steps,
-                         rng=rng)
+                         show_progress=show_progress, rng=rng)
diff --git a/pyrichlet/mixture_models/_beta_in_beta_mixture.py b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
index 07cba21..e2bcbf9 100644
--- a/pyrichlet/mixture_models/_beta_in_beta_mixture.py
+++ b/pyrichlet/mixture_models/_beta_in_beta_mixture.py
@@ -6,11 +6,12 @@ class BetaInBetaMixture(BaseGaussianMixture):
     def __init__(self, *, x=0, alpha=1, a=1, b=1, mu_prior=None,
                  lambda_prior=1, psi_prior=None, nu_prior=None,
                  p_method="geometric", total_iter=1000,
-                 burn_in=100, subsample_steps=1, rng=None):
+                 burn_in=100, subsample_steps=1, show_progress=False,
+                 rng=None):
         weight_model = BetaInBeta(x=x, alpha=alpha, a=a, b=b,
                                   p_method=p_method, rng=rng)
         super().__init__(weight_model=weight_model, mu_prior=mu_prior,
                          lambda_prior=lambda_prior, psi_prior=psi_prior,
                          nu_prior=nu_prior, total_iter=total_iter,
                          burn_in=burn_in, subsample_steps=subsample_steps,
-                         rng=rng)
+                         show_progress=show_progress, rng=rng)
-- 
2.43.0


From facf5e15661dd3c6f0d4fffb14220c85e636bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 18/53] fix: components at or beyond the truncation have weight
 zero in every weight model

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 6 ++++--
 pyrichlet/weight_models/_frequency.py              | 6 ++----
 pyrichlet/weight_models/_geometric_process.py      | 8 +++++---
 pyrichlet/weight_models/_pitman_yor_process.py     | 6 ++++--
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index 21b55a4..b8bd9e3 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -55,6 +55,8 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         return mean_log_beta(self.variational_params[j],
                              self.variational_params.sum())
 
@@ -96,14 +98,14 @@ class DirichletDistribution(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_params[j] / self.variational_params.sum()
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         alpha = self.variational_params.sum()
         if self.variational_params[j] <= 1:
diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index fba0ad2..d761ad2 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -25,9 +25,7 @@ class FrequencyWeighting(BaseWeight):
 
     def fit_variational(self, variational_d: np.ndarray):
         self.variational_d = variational_d
-        self.variational_k = variational_d.shape[1]
-        if self.variational_k == 0:
-            self.variational_k = self.n
+        self.variational_k = variational_d.shape[0]
 
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
@@ -66,6 +64,6 @@ class FrequencyWeighting(BaseWeight):
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         return self.variational_d.sum(1)[j] / self.variational_d.sum()
diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 8a3bde6..02efaaa 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -58,6 +58,8 @@ class GeometricProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = mean_log_beta(self.variational_params[0],
                             self.variational_params[1]
                             )
@@ -108,15 +110,15 @@ class GeometricProcess(BaseWeight):
         if self.variational_d is None:
             raise NotFittedError
         if j >= self.variational_k:
-            return 1
+            return 0
         p = self.variational_params[0] / self.variational_params.sum()
         return p * (1 - p) ** j
 
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
-            return
+        if j >= self.variational_k:
+            return 0
         if self.variational_params[0] <= 1:
             if self.variational_params[1] <= 1:
                 raise ValueError('multimodal distribution')
diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 14ffd14..092f8e7 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -85,6 +85,8 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_log_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
+        if j >= self.variational_k:
+            return -np.inf
         res = 0
         for jj in range(j):
             res += mean_log_beta(self.variational_params[jj][1],
@@ -134,7 +136,7 @@ class PitmanYorProcess(BaseWeight):
     def variational_mean_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
@@ -146,7 +148,7 @@ class PitmanYorProcess(BaseWeight):
     def variational_mode_w_j(self, j):
         if self.variational_d is None:
             raise NotFittedError
-        if j > self.variational_k:
+        if j >= self.variational_k:
             return 0
         res = 1
         for jj in range(j):
-- 
2.43.0


From e50c0c2e49db50a5efbb00900276ea338a0fb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 19/53] fix: FrequencyWeighting.variational_mean_log_w_j
 returns a logarithm

---
 pyrichlet/weight_models/_frequency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_frequency.py b/pyrichlet/weight_models/_frequency.py
index d761ad2..d539319 100644
--- a/pyrichlet/weight_models/_frequency.py
+++ b/pyrichlet/weight_models/_frequency.py
@@ -33,7 +33,8 @@ class FrequencyWeighting(BaseWeight):
         if j >= self.variational_k:
             return -np.inf
         if self.variational_d.shape[1]:
-            return self.variational_d.sum(1)[j] / self.variational_d.sum()
+            return np.log(self.variational_d.sum(1)[j] /
+                          self.variational_d.sum())
         return np.log(1 / self.variational_k)
 
     def variational_mean_log_p_d__w(self, variational_d=None):
-- 
2.43.0


From 9bacf83f1e632abac4be5c5fa4001fe74bdc6506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 20/53] fix: DirichletDistribution variational expectations use
 the Dirichlet marginals

---
 pyrichlet/weight_models/_dirichlet_distribution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_dirichlet_distribution.py b/pyrichlet/weight_models/_dirichlet_distribution.py
index b8bd9e3..753a6f5 100644
--- a/pyrichlet/weight_models/_dirichlet_distribution.py
+++ b/pyrichlet/weight_models/_dirichlet_distribution.py
@@ -58,7 +58,8 @@ class DirichletDistribution(BaseWeight):
         if j >= self.variational_k:
             return -np.inf
         return mean_log_beta(self.variational_params[j],
-                             self.variational_params.sum())
+                             self.variational_params.sum() -
+                             self.variational_params[j])
 
     def variational_mean_log_p_d__w(self, variational_d=None):
         if variational_d is None:
@@ -77,8 +78,8 @@ class DirichletDistribution(BaseWeight):
             raise NotFittedError
         log_sum_w_j = 0
         for j in range(self.variational_k):
-            log_sum_w_j += self.variational_mean_log_w_j(j)
-        log_sum_w_j *= self.alpha.sum() - 1
+            log_sum_w_j += ((self.alpha[j] - 1) *
+                            self.variational_mean_log_w_j(j))
         res = self._log_normalization_constant(self.alpha)
         res += log_sum_w_j
         return res
-- 
2.43.0


From 9e8bcbe4c43b9a70a627172e9ac208c82792d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 21/53] fix: a Series can be fitted and queried as a single
 column

---
 pyrichlet/mixture_models/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index b90f415..ffdd74a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -722,7 +722,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             self.y = y.to_numpy(copy=True)
             self._column_names = y.columns
         elif isinstance(y, pd.Series):
-            self.y = y.to_numpy(copy=True)
+            self.y = y.to_numpy(copy=True).reshape(-1, 1)
             if y.name is None:
                 self._column_names = np.array([0])
             else:
@@ -1121,6 +1121,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
+            elif isinstance(y, pd.Series):
+                _y = y.to_numpy().reshape(-1, 1)
             elif isinstance(y, list):
                 _y = np.array(y)
                 if _y.ndim == 1:
-- 
2.43.0


From 52dd1982ecc903381d617c6aa2dfaae4dfc7f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 22/53] fix: var_eap_affinity_matrix accepts every observation
 type it casts

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ffdd74a..ce4f057 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -606,8 +606,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             var_d = self.var_d
         else:
             _y = self._cast_observations(y)
-            dim = y.shape[1]
-            var_d = np.zeros((self.var_k, y.shape[0]), dtype=np.float64)
+            dim = _y.shape[1]
+            var_d = np.zeros((self.var_k, _y.shape[0]), dtype=np.float64)
             for j, vt_j in enumerate(self.var_theta):
                 v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
                 log_d_ji = self.weight_model.variational_mean_log_w_j(j)
@@ -616,8 +616,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                 log_d_ji -= dim * np.log(2 * np.pi) / 2
                 log_d_ji -= dim / v_lambda_j / 2
                 log_d_ji -= (v_scale_j *
-                             ((y - v_mu_j).T * (
-                                     v_precision_j @ (y - v_mu_j).T)).sum(
+                             ((_y - v_mu_j).T * (
+                                     v_precision_j @ (_y - v_mu_j).T)).sum(
                                  0)
                              ) / 2
                 var_d[j, :] = log_d_ji
-- 
2.43.0


From c119b3b6207f698a302e1f91db22ae825f3c6009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 23/53] fix: var_map_cluster on new data neither overflows nor
 returns a matrix of uncertainties

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index ce4f057..880eb44 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -695,7 +695,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
                                  v_precision_j @ (_y - v_mu_j).T)).sum(0)
                          )
             var_d[j, :] = log_d_ji
-        var_d -= var_d.mean(0)
+        var_d -= var_d.max(axis=0, initial=-np.inf)
         var_d = np.exp(var_d)
         var_d += np.finfo(np.float64).eps
         var_d /= var_d.sum(0)
@@ -703,7 +703,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             return var_d.argmax(0)
         else:
             d = var_d.argmax(0)
-            return d, var_d[d]
+            return d, 1 - var_d[d, range(len(d))]
 
     def get_n_groups(self):
         return self.n_groups
-- 
2.43.0


From 2a8ab3bce7f9b909fad9bed5bbc586cebba73802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 24/53] fix: marginal densities accept an int dim, no dim, and
 the fitted data's own columns

---
 pyrichlet/mixture_models/_base.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 880eb44..2240d1f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -264,7 +264,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim=dim)
         y_sim = []
         if periods is None:
             sim_params = self.sim_params
@@ -300,7 +300,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         """
         if not self.gibbs_fitted:
             raise NotFittedError("Object must be fitted with fit_gibbs method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim=dim)
         return _utils.mixture_density(_y,
                                       self.map_sim_params["w"],
                                       self.map_sim_params["theta"],
@@ -521,13 +521,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
+        _y = self._cast_observations(y, dim=dim)
         if dim is None:
             dim = np.arange(_y.shape[1])
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        dim = np.atleast_1d(dim)
+        len_dim = len(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -563,11 +561,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if not self.var_fitted:
             raise NotFittedError("Object must be fitted with fit_variational"
                                  " method")
-        _y = self._cast_observations(y)
-        if isinstance(dim, int):
-            len_dim = 1
-        else:
-            len_dim = len(dim)
+        _y = self._cast_observations(y, dim=dim)
+        if dim is None:
+            dim = np.arange(_y.shape[1])
+        dim = np.atleast_1d(dim)
+        len_dim = len(dim)
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -1115,9 +1113,11 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         res /= 2
         return res
 
-    def _cast_observations(self, y):
+    def _cast_observations(self, y, dim=None):
         if y is None:
             _y = self.y
+            if dim is not None:
+                _y = _y[:, np.atleast_1d(dim)]
         else:
             if isinstance(y, pd.DataFrame):
                 _y = y.to_numpy()
-- 
2.43.0


From f309bb9b78aebf0aae6bbf60dcf197af14793fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 25/53] fix: densities and Wishart terms use the determinant,
 not the Frobenius norm, of the precision

---
 pyrichlet/mixture_models/_utils.py | 4 ++--
 pyrichlet/utils/functions.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6a7bdef..6cb1150 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -108,7 +108,7 @@ def cluster(x, w, theta):
 
 def log_wishart_normalization_term(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision)) * (-scale / 2)
+    res = np.linalg.slogdet(precision)[1] * (-scale / 2)
     inverse_term = np.log(2) * (scale * dim / 2)
     inverse_term += np.log(np.pi) * (dim * (dim - 1) / 4)
     for i in range(dim):
@@ -119,7 +119,7 @@ def log_wishart_normalization_term(precision, scale):
 
 def e_log_norm_wishart(precision, scale):
     dim = precision.shape[0]
-    res = np.log(np.linalg.norm(precision))
+    res = np.linalg.slogdet(precision)[1]
     res += dim * np.log(2)
     for i in range(dim):
         res += digamma((scale - i) / 2)
diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 4d89809..49e77ef 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -31,7 +31,7 @@ def mean_log_beta(a, b):
 def density_students_t(x, mu, precision, nu):
     dim = x.shape[1]
     density = np.exp(loggamma((nu + dim) / 2) - loggamma(nu / 2))
-    density *= np.linalg.norm(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
+    density *= np.linalg.det(precision) ** 0.5 / (nu * np.pi) ** (dim / 2)
     density *= (1 + np.einsum('ij,jk,ik->i',
                               x - mu, precision, x - mu
                               ) / nu) ** (-(nu + dim) / 2)
@@ -40,7 +40,7 @@ def density_students_t(x, mu, precision, nu):
 
 def density_normal(x, mu, precision):
     dim = x.shape[1]
-    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.norm(precision))
+    density = np.sqrt((2 * np.pi) ** -dim * np.linalg.det(precision))
     density *= np.exp(- np.einsum('ij,jk,ik->i',
                                   x - mu, precision, x - mu
                                   ) / 2)
-- 
2.43.0


From a4188283431515902370f12514f654a8d895d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 26/53] fix: the variational Wishart update adds the full
 weighted scatter and an outer product

---
 pyrichlet/mixture_models/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 2240d1f..0e48258 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1014,7 +1014,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
-                             ) / n_j
+                             )
             v_lambda_j = self.lambda_prior + n_j
             v_scale_j = self.nu_prior + n_j
             v_mu_j = (self.lambda_prior * self.mu_prior +
@@ -1022,8 +1022,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = (self.psi_prior + ns_j +
                              self.lambda_prior * n_j / (self.lambda_prior +
                                                         n_j) *
-                             (x_bar_j - self.mu_prior) @ (x_bar_j -
-                                                          self.mu_prior))
+                             np.outer(x_bar_j - self.mu_prior,
+                                      x_bar_j - self.mu_prior))
             v_precision_j = np.linalg.inv(v_precision_j)
             var_theta.append([v_mu_j, v_lambda_j, v_precision_j, v_scale_j])
         self.var_theta = var_theta
-- 
2.43.0


From 4b008e4793382ee959bf025a1998f3f2e4f75814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 27/53] fix: marginal variational densities marginalise the
 covariance, not the precision

---
 pyrichlet/mixture_models/_base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 0e48258..44f436f 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -525,7 +525,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
-        len_dim = len(dim)
+        n_feats = self.y.shape[1]
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -534,12 +534,13 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             f_x += density_students_t(
                 _y, v_mu_j,
                 v_precision_j * (v_scale_j + 1 -
-                                 len_dim) * v_lambda_j / (1 + v_lambda_j),
-                v_scale_j + 1 - len_dim
+                                 n_feats) * v_lambda_j / (1 + v_lambda_j),
+                v_scale_j + 1 - n_feats
             ) * self.weight_model.variational_mean_w_j(j)
         return f_x
 
@@ -574,7 +575,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         for j, vt_j in iterator:
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
             v_mu_j = v_mu_j[dim]
-            v_precision_j = v_precision_j[:, dim][dim, :]
+            v_precision_j = np.linalg.inv(
+                np.linalg.inv(v_precision_j)[:, dim][dim, :])
             map_mu = v_mu_j
             map_precision = (v_scale_j - len_dim) * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
-- 
2.43.0


From 8c896fa920e97250b6f126e4b54431ac0e554d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 28/53] fix: usage example shows the repaired variational
 density

---
 docs/usage.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/usage.rst b/docs/usage.rst
index e79d57e..a65683a 100644
--- a/docs/usage.rst
+++ b/docs/usage.rst
@@ -105,7 +105,7 @@ we can calculate the EAP density
 
         >>> mm.fit_variational([1, 2, 3, 4], n_groups=2)
         >>> mm.var_eap_density([1.5, 2.5, 3.5])
-        array([0.20426694, 0.32282514, 0.20426694])
+        array([0.19397795, 0.27009489, 0.19397795])
 
 mixture models can also be used for clustering
 
-- 
2.43.0


From aa87f78ed010f0f8c335a65f5a01551417c60b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 29/53] fix: the ELBO subtracts the expected log variational
 density of the weights

---
 pyrichlet/mixture_models/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 44f436f..e836ea6 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1101,7 +1101,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         return np.sum(self.var_d * np.log(self.var_d))
 
     def _e_loq_q_w(self):
-        return self.weight_model.variational_mean_log_p_w()
+        return self.weight_model.variational_mean_log_q_w()
 
     def _e_log_q_theta(self):
         dim = self.y.shape[1]
-- 
2.43.0


From 7e6d2c6769e10f01d75eb0c583b0e3ed58ed96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 30/53] fix: Pitman-Yor stick j has Beta(1 - pyd, alpha + j *
 pyd) with j counted from one

---
 pyrichlet/weight_models/_pitman_yor_process.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrichlet/weight_models/_pitman_yor_process.py b/pyrichlet/weight_models/_pitman_yor_process.py
index 092f8e7..da30c59 100644
--- a/pyrichlet/weight_models/_pitman_yor_process.py
+++ b/pyrichlet/weight_models/_pitman_yor_process.py
@@ -17,12 +17,12 @@ class PitmanYorProcess(BaseWeight):
 
     def weighting_log_likelihood(self):
         v = self.w[0]
-        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha)
+        ret = log_likelihood_beta(v, 1 - self.pyd, self.alpha + self.pyd)
         prod_v = 1 - v
         for j in range(1, len(self.w)):
             v = self.w[j] / prod_v
             ret += log_likelihood_beta(v, 1 - self.pyd,
-                                       self.alpha + j * self.pyd)
+                                       self.alpha + (j + 1) * self.pyd)
             prod_v *= (1 - v)
         return ret
 
@@ -30,7 +30,7 @@ class PitmanYorProcess(BaseWeight):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
         if len(self.d) == 0:
-            pitman_yor_bias = np.arange(size)
+            pitman_yor_bias = np.arange(1, size + 1)
             self.v = self._rng.beta(a=1 - self.pyd,
                                     b=self.alpha + pitman_yor_bias * self.pyd,
                                     size=size)
@@ -44,7 +44,7 @@ class PitmanYorProcess(BaseWeight):
                 a_c = a_c[:size]
                 b_c = b_c[:size]
 
-            pitman_yor_bias = np.arange(len(a_c))
+            pitman_yor_bias = np.arange(1, len(a_c) + 1)
             self.v = self._rng.beta(
                 a=1 - self.pyd + a_c,
                 b=self.alpha + pitman_yor_bias * self.pyd + b_c
@@ -58,7 +58,7 @@ class PitmanYorProcess(BaseWeight):
     def complete(self, size):
         super().complete(size)
         if self.get_size() < size:
-            pitman_yor_bias = np.arange(self.get_size(), size)
+            pitman_yor_bias = np.arange(self.get_size() + 1, size + 1)
             self.v = np.concatenate(
                 (
                     self.v,
@@ -118,7 +118,7 @@ class PitmanYorProcess(BaseWeight):
                     self.alpha + (j + 1) * self.pyd - 1
             )
             res += loggamma(self.alpha + j * self.pyd + 1)
-            res -= loggamma(self.alpha + (j + 1) * self.pyd + 1)
+            res -= loggamma(self.alpha + (j + 1) * self.pyd)
             res -= loggamma(1 - self.pyd)
         return res
 
-- 
2.43.0


From 087b83278d2796a8f33b3975cdc14d7f85999860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 31/53] fix: BetaBernoulli posterior uses the Beta(1, alpha)
 marginal likelihood

---
 pyrichlet/weight_models/_beta_bernoulli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 089cca1..58b6ce7 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -101,7 +101,8 @@ class BetaBernoulli(BaseWeight):
                     a_j_prime += a_c[k]
                     b_j_prime += b_c[k]
                     k += 1
-                    g_plus = betaf(a_j_prime, b_j_prime) * self.alpha
+                    g_plus = betaf(1 + a_j_prime,
+                                   self.alpha + b_j_prime) * self.alpha
                 a_j_prime += a_c[j]
                 b_j_prime += b_c[j]
                 k = j - 1
@@ -111,7 +112,8 @@ class BetaBernoulli(BaseWeight):
                     a_j_prime += a_c[k]
                     b_j_prime += b_c[k]
                     k -= 1
-                g_minus = betaf(a_j_prime, b_j_prime) * self.alpha
+                g_minus = betaf(1 + a_j_prime,
+                                self.alpha + b_j_prime) * self.alpha
                 p = self.p
                 p_times_plus = p * g_plus if p > 0 else 0
                 not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-- 
2.43.0


From 8056a8fbddadaeda955467f2285bf82bef793855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 32/53] fix: cluster works for far away points and for a single
 point

---
 pyrichlet/mixture_models/_utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index 6cb1150..c86a5f2 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -91,14 +91,15 @@ def mixture_density(x, w, theta, dim=None, component=None):
 
 def cluster(x, w, theta):
     k = len(w)
-    assign_prob = []
-    for j in range(k):
-        assign_prob.append(multivariate_normal.pdf(x,
-                                                   theta[j][0],
-                                                   theta[j][1],
-                                                   1))
-    assign_prob = np.array(assign_prob).T
-    assign_prob = assign_prob * w
+    assign_prob = np.empty((len(x), k), dtype=np.float64)
+    with np.errstate(divide='ignore'):
+        for j in range(k):
+            assign_prob[:, j] = multivariate_normal.logpdf(x,
+                                                           theta[j][0],
+                                                           theta[j][1],
+                                                           1) + np.log(w[j])
+    assign_prob -= assign_prob.max(1)[:, None]
+    assign_prob = np.exp(assign_prob)
     assign_prob /= assign_prob.sum(1)[:, None]
     grp = np.argmax(assign_prob, axis=1)
     uncertainty = 1 - assign_prob[range(len(x)), grp]
-- 
2.43.0


From 0c80912ab98f8f8432914904101e8a82fc9d1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 33/53] fix: a Gibbs step works for a single observation

---
 pyrichlet/mixture_models/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index e836ea6..f9c6d08 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -939,10 +939,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
     def _d_log_likelihood_vector(self):
         with np.errstate(divide='ignore'):
             log_probability = np.array(
-                [multivariate_normal.logpdf(self.y,
-                                            self.theta[j][0],
-                                            self.theta[j][1],
-                                            1)
+                [np.atleast_1d(multivariate_normal.logpdf(self.y,
+                                                          self.theta[j][0],
+                                                          self.theta[j][1],
+                                                          1))
                  for j in range(self.weight_model.get_size())]
             )
             log_probability += np.log(np.greater.outer(
-- 
2.43.0


From 6aee6792376838761f54439881f17c621f05cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 34/53] fix: an unknown init_method is rejected before the
 model is changed

---
 pyrichlet/mixture_models/_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index f9c6d08..fe9ad06 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -137,6 +137,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "variational": fits the variational distribution an uses the MAP
             parameters as initialization
         """
+        if init_method not in ("kmeans", "random", "variational"):
+            raise AttributeError("init_method param must be one of 'kmeans', "
+                                 "'random', 'variational'")
         self.gibbs_fitted = False
         self._initialize_common_params(y)
         if not warm_start:
@@ -207,6 +210,9 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             "random": initialize variational parameters using a random
             assignment
         """
+        if init_method not in ("kmeans", "random"):
+            raise AttributeError("init_method param must be one of 'kmeans', "
+                                 "'random'")
         if show_progress is not None:
             self.show_progress = show_progress
         self.var_fitted = False
-- 
2.43.0


From 91ce5667e9fc3f838ff0be48966a7d856cbec8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 35/53] fix: the ELBO weighs the data terms with the expected
 group sizes

---
 pyrichlet/mixture_models/_base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index fe9ad06..95bc1c3 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1064,13 +1064,14 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             x_bar_j = (vd_j / n_j) @ self.y
             s_j = (vd_j / n_j * (self.y - x_bar_j).T) @ (self.y - x_bar_j)
             v_mu_j, v_lambda_j, v_precision_j, v_scale_j = vt_j
-            res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
-            res -= dim / v_lambda_j
-            res -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
-            res -= (v_scale_j *
-                    (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
-                    )
-        res -= dim * np.log(2 * np.pi) * self.var_k
+            res_j = _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
+            res_j -= dim / v_lambda_j
+            res_j -= v_scale_j * np.einsum('ij,ji->', s_j, v_precision_j)
+            res_j -= (v_scale_j *
+                      (x_bar_j - v_mu_j) @ v_precision_j @ (x_bar_j - v_mu_j)
+                      )
+            res_j -= dim * np.log(2 * np.pi)
+            res += n_j * res_j
         res /= 2
         return res
 
-- 
2.43.0


From b9d82f36b5e2c86138074ca69b4adbe3ee72fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 36/53] fix: the expected log density of the atoms subtracts
 the whole Wishart entropy

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 95bc1c3..d68029e 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1117,8 +1117,8 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             _, v_lambda_j, v_precision_j, v_scale_j = vt_j
             res += _utils.e_log_norm_wishart(v_precision_j, v_scale_j)
             res += dim * (np.log(v_lambda_j / (2 * np.pi)))
-            res -= _utils.entropy_wishart(v_precision_j, v_scale_j)
-        res += dim * self.var_k
+            res -= 2 * _utils.entropy_wishart(v_precision_j, v_scale_j)
+        res -= dim * self.var_k
         res /= 2
         return res
 
-- 
2.43.0


From bd6c91b7867cbad1a68967c17cfb8c6494e3bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 37/53] fix: GeometricProcess variational fit counts every
 observation and its number of failures

---
 pyrichlet/weight_models/_geometric_process.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_geometric_process.py b/pyrichlet/weight_models/_geometric_process.py
index 02efaaa..f361490 100644
--- a/pyrichlet/weight_models/_geometric_process.py
+++ b/pyrichlet/weight_models/_geometric_process.py
@@ -48,8 +48,7 @@ class GeometricProcess(BaseWeight):
         self.variational_d = variational_d
         self.variational_k = len(self.variational_d)
         self.variational_params = np.empty(2, dtype=np.float64)
-        self.variational_params[0] = self.a + max(len(self.variational_d[0]),
-                                                  1) - 1
+        self.variational_params[0] = self.a + len(self.variational_d[0])
         self.variational_params[1] = (
                 self.b + (self.variational_d[1:].T *
                           range(1, self.variational_k)).sum()
@@ -83,7 +82,7 @@ class GeometricProcess(BaseWeight):
                                     self.variational_params[0]
                                     )
         for j, nj in enumerate(np.sum(_variational_d, 1)):
-            res += nj * e_log_v_bar
+            res += j * nj * e_log_v_bar
         return res
 
     def variational_mean_log_p_w(self):
-- 
2.43.0


From baa40bf96415dd205b7a2598f08b85108d973bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 38/53] fix: DirichletProcess variational prior has one factor
 per free stick

---
 pyrichlet/weight_models/_dirichlet_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_dirichlet_process.py b/pyrichlet/weight_models/_dirichlet_process.py
index 812c469..2221da7 100644
--- a/pyrichlet/weight_models/_dirichlet_process.py
+++ b/pyrichlet/weight_models/_dirichlet_process.py
@@ -99,7 +99,7 @@ class DirichletProcess(BaseWeight):
         for params in self.variational_params[:-1]:
             res += mean_log_beta(params[1], params[0])
         res *= self.alpha - 1
-        res += self.variational_k * np.log(self.alpha)
+        res += (self.variational_k - 1) * np.log(self.alpha)
         return res
 
     def variational_mean_log_q_w(self):
-- 
2.43.0


From 93cd05ebf6065ea41b0c0d189791cc5a93d00c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 39/53] fix: BetaInBeta.weighting_log_likelihood is defined at
 x=1

---
 pyrichlet/weight_models/_beta_in_beta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 2f2bfc0..691799e 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -24,6 +24,8 @@ class BetaInBeta(BaseWeight):
         self._validate_params()
 
     def weighting_log_likelihood(self):
+        if self.x == 1:
+            return self._internal_beta_log_likelihood()
         v = self.w[0]
         beta_a = 1 + self.x / (1 - self.x) * self.p
         beta_b = self.alpha + self.x / (1 - self.x) * (1 - self.p)
-- 
2.43.0


From 8beda9e7dfe21523c8e9994b142c8b6665720892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 40/53] fix: BetaBernoulli compares marginal likelihoods on the
 log scale

---
 pyrichlet/weight_models/_beta_bernoulli.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index 58b6ce7..f815232 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -1,6 +1,6 @@
 from ._base import BaseWeight
 import numpy as np
-from scipy.special import beta as betaf
+from scipy.special import betaln, expit
 
 from ..utils.functions import log_likelihood_beta
 
@@ -93,7 +93,7 @@ class BetaBernoulli(BaseWeight):
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
             bernoullis[0] = 0
             for j in range(1, size_fit):
-                a_j_prime, b_j_prime, g_plus = 0, 0, 1
+                a_j_prime, b_j_prime, log_g_plus = 0, 0, 0
                 k = j + 1
                 for b in bernoullis[j + 1:]:
                     if b == 1:
@@ -101,8 +101,9 @@ class BetaBernoulli(BaseWeight):
                     a_j_prime += a_c[k]
                     b_j_prime += b_c[k]
                     k += 1
-                    g_plus = betaf(1 + a_j_prime,
-                                   self.alpha + b_j_prime) * self.alpha
+                    log_g_plus = betaln(1 + a_j_prime,
+                                        self.alpha + b_j_prime
+                                        ) + np.log(self.alpha)
                 a_j_prime += a_c[j]
                 b_j_prime += b_c[j]
                 k = j - 1
@@ -112,12 +113,13 @@ class BetaBernoulli(BaseWeight):
                     a_j_prime += a_c[k]
                     b_j_prime += b_c[k]
                     k -= 1
-                g_minus = betaf(1 + a_j_prime,
-                                self.alpha + b_j_prime) * self.alpha
+                log_g_minus = betaln(1 + a_j_prime,
+                                     self.alpha + b_j_prime
+                                     ) + np.log(self.alpha)
                 p = self.p
-                p_times_plus = p * g_plus if p > 0 else 0
-                not_p_times_minus = (1 - p) * g_minus if p < 1 else 0
-                p = p_times_plus / (p_times_plus + not_p_times_minus)
+                if 0 < p < 1:
+                    p = expit(np.log(p) + log_g_plus
+                              - np.log(1 - p) - log_g_minus)
                 bernoullis[j] = self._rng.binomial(n=1, p=p)
         self.bernoullis = bernoullis
         return self.bernoullis
-- 
2.43.0


From 4641d65d0ad5592cf5db68e4ac6fa5c2d6ed9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 41/53] fix: BetaInDirichlet.random with a > 0 works for a
 single group

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 99d6d23..1ff10ed 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -63,7 +63,7 @@ class BetaInDirichlet(BaseWeight):
                     self._d_base = np.append(self._d_base, 0)
                 continue
             d_base_reduced = np.delete(self._d_base, j)
-            k = np.max(d_base_reduced)
+            k = np.max(d_base_reduced, initial=-1)
             log_prob = []
             new_base = False
             for dd in range(k + 2):
-- 
2.43.0


From d9be75f49dfeaf5f314099e6c15b484a01ee4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 42/53] fix: the Dirichlet process partition density is defined
 at concentration zero

---
 pyrichlet/utils/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/utils/functions.py b/pyrichlet/utils/functions.py
index 49e77ef..f7da875 100644
--- a/pyrichlet/utils/functions.py
+++ b/pyrichlet/utils/functions.py
@@ -18,8 +18,9 @@ def log_likelihood_binom(x, n, p):
 def dirichlet_log_eppf(alpha, partition):
     k = len(partition)
     n = sum(partition)
-    res = loggamma(alpha) - loggamma(alpha + n)
-    res += k * np.log(alpha)
+    res = loggamma(alpha + 1) - loggamma(alpha + n)
+    if k > 1:
+        res += (k - 1) * np.log(alpha)
     res += np.sum(loggamma(partition))
     return res
 
-- 
2.43.0


From 1f6ad3e9ad2c85575d7f78dc1684c14aae80a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 43/53] fix: BetaBinomial log-likelihood skips the first stick
 and pairs the others with the wrong binomial

---
 pyrichlet/weight_models/_beta_binomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index 4601f7d..d7e3316 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -17,11 +17,11 @@ class BetaBinomial(BaseWeight):
     def weighting_log_likelihood(self):
         b = self.binomials[0]
         res = log_likelihood_beta_binom(b, self.n, 1, self.alpha)
-        for j in range(1, len(self.v) - 1):
+        for j in range(len(self.v) - 1):
             v = self.v[j]
             res += log_likelihood_beta(v, 1 + b,
                                        self.alpha + self.n - b)
-            b = self.binomials[j]
+            b = self.binomials[j + 1]
             res += log_likelihood_binom(b, self.n, v)
 
         res += log_likelihood_beta(self.v[-1], 1 + b,
-- 
2.43.0


From 77b2fbca950c3cc4dc751276a18bd05ccff2532b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 44/53] fix: BetaBinomial.complete after a fit extends from the
 binomial already drawn for the last stick

---
 pyrichlet/weight_models/_beta_binomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_binomial.py b/pyrichlet/weight_models/_beta_binomial.py
index d7e3316..fb0be24 100644
--- a/pyrichlet/weight_models/_beta_binomial.py
+++ b/pyrichlet/weight_models/_beta_binomial.py
@@ -60,8 +60,9 @@ class BetaBinomial(BaseWeight):
                                     self.alpha + self.n - self.binomials[-1],
                                     size=1)
         while len(self.v) < size:
-            self.binomials = np.append(self.binomials,
-                                       self._rng.binomial(self.n, self.v[-1]))
+            if len(self.binomials) <= len(self.v):
+                self.binomials = np.append(
+                    self.binomials, self._rng.binomial(self.n, self.v[-1]))
             self.v = np.append(
                 self.v, self._rng.beta(
                     1 + self.binomials[-1],
-- 
2.43.0


From 07bb7629b8311b658a68758e7e2bda38a8bef106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 45/53] fix: BetaBernoulli log-likelihood counts the repeated
 sticks instead of the new ones

---
 pyrichlet/weight_models/_beta_bernoulli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index f815232..a9ee339 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -29,7 +29,7 @@ class BetaBernoulli(BaseWeight):
     def _beta_structure_log_likelihood(self):
         ret = log_likelihood_beta(self.v[0], 1, self.alpha)
         for j in range(1, len(self.v)):
-            if not self.bernoullis[j]:
+            if self.bernoullis[j]:
                 ret += log_likelihood_beta(self.v[j], 1, self.alpha)
         return ret
 
-- 
2.43.0


From 0bfe97ecaea26a83fb3cde975dd5fcbbd87bc2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 46/53] fix: BetaBernoulli log-likelihood omits the probability
 of repeated sticks

---
 pyrichlet/weight_models/_beta_bernoulli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index a9ee339..da7663c 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -20,10 +20,10 @@ class BetaBernoulli(BaseWeight):
 
     def _bernoulli_structure_log_likelihood(self):
         ret = 0
-        if self.p == 0:
+        if self.p in (0, 1):
             return ret
-        for b in self.bernoullis:
-            ret += b * np.log(self.p)
+        for b in self.bernoullis[1:]:
+            ret += b * np.log(self.p) + (1 - b) * np.log(1 - self.p)
         return ret
 
     def _beta_structure_log_likelihood(self):
-- 
2.43.0


From a63c88fe53eba31bbc0188f775aef82a7372bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 47/53] fix: BetaInDirichlet weighs a new base stick without
 the Beta(1, alpha) normalisation

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 1ff10ed..0b89ea6 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -71,7 +71,8 @@ class BetaInDirichlet(BaseWeight):
                 if base_count == 0 and not new_base:
                     new_base = True
                     temp_log_prob = (
-                            np.log(self.a) + loggamma(1 + a_c[j])
+                            np.log(self.a) + np.log(self.alpha)
+                            + loggamma(1 + a_c[j])
                             + loggamma(self.alpha + b_c[j])
                             - loggamma(1 + self.alpha + a_c[j] + b_c[j]))
                     log_prob.append(temp_log_prob)
-- 
2.43.0


From b3af2cbf18789ee0ff38fa4208e107bbf0280e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 48/53] fix: BetaInDirichlet draws a new base stick of the
 posterior from the prior

---
 pyrichlet/weight_models/_beta_in_dirichlet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_dirichlet.py b/pyrichlet/weight_models/_beta_in_dirichlet.py
index 0b89ea6..c236227 100644
--- a/pyrichlet/weight_models/_beta_in_dirichlet.py
+++ b/pyrichlet/weight_models/_beta_in_dirichlet.py
@@ -93,9 +93,13 @@ class BetaInDirichlet(BaseWeight):
                 self._d_base = np.append(self._d_base,
                                          gumbel_max_sampling(log_prob,
                                                              rng=self._rng))
-            if max(self._d_base) <= len(self._v_base):
+            base_j = self._d_base[j]
+            if not np.any(d_base_reduced == base_j):
+                new_v_base = self._rng.beta(a=1 + a_c[j],
+                                            b=self.alpha + b_c[j])
                 self._v_base = np.concatenate((
-                    self._v_base, [self._rng.beta(a=1, b=self.alpha)]))
+                    self._v_base[:base_j], [new_v_base],
+                    self._v_base[base_j + 1:]))
         self._count_base = [
             np.sum(self._d_base == j) for j in range(len(self._v_base))]
         self.v = self._v_base[self._d_base]
-- 
2.43.0


From b89dd4c1d8d22078e15900f11f83c998f2207ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 49/53] fix: BetaBernoulli redraws its Bernoullis from the
 wrong conditional, forgetting their current values

---
 pyrichlet/weight_models/_beta_bernoulli.py | 27 ++++++++++++----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_bernoulli.py b/pyrichlet/weight_models/_beta_bernoulli.py
index da7663c..5df3d96 100644
--- a/pyrichlet/weight_models/_beta_bernoulli.py
+++ b/pyrichlet/weight_models/_beta_bernoulli.py
@@ -88,12 +88,13 @@ class BetaBernoulli(BaseWeight):
         bernoullis = self._rng.binomial(n=1, p=self.p, size=size)
         self.bernoullis[0] = 1
         if len(self.d) > 0:
-            size_fit = self.d.max()
             a_c = np.bincount(self.d)
             b_c = np.concatenate((np.cumsum(a_c[::-1])[-2::-1], [0]))
+            k = min(size, len(self.bernoullis))
+            bernoullis[:k] = self.bernoullis[:k]
             bernoullis[0] = 0
-            for j in range(1, size_fit):
-                a_j_prime, b_j_prime, log_g_plus = 0, 0, 0
+            for j in range(1, size):
+                a_j_prime, b_j_prime = a_c[j], b_c[j]
                 k = j + 1
                 for b in bernoullis[j + 1:]:
                     if b == 1:
@@ -101,20 +102,22 @@ class BetaBernoulli(BaseWeight):
                     a_j_prime += a_c[k]
                     b_j_prime += b_c[k]
                     k += 1
-                    log_g_plus = betaln(1 + a_j_prime,
-                                        self.alpha + b_j_prime
-                                        ) + np.log(self.alpha)
-                a_j_prime += a_c[j]
-                b_j_prime += b_c[j]
+                log_g_plus = betaln(1 + a_j_prime,
+                                    self.alpha + b_j_prime
+                                    ) + np.log(self.alpha)
+                a_k_prime, b_k_prime = 0, 0
                 k = j - 1
                 for b in bernoullis[:j][::-1]:
+                    a_k_prime += a_c[k]
+                    b_k_prime += b_c[k]
                     if b == 1:
                         break
-                    a_j_prime += a_c[k]
-                    b_j_prime += b_c[k]
                     k -= 1
-                log_g_minus = betaln(1 + a_j_prime,
-                                     self.alpha + b_j_prime
+                log_g_plus += betaln(1 + a_k_prime,
+                                     self.alpha + b_k_prime
+                                     ) + np.log(self.alpha)
+                log_g_minus = betaln(1 + a_j_prime + a_k_prime,
+                                     self.alpha + b_j_prime + b_k_prime
                                      ) + np.log(self.alpha)
                 p = self.p
                 if 0 < p < 1:
-- 
2.43.0


From 6feac935892f080e50b756d1ce63eda2b4939895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 50/53] fix: Gibbs marginal densities returned one zero for a
 numpy integer or tuple dim

---
 pyrichlet/mixture_models/_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrichlet/mixture_models/_utils.py b/pyrichlet/mixture_models/_utils.py
index c86a5f2..39ad300 100644
--- a/pyrichlet/mixture_models/_utils.py
+++ b/pyrichlet/mixture_models/_utils.py
@@ -75,12 +75,13 @@ def mixture_density(x, w, theta, dim=None, component=None):
                                                theta[j][0],
                                                theta[j][1],
                                                1)*w[j])
-        elif type(dim) in [list, np.ndarray]:
+        elif np.ndim(dim) > 0:
+            dims = np.array(dim)
             ret.append(multivariate_normal.pdf(x,
-                                               theta[j][0][dim],
-                                               theta[j][1][:, dim][dim, :],
+                                               theta[j][0][dims],
+                                               theta[j][1][:, dims][dims, :],
                                                1)*w[j])
-        elif type(dim) is int:
+        else:
             ret.append(norm.pdf(x[:, 0],
                                 theta[j][0][dim],
                                 np.sqrt(theta[j][1][dim, dim]))*w[j])
-- 
2.43.0


From 82fd774a98982d8754a653106e1f6babe1c3bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 51/53] fix: a component left empty by k-means made every
 variational quantity NaN

---
 pyrichlet/mixture_models/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index d68029e..120f659 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -1019,7 +1019,10 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         var_theta = []
         for vd_j in self.var_d:
             n_j = vd_j.sum()
-            x_bar_j = (vd_j / n_j) @ self.y
+            if n_j > 0:
+                x_bar_j = (vd_j / n_j) @ self.y
+            else:
+                x_bar_j = self.mu_prior
             ns_j = np.einsum('i,ij,ik->jk',
                              vd_j, (self.y - x_bar_j), (self.y - x_bar_j)
                              )
-- 
2.43.0


From b0f2b8d312a1b6f7ccaf2611aab1f84b77bd16ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 52/53] fix: marginal variational MAP densities were not
 marginals of the joint one

---
 pyrichlet/mixture_models/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/mixture_models/_base.py b/pyrichlet/mixture_models/_base.py
index 120f659..085105a 100644
--- a/pyrichlet/mixture_models/_base.py
+++ b/pyrichlet/mixture_models/_base.py
@@ -572,7 +572,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
         if dim is None:
             dim = np.arange(_y.shape[1])
         dim = np.atleast_1d(dim)
-        len_dim = len(dim)
+        n_feats = self.y.shape[1]
         f_x = np.zeros(len(_y))
         if component is None:
             iterator = enumerate(self.var_theta)
@@ -584,7 +584,7 @@ class BaseGaussianMixture(metaclass=ABCMeta):
             v_precision_j = np.linalg.inv(
                 np.linalg.inv(v_precision_j)[:, dim][dim, :])
             map_mu = v_mu_j
-            map_precision = (v_scale_j - len_dim) * v_precision_j
+            map_precision = (v_scale_j - n_feats) * v_precision_j
             f_x += density_normal(_y, map_mu, map_precision
                                   ) * self.weight_model.variational_mode_w_j(j)
         return f_x
-- 
2.43.0


From 12cd59f85c721e7c0b49e95cf36f31c5e9a6e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 53/53] fix: BetaInBeta max-likelihood and inverse-sampling
 updated p without looking at the sticks

---
 pyrichlet/weight_models/_beta_in_beta.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyrichlet/weight_models/_beta_in_beta.py b/pyrichlet/weight_models/_beta_in_beta.py
index 691799e..1775084 100644
--- a/pyrichlet/weight_models/_beta_in_beta.py
+++ b/pyrichlet/weight_models/_beta_in_beta.py
@@ -44,10 +44,11 @@ class BetaInBeta(BaseWeight):
     def random(self, size=None):
         if size is None and len(self.d) == 0:
             raise ValueError("Weight structure not fitted and `n` not passed.")
-        self.v = self.v[:0]
         if len(self.d) == 0:
+            self.v = self.v[:0]
             self.complete(size)
         else:
+            # p is updated given the current sticks, which are then redrawn
             if self.x > 0:
                 self.random_p()
             a_c = np.bincount(self.d)
@@ -124,8 +125,12 @@ class BetaInBeta(BaseWeight):
         elif self.p_method == "inverse-sampling":
             unif = self._rng.uniform()
 
+            # keep the density of many sticks within the floating point range
+            shift = max(self._structure_log_likelihood(p=p)
+                        for p in np.linspace(0, 1, 101)[1:-1])
+
             def f(p):
-                return np.exp(self._structure_log_likelihood(p=p))
+                return np.exp(self._structure_log_likelihood(p=p) - shift)
 
             integral_normalization = quad(f, 0, 1)[0]
 
-- 
2.43.0

