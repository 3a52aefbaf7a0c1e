From 015af48ee3dd89810b8c24f8d6639bad61fcffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 01/28] fix: multi-fidelity samplers no longer consume the
 caller's list of sizes

---
 src/mfpml/design_of_experiment/mf_samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index 5b572f3..a47b432 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -58,6 +58,8 @@ class MultiFidelitySampler:
 
         # initialize the samples
         data = []
+        # work on a copy, the list of the caller should not be consumed
+        num_samples = list(num_samples)
         # check the number of samples
         self._mf_samples_rules(num_samples)
 
-- 
2.43.0


From c3a37a402de9e0d80adfb9589a32fec30e63b29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 02/28] fix: nested multi-fidelity Latin hypercube depends on
 its seed, not on the global generator

---
 src/mfpml/design_of_experiment/mf_samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/design_of_experiment/mf_samplers.py b/src/mfpml/design_of_experiment/mf_samplers.py
index a47b432..c114a08 100644
--- a/src/mfpml/design_of_experiment/mf_samplers.py
+++ b/src/mfpml/design_of_experiment/mf_samplers.py
@@ -213,7 +213,8 @@ class MFLatinHyperCube(MultiFidelitySampler):
                             data_higher_fidelity) -> None:
 
         # generate index randomly for nested sampling without repeating
-        index = np.random.choice(
+        # (own generator, so the design only depends on the seed)
+        index = np.random.RandomState(self.seed).choice(
             np.arange(data_higher_fidelity.shape[0]),
             size=num_sample,
             replace=False
-- 
2.43.0


From 6320366a909e8083f9f9069fde875fb974088ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 03/28] fix: Sobol sampler no longer draws 2**num_samples
 points that it discards

---
 src/mfpml/design_of_experiment/sf_samplers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mfpml/design_of_experiment/sf_samplers.py b/src/mfpml/design_of_experiment/sf_samplers.py
index 891412d..8d76d64 100644
--- a/src/mfpml/design_of_experiment/sf_samplers.py
+++ b/src/mfpml/design_of_experiment/sf_samplers.py
@@ -311,9 +311,6 @@ class SobolSequence(SingleFidelitySampler):
 
         # define the sobol sampler
         sobol_sampler = Sobol(d=self.num_dim, seed=self.seed)
-        # generate lots of samples first
-        sobol_sampler.random_base2(m=num_samples)
-        _ = sobol_sampler.reset()
         _ = sobol_sampler.fast_forward(n=self.num_skip)
         # get the samples (an np.ndarray)
         samples = sobol_sampler.random(n=num_samples)
-- 
2.43.0


From d88c2c53379ab1c504d2802c7c3dd27a06636063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 04/28] fix: problems of selectable dimension describe
 themselves on the object, not on the shared class

---
 src/mfpml/problems/functions.py    | 10 +++++-----
 src/mfpml/problems/sf_functions.py | 19 +++++++------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/mfpml/problems/functions.py b/src/mfpml/problems/functions.py
index bb09e83..c1e0a54 100644
--- a/src/mfpml/problems/functions.py
+++ b/src/mfpml/problems/functions.py
@@ -227,7 +227,7 @@ class Functions(ABC):
         dimension: int
             dimension of the problem
         """
-        return self.__class__.num_dim
+        return self.num_dim
 
     @property
     def _get_low_fidelity(self) -> list:
@@ -240,7 +240,7 @@ class Functions(ABC):
 
         """
 
-        return self.__class__.low_fidelity
+        return self.low_fidelity
 
     @property
     def _optimum(self) -> float:
@@ -252,7 +252,7 @@ class Functions(ABC):
             name of the class
 
         """
-        return self.__class__.optimum
+        return self.optimum
 
     @property
     def _optimum_variable(self) -> list:
@@ -264,7 +264,7 @@ class Functions(ABC):
             Best design scheme
 
         """
-        return self.__class__.optimum_scheme
+        return self.optimum_scheme
 
     @property
     def _input_domain(self) -> np.ndarray:
@@ -274,7 +274,7 @@ class Functions(ABC):
         -------
 
         """
-        return self.__class__.input_domain
+        return self.input_domain
 
 
 class FunctionWrapper:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 197fb0b..391976e 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -380,7 +380,7 @@ class Thevenot(Functions):
         )
         self.m = m
         self.beta = beta
-        # update the information of function class
+        # update the information of the function
         self.__update_parameters()
 
     def f(self, x: np.ndarray) -> np.ndarray:
@@ -404,14 +404,12 @@ class Thevenot(Functions):
 
     def __update_parameters(self):
 
-        self.__class__.num_dim = self.num_dim
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for i in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for i in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class Ackley(Functions):
@@ -453,7 +451,7 @@ class Ackley(Functions):
         self.a = a
         self.b = b
         self.c = c
-        # update the information of function class
+        # update the information of the function
         self.__update_parameters()
 
     def get_param(self) -> dict[str, float]:
@@ -483,21 +481,18 @@ class Ackley(Functions):
 
     def __update_parameters(self) -> None:
         """
-        update the class variable information
+        update the information of the object
         Returns
         -------
 
         """
 
-        self.__class__.num_dim = self.num_dim
-
-        self.__class__.optimum_scheme = np.array(
+        self.optimum_scheme = np.array(
             [0 for _ in range(1, self.num_dim + 1)]
         ).tolist()
-        self.__class__.optimum = self.f(
+        self.optimum = self.f(
             np.array([0 for _ in range(1, self.num_dim + 1)])
         )
-        self.__class__.input_domain = self.input_domain
 
 
 class AckleyN2(Functions):
-- 
2.43.0


From f86b6e29d1ff56af66fda2db6620168918a529ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 05/28] fix: Ackley, Thevenot and AckleyN2 reject dimensions
 they do not support

---
 src/mfpml/problems/sf_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 391976e..372ac83 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -373,7 +373,8 @@ class Thevenot(Functions):
         m:
         beta
         """
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), \
+            f"{num_dim} is no supported dimension of {type(self).__name__}"
         self.num_dim = num_dim
         self.input_domain = np.array(
             [[-2 * np.pi, 2 * np.pi] for _ in range(num_dim)]
@@ -445,7 +446,8 @@ class Ackley(Functions):
         c: float
             Parameters
         """
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), \
+            f"{num_dim} is no supported dimension of {type(self).__name__}"
         self.num_dim = num_dim
         self.input_domain = np.array([[-32, 32] for _ in range(num_dim)])
         self.a = a
@@ -513,7 +515,8 @@ class AckleyN2(Functions):
         return d == 2
 
     def __init__(self, num_dim: int = 2) -> None:
-        self.is_dim_compatible(d=num_dim)
+        assert self.is_dim_compatible(d=num_dim), \
+            f"{num_dim} is no supported dimension of {type(self).__name__}"
 
     @staticmethod
     def f(x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d67b3734a919597938892edbfe62cd9e0a59991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 06/28] fix: mf_Park91A is defined on the x1 = 0 face of its
 domain

---
 src/mfpml/problems/mf_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index 826070a..b0d17aa 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -950,7 +950,8 @@ class mf_Park91A(MultiFidelityFunctions):
         x4 = x[:, 3]
 
         # calculate the terms
-        term1 = x1/2 * (np.sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1)
+        # x1/2 * (sqrt(1 + (x2 + x3**2) * x4/x1**2) - 1), also for x1 = 0
+        term1 = (np.sqrt(x1**2 + (x2 + x3**2) * x4) - x1) / 2
         term2 = (x1 + 3*x4)*np.exp(1 + np.sin(x3))
 
         # calculate the objective function
-- 
2.43.0


From 344ea5a9146a495b02a97bee43d1c72b66e67760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 07/28] fix: declared optima of AckleyN2 (swapped fields) and
 GoldPrice (sign of the optimal design)

---
 src/mfpml/problems/sf_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 372ac83..1d9e5aa 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -93,7 +93,7 @@ class GoldPrice(Functions):
     num_cons: int = 0
     input_domain = np.array([[-2.0, 2.0], [-2.0, 2.0]])
     optimum: float = 3.0
-    optimum_scheme: List = [0.0, 1.0]
+    optimum_scheme: List = [0.0, -1.0]
     low_fidelity: List = None
 
     @classmethod
@@ -503,8 +503,8 @@ class AckleyN2(Functions):
     num_obj: int = 1
     num_cons: int = 0
     input_domain: np.ndarray = np.array([[-32.0, 32.0], [-32.0, 32.0]])
-    optimum: float = [0.0, 0.0]
-    optimum_scheme: List = -200.0
+    optimum: float = -200.0
+    optimum_scheme: List = [0.0, 0.0]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From d963fb6b020ba874b5282976dcb07780e8588ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 08/28] fix: optimal design of Hartman3 attains its declared
 optimum

---
 src/mfpml/problems/mf_functions.py | 2 +-
 src/mfpml/problems/sf_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/mf_functions.py b/src/mfpml/problems/mf_functions.py
index b0d17aa..3c8992c 100644
--- a/src/mfpml/problems/mf_functions.py
+++ b/src/mfpml/problems/mf_functions.py
@@ -150,7 +150,7 @@ class mf_Hartman3(MultiFidelityFunctions):
     input_domain: np.ndarray = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     design_space: dict = {"x1": [0.0, 1.0], "x2": [0.0, 1.0], "x3": [0.0, 1.0]}
     optimum: float = -3.86278214782076
-    optimum_scheme: list = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: list = [0.11461434, 0.55564885, 0.85254695]
     low_fidelity: list = ["low"]
 
     def __init__(self, num_dim: int = 3, cost: list = [1.0, 0.2]) -> None:
diff --git a/src/mfpml/problems/sf_functions.py b/src/mfpml/problems/sf_functions.py
index 1d9e5aa..4ab5f27 100644
--- a/src/mfpml/problems/sf_functions.py
+++ b/src/mfpml/problems/sf_functions.py
@@ -228,7 +228,7 @@ class Hartman3(Functions):
     num_cons: int = 0
     input_domain = np.array([[0.0, 1.0], [0.0, 1.0], [0.0, 1.0]])
     optimum: float = -3.86278214782076
-    optimum_scheme: List = [0.1, 0.55592003, 0.85218259]
+    optimum_scheme: List = [0.11461434, 0.55564885, 0.85254695]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From b62bea30ef286898932a31dc60ec2457b22a0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 09/28] fix: declared optimal design of Branin_2 is feasible
 and attains the declared optimum

---
 src/mfpml/problems/sf_cons_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/problems/sf_cons_functions.py b/src/mfpml/problems/sf_cons_functions.py
index d9013f1..35b539e 100644
--- a/src/mfpml/problems/sf_cons_functions.py
+++ b/src/mfpml/problems/sf_cons_functions.py
@@ -59,8 +59,8 @@ class Branin_2(Functions):
     num_obj: int = 1
     num_cons: int = 1
     input_domain = np.array([[0, 1], [0.0, 1]])
-    optimum: float = 12.001
-    optimum_scheme: List = [0.941, 0.317]
+    optimum: float = 12.005
+    optimum_scheme: List = [0.94058, 0.31712]
     low_fidelity: List = None
 
     @classmethod
-- 
2.43.0


From 86ffb385d80584275bd24578aba402c6caab2032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 10/28] fix: evolutionary optimisers' result record reports the
 best of the last generation run, also after early stopping

---
 src/mfpml/optimization/evolutionary_algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/evolutionary_algorithms.py b/src/mfpml/optimization/evolutionary_algorithms.py
index 3b53049..7f46724 100644
--- a/src/mfpml/optimization/evolutionary_algorithms.py
+++ b/src/mfpml/optimization/evolutionary_algorithms.py
@@ -235,8 +235,8 @@ class PSO(EABase):
 
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
@@ -402,8 +402,8 @@ class DE(EABase):
                     break
         # get the final results
         results = {
-            "best_x": self.gen_best_x[-1, :],
-            "best_y": self.gen_best[-1, :],
+            "best_x": self.gen_best_x[iter + 1, :],
+            "best_y": self.gen_best[iter + 1, :],
             "best_x_historical": self.gen_best_x,
             "best_y_historical": self.gen_best,
             "all_samples": self.samples,
-- 
2.43.0


From 0ab8ec52aeab416bfa05a3086c1ac3a45246b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 11/28] fix: acquisition query hands the surrogate to a
 user-supplied optimizer

---
 src/mfpml/optimization/sf_uncons_acqusitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/optimization/sf_uncons_acqusitions.py b/src/mfpml/optimization/sf_uncons_acqusitions.py
index 2a90b30..ce64e29 100644
--- a/src/mfpml/optimization/sf_uncons_acqusitions.py
+++ b/src/mfpml/optimization/sf_uncons_acqusitions.py
@@ -66,6 +66,7 @@ class SFUnConsAcq(ABC):
                 self.eval,
                 num_dim=surrogate.num_dim,
                 design_space=surrogate.bounds,
+                args=(surrogate,),
             )
 
         return opt_x
-- 
2.43.0


From c656081647293d955201127601861af9a85f1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 12/28] fix: constrained acquisition query hands the surrogates
 to a user-supplied optimizer

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a13115f..2c852fa 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -69,6 +69,7 @@ class SFConsAcq(ABC):
                 self.eval,
                 num_dim=obj_surrogate.num_dim,
                 design_space=obj_surrogate.bounds,
+                args=(obj_surrogate, cons_surrogate),
             )
 
         return opt_x
-- 
2.43.0


From 884e93a158d56d35bf4a534e56188789f098b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 13/28] fix: probability of feasibility of a batch gives each
 point its own value

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index 2c852fa..a4019c1 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -126,15 +126,15 @@ class CEI(SFConsAcq):
         return ei
 
     def pof(self, x, cons_surrogates: List) -> np.ndarray:
-        x = np.atleast_2d(x)
+        x = np.array(x).reshape((-1, cons_surrogates[0].num_dim))
         num_cons = len(cons_surrogates)
         u_g = np.zeros((x.shape[0], num_cons))
         mse_g = np.zeros((x.shape[0], num_cons))
         for ii in range(num_cons):
             cons_surrogate = cons_surrogates[ii]
-            u_g[:, ii], mse_g[:, ii] = cons_surrogate.predict(
-                x, return_std=True)
+            mean, std = cons_surrogate.predict(x, return_std=True)
+            u_g[:, ii], mse_g[:, ii] = mean.ravel(), std.ravel()
 
         # probability of feasibility
         pof = np.prod(norm.cdf(0-u_g / (mse_g + 1e-9)), axis=1)
-        return pof
+        return pof.reshape(-1, 1)
-- 
2.43.0


From d9e5f72f7425c8a6122b551bbdf4ab18aff93bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 14/28] fix: constrained expected improvement improves on the
 best feasible response

---
 src/mfpml/optimization/sf_cons_acqusitions.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_acqusitions.py b/src/mfpml/optimization/sf_cons_acqusitions.py
index a4019c1..5c049ee 100644
--- a/src/mfpml/optimization/sf_cons_acqusitions.py
+++ b/src/mfpml/optimization/sf_cons_acqusitions.py
@@ -102,22 +102,27 @@ class CEI(SFConsAcq):
         cei : np.ndarray
             negative expected improvement values
         """
-        # get the resposes
-
-        # get the expected improvement of objective function
-        ei_obj = self.ei(x, obj_surrogate)
+        # identify the feasible samples (all constraints are satisfied)
+        feasible = np.all(np.hstack(
+            [cons.sample_y for cons in cons_surrogates]) <= 0, axis=1)
         # get the probability of feasibility
         pof = self.pof(x, cons_surrogates)
+        # without a feasible sample there is nothing to improve on yet
+        if not np.any(feasible):
+            return -pof
+        # get the expected improvement of objective function
+        ei_obj = self.ei(x, obj_surrogate, feasible)
         # get the expected improvement of constraints
         cei = -ei_obj * pof
 
         return cei
 
-    def ei(self, x, obj_surrogate: Kriging) -> np.ndarray:
+    def ei(self, x, obj_surrogate: Kriging,
+           feasible: np.ndarray) -> np.ndarray:
 
         num_dim = obj_surrogate.num_dim
         x = np.array(x).reshape((-1, num_dim))
-        f_min = obj_surrogate.sample_y.min()
+        f_min = obj_surrogate.sample_y[feasible].min()
         y_hat, sigma = obj_surrogate.predict(x, return_std=True)
         # expected improvement
         ei = (f_min - y_hat) * norm.cdf(
-- 
2.43.0


From 946a8d73bfe63d2ef78679f3bbae0be638512c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 15/28] fix: multi-fidelity acquisitions search with the
 user-supplied optimizer

---
 src/mfpml/optimization/mf_acqusitions.py | 60 ++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index edf9705..a8021c3 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -166,7 +166,20 @@ class AugmentedEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # best point for high-fidelity with the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            # best point for low-fidelity with the given optimizer
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -330,7 +343,20 @@ class VFEI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # best point for high-fidelity with the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 0),
+            )
+            # best point for low-fidelity with the given optimizer
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(fmin, mf_surrogate, 1),
+            )
         # choose fidelity
         if opt_hf <= opt_lf:
             update_x = np.atleast_2d(x_hf)
@@ -444,7 +470,20 @@ class VFLCB(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # best point for high-fidelity with the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 0),
+            )
+            # best point for low-fidelity with the given optimizer
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
@@ -570,7 +609,20 @@ class ExtendedPI(MFUnConsAcq):
             opt_lf = res_lf.fun
             x_lf = res_lf.x
         else:
-            pass
+            # best point for high-fidelity with the given optimizer
+            _, opt_hf, x_hf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 0),
+            )
+            # best point for low-fidelity with the given optimizer
+            _, opt_lf, x_lf = self.optimizer.run_optimizer(
+                self.eval,
+                num_dim=mf_surrogate.num_dim,
+                design_space=mf_surrogate.bound,
+                args=(mf_surrogate, premin.fun, cost_ratio, 1),
+            )
         # choose fidelity with better optimal value
         if opt_hf <= opt_lf:
             # choose high high fidelity
-- 
2.43.0


From d153dc54408310a5c38fa03e4ce950058d70b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 16/28] fix: VFEI of the low fidelity uses the low fidelity's
 own uncertainty

---
 src/mfpml/optimization/mf_acqusitions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index a8021c3..b4dfb66 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -294,12 +294,12 @@ class VFEI(MFUnConsAcq):
         elif fidelity == 1:
             # get predicted standard deviation for low-fidelity
             _, std_lf = mf_surrogate.predict_lf(x, return_std=True)
-            s = mf_surrogate.beta * std_lf
+            s = np.abs(mf_surrogate.beta) * std_lf
         else:
             ValueError('Unknown fidelity input.')
         # expected improvement
-        z = (fmin - pre) / (std + 1e-8)
-        vfei = (fmin - pre) * norm.cdf(z) + std * norm.pdf(z)
+        z = (fmin - pre) / (s + 1e-8)
+        vfei = (fmin - pre) * norm.cdf(z) + s * norm.pdf(z)
         vfei[s < np.finfo(float).eps] = 0.
         return (- vfei).ravel()
 
-- 
2.43.0


From 719565a73f332f539d795fd5f916fb1a0ca06aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 17/28] fix: ExtendedPI of a batch gives each point its own
 value

---
 src/mfpml/optimization/mf_acqusitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_acqusitions.py b/src/mfpml/optimization/mf_acqusitions.py
index b4dfb66..6202480 100644
--- a/src/mfpml/optimization/mf_acqusitions.py
+++ b/src/mfpml/optimization/mf_acqusitions.py
@@ -563,7 +563,7 @@ class ExtendedPI(MFUnConsAcq):
             cr = cost_ratio
             eta = np.prod(mf_surrogate._eval_corr(
                 x, mf_surrogate._get_sample_lf, fidelity=1), axis=1)
-        return -pi*corr*cr*eta
+        return (-pi*corr*cr*eta.reshape(-1, 1)).ravel()
 
     def query(self, mf_surrogate: _mfGaussianProcess,
               cost_ratio: float = 1.0,
-- 
2.43.0


From c10b96b237b24edda4568fe67a274ef83252ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 18/28] fix: multi-fidelity Bayesian optimisation without a
 known optimum uses its budget

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index dd685b9..1d1775f 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -78,7 +78,7 @@ class mfUnConsBayesOpt:
         iteration = 0
         error = self.__update_error()
         print(f"Error: {error}")
-        while iteration < max_iter and error > stopping_error:
+        while iteration < max_iter and error >= stopping_error:
             # update the surrogate model
             update_x, fidelity = self.acquisition.query(
                 mf_surrogate=self.surrogate,
-- 
2.43.0


From 8980259f20f9f48c9ebba524ea5247488a58deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 19/28] fix: constrained Bayesian optimisation's best point is
 a feasible one

---
 src/mfpml/optimization/sf_cons_bo.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index 515cbe1..ee1ead3 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -129,7 +129,8 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             self.best = np.min(self.init_obj_response[feasible_index])
-            min_index = np.where(self.init_obj_response == self.best)[0]
+            min_index = feasible_index[0][[
+                np.argmin(self.init_obj_response[feasible_index])]]
             # get the best feasible sample
             self.best_x = self.init_sample[min_index, :]
             # record the optimization history
@@ -154,7 +155,8 @@ class BayesConsOpt(ABC):
                 == self.problem.num_cons)
             # get the best feasible sample
             min_y = np.min(self.obj_response[feasible_index])
-            min_index = np.where(self.obj_response == min_y)[0]
+            min_index = feasible_index[0][[
+                np.argmin(self.obj_response[feasible_index])]]
             print(f"min_index: {min_index}")
             # update best
             self.best = min_y
-- 
2.43.0


From 749ac8b9bd3a5c62e9759240c1ab0abd72c996b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 20/28] fix: scaled kriging's mean without deviation scales the
 low fidelity, not the discrepancy

---
 src/mfpml/models/scale_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 5b0b92f..15f7c8f 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -122,8 +122,8 @@ class ScaledKriging(_mfGaussianProcess):
             prediction of high-fidelity
         """
         if not return_std:
-            return self.disc_model.predict(X) * self.rho \
-                + self.lfGP.predict(X)
+            return self.rho * self.lfGP.predict(X) \
+                + self.disc_model.predict(X)
         else:
             pre_lf, std_lf = self.lfGP.predict(X, return_std)
             pre_disc, std_disc = self.disc_model.predict(X, return_std)
-- 
2.43.0


From d77a1132ba06fe528bc438b0b783d5de63bfc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 21/28] fix: co-kriging's predict does not rescale the model's
 noise

---
 src/mfpml/models/co_kriging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index ff5ffec..bfd2b60 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -457,8 +457,8 @@ class CoKriging:
                 - c.T.dot(solve(self.LC.T, solve(self.LC, c)))
             )
             self.epis_std = np.sqrt(np.maximum(np.diag(s2), 0))*self.yh_std
-            self.noise = self.noise * self.yh_std
-            total_std = np.sqrt((self.epis_std**2 + self.noise**2))
+            total_std = np.sqrt(
+                self.epis_std**2 + (self.noise * self.yh_std)**2)
             return fmean.reshape(-1, 1), total_std.reshape(-1, 1)
 
     def predict_lf(
-- 
2.43.0


From b3dcd35b873aa0a6eb55e05eba5ebc811df26339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 22/28] fix: co-kriging's likelihood uses the same (already
 scaled) noise as its predictor

---
 src/mfpml/models/co_kriging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index bfd2b60..2272270 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -569,7 +569,7 @@ class CoKriging:
                 theta = params[i, 2:]
             else:
                 rho = params[i, 0]
-                noise_sigma = self.noise / self.yh_std
+                noise_sigma = self.noise
                 theta = params[i, 1:]
             # correlation matrix R
             K = self.kernel(self.sample_xh_scaled,
-- 
2.43.0


From 424fbd0a7b560f3bc0f90deb9d21d6705333b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 23/28] fix: retraining a Gaussian process estimates an unknown
 noise again

---
 src/mfpml/models/gaussian_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfpml/models/gaussian_process.py b/src/mfpml/models/gaussian_process.py
index 0b98649..25103b8 100644
--- a/src/mfpml/models/gaussian_process.py
+++ b/src/mfpml/models/gaussian_process.py
@@ -61,6 +61,7 @@ class GaussianProcessRegression:
         # basis function
         self.regr = regr
         # noisy data prior or not
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self,
@@ -77,6 +78,8 @@ class GaussianProcessRegression:
         """
         # record the training time for the model
         time_start = time.time()
+        # the noise is estimated again when it is not given
+        self.noise = self.noise_prior
         # get number samples
         self.num_samples = X.shape[0]
         # the original sample_x
-- 
2.43.0


From 7b93b2ebdcba62e0843436393c2693be7c7a642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 24/28] fix: retraining hierarchical kriging estimates an
 unknown noise again

---
 src/mfpml/models/hierarchical_kriging.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfpml/models/hierarchical_kriging.py b/src/mfpml/models/hierarchical_kriging.py
index 8c43517..a7c5a22 100644
--- a/src/mfpml/models/hierarchical_kriging.py
+++ b/src/mfpml/models/hierarchical_kriging.py
@@ -29,6 +29,7 @@ class HierarchicalKriging(_mfGaussianProcess):
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
         self.kernel = RBF(theta=np.zeros(self.num_dim), bounds=kernel_bound)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
         # define the low-fidelity model
         self.lfGP = GP(design_space=design_space,
@@ -46,6 +47,8 @@ class HierarchicalKriging(_mfGaussianProcess):
         Y : np.ndarray
             array of high-fidelity responses
         """
+        # the noise is estimated again when it is not given
+        self.noise = self.noise_prior
         # get samples
         self.sample_xh = X
         self.sample_yh = Y
-- 
2.43.0


From 9122474553672187cea2a3349806e78a5cf76afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 25/28] fix: retraining co-kriging neither rescales a given
 noise again nor keeps an estimated one

---
 src/mfpml/models/co_kriging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 2272270..817cdbf 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -40,6 +40,7 @@ class _GP:
         self.optimizer_restart = optimizer_restart
         # get basis function
         self.regr = regr
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def _hyper_paras_optimization(self) -> None:
@@ -252,6 +253,8 @@ class _GP:
         sample_y : np.ndarray
             responses of the sample
         """
+        # the noise is estimated again when it is not given
+        self.noise = self.noise_prior
         # get number samples
         self.num_samples = sample_x.shape[0]
         # the original sample_x
@@ -351,6 +354,7 @@ class CoKriging:
             noise_prior=noise_prior)
 
         # noise (unscaled, it will be scaled later)
+        self.noise_prior = noise_prior
         self.noise = noise_prior
 
     def train(self, samples: List, responses: List) -> None:
@@ -378,10 +382,11 @@ class CoKriging:
         self.sample_yh_scaled = self.normalize_hf_output(self.sample_yh.copy())
         self.sample_yl_scaled = (self.sample_yl - self.yh_mean) / self.yh_std
         # scale the noise value
+        self.noise = self.noise_prior
         if self.noise is not None:
             self.noise = self.noise / self.yh_std
             # update the noise value of the low-fidelity model
-            self.lfGP.noise = self.noise
+            self.lfGP.noise_prior = self.noise
         # train the low-fidelity model
         start_time = time.time()
 
-- 
2.43.0


From 66ddd03addcafba78ca7f8b4df478506f4d109e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 26/28] fix: scaled kriging's discrepancy model uses the
 model's kernel and its bounds

---
 src/mfpml/models/scale_kriging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfpml/models/scale_kriging.py b/src/mfpml/models/scale_kriging.py
index 15f7c8f..6387059 100644
--- a/src/mfpml/models/scale_kriging.py
+++ b/src/mfpml/models/scale_kriging.py
@@ -80,6 +80,7 @@ class ScaledKriging(_mfGaussianProcess):
         if disc_model is None:
             self.disc_model = GaussianProcessRegression(
                 design_space=design_space,
+                kernel=self.kernel,
                 optimizer=optimizer,
                 optimizer_restart=optimizer_restart,
                 noise_prior=noise_prior
-- 
2.43.0


From cd25ecfb71aa4f70621e6f910c5c7295aa365e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 27/28] fix: co-kriging can be queried by the multi-fidelity
 acquisitions

---
 src/mfpml/models/co_kriging.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mfpml/models/co_kriging.py b/src/mfpml/models/co_kriging.py
index 817cdbf..593b0ba 100644
--- a/src/mfpml/models/co_kriging.py
+++ b/src/mfpml/models/co_kriging.py
@@ -339,6 +339,7 @@ class CoKriging:
         super().__init__()
         # get information of the modeling problem
         self.bounds = design_space
+        self.bound = design_space
         self.optimizer = optimizer
         self.optimizer_restart = optimizer_restart
         self.num_dim = design_space.shape[0]
@@ -493,6 +494,29 @@ class CoKriging:
             obj, std = self.lfGP.predict(x_predict, return_std=True)
             return obj*self.yh_std + self.yh_mean, std*self.yh_std
 
+    def _eval_corr(
+        self, X: np.ndarray, Xprime: np.ndarray, fidelity: int = 0
+    ) -> np.ndarray:
+        """Evaluate the correlation values of one fidelity
+
+        Parameters
+        ----------
+        X : np.ndarray
+            x
+        Xprime : np.ndarray
+            x'
+        fidelity : int, optional
+            fidelity level, 0 for high-fidelity, by default 0
+
+        Returns
+        -------
+        np.ndarray
+            correlation matrix
+        """
+        kernel = self.kernel if fidelity == 0 else self.lfGP.kernel
+        return kernel.get_kernel_matrix(
+            self.normalize_input(X), self.normalize_input(Xprime))
+
     def _optHyp(self) -> None:
         """Optimize the hyperparameters"""
         # consider the situation where noise exists
-- 
2.43.0


From ea02c147bc43bce6fcf2070fb7f8ebe213dea417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:52 +0000
Subject: [PATCH 28/28] fix: without a known optimum no error target ends a
 Bayesian optimisation

---
 src/mfpml/optimization/mf_uncons_bo.py | 2 +-
 src/mfpml/optimization/sf_cons_bo.py   | 2 +-
 src/mfpml/optimization/sf_uncons_bo.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mfpml/optimization/mf_uncons_bo.py b/src/mfpml/optimization/mf_uncons_bo.py
index 1d1775f..91d62e1 100644
--- a/src/mfpml/optimization/mf_uncons_bo.py
+++ b/src/mfpml/optimization/mf_uncons_bo.py
@@ -124,7 +124,7 @@ class mfUnConsBayesOpt:
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_cons_bo.py b/src/mfpml/optimization/sf_cons_bo.py
index ee1ead3..79ad89f 100644
--- a/src/mfpml/optimization/sf_cons_bo.py
+++ b/src/mfpml/optimization/sf_cons_bo.py
@@ -186,7 +186,7 @@ class BayesConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
diff --git a/src/mfpml/optimization/sf_uncons_bo.py b/src/mfpml/optimization/sf_uncons_bo.py
index e0f17da..0e78e95 100644
--- a/src/mfpml/optimization/sf_uncons_bo.py
+++ b/src/mfpml/optimization/sf_uncons_bo.py
@@ -133,7 +133,7 @@ class BayesUnConsOpt(ABC):
         elif self.known_optimum == 0.0:
             error = np.abs(self.best - self.known_optimum)
         else:
-            error = 1.0
+            error = np.inf
 
         return error
 
-- 
2.43.0

