From dc722a2386bb0fd8ff0e8249a31d158abf7c17f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 01/93] fix: the sum of two uniform cartesian grids keeps the
 bounds of the second one

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..4d86f90 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From 0d3a62fe42f98d091f2611cd361dba9047f92137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 02/93] fix: a uniform cartesian grid without orders has 20
 points in each dimension

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 4d86f90..8f3f413 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From bf03909beb1a892c5b9700e14320c7901aec08f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 03/93] fix: concatenation and product of cartesian grids
 raised a TypeError

---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 8f3f413..b71443d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From ee0ff3367308201d54657b5ccdc63f1e1514f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 04/93] fix: cartesian truncated floats when the first array
 holds integers

---
 dolo/numeric/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/misc.py b/dolo/numeric/misc.py
index 44570b5..0be014e 100644
--- a/dolo/numeric/misc.py
+++ b/dolo/numeric/misc.py
@@ -37,7 +37,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From 9f6d058cbc3430cc200bda10ee8fb14ed5052129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 05/93] fix: the bounds of a model domain follow the order of
 its states

---
 dolo/compiler/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..1b8a1c7 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -381,7 +381,8 @@ class SymbolicModel:
 
         sdomain = eval_data(sdomain, calibration)
 
-        domain = CartesianDomain(**sdomain)
+        # bounds are listed in the order of the states
+        domain = CartesianDomain(**{s: sdomain[s] for s in states})
 
         return domain
 
-- 
2.43.0


From 01e089786a660565dd8ce16553cdabcdbfaf9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 06/93] fix: domain entries which are not states are ignored
 instead of raising an error

---
 dolo/compiler/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 1b8a1c7..a51471f 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,10 +349,13 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
-        sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        from dolang.language import eval_data
+
+        sdomain = {
+            k: eval_data(v, calibration)
+            for k, v in self.data.get("domain", {}).items()
+            if k in states
+        }
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
@@ -377,9 +380,6 @@ class SymbolicModel:
             )
 
         from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
 
         # bounds are listed in the order of the states
         domain = CartesianDomain(**{s: sdomain[s] for s in states})
-- 
2.43.0


From 1e23f700462ca9ab34419e5944a4c53ce09a3d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 07/93] fix: linear decision rules on several markov states
 could not be evaluated

A second definition of get_coefficients, without the reshape to the shape of
the grid, was overriding the first one.
---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From 96542f5b38d7bb05d57c1bedcd9f9274fa55bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 08/93] fix: decision rules on a cartesian exogenous grid
 accept one exogenous point for many states

---
 dolo/numeric/decision_rule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..1ee71fd 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -72,9 +72,9 @@ class CallableDecisionRule:
                 if s.ndim == 1 and m.ndim == 1:
                     return self.eval_ms(m[None, :], s[None, :])[0, :]
                 elif m.ndim == 1:
-                    m = m[None, :]
+                    m = m[None, :].repeat(s.shape[0], axis=0)
                 elif s.ndim == 1:
-                    s = s[None, :]
+                    s = s[None, :].repeat(m.shape[0], axis=0)
                 return self.eval_ms(m, s)
 
 
@@ -204,7 +204,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
@@ -261,7 +261,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
-- 
2.43.0


From 275a47ff21d5ad14127a93c4e3adb32a0bcf5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 09/93] fix: custom decision rules failed when the number of
 controls differs from the number of states, shocks and parameters

---
 dolo/numeric/decision_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 1ee71fd..d74d741 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -456,6 +456,7 @@ from dolang.symbolic import stringify_symbol
 from dolo.numeric.decision_rule import CallableDecisionRule
 from dolang.factory import FlatFunctionFactory
 from dolang.function_compiler import make_method_from_factory
+from dolang.vectorize import standard_function
 
 
 class CustomDR(CallableDecisionRule):
@@ -519,7 +520,8 @@ class CustomDR(CallableDecisionRule):
         self.exo_grid = model.exogenous.discretize()  # this is never used
         self.endo_grid = model.endo_grid
         self.gufun = gufun
+        self.fun = standard_function(gufun, len(controls))
 
     def eval_ms(self, m, s):
 
-        return self.gufun(m, s, self.p)
+        return self.fun(m, s, self.p)
-- 
2.43.0


From c82935dcc85f2c35164f6c1197b4da3587f7c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 10/93] fix: the default parameters of LogNormal were swapped

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..11ef024 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -496,7 +496,7 @@ class LogNormal(UnivariateContinuousDistribution):
     signature = {"μ": "Optional[float]", "σ": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, σ: float = 0.0, μ: float = 1.0):
+    def __init__(self, σ: float = 1.0, μ: float = 0.0):
         self.σ = float(σ)
         self.μ = float(μ)
 
-- 
2.43.0


From 14a0f0b7ff6faf396c31e591e272fc4a38f847f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 11/93] fix: Beta distributions could not be declared in model
 files

---
 dolo/numeric/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 11ef024..ac4cf55 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -525,6 +525,7 @@ class LogNormal(UnivariateContinuousDistribution):
         # Probability associated with each point in grid (nodes)
 
 
+@language_element
 class Beta(UnivariateContinuousDistribution):
 
     α: float
@@ -532,6 +533,7 @@ class Beta(UnivariateContinuousDistribution):
 
     signature = {"α": "float", "β": "float"}
 
+    @greek_tolerance
     def __init__(self, α: float = None, β: float = None):
         self.α = float(α)
         self.β = float(β)
-- 
2.43.0


From a59632c912417b9073589e7a40998149b311ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 12/93] fix: Bernouilli draws follow the declared probability
 and have a dimension

---
 dolo/numeric/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index ac4cf55..12271ab 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -276,6 +276,7 @@ def product_iid(iids: List[FiniteDistribution]) -> FiniteDistribution:
 ##@dataclass
 class Bernouilli(DiscreteDistribution):
 
+    d = 1
     π: float = 0.5
 
     signature = {"π": "float"}  # this is redundant for now
@@ -298,7 +299,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From 97a5317aac4e2d121e1b8b6105d7e3045f298133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 13/93] fix: discretization options were ignored when the
 target is a markov chain

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 12271ab..13a4c32 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -370,7 +370,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -612,7 +614,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From a2bb701fdc1feb415632de1c33b7b8a6c455bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:02 +0000
Subject: [PATCH 14/93] fix: np.Inf was removed from numpy

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 13a4c32..a7343b2 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -444,7 +444,7 @@ class UNormal(UnivariateContinuousDistribution):
         )
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From 44e0c1492b6ae56858f9768ce1e48e09b3524bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 15/93] fix: the mean of a multivariate normal was counted
 twice in its discretization

---
 dolo/numeric/discretization/quadrature.py | 6 +++---
 dolo/numeric/distribution.py              | 2 --
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..1a64484 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -81,7 +81,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
     if mu is None:
         mu = numpy.array([0] * sigma.shape[0])
-
+    mu = numpy.atleast_1d(mu)
     herms = [hermgauss(i) for i in orders]
 
     points = [h[0] * numpy.sqrt(2) for h in herms]
@@ -90,7 +90,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(float(sigma)) + mu[0]
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
@@ -114,7 +114,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index a7343b2..3671a7c 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -452,7 +452,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
@@ -610,7 +609,6 @@ class Normal(ContinuousDistribution):
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
             [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From cf31542d1290517ff0b57339d9f3418ceb766062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 16/93] fix: gauss_hermite_nodes dropped components whose
 covariances sum to zero and modified sigma

---
 dolo/numeric/discretization/quadrature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index 1a64484..66a12ac 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -103,7 +103,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = numpy.array(sigma, dtype=float)
+        zero_columns = numpy.where(numpy.diag(sigma) == 0)[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
-- 
2.43.0


From 7ab4381708c649ef4dd9937a872e5c0958df77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 17/93] fix: discretized VAR1 had the wrong covariance because
 of a transposed cholesky factor

---
 dolo/numeric/discretization/discretization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..8e5fca4 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -123,13 +123,13 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     d = sigma.shape[1]
 
-    sigma = sigma.copy()
+    sigma = np.array(sigma, dtype=float)
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(np.diag(sigma) == 0)[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From bb9eda1411718cfd845d9ace76896bca3238d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 18/93] fix: UNormal.integrate missed the mass of narrow
 distributions

---
 dolo/numeric/distribution.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 3671a7c..735b318 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -436,12 +436,8 @@ class UNormal(UnivariateContinuousDistribution):
         σ = self.σ
         μ = self.μ
 
-        f = (
-            lambda x: fun(x)
-            / σ
-            / np.sqrt(2 * np.pi)
-            * np.exp(-1 / 2 * ((x - μ) / σ) ** 2)
-        )
+        # integrate over the standardized variable: quad would miss narrow peaks
+        f = lambda z: fun(μ + σ * z) / np.sqrt(2 * np.pi) * np.exp(-1 / 2 * z**2)
         import scipy.integrate
 
         return scipy.integrate.quad(f, -np.inf, np.inf)[0]
-- 
2.43.0


From f04d986e088646afc7f1d22c431b63c9b697475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 19/93] fix: models with a constant process could not be
 discretized

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..811a87f 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -125,7 +125,7 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
-    def discretize(self, to=None, **kwargs):
+    def discretize(self, to="iid", **kwargs):
 
         if to == "iid":
             x = self.μ[None, :]
-- 
2.43.0


From 0fdeb89da26021b74e3c681b2075efcb4763210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 20/93] fix: discretizing a VAR1 whose autocorrelation is not a
 scalar was silently accepted

---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 811a87f..4b8f841 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -395,11 +395,11 @@ class AR1(ContinuousProcess):
         μ = np.array([self.μ])
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -532,11 +532,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From d9bd699f47021e2475ec74ebc178dbe9ff2d5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 21/93] fix: deterministic simulation and gdp discretization of
 VAR1 processes raised an error

---
 dolo/numeric/processes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 4b8f841..3c7a932 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -440,9 +440,9 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -468,7 +468,7 @@ class AR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
         sim[0, :, :] = m0[None, :]
@@ -577,9 +577,9 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -604,7 +604,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From 06e8187628c0ab95fb205e05e486ac65088ce9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 22/93] fix: simulated VAR1 processes start at the given
 initial value

---
 dolo/numeric/processes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 3c7a932..b60ca40 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -595,8 +595,11 @@ class VAR1(ContinuousProcess):
 
         d = self.d
 
+        # the process is simulated in deviations to its mean
         if m0 is None:
             m0 = np.zeros(d)
+        else:
+            m0 = np.array(m0) - self.μ
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
-- 
2.43.0


From 59b7734618e549ad81367856659a3e08c8a668e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 23/93] fix: impulse responses failed for models with a VAR1
 process

---
 dolo/numeric/processes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index b60ca40..122c03f 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -621,13 +621,15 @@ class VAR1(ContinuousProcess):
 
     def response(self, T, impulse):
         d = self.d
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
+        # same convention as iid processes: the impulse occurs in period 1
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
         rho = self.ρ
-        for t in range(1, irf.shape[0]):
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += self.μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 #### dummy class
-- 
2.43.0


From 9f9085406a0edc01fecad1f30ab463646995b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 24/93] fix: deterministic simulation of iid processes was
 stochastic

---
 dolo/numeric/processes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 122c03f..682abf8 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -105,7 +105,12 @@ class IIDProcess(Process):
     def simulate(
         self, N: int = 10, T: int = 100, i0=None, m0=None, stochastic=True
     ) -> DataArray:
-        sim = self.draw((T) * N).reshape((T, N, -1))
+        if stochastic:
+            sim = self.draw((T) * N).reshape((T, N, -1))
+        else:
+            # all draws are equal to the mean
+            mean = sum(w * x for (w, x) in self.discretize(to="iid").items())
+            sim = np.zeros((T, N, self.d)) + mean
         coords = {"T": range(T), "N": range(N), "V": list(self.names)}
         xar = DataArray(sim, dims=coords.keys(), coords=coords)
         return xar
-- 
2.43.0


From 62f7066bd086aa23600383024380450f65371a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 25/93] fix: markov simulations could read past the last state

---
 dolo/numeric/processes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 682abf8..bb2d739 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -23,7 +23,8 @@ from dolang.language import language_element
 def choice(x, n, cumul):
     i = 0
     running = True
-    while i < n and running:
+    # cumulated probabilities may be rounded below 1
+    while i < n - 1 and running:
         if x < cumul[i]:
             running = False
         else:
-- 
2.43.0


From 41dcc2e4d06285ba13132862ba1d273de5f8cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 26/93] fix: simulate_markov_chain could not return values

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index bb2d739..d68560f 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -55,7 +55,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From bfb54e36ed03c17b9b2c1673fe7a88cb027cd862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 27/93] fix: markov simulations could not be replicated by
 seeding numpy

---
 dolo/numeric/processes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d68560f..d91edc5 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -33,7 +32,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, draws):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -41,7 +40,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = draws[t, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -52,7 +51,9 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    # uniform draws come from numpy's generator, so that it can be seeded by the user
+    draws = np.random.uniform(size=(T, N))
+    indices = simulate_mc_indices(C, N, T, i0_, draws)
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From d9ef6f2ba098198dc4aefc2283ab4f58a268c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 28/93] fix: AR1 processes could neither be simulated nor
 discretized to a gdp

---
 dolo/numeric/processes.py | 81 +++------------------------------------
 1 file changed, 6 insertions(+), 75 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index d91edc5..a7ed1c9 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -418,86 +418,17 @@ class AR1(ContinuousProcess):
 
         return MarkovChain(values=P, transitions=Q)
 
-    def discretize_gdp(self, N=3):
-
-        Σ = np.array([[self.σ]])
-        ρ = self.ρ
-
-        n_nodes = N
-        n_std = 2.5
-        n_integration_nodes = 5
-
-        try:
-            assert Σ.shape[0] == 1
-        except:
-            raise Exception("Not implemented.")
-
-        try:
-            assert ρ.shape[0] == ρ.shape[1] == 1
-        except:
-            raise Exception("Not implemented.")
+    def __var1__(self):
+        return VAR1(ρ=self.ρ, Σ=[[self.σ]], μ=[self.μ])
 
-        ρ = ρ[0, 0]
-        σ = np.sqrt(Σ[0, 0])
-
-        from dolo.numeric.discretization import gauss_hermite_nodes
-
-        epsilons, weights = gauss_hermite_nodes([n_integration_nodes], Σ)
-
-        min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
-        max = n_std * (σ / (np.sqrt(1 - ρ**2)))
-
-        from .grids import UniformCartesianGrid
-
-        grid = UniformCartesianGrid([min], [max], [n_nodes])
-
-        nodes = np.linspace(min, max, n_nodes)[:, None]
-        iweights = weights[None, :].repeat(n_nodes, axis=0)
-        integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
-        for i in range(n_nodes):
-            for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
-
-        return GDP(nodes, integration_nodes, iweights, grid=grid)
-        # return (nodes,integration_nodes,iweights)
+    def discretize_gdp(self, N=3):
+        return self.__var1__().discretize_gdp(N=N)
 
     def simulate(self, N, T, m0=None, stochastic=True):
-
-        Sigma = np.array([[self.σ]])
-        mu = np.array([self.μ])
-        rho = np.array([[self.ρ]])
-        d = self.d
-
-        if m0 is None:
-            m0 = np.zeros(d)
-        from numpy.random import multivariate_normal
-
-        if stochastic:
-            innov = multivariate_normal(mu, Sigma, N * T)
-        else:
-            innov = mu[None, :].repeat(T * N, axis=0)
-        innov = innov.reshape((T, N, d))
-        sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
-        for t in range(1, sim.shape[0]):
-            sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
-
-        sim += μ[None, None, :]
-
-        return sim
+        return self.__var1__().simulate(N, T, m0=m0, stochastic=stochastic)
 
     def response(self, T, impulse):
-
-        d = self.d
-        rho = self.ρ
-        μ = self.μ
-
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
-        for t in range(1, irf.shape[0]):
-            irf[t, :] = rho @ irf[t - 1, :]
-        irf += μ[None, :]
-        return irf
+        return self.__var1__().response(T, impulse)
 
 
 @language_element
-- 
2.43.0


From bd88ad138b4fe41987c47b1cff5e12f9b8299d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 29/93] fix: the gdp discretization of VAR1 ignored the mean of
 the process

---
 dolo/numeric/processes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index a7ed1c9..c50f3cf 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -517,14 +517,16 @@ class VAR1(ContinuousProcess):
 
         from .grids import UniformCartesianGrid
 
-        grid = UniformCartesianGrid([min], [max], [n_nodes])
+        μ = self.μ
 
-        nodes = np.linspace(min, max, n_nodes)[:, None]
+        grid = UniformCartesianGrid([μ[0] + min], [μ[0] + max], [n_nodes])
+
+        nodes = μ + np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = μ + ρ * (nodes[i, :] - μ) + epsilons[j]
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
-- 
2.43.0


From 6d2265eb76b486a22055f2e53c524a2faaad582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 30/93] fix: lognormal, beta, truncated and constant
 distributions could not be drawn

---
 dolo/numeric/distribution.py | 11 ++++++-----
 dolo/numeric/processes.py    |  4 ++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 735b318..88a167f 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -341,6 +341,12 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             f"Not Implemented (yet). Should be implemented by subclass {self.__class__}"
         )
 
+    def draw(self, N: int) -> Matrix:
+
+        # inverse transform sampling
+        q = np.random.uniform(size=N)
+        return np.reshape(self.ppf(q), (N, 1))
+
     def discretize(self, to="iid", N=5, method="equiprobable", mass_point="median"):
         """
         Returns a discretized version of this process.
@@ -693,11 +699,6 @@ class Truncation(UnivariateContinuousDistribution, Generic[C]):
         else:
             self.__max_q__ = self.dist.cdf([ub])[0]
 
-    def draw(self, N: int):
-
-        # TODO: replace this stupid algo
-        raise Exception("Not Implemented")
-
     def ppf(self, quantiles: Vector) -> Vector:
 
         q_lb = self.__min_q__
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index c50f3cf..003c52a 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -132,6 +132,10 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
+    def draw(self, N: int):
+
+        return self.μ[None, :].repeat(N, axis=0)
+
     def discretize(self, to="iid", **kwargs):
 
         if to == "iid":
-- 
2.43.0


From bc3cb85d000f217d54f177eefffd1e1503e6a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 31/93] fix: draws from a mixture were always zero

---
 dolo/numeric/distribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 88a167f..b892888 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -761,7 +761,10 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            [
+                (inds == int(k)) * dist.draw(N)
+                for (k, dist) in self.distributions.items()
+            ]
         )
 
 
-- 
2.43.0


From 9fb228f3b268ddf383b8e9c66d39539db7a86c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 32/93] fix: nodes of multivariate tauchen discretizations had
 a spurious dimension

---
 dolo/numeric/discretization/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 8e5fca4..f454130 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -135,6 +135,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     if method == "tauchen":
         [nodes_1d, probas_1d] = tauchen(N, 0, rho, 1, m=m)
+        nodes_1d = nodes_1d.ravel()
     elif method == "rouwenhorst":
         [nodes_1d, probas_1d] = rouwenhorst(rho, 1, N)
 
-- 
2.43.0


From 19f6ed22ebd72fc1a56435621ff67a631c38a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 33/93] fix: a model with a single named markov or
 autoregressive process could not be discretized

---
 dolo/numeric/discretization/discretization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index f454130..ada244c 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -201,9 +201,14 @@ def tensor_markov(*args):
         n = np.column_stack([np.repeat(n1, q, axis=0), np.tile(n2, (p, 1))])
         return n, t
 
+    elif len(args) == 1:
+
+        [(n, t)] = args
+        return np.array(n, dtype=float), np.array(t, dtype=float)
+
     else:
         raise Exception(
-            "Incorrect number of arguments. Expected at least 2. Found {}.".format(
+            "Incorrect number of arguments. Expected at least 1. Found {}.".format(
                 len(args)
             )
         )
-- 
2.43.0


From 94d369c7143b6f94d14e95936fc91136528f476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 34/93] fix: simulated states reacted to the shocks of the
 preceding period

---
 dolo/algos/simulations.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..0b02773 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -181,7 +181,6 @@ def simulate(
 
     numpy.random.seed(seed)
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,11 +195,8 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
-
+            s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
         varnames = model.symbols["states"] + model.symbols["controls"]
-- 
2.43.0


From 413df3be6710b84a8568cc8346b8a920a4b8e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 35/93] fix: the seed given to simulate had no effect on the
 simulated shocks

---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 0b02773..bf9792c 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -110,6 +110,8 @@ def simulate(
     if isinstance(dr, AlgoResult):
         dr = dr.dr
 
+    numpy.random.seed(seed)
+
     calib = model.calibration
     parms = numpy.array(calib["parameters"])
 
@@ -179,8 +181,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
-- 
2.43.0


From 73d9dc61e8f34288a37ba8e325c64af568fc7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 36/93] fix: exogenous variables were missing from simulations
 of models without auxiliaries

---
 dolo/algos/simulations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index bf9792c..93e9f4d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -198,8 +198,12 @@ def simulate(
         if i < T - 1:
             s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
-        l = [s_simul, x_simul]
-        varnames = model.symbols["states"] + model.symbols["controls"]
+        l = [m_simul, s_simul, x_simul]
+        varnames = (
+            model.symbols["exogenous"]
+            + model.symbols["states"]
+            + model.symbols["controls"]
+        )
     else:
         aux = model.functions["auxiliary"]
         a_simul = aux(
-- 
2.43.0


From 7cae58032f8232f5aa5e72e19f3e0a63b4f5fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 37/93] fix: simulations confused the states of a markov chain
 which share the same values

---
 dolo/algos/simulations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 93e9f4d..1ed91e1 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -146,8 +146,7 @@ def simulate(
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
     else:
-        from dolo.numeric.processes import DiscreteProcess
-
+        from dolo.numeric.processes import DiscreteProcess, simulate_markov_chain
         if process is None:
             if hasattr(dr, "dprocess") and hasattr(dr.dprocess, "simulate"):
                 process = dr.dprocess
@@ -164,10 +163,11 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
-            m0 = dp.node(i0)
-            x0 = dr.eval_is(i0, s0[None, :])[0, :]
+            if stochastic:
+                i_simul = simulate_markov_chain(dp.values, dp.transitions, N, T, i0=i0)
+            else:
+                i_simul = np.zeros((T, N), dtype=int) + i0
+            m_simul = dp.values[i_simul]
         else:
             m_simul = process.simulate(N, T, m0=m0, stochastic=stochastic)
             if isinstance(m_simul, xr.DataArray):
-- 
2.43.0


From 1ee3eddace38ebe7e8e0f28757cc357d04f58534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 38/93] fix: simulations with a given path of discrete shocks
 required an initial index

---
 dolo/algos/simulations.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 1ed91e1..db32767 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -131,9 +131,6 @@ def simulate(
         if len(driving_process.shape) == 3:
             m_simul = driving_process
             sim_type = "continuous"
-            if m0 is None:
-                m0 = model.calibration["exogenous"]
-            x_simul[0, :, :] = dr.eval_ms(m0[None, :], s0[None, :])[0, :]
         elif len(driving_process.shape) == 2:
             i_simul = driving_process
             nodes = dr.exo_grid.nodes
@@ -141,12 +138,11 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
-        m0 = m_simul[0, :, :]
     else:
         from dolo.numeric.processes import DiscreteProcess, simulate_markov_chain
+
         if process is None:
             if hasattr(dr, "dprocess") and hasattr(dr.dprocess, "simulate"):
                 process = dr.dprocess
@@ -173,12 +169,7 @@ def simulate(
             if isinstance(m_simul, xr.DataArray):
                 m_simul = m_simul.data
             sim_type = "continuous"
-            if m0 is None:
-                m0 = model.calibration["exogenous"]
-            x0 = dr.eval_ms(m0[None, :], s0[None, :])[0, :]
-            x_simul[0, :, :] = x0[None, :]
 
-    f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
     for i in range(T):
@@ -197,6 +188,7 @@ def simulate(
 
         if i < T - 1:
             s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
+
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [m_simul, s_simul, x_simul]
         varnames = (
-- 
2.43.0


From 6da6f11f2253bb851b9552e94f7c0323caca88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 39/93] fix: the default impulse for a univariate normal shock
 is one standard deviation

---
 dolo/algos/simulations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index db32767..75166a2 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -4,6 +4,7 @@ import xarray as xr
 import numpy as np
 
 from dolo.compiler.model import Model
+from dolo.numeric.distribution import UNormal
 from dolo.numeric.optimize.ncpsolve import ncpsolve
 from dolo.numeric.optimize.newton import newton as newton_solver
 from dolo.numeric.optimize.newton import SerialDifferentiableFunction
@@ -21,7 +22,10 @@ def response(model, dr, varname, T=40, impulse: float = None):
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
         except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+            if isinstance(model.exogenous, UNormal):
+                impulse = model.exogenous.σ  # standard deviation
+            else:
+                impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
-- 
2.43.0


From 3ffb738c3d49f3aa3a1f0f1ecd74a159617eb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 40/93] fix: tabulate_2d failed for interpolated decision rules

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 75166a2..80861b1 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -332,7 +332,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
         s[i_x] = xx
         for yy in lps[1]:
             s[i_y] = yy
-            x = dr.eval_is(i0, s)
+            x = dr.eval_is(i0, s[None, :])[0, :]
             vv.append(numpy.concatenate([s, x]))
         vals.append(vv)
     vv = numpy.array(vals)
-- 
2.43.0


From acdcdf90fb521095b09c73906fa7a8108ab3d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 41/93] fix: models with a VAR1 process could not be perturbed

---
 dolo/algos/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..fdcfc32 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
-- 
2.43.0


From ec8a58a58571c847e42428526902f9a74dae1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 42/93] fix: leads and lags were swapped in eval_formula

---
 dolo/compiler/eval_formula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..5ea7919 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,8 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            # v(1) is the value at the next date, that is in the next row
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From 93865e0ac6a2c681d06e3d5dc4e6e1d8be95a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 43/93] fix: eval_formula failed with the notation v[t]

---
 dolo/compiler/eval_formula.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index 5ea7919..74aa1fa 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -1,5 +1,6 @@
 # from ast import *
 from dolang.symbolic import stringify, stringify_symbol, parse_string, list_variables
+from dolang.symbolic import sanitize
 from dolang.grammar import str_expression
 
 from dolo.compiler.misc import CalibrationDict
@@ -29,7 +30,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
     for k in [*dd.keys()]:
         dd[stringify_symbol(k)] = dd[k]
 
-    expr_ast = parse_string(expr)
+    expr_ast = sanitize(parse_string(expr))
     variables = list_variables(expr_ast)
     nexpr = stringify(expr_ast)
 
-- 
2.43.0


From 5599928a0f3135904c5e313177b4f63608a2258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 44/93] fix: sin and cos were missing from eval_formula

---
 dolo/compiler/eval_formula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index 74aa1fa..666dd38 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -4,7 +4,7 @@ from dolang.symbolic import sanitize
 from dolang.grammar import str_expression
 
 from dolo.compiler.misc import CalibrationDict
-from numpy import log, exp
+from numpy import log, exp, sin, cos
 
 import xarray
 
@@ -36,6 +36,8 @@ def eval_formula(expr: str, dataframe=None, context=None):
 
     dd["log"] = log
     dd["exp"] = exp
+    dd["sin"] = sin
+    dd["cos"] = cos
 
     if dataframe is not None:
 
-- 
2.43.0


From 5b10f2e4d7708ce243f60b883845c6c0abdadd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 45/93] fix: find_steady_state returned meaningless values when
 the solver failed

---
 dolo/algos/steady_state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/algos/steady_state.py b/dolo/algos/steady_state.py
index 800fb53..74c18c2 100644
--- a/dolo/algos/steady_state.py
+++ b/dolo/algos/steady_state.py
@@ -48,5 +48,8 @@ def find_steady_state(model: Model, *, m=None):
     sol = scipy.optimize.root(fobj, x0)
     res = sol.x
 
+    if not (sol.success or abs(sol.fun).max() < 1e-8):
+        raise Exception("The steady-state was not found: {}".format(sol.message))
+
     d = dict(exogenous=m, states=res[:n_s], controls=res[n_s:], parameters=p)
     return CalibrationDict(model.symbols, d)
-- 
2.43.0


From ce58c500326ad27a0f26e4ce83b7c9f38a8a1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 46/93] fix: deterministic_solve dropped the first value of
 shocks given as an array

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..4cf8a21 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -44,8 +44,8 @@ def _shocks_to_epsilons(model, shocks, T):
 
     # until last period, exogenous shock takes its last value
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks[: T + 1, :]
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From 528dc46f0485b4843c00bb20da3a62718fc1eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 47/93] fix: deterministic_solve failed with series of shocks
 longer than the horizon

---
 dolo/algos/perfect_foresight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 4cf8a21..c55a774 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -25,7 +25,7 @@ def _shocks_to_epsilons(model, shocks, T):
         for i, k in enumerate(model.symbols["exogenous"]):
             if k in shocks:
                 this_shock = shocks[k]
-                epsilons[: len(this_shock), i] = this_shock
+                epsilons[: len(this_shock), i] = this_shock[: T + 1]
                 epsilons[len(this_shock) :, i] = this_shock[-1]
             else:
                 # otherwise set to value in calibration
-- 
2.43.0


From 2dbe162d1127191091ebcc408c0dc6b565751627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 48/93] fix: perfect foresight paths did not start at the
 requested initial state

---
 dolo/algos/perfect_foresight.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index c55a774..b81d01f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -164,24 +164,20 @@ def deterministic_solve(
         from dolo.algos.steady_state import find_steady_state
 
         start_state = find_steady_state(model, m=m0)
-        s0 = start_state["states"]
-        x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
+        if s0 is None:
+            s0 = start_state["states"]
     else:
         if s0 is None:
             s0 = model.calibration["states"]
-        if m0 is None:
-            m0 = model.calibration["exogenous"]
         # if m0 is None:
         #     m0 = np.zeros(len(model.symbols['exogenous']))
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
-        x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+        if m0 is not None:
+            epsilons[0, :] = m0
+
+    s1 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
@@ -276,7 +272,7 @@ def deterministic_solve(
     # sol = sol[:-1, :]
 
     if (exogenous is not None) and keep_steady_state:
-        sx = np.concatenate([s0, x0])
+        sx = np.concatenate([start_state["states"], start_state["controls"]])
         sol = np.concatenate([sx[None, :], sol], axis=0)
         epsilons = np.concatenate([epsilons[:1:], epsilons], axis=0)
         index = range(-1, T + 1)
-- 
2.43.0


From 4364b69b09bb3c92c0bfb9685244e87bfacb5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 49/93] fix: deterministic_solve did not accept the initial
 state as a dictionary

---
 dolo/algos/perfect_foresight.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index b81d01f..aa18fa1 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -177,6 +177,10 @@ def deterministic_solve(
         if m0 is not None:
             epsilons[0, :] = m0
 
+    if isinstance(s0, dict):
+        # missing values are taken from the calibration
+        s0 = [s0.get(k, model.calibration[k]) for k in model.symbols["states"]]
+
     s1 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
-- 
2.43.0


From f5f81319468717f92cd0405ca114ee3861ce4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 50/93] fix: deterministic_solve ignored tol, maxit and verbose
 without constraints

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index aa18fa1..d1e119f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -270,7 +270,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, tol=tol, maxit=maxit, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From 1fa224809a76922bcead56a97ecfede58c31f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 51/93] fix: the solution of deterministic_solve was not
 accepted as an initial guess

---
 dolo/algos/perfect_foresight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index d1e119f..25b182e 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -199,7 +199,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
+        # the initial steady-state (if it was kept) is not part of the guess
+        initial_guess = initial_guess[-(T + 1) :, :]
         initial_guess = initial_guess[:, : n_s + n_x]
 
     sh = initial_guess.shape
-- 
2.43.0


From 7ade9e5e655d6d94034fc3dc8096422f26abd47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 52/93] fix: non constant bounds were not detected by
 deterministic_solve when another bound is infinite

---
 dolo/algos/perfect_foresight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 25b182e..fe99d5f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -212,8 +212,9 @@ def deterministic_solve(
         lower_bound[:, n_s:] = lb
         upper_bound = initial_guess * 0 + np.inf
         upper_bound[:, n_s:] = ub
-        test1 = max(lb.max(axis=0) - lb.min(axis=0))
-        test2 = max(ub.max(axis=0) - ub.min(axis=0))
+        # differences between infinite bounds are nan
+        test1 = np.nan_to_num(lb.max(axis=0) - lb.min(axis=0)).max()
+        test2 = np.nan_to_num(ub.max(axis=0) - ub.min(axis=0)).max()
         if test1 > 0.00000001 or test2 > 0.00000001:
             msg = "Not implemented: perfect foresight solution requires that "
             msg += "controls have constant bounds."
-- 
2.43.0


From 6f7542c82a1d25bfd1b3e7002b3f38b3069e7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 53/93] fix: the arguments of the lmmcp solver were in the
 wrong order in deterministic_solve

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index fe99d5f..1ca120a 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -249,11 +249,11 @@ def deterministic_solve(
             from dolo.numeric.extern.lmmcp import lmmcp
 
             sol = lmmcp(
-                lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[0].ravel(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From eb1be54b3d51cea8949dcf76f41ee1fd56bfcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 54/93] fix: lmmcp returned points which are not solutions
 without raising an error

---
 dolo/numeric/extern/lmmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/extern/lmmcp.py b/dolo/numeric/extern/lmmcp.py
index ed5dbf8..f512497 100644
--- a/dolo/numeric/extern/lmmcp.py
+++ b/dolo/numeric/extern/lmmcp.py
@@ -371,7 +371,7 @@ def lmmcp(fun, Dfun, x0, lb, ub, verbose=True, options={}):
         if verbose:
             print("{}\t{}\t{}\t{}\n".format(k, Psix, normDPsix, t))
 
-    if k == kmax:
+    if not (Psix <= eps2):
         raise Exception("No convergence")
     return x
 
-- 
2.43.0


From c2365ae41e201e42fc4baba8909ec95f9897198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 55/93] fix: ncpsolve ignored the bounds with full jacobians

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 163617279f78536ad60fb8bfbbb848751bf0e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 56/93] fix: ncpsolve produced nans when a residual vanishes
 exactly on a bound

---
 dolo/numeric/optimize/ncpsolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 1862b7d..ef6f738 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -48,6 +48,10 @@ def smooth(x, a, b, fx, J, jactype="serial"):
 
     fxnew[dbinf] = pval[dbinf]
 
+    # when both terms vanish, the jacobian is replaced by a generalized one
+    sq1[sq1 == 0] = 1
+    sq2[sq2 == 0] = 1
+
     dpdy = 1 + fx / sq1
     dpdy[dainf] = 1
 
-- 
2.43.0


From 2d2c2f3c026e6ba1c46e063695ad8a68f47b86ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 57/93] fix: solve_tensor was wrong (and wrote out of bounds)
 for non square right-hand sides

---
 dolo/algos/invert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From e4b9a1b091901d232b298e4df8eaf31af1745ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 58/93] fix: sparse matrices made from a SparseTensor lost
 their trailing empty rows and columns

---
 dolo/algos/bruteforce_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/bruteforce_lib.py b/dolo/algos/bruteforce_lib.py
index 1265eaa..96d9b6e 100644
--- a/dolo/algos/bruteforce_lib.py
+++ b/dolo/algos/bruteforce_lib.py
@@ -149,7 +149,7 @@ class SparseTensor:
         spmat = self.reshape(dims)
         data = spmat.values
         inds = spmat.indices
-        return scipy.sparse.coo_matrix((data, (inds[:, 0], inds[:, 1])))
+        return scipy.sparse.coo_matrix((data, (inds[:, 0], inds[:, 1])), shape=dims)
 
     def as_array(self, dims=None):
         return self.as_spmatrix(dims).toarray()
-- 
2.43.0


From 0f9b782fa1a985838894b35ff6879172a4fcca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 59/93] fix: time_iteration reported convergence at the
 tolerance of the inner solver when tol is smaller

---
 dolo/algos/time_iteration.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index ae47e44..1387025 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -212,10 +212,18 @@ def time_iteration(
 
         if with_complementarities:
             [controls, nit] = ncpsolve(
-                dfn, lb, ub, controls_0, verbose=verbit, maxit=inner_maxit
+                dfn,
+                lb,
+                ub,
+                controls_0,
+                verbose=verbit,
+                maxit=inner_maxit,
+                tol=min(tol, 1e-8),
             )
         else:
-            [controls, nit] = newton(dfn, controls_0, verbose=verbit, maxit=inner_maxit)
+            [controls, nit] = newton(
+                dfn, controls_0, verbose=verbit, maxit=inner_maxit, tol=min(tol, 1e-6)
+            )
 
         err = abs(controls - controls_0).max()
 
-- 
2.43.0


From 34232654e166efdc99fa1618f22a4efe519a1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 60/93] fix: time_iteration reported convergence when the inner
 solver was stuck

---
 dolo/algos/time_iteration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index 1387025..9a35edc 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -189,7 +189,9 @@ def time_iteration(
 
     verbit = verbose == "full"
 
-    while err > tol and it < maxit:
+    solved = False  # whether the inner problem was solved
+
+    while (err > tol or (err <= tol and not solved)) and it < maxit:
 
         it += 1
 
@@ -226,6 +228,7 @@ def time_iteration(
             )
 
         err = abs(controls - controls_0).max()
+        solved = nit < inner_maxit
 
         err_SA = err / err_0
         err_0 = err
@@ -253,7 +256,7 @@ def time_iteration(
         it,
         with_complementarities,
         dprocess,
-        err < tol,  # x_converged: bool
+        err < tol and solved,  # x_converged: bool
         tol,  # x_tol
         err,  #: float
         None,  # log: object # TimeIterationLog
-- 
2.43.0


From 322da3d1cde290714c31df4ca26083a61096a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 61/93] fix: time_iteration ignored the grid of the discretized
 process given as an option

---
 dolo/algos/time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index 9a35edc..fa6c12f 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -114,7 +114,7 @@ def time_iteration(
     n_s = len(model.symbols["states"])
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     mdr = DecisionRule(
         exo_grid, endo_grid, dprocess=dprocess, interp_method=interp_method
-- 
2.43.0


From 07266b5494f9ce089eeecce332e0c4544a2c83f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 62/93] fix: gmres inversion failed because the tolerance of
 gmres was renamed in scipy

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..ac3dd4c 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -458,7 +458,7 @@ def improved_time_iteration(
             L.addid = True
             ttol = err_0 / 100
             sol = scipy.sparse.linalg.gmres(
-                L, ddx.ravel(), tol=ttol
+                L, ddx.ravel(), rtol=ttol
             )  # , maxiter=1, restart=smaxit)
             lam0 = 0.01
             nn = L.counter - n0
-- 
2.43.0


From 4d820d217e2b2b2be3cbda32be18a5619e122e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 63/93] fix: improved_time_iteration failed for models without
 complementarity bounds

---
 dolo/algos/improved_time_iteration.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index ac3dd4c..432aebd 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -294,8 +294,11 @@ def improved_time_iteration(
 
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
-    x_lb = model.functions["arbitrage_lb"]
-    x_ub = model.functions["arbitrage_ub"]
+    if "arbitrage_lb" in model.functions and complementarities:
+        x_lb = model.functions["arbitrage_lb"]
+        x_ub = model.functions["arbitrage_ub"]
+    else:
+        complementarities = False
 
     parms = model.calibration["parameters"]
 
@@ -340,12 +343,13 @@ def improved_time_iteration(
 
     steps = 0.5 ** numpy.arange(maxbsteps)
 
-    lb = x0.copy()
-    ub = x0.copy()
-    for i_m in range(n_m):
-        m = dprocess.node(i_m)
-        lb[i_m, :] = x_lb(m, s, parms)
-        ub[i_m, :] = x_ub(m, s, parms)
+    if complementarities:
+        lb = x0.copy()
+        ub = x0.copy()
+        for i_m in range(n_m):
+            m = dprocess.node(i_m)
+            lb[i_m, :] = x_lb(m, s, parms)
+            ub[i_m, :] = x_ub(m, s, parms)
 
     x = x0
 
-- 
2.43.0


From fb2722f73a395fbff245a56dc4ac6d4cd4994ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 64/93] fix: improved_time_iteration ignored the grid of the
 discretized process given as an option

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 432aebd..8d23619 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -308,7 +308,7 @@ def improved_time_iteration(
         dprocess = dprocess_
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     n_m = max(dprocess.n_nodes, 1)
     n_s = len(model.symbols["states"])
-- 
2.43.0


From 3f7d1b2eaed17f83c39c561e4ffa2d20fa55642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 65/93] fix: improved_time_iteration produced nans when a
 residual vanishes exactly on a bound

---
 dolo/algos/improved_time_iteration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 8d23619..3da0312 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -48,6 +48,7 @@ def smooth(res, dres, jres, dx, pos=1.0):
     n_m, N, n_x = res.shape
     sq = sqrt(res**2 + (dx) ** 2)
     H = res + (dx) - sq
+    sq[sq == 0] = 1  # when both terms vanish, use a generalized jacobian
     Phi_a = 1 - res / sq
     Phi_b = 1 - (dx) / sq
     H[dinf] = res[dinf]
-- 
2.43.0


From a2f325aa1b3145029e092a5dff421008655aa666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 66/93] fix: improved_time_iteration accepts the same initial
 guesses as time_iteration

---
 dolo/algos/improved_time_iteration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 3da0312..ba63f11 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -338,8 +338,15 @@ def improved_time_iteration(
     )
 
     if dr0 is not None:
-        for i_m in range(n_m):
-            x0[i_m, :, :] = dr0.eval_is(i_m, s)
+        if isinstance(dr0, AlgoResult):
+            dr0 = dr0.dr
+        try:
+            for i_m in range(n_m):
+                x0[i_m, :, :] = dr0(i_m, s)
+        except Exception:
+            for i_m in range(n_m):
+                m = dprocess.node(i_m)
+                x0[i_m, :, :] = dr0(m, s)
     ddr.set_values(x0)
 
     steps = 0.5 ** numpy.arange(maxbsteps)
-- 
2.43.0


From 1b484479bf664f4b5ba290443ef49a721e7b95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 67/93] fix: egm failed when only the grid or the discretized
 process is given

---
 dolo/algos/egm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..7f48d33 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -36,8 +36,11 @@ def egm(
 
     p = model.calibration["parameters"]
 
-    if grid is None and dp is None:
-        grid, dp = model.discretize()
+    grid_, dp_ = model.discretize()
+    if grid is None:
+        grid = grid_
+    if dp is None:
+        dp = dp_
 
     s = grid["endo"].nodes
 
@@ -128,7 +131,7 @@ def egm(
 
     # resample the result on the standard grid
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dp.grid
     mdr = DecisionRule(exo_grid, endo_grid, dprocess=dp, interp_method="cubic")
 
     mdr.set_values(
-- 
2.43.0


From 2f1377837e776c803c9c68be62d12bf69347131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 68/93] fix: egm did not accept a solution as an initial guess

---
 dolo/algos/egm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 7f48d33..cde53db 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -3,7 +3,7 @@ from dolo.numeric.decision_rule import DecisionRule
 import numpy as np
 from interpolation.splines import eval_linear
 from dolo.compiler.model import Model
-from .results import EGMResult
+from .results import AlgoResult, EGMResult
 
 
 def egm(
@@ -56,6 +56,9 @@ def egm(
         x0 = model.calibration["controls"]
         dr0 = lambda i, s: x0[None, :].repeat(s.shape[0], axis=0)
 
+    if isinstance(dr0, AlgoResult):
+        dr0 = dr0.dr
+
     n_m = dp.n_nodes
     n_x = len(model.symbols["controls"])
 
-- 
2.43.0


From d98beecf30dc25edd84fae0316bec8454a3b1d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 69/93] fix: value_iteration failed because it looked for
 bounds under an obsolete name

---
 dolo/algos/value_iteration.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..feaec46 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -50,8 +50,7 @@ def value_iteration(
 
     transition = model.functions["transition"]
     felicity = model.functions["felicity"]
-    controls_lb = model.functions["controls_lb"]
-    controls_ub = model.functions["controls_ub"]
+    x_bounds = model.x_bounds
 
     parms = model.calibration["parameters"]
     discount = model.calibration["beta"]
@@ -134,9 +133,11 @@ def value_iteration(
             for n in range(N):
                 s_ = s[n, :]
                 x = controls[i_m, n, :]
-                lb = controls_lb(m, s_, parms)
-                ub = controls_ub(m, s_, parms)
-                bnds = [e for e in zip(lb, ub)]
+                if x_bounds is None:
+                    bnds = None
+                else:
+                    lb, ub = [fun(m, s_, parms) for fun in x_bounds]
+                    bnds = [e for e in zip(lb, ub)]
 
                 def valfun(xx):
                     return -choice_value(
-- 
2.43.0


From 81257f20b4f049b6040754e1cbee2524d4431238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 70/93] fix: evaluate_policy modified the initial guess in
 place

---
 dolo/algos/value_iteration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index feaec46..eaa3da9 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -276,10 +276,7 @@ def evaluate_policy(
     n_v = len(v0)
     n_s = len(model.symbols["states"])
 
-    if dr0 is not None:
-        mdrv = dr0
-    else:
-        mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
+    mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
-- 
2.43.0


From a231b210464e6024d7616f221bb0d06e153d2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 71/93] fix: evaluate_policy failed for constant, custom and
 linear policies, arrays and results

---
 dolo/algos/value_iteration.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index eaa3da9..6808db6 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -281,12 +281,28 @@ def evaluate_policy(
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
 
+    if isinstance(mdr, AlgoResult):
+        mdr = mdr.dr
+
     if isinstance(mdr, np.ndarray):
         controls = mdr
     else:
         controls = np.zeros((n_ms, N, n_x))
         for i_m in range(n_ms):
-            controls[i_m, :, :] = mdr.eval_is(i_m, s)
+            if isinstance(mdr, (DecisionRule, ConstantDecisionRule)):
+                controls[i_m, :, :] = mdr.eval_is(i_m, s)
+            else:
+                controls[i_m, :, :] = mdr(dprocess.node(i_m), s)
+
+    if not isinstance(mdr, DecisionRule):
+        # policy without interpolation on the grid
+        mdr = DecisionRule(
+            exo_grid,
+            endo_grid,
+            dprocess=dprocess,
+            interp_method=interp_method,
+            values=controls,
+        )
 
     values_0 = np.zeros((n_ms, N, n_v))
     if dr0 is None:
-- 
2.43.0


From 5960f319e638fafc5436e87d80865d97397b7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 72/93] fix: complex generalized eigenvalues were not sorted by
 their modulus

---
 dolo/numeric/extern/qz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..8273d6d 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,12 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    # complex eigenvalues cannot be read on the diagonals of S and T
+    eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From bc7d5f97c105b32eca7f44ffc3065e90cb385c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 73/93] fix: perturb reported stable and unique solutions
 whatever the eigenvalues

---
 dolo/algos/perturbation.py | 48 ++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index fdcfc32..cfa892b 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -116,6 +116,18 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+class GeneralizedEigenvaluesError(Exception):
+    pass
+
+
+class GeneralizedEigenvaluesSelectionError(Exception):
+    pass
+
+
+# (inverse) eigenvalues above this value are considered to be stable
+STABILITY_CUTOFF = 1.0 - 1e-8
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
@@ -129,7 +141,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
+    [S, T, Q, Z, eigval] = qzordered(A, B, STABILITY_CUTOFF)
 
     Z = Z.real
 
@@ -142,29 +154,26 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
         ok = sum((abs(diag_S) < tol_geneigvals) * (abs(diag_T) < tol_geneigvals)) == 0
         assert ok
     except Exception as e:
-        raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
+        raise GeneralizedEigenvaluesError(
+            f"Undetermined generalized eigenvalues: {diag_S}, {diag_T}"
+        )
 
+    # the eigenvalues of the solution are the inverses of the n_s biggest ones
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    ev_a = eigval_s[n_x]
+    ev_b = eigval_s[n_x - 1]
+    if ev_a > STABILITY_CUTOFF and not ev_b > STABILITY_CUTOFF:
         # BK conditions are met
         pass
     else:
-        ev_a = eigval_s[n_s - 1]
-        ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
         if not ev_a > ev_b:
             raise GeneralizedEigenvaluesSelectionError(
-                A=A,
-                B=B,
-                eigval=eigval,
-                cutoff=cutoff,
-                diag_S=diag_S,
-                diag_T=diag_T,
-                n_states=n_s,
+                f"Cannot select {n_s} eigenvalues among {eigval_s}"
             )
+        cutoff = 2 / (1 / ev_a + 1 / ev_b)
         import warnings
 
-        if cutoff > 1:
+        if not ev_a > STABILITY_CUTOFF:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
@@ -244,6 +253,11 @@ def perturb(
 
     C, eigvals = approximate_1st_order(G_s, G_x, G_e, F_s, F_x, F_S, F_X)
 
+    n_x = G_x.shape[1]
+    stable = eigvals[n_x] > STABILITY_CUTOFF
+    determined = eigvals[n_x] > eigvals[n_x - 1]
+    unique = not eigvals[n_x - 1] > STABILITY_CUTOFF
+
     m = steady_state["exogenous"]
     s = steady_state["states"]
     x = steady_state["controls"]
@@ -266,7 +280,7 @@ def perturb(
         return PerturbationResult(
             dr,
             eigvals,
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
+            stable,
+            determined,
+            unique,
         )
-- 
2.43.0


From 63444057837d118768daf33c32680c7303aad742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 74/93] fix: perturb ignored iid shocks which enter the
 equations of the same period

---
 dolo/algos/perturbation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index cfa892b..e85b6e0 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -273,6 +273,13 @@ def perturb(
     elif isinstance(process, IIDProcess):
         C_m = None
         C_s = C
+        # response to shocks which enter the equations of the same period
+        p = steady_state["parameters"]
+        F_m = model.functions["arbitrage"](m, s, x, m, s, x, p, diff=True)[1]
+        G_m = model.functions["transition"](m, s, x, m, p, diff=True)[1]
+        if F_m.any() or G_m.any():
+            D = F_S + F_X @ C
+            C_m = -solve(F_x + D @ G_x, F_m + D @ G_m)
     dr = BivariateTaylor(m, s, x, C_m, C_s)
     if not details:
         return dr
-- 
2.43.0


From cb1e794634ddf97c3ef130a47aaa03ee67ca1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:27 +0000
Subject: [PATCH 75/93] fix: second_order_solver imported a function removed
 from numpy

---
 dolo/numeric/matrix_equations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..dfb2526 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -13,7 +13,6 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
 
     from numpy import (
         array,
-        mat,
         c_,
         r_,
         eye,
-- 
2.43.0


From 06384e772fc4027f5b3f19fd5c486f741ff89b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:38 +0000
Subject: [PATCH 76/93] fix: hp_filter ignored lam when several series are
 filtered

---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..833da1c 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam) for e in Y]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From 86cd6aece61e7117b6c0699fb259aa37124e116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 77/93] fix: cached functions confused arguments with the same
 hash or arrays, lists and numbers with the same values

---
 dolo/misc/caching.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..7674d7e 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -16,7 +16,7 @@ class memoized(object):
         targs = (e for e in args)
         hh = tuple(hashable(e) for e in targs)
         h2 = hashable(kargs)
-        h = hash((hh, h2))
+        h = (hh, h2)
         try:
             return self.cache[h]
         except KeyError:
@@ -57,9 +57,11 @@ class cachedondisk(object):
     def __call__(self, *args, **kargs):
         import pickle
 
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
+        try:
+            h = identifier((self.func.__module__, self.func.__qualname__, args, kargs))
+        except (TypeError, AttributeError, pickle.PicklingError):
+            # uncachable
+            return self.func(*args, **kargs)
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -109,10 +111,7 @@ class DiskDictionary:
         self.directory = directory
 
     def get_filename(self, key):
-        import pickle
-
-        hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = identifier(key)
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -142,13 +141,19 @@ import collections
 
 
 def hashable(obj):
+    # objects of different types or shapes are never identified
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
-    if isinstance(obj, collections.abc.Hashable):
-        return obj
+        return (type(obj), str(obj.dtype), obj.shape, tuple(obj.flatten().tolist()))
     if isinstance(obj, collections.abc.Mapping):
-        items = [(k, hashable(v)) for (k, v) in obj.items()]
-        return frozenset(items)
-    if isinstance(obj, collections.abc.Iterable):
-        return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+        return (type(obj), tuple((hashable(k), hashable(v)) for (k, v) in obj.items()))
+    if isinstance(obj, (tuple, list, set, frozenset)):
+        return (type(obj), tuple([hashable(item) for item in obj]))
+    return (type(obj), obj)
+
+
+def identifier(obj):
+    """String which identifies an object in all processes"""
+    import hashlib
+    import pickle
+
+    return hashlib.sha1(pickle.dumps(hashable(obj))).hexdigest()
-- 
2.43.0


From dbd348d7a1b8e67866995d5dee13cb99dde58257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 78/93] fix: nothing could be stored in a DiskDictionary

---
 dolo/misc/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 7674d7e..5372d3c 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -120,7 +120,7 @@ class DiskDictionary:
 
         filename = self.get_filename(key)
         try:
-            with open(filename, "w") as f:
+            with open(filename, "wb") as f:
                 pickle.dump(value, f)
         except TypeError as e:
             raise e
@@ -130,7 +130,7 @@ class DiskDictionary:
 
         filename = self.get_filename(item)
         try:
-            with open(filename) as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
                 return value
         except:
-- 
2.43.0


From c522ec80743e3455481d648687fe057cf937c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:53 +0000
Subject: [PATCH 79/93] fix: cachedondisk failed after an interruption and for
 values which cannot be pickled

---
 dolo/misc/caching.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 5372d3c..73923af 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -62,21 +62,24 @@ class cachedondisk(object):
         except (TypeError, AttributeError, pickle.PicklingError):
             # uncachable
             return self.func(*args, **kargs)
+        filename = ".cache/{0}.{1}.pickle".format(self.fname, h)
         try:
-            with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
-                value = pickle.load(f)
-            return value
-        except IOError:
+            with open(filename, "rb") as f:
+                return pickle.load(f)
+        except (IOError, EOFError, pickle.UnpicklingError):
+            # not there or incomplete
             value = self.func(*args, **kargs)
-            if value is not None:  # should there be other kinds of error values
-                # write file with h
-                with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
-                    pickle.dump(value, f)
-            return value
-        except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
-            # Better to not cache than to blow up entirely.
-            return self.func(*args, **kargs)
+        if value is not None:  # should there be other kinds of error values
+            try:
+                content = pickle.dumps(value)
+            except (TypeError, AttributeError, pickle.PicklingError):
+                return value
+            # the file appears only once it is complete
+            temp = "{0}.{1}".format(filename, os.getpid())
+            with open(temp, "wb") as f:
+                f.write(content)
+            os.replace(temp, filename)
+        return value
 
     def __repr__(self):
         """Return the function's docstring."""
-- 
2.43.0


From cf90e75b8b9f2a6925752783dfc56370eea19e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 80/93] fix: set_calibration had no effect on symbols without
 an entry in the calibration section

---
 dolo/compiler/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index a51471f..473c6fb 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -565,7 +565,13 @@ class Model(SymbolicModel):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
         self.set_changed()
-        self.data["calibration"].update(kwargs)
+        calibration = self.data["calibration"]
+        for k, v in kwargs.items():
+            new = k not in calibration
+            calibration[k] = v
+            if new:
+                # dolang doesn't name the entries it adds
+                calibration.value[-1][0].value = k
 
     @property
     def calibration(self):
-- 
2.43.0


From d999f187f097107ecd185f038f71b18479eeea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 81/93] fix: numdiff failed unless there are as many
 observations as values

---
 dolo/compiler/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/misc.py b/dolo/compiler/misc.py
index 6336ada..417d584 100644
--- a/dolo/compiler/misc.py
+++ b/dolo/compiler/misc.py
@@ -108,7 +108,7 @@ def numdiff(fun, args):
     args = list(args)
     v0 = fun(*args)
     N = v0.shape[0]
-    l_v = len(v0)
+    l_v = v0.shape[1]
     dvs = []
     for i, a in enumerate(args):
         l_a = (a).shape[1]
-- 
2.43.0


From 3c4c164f2a48d342d63edcaac5af8a47c6225896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 82/93] fix: allocating_function differentiated when called
 with diff=False

---
 dolo/compiler/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/misc.py b/dolo/compiler/misc.py
index 417d584..b2c7e9b 100644
--- a/dolo/compiler/misc.py
+++ b/dolo/compiler/misc.py
@@ -92,7 +92,7 @@ def allocating_function(inplace_function, size_output):
         val = numpy.zeros(size_output)
         nargs = args + (val,)
         inplace_function(*nargs)
-        if "diff" in kwargs:
+        if kwargs.get("diff", False):
             return numdiff(new_function, args)
         return val
 
-- 
2.43.0


From 30440607a18cb5dae4d0198d40366babef055594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 83/93] fix: numdiff2 failed on any array with recent versions
 of numpy

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..4fbee49 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From 507d0b248beb87ae5d316c445721eb2c800f56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 84/93] fix: serial_solve truncated the solution when the right
 hand side is an integer array

---
 dolo/numeric/optimize/newton.py   | 4 ++--
 dolo/numeric/serial_operations.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/optimize/newton.py b/dolo/numeric/optimize/newton.py
index 2947155..418712a 100644
--- a/dolo/numeric/optimize/newton.py
+++ b/dolo/numeric/optimize/newton.py
@@ -54,7 +54,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = zeros_like(B, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -69,7 +69,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros_like(B, dtype=float)
         serial_solve_numba(M, sol)
 
     return sol
diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index 4fbee49..ea95978 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -120,7 +120,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = zeros_like(B, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -135,7 +135,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros_like(B, dtype=float)
         serial_solve_numba(M, sol)
 
     return sol
-- 
2.43.0


From 2372d1f3a9a181710c093f80cfeac31bb309cb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 85/93] fix: plot_decision_rule had lost its arguments

---
 dolo/algos/simulations.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 80861b1..ba53e65 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -370,12 +370,27 @@ def plot3d(tab, varname):
     return iplot(fig, filename="graph_" + varname)
 
 
-def plot_decision_rule(plot_controls=None, **kwargs):
+def plot_decision_rule(
+    model,
+    dr,
+    state,
+    plot_controls=None,
+    bounds=None,
+    n_steps=100,
+    s0=None,
+    i0=None,
+    m0=None,
+    **kwargs
+):
 
-    if isinstance(dr, AlgoResult):
-        dr = dr.dr
+    df = tabulate(
+        model, dr, state, bounds=bounds, n_steps=n_steps, s0=s0, i0=i0, m0=m0
+    )
+
+    if plot_controls is None:
+        return df
 
-    df = tabulate(dr, state, bounds=None, n_steps=100, s0=None, i0=None, m0=None)
+    values = df[str(state)].values
 
     from matplotlib import pyplot
 
-- 
2.43.0


From b04d57cc10a80a5758b7bbe962a8488696a1da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 86/93] fix: plot_irfs failed with one variable and with more
 simulations than variables

---
 dolo/misc/graphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/graphs.py b/dolo/misc/graphs.py
index d87d48b..e62147a 100644
--- a/dolo/misc/graphs.py
+++ b/dolo/misc/graphs.py
@@ -57,9 +57,9 @@ def plot_irfs(
             layout = default_layout[n_v][1]
 
     if line_options is None:
-        line_options = [{}] * n_v
+        line_options = [{}] * len(sims)
 
-    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize)
+    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize, squeeze=False)
     axes = axes.ravel()
     for i, v in enumerate(variables):
         ax = axes[i]
-- 
2.43.0


From 5d0ad11889bcd8859ff4ce08cf755d3190527408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 87/93] fix: model files with http in their path were taken for
 urls

---
 dolo/misc/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/display.py b/dolo/misc/display.py
index 16cf377..3fa4521 100644
--- a/dolo/misc/display.py
+++ b/dolo/misc/display.py
@@ -5,7 +5,7 @@ is_python_3 = sys.version_info >= (3, 0)
 
 def read_file_or_url(url):
 
-    if "http" in url:
+    if str(url).startswith(("http://", "https://")):
         if is_python_3:
             import urllib.request
 
-- 
2.43.0


From 6c9db1f9a54796ae150d8b4f43602c59856dfc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 88/93] fix: multimethod.register(T) took a class for the
 function to register

---
 dolo/misc/multimethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 2608d85..d55be2c 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -144,7 +144,11 @@ class multimethod(dict):
 
         Optionally call with types to return a decorator for unannotated functions.
         """
-        if len(args) == 1 and hasattr(args[0], "__annotations__"):
+        if (
+            len(args) == 1
+            and hasattr(args[0], "__annotations__")
+            and not isinstance(args[0], type)
+        ):
             return overload.register(self, *args)
         return lambda func: self.__setitem__(args, func) or func
 
-- 
2.43.0


From d0ae2e28ea51c638bfa759576bfb5ce4b917b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 89/93] fix: the file of an imported model was not recorded, or
 recorded as its name

---
 dolo/compiler/model_import.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/compiler/model_import.py b/dolo/compiler/model_import.py
index 0cd2377..e8cb8ed 100644
--- a/dolo/compiler/model_import.py
+++ b/dolo/compiler/model_import.py
@@ -29,7 +29,11 @@ def yaml_import(fname, check=True, check_only=False):
     # if check_only:
     #     return output
 
+    new = "filename" not in data
     data["filename"] = fname
+    if new:
+        # dolang doesn't name the entries it adds
+        data.value[-1][0].value = "filename"
 
     from dolo.compiler.model import Model
 
-- 
2.43.0


From 93420242a16b5496b2d8a7f27591f643e3c4f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 90/93] fix: egm printed its loop indices whatever the
 verbosity

---
 dolo/algos/egm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index cde53db..923f065 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -113,7 +113,6 @@ def egm(
                 w = dp.iweight(i_m, i_M)
                 M = dp.inode(i_m, i_M)
                 S = gt(m, a, M, p)
-                print(it, i_m, i_M)
                 X = drfut(i_M, S)
                 z[i_m, :, :] += w * h(M, S, X, p)
             xa[i_m, :, :] = τ(m, a, z[i_m, :, :], p)
-- 
2.43.0


From ad84b9bd950b43bbfe2e2076e8fde884bbf47cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 91/93] fix: perturbation rules of models with VAR1 shocks
 could not be tabulated without an exogenous point

---
 dolo/algos/simulations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index ba53e65..e4731f0 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -271,7 +271,8 @@ def tabulate(
     if (i0 is None) and (m0 is None):
         from dolo.numeric.grids import UnstructuredGrid
 
-        if isinstance(dp.grid, UnstructuredGrid):
+        # rules which are not indexed by exogenous nodes take values instead
+        if isinstance(dp.grid, UnstructuredGrid) and hasattr(dr, "eval_is"):
             n_ms = dp.n_nodes
             [q, r] = divmod(n_ms, 2)
             i0 = q - 1 + r
-- 
2.43.0


From 4bb9bb515bd3a72190095620b3230dd648c5d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 92/93] fix: response printed its arguments on every call

---
 dolo/algos/simulations.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e4731f0..dc83c0d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -30,9 +30,6 @@ def response(model, dr, varname, T=40, impulse: float = None):
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
 
-    exogenous = model.exogenous
-    print(exogenous)
-    print(T, e1)
     m_simul = model.exogenous.response(T - 1, e1)  # this is an xarray T x V
     m_simul = m_simul.expand_dims("N")
     m_simul = m_simul.transpose("T", "N", "V").data
-- 
2.43.0


From 824557028353a9ec742a0ffbf81196a194883967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 93/93] fix: perturb ignored solve_steady_state

---
 dolo/algos/perturbation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index e85b6e0..57f2987 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -245,7 +245,12 @@ def perturb(
         raise Exception("Not implemented.")
 
     if steady_state is None:
-        steady_state = model.calibration
+        if solve_steady_state:
+            from .steady_state import find_steady_state
+
+            steady_state = find_steady_state(model)
+        else:
+            steady_state = model.calibration
 
     G_s, G_x, G_e, F_s, F_x, F_S, F_X = get_derivatives(
         model, steady_state=steady_state
-- 
2.43.0

