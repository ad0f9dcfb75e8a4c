From e2bf27d8c030c59da525f775b5efc671cbd63780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 001/104] fix: order the dimensions of the domain by declared
 states

The domain section was used in the order it was written, so a file listing it
in another order than its states got permuted grid bounds. Entries that are
not states made the import fail (a yaml node has no pop).
---
 dolo/compiler/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..0c10cca 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,10 +349,11 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
-        sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
+        from dolang.language import eval_data
+
+        # the dimensions of the domain are the states, in declaration order
+        data = self.data.get("domain", {})
+        sdomain = {s: eval_data(data[s], calibration) for s in states if s in data}
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
@@ -377,9 +378,6 @@ class SymbolicModel:
             )
 
         from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
 
         domain = CartesianDomain(**sdomain)
 
-- 
2.43.0


From cdd3659718f7ee25417f7c000b3d589041f2e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 002/104] fix: let set_calibration calibrate a symbol without
 entry

Setting a declared symbol which the calibration section does not mention was
silently ignored: the entry was stored under the key 'name'.
---
 dolo/compiler/model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 0c10cca..d1a08ef 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -562,7 +562,15 @@ class Model(SymbolicModel):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
         self.set_changed()
-        self.data["calibration"].update(kwargs)
+        calibration = self.data["calibration"]
+        for k in kwargs:
+            if k not in calibration:
+                from yaml import ScalarNode
+
+                # updating a yaml node does not create the missing keys properly
+                tag = "tag:yaml.org,2002:str"
+                calibration.value.append((ScalarNode(tag, k), ScalarNode(tag, "nan")))
+        calibration.update(kwargs)
 
     @property
     def calibration(self):
-- 
2.43.0


From e55178dc17868158b555eb99d11896cb37828c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 003/104] fix: default number of points of a uniform cartesian
 grid

Without n the grid had a 0-dimensional n, and its construction failed.
---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..749665a 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From 082e27b95cd48e4b779977a020fd339a1f9a418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 004/104] fix: keep the bounds of both grids when adding
 uniform grids

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 749665a..8f3f413 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From ee8ecf67dd2932fb751d482a900af0e882d0866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 005/104] fix: product of cartesian grids

CartesianGrid is an abstract class without constructor: the product of two
cartesian grids always failed.
---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 8f3f413..b71443d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From 232a6a244d374c71f7a2a601b903d3e68cc1d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 006/104] fix: give non-uniform grids their dimension, like all
 other grids

---
 dolo/numeric/grids.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index b71443d..7fb4c8d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -144,6 +144,7 @@ class NonUniformCartesianGrid(CartesianGrid):
 
     def __init__(self, list_of_nodes):
         list_of_nodes = [np.array(l) for l in list_of_nodes]
+        self.d = len(list_of_nodes)
         self.min = [min(l) for l in list_of_nodes]
         self.max = [max(l) for l in list_of_nodes]
         self.n = np.array([(len(e)) for e in list_of_nodes])
-- 
2.43.0


From c14844c95f5e6a49b90294f05e73428af3909bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 007/104] fix: cartesian does not truncate floats after
 integers

The product had the type of its first factor only.
---
 dolo/numeric/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/misc.py b/dolo/numeric/misc.py
index 44570b5..0be014e 100644
--- a/dolo/numeric/misc.py
+++ b/dolo/numeric/misc.py
@@ -37,7 +37,7 @@ def cartesian(arrays, out=None):
     """
 
     arrays = [np.asarray(x) for x in arrays]
-    dtype = arrays[0].dtype
+    dtype = np.result_type(*arrays)
 
     n = np.prod([x.size for x in arrays])
     if out is None:
-- 
2.43.0


From d238b206001fd5065715de401020452d88f16871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 008/104] fix: accept the grid type as an option of an untagged
 grid

---
 dolo/compiler/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index d1a08ef..586d6bc 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -472,6 +472,8 @@ class SymbolicModel:
 def get_type(d):
     try:
         s = d.tag
+        if s.startswith("tag:yaml.org,2002:"):
+            return None  # no explicit tag: the type is given by other options
         return s.strip("!")
     except:
         v = d.get("type")
-- 
2.43.0


From 93b1b3376128d67b9872caad58cf47f9b79e14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 009/104] fix: add the mean of normal shocks once when
 discretizing them

---
 dolo/numeric/discretization/quadrature.py | 5 +++--
 dolo/numeric/distribution.py              | 2 --
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..75e5a21 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -80,7 +80,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     import numpy
 
     if mu is None:
-        mu = numpy.array([0] * sigma.shape[0])
+        mu = numpy.array([0] * (sigma.shape[0] if sigma.ndim > 0 else 1))
 
     herms = [hermgauss(i) for i in orders]
 
@@ -90,7 +90,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(float(numpy.asarray(sigma).item()))
+        x = x + float(numpy.asarray(mu).item())
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..b3bc418 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -449,7 +449,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
@@ -605,7 +604,6 @@ class Normal(ContinuousDistribution):
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
             [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From 908605127b24249e3ec4e2320dcf92f88e9150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 010/104] fix: detect degenerate dimensions of normal shocks
 without changing their covariance

---
 dolo/numeric/discretization/quadrature.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index 75e5a21..c121ea4 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -104,7 +104,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = numpy.array(sigma, dtype=float)  # don't modify the argument
+        zero_columns = numpy.where(abs(sigma).sum(axis=0) == 0)[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
@@ -115,7 +116,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
-- 
2.43.0


From d1b2a8ecde5a71114414fadd41a432a4ca737cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 011/104] fix: covariance of discretized vector autoregressions

---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..dde5237 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 8cf7f0f45bc1ff1cbe73d0413f704a53ca120669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 012/104] fix: detect degenerate dimensions of vector
 autoregressions

---
 dolo/numeric/discretization/discretization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dde5237..dc19e03 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -123,9 +123,9 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     d = sigma.shape[1]
 
-    sigma = sigma.copy()
+    sigma = np.array(sigma, dtype=float)
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(abs(sigma).sum(axis=0) == 0)[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
-- 
2.43.0


From fd440529e01ca012283eef89c3d1825d586a3968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 013/104] fix: shape of the nodes in the tauchen discretization

---
 dolo/numeric/discretization/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dc19e03..3da853d 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -135,6 +135,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     if method == "tauchen":
         [nodes_1d, probas_1d] = tauchen(N, 0, rho, 1, m=m)
+        nodes_1d = nodes_1d.ravel()
     elif method == "rouwenhorst":
         [nodes_1d, probas_1d] = rouwenhorst(rho, 1, N)
 
-- 
2.43.0


From c50dd76edf0c4f6ce63c9337fec14d4847fe9186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 014/104] fix: pass discretization options when making a markov
 chain from a distribution

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b3bc418..7d43977 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -369,7 +369,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -607,7 +609,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From 78d410ee0460130fdc6a2b105e8c431d13e0d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 015/104] fix: draw bernouilli shocks with their probability

---
 dolo/numeric/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 7d43977..ce9055e 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -277,6 +277,7 @@ def product_iid(iids: List[FiniteDistribution]) -> FiniteDistribution:
 class Bernouilli(DiscreteDistribution):
 
     π: float = 0.5
+    d = 1
 
     signature = {"π": "float"}  # this is redundant for now
 
@@ -298,7 +299,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From b481ce27262fa235f6e9e6f099ac3006727239ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 016/104] fix: integration against a normal law with numpy 2

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index ce9055e..96a1ee5 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -444,7 +444,7 @@ class UNormal(UnivariateContinuousDistribution):
         )
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From b6c54360098213636aa3de92900def819fbbfcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 017/104] fix: default parameters of lognormal shocks

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 96a1ee5..b4e0a35 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -498,7 +498,7 @@ class LogNormal(UnivariateContinuousDistribution):
     signature = {"μ": "Optional[float]", "σ": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, σ: float = 0.0, μ: float = 1.0):
+    def __init__(self, σ: float = 1.0, μ: float = 0.0):
         self.σ = float(σ)
         self.μ = float(μ)
 
-- 
2.43.0


From 4cc8f116810b07ef862e0cecbd92377a2c1db0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 018/104] fix: select the components of a mixture by the value
 of its index

---
 dolo/numeric/distribution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b4e0a35..7a30834 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -739,7 +739,8 @@ class Mixture(ContinuousDistribution):
             for i in range(inddist.n_inodes(0)):
                 wind = inddist.iweight(0, i)
                 xind = inddist.inode(0, i)
-                dist = self.distributions[str(i)].discretize(to=to)
+                k = int(np.ravel(xind)[0])
+                dist = self.distributions[str(k)].discretize(to=to)
                 for j in range(dist.n_inodes(0)):
                     w = dist.iweight(0, j)
                     x = dist.inode(0, j)
@@ -762,7 +763,10 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            [
+                (inds == int(k)) * dist.draw(N)
+                for (k, dist) in self.distributions.items()
+            ]
         )
 
 
-- 
2.43.0


From c7aeb10ac05b778133ab06d512e1f8bd334b4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 019/104] fix: draw and discretize constant processes by
 default

---
 dolo/numeric/processes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..6f336f8 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -125,7 +125,11 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
-    def discretize(self, to=None, **kwargs):
+    def draw(self, n: int) -> Vector:
+
+        return self.μ[None, :].repeat(n, axis=0)
+
+    def discretize(self, to="iid", **kwargs):
 
         if to == "iid":
             x = self.μ[None, :]
-- 
2.43.0


From bcb02f2d75fdc1c9f32594f58acb1ba3ff28f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 020/104] fix: markov chain for the product of one process

---
 dolo/numeric/processes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 6f336f8..9faa630 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -361,6 +361,9 @@ def Product(*processes):
 
 def product_mc(markov_chains: List[MarkovChain]) -> MarkovChain:
 
+    if len(markov_chains) == 1:
+        return markov_chains[0]
+
     M = [(m.values, m.transitions) for m in markov_chains]
     from dolo.numeric.discretization import tensor_markov
 
-- 
2.43.0


From 026a47b2957646c840645c04e93f41135a5d8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 021/104] fix: grid of a markov chain seen as a generic
 discretized process

---
 dolo/numeric/processes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 9faa630..0737d02 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -255,8 +255,7 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
             nodes = self.values.copy()
             inodes = nodes[None, :, :].repeat(nodes.shape[0], axis=0)
             iweights = self.transitions
-            return GDP(nodes, inodes, iweights)
-            return
+            return GDP(nodes, inodes, iweights, grid=self.grid)
         elif to == "mc":
             return self
         else:
-- 
2.43.0


From d5a0062656eceffcc551706b4aabec8234660ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 022/104] =?UTF-8?q?fix:=20AR1=20processes:=20=CF=83=20is?=
 =?UTF-8?q?=20the=20standard=20deviation=20of=20innovations,=20=CE=BC=20th?=
 =?UTF-8?q?e=20mean?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 dolo/numeric/processes.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 0737d02..73b0a55 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -397,7 +397,7 @@ class AR1(ContinuousProcess):
     def discretize_mc(self, N=3):
 
         rho = np.array([[self.ρ]])
-        Sigma = np.array([[self.σ]])
+        Sigma = np.array([[self.σ**2]])
         μ = np.array([self.μ])
 
         try:
@@ -419,8 +419,8 @@ class AR1(ContinuousProcess):
 
     def discretize_gdp(self, N=3):
 
-        Σ = np.array([[self.σ]])
-        ρ = self.ρ
+        Σ = np.array([[self.σ**2]])
+        ρ = np.array([[self.ρ]])
 
         n_nodes = N
         n_std = 2.5
@@ -462,13 +462,14 @@ class AR1(ContinuousProcess):
 
     def simulate(self, N, T, m0=None, stochastic=True):
 
-        Sigma = np.array([[self.σ]])
-        mu = np.array([self.μ])
+        Sigma = np.array([[self.σ**2]])
+        mu = np.zeros(1)
         rho = np.array([[self.ρ]])
+        μ = np.array([self.μ])
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = μ
         from numpy.random import multivariate_normal
 
         if stochastic:
@@ -488,8 +489,8 @@ class AR1(ContinuousProcess):
     def response(self, T, impulse):
 
         d = self.d
-        rho = self.ρ
-        μ = self.μ
+        rho = np.array([[self.ρ]])
+        μ = np.array([self.μ])
 
         irf = np.zeros((T, d))
         irf[0, :] = impulse
-- 
2.43.0


From 4411b5f0e06a2b0b6a9ad06ac72bcb2430f7deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 023/104] fix: deterministic simulation of autoregressive
 processes

---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 73b0a55..4ae5360 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -475,7 +475,7 @@ class AR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
         sim[0, :, :] = m0[None, :]
@@ -611,7 +611,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From 9be513124c9da70527787c7291efb13345f19a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 024/104] fix: start simulations of autoregressive processes at
 the requested state

---
 dolo/numeric/processes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 4ae5360..ab732b4 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -478,7 +478,7 @@ class AR1(ContinuousProcess):
             innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = m0[None, :] - μ[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
@@ -603,7 +603,7 @@ class VAR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = self.μ
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
@@ -615,7 +615,7 @@ class VAR1(ContinuousProcess):
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = m0[None, :] - self.μ[None, :]
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-- 
2.43.0


From d1d04ddcd84bbc991b40bbed7d9093e2ff283fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 025/104] fix: refuse to discretize vector autoregressions with
 several autocorrelations

---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index ab732b4..82b1af8 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -401,11 +401,11 @@ class AR1(ContinuousProcess):
         μ = np.array([self.μ])
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-12
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -539,11 +539,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-12
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From f4cc64d975544e1acc4760818fdf2b1b019464e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 026/104] fix: discretize autoregressive processes as generic
 discretized processes

---
 dolo/numeric/processes.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 82b1af8..e4fe072 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -446,9 +446,11 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        μ = float(np.ravel(self.μ)[0])
+
+        grid = UniformCartesianGrid([min + μ], [max + μ], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -457,6 +459,9 @@ class AR1(ContinuousProcess):
             for j in range(n_integration_nodes):
                 integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
 
+        nodes += μ
+        integration_nodes += μ
+
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
 
@@ -584,9 +589,11 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        μ = float(np.ravel(self.μ)[0])
+
+        grid = UniformCartesianGrid([min + μ], [max + μ], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -595,6 +602,9 @@ class VAR1(ContinuousProcess):
             for j in range(n_integration_nodes):
                 integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
 
+        nodes += μ
+        integration_nodes += μ
+
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
 
-- 
2.43.0


From 87b08173cfb08b7dfa18abdc4db9a90072107f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 027/104] fix: never leave the states of a markov chain because
 of roundoff errors

---
 dolo/numeric/processes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index e4fe072..083f96c 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -51,6 +51,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
+    C = C / C[:, -1:]  # the sum of probabilities is subject to roundoff errors
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-- 
2.43.0


From 59ac3b2c0caf78c704a1cf7067e2439f52beacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 028/104] fix: values of a simulated markov chain

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 083f96c..2f80075 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -55,7 +55,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From bd17fb214f120b8c4d2aa64fb773ae9fd2260cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 029/104] fix: accept beta shocks in model files

---
 dolo/numeric/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 7a30834..057c9e0 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -527,6 +527,7 @@ class LogNormal(UnivariateContinuousDistribution):
         # Probability associated with each point in grid (nodes)
 
 
+@language_element
 class Beta(UnivariateContinuousDistribution):
 
     α: float
@@ -534,6 +535,7 @@ class Beta(UnivariateContinuousDistribution):
 
     signature = {"α": "float", "β": "float"}
 
+    @greek_tolerance
     def __init__(self, α: float = None, β: float = None):
         self.α = float(α)
         self.β = float(β)
-- 
2.43.0


From 8feafa99817ac456c58aa155d4d2c8784ba3beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 030/104] fix: refuse unknown discretizations of autoregressive
 processes

---
 dolo/numeric/processes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 2f80075..2dc9224 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -394,6 +394,8 @@ class AR1(ContinuousProcess):
             return self.discretize_mc(N=N, **kwargs)
         elif to == "gdp":
             return self.discretize_gdp(N=N, **kwargs)
+        else:
+            raise Exception("Not implemented.")
 
     def discretize_mc(self, N=3):
 
@@ -538,6 +540,8 @@ class VAR1(ContinuousProcess):
             return self.discretize_mc(N=N, **kwargs)
         elif to == "gdp":
             return self.discretize_gdp(N=N, **kwargs)
+        else:
+            raise Exception("Not implemented.")
 
     def discretize_mc(self, N=3):
 
-- 
2.43.0


From 82e24fc6641c03f75fba528bfc8caa10325724c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 031/104] fix: simulations of markov chains depend on the seed
 of numpy

---
 dolo/numeric/processes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 2dc9224..6a010c2 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,8 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
-
 from xarray import DataArray
 
 from dolang.language import greek_tolerance
@@ -32,7 +30,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, U):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -40,7 +38,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = U[t, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -52,7 +50,9 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
     C = C / C[:, -1:]  # the sum of probabilities is subject to roundoff errors
-    indices = simulate_mc_indices(C, N, T, i0_)
+    # draws come from numpy's generator, so that they depend on its seed
+    U = np.random.random_sample((T, N))
+    indices = simulate_mc_indices(C, N, T, i0_, U)
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From 2bc8233355e67f40120a32c110e2bb620164ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 032/104] fix: accept normal shocks with degenerate dimensions

---
 dolo/numeric/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 057c9e0..6f1ba20 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -588,7 +588,9 @@ class Normal(ContinuousDistribution):
         # this class wraps functionality from scipy
         import scipy.stats
 
-        self._dist_ = scipy.stats.multivariate_normal(mean=self.Μ, cov=self.Σ)
+        self._dist_ = scipy.stats.multivariate_normal(
+            mean=self.Μ, cov=self.Σ, allow_singular=True
+        )
 
     def draw(self, N: int) -> Matrix:
 
-- 
2.43.0


From 4ab410aa84af3670e0906476dafb2cf721cf219f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 033/104] fix: impulse responses of autoregressive processes

---
 dolo/numeric/processes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 6a010c2..710ab6a 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -500,12 +500,14 @@ class AR1(ContinuousProcess):
         rho = np.array([[self.ρ]])
         μ = np.array([self.μ])
 
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
-        for t in range(1, irf.shape[0]):
+        # like for iid processes, the impulse happens at date 1
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 @language_element
@@ -640,13 +642,15 @@ class VAR1(ContinuousProcess):
 
     def response(self, T, impulse):
         d = self.d
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
+        # like for iid processes, the impulse happens at date 1
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
         rho = self.ρ
-        for t in range(1, irf.shape[0]):
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += self.μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 #### dummy class
-- 
2.43.0


From 3c0b1a1543f96bd320d15f9f898da317e51a7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 034/104] fix: default impulse is one standard deviation

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..c85cdc7 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -21,7 +21,7 @@ def response(model, dr, varname, T=40, impulse: float = None):
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
         except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+            impulse = model.exogenous.σ  # standard deviation: works only for IID/AR1
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
-- 
2.43.0


From 10abb149c6158fbd4fa6125d425f1638c145ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 035/104] fix: simulate the transition with the shocks of the
 right dates

---
 dolo/algos/simulations.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index c85cdc7..3746a34 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -181,7 +181,6 @@ def simulate(
 
     numpy.random.seed(seed)
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -196,10 +195,8 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
-- 
2.43.0


From 65b6af9830445a5bf5c8704fc739d67086d31053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 036/104] fix: seed the random generator before drawing the
 shocks

---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 3746a34..f720be4 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -124,6 +124,8 @@ def simulate(
 
     s_simul[0, :, :] = s0[None, :]
 
+    numpy.random.seed(seed)
+
     # are we simulating a markov chain or a continuous process ?
     if driving_process is not None:
         if len(driving_process.shape) == 3:
@@ -179,8 +181,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
-- 
2.43.0


From e9a864e6d39649b3a2b293bce858b9d1101da055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 037/104] fix: simulate along a path of markov states without
 initial state

---
 dolo/algos/simulations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f720be4..587b57d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -141,7 +141,6 @@ def simulate(
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-            x_simul[0, :, :] = dr.eval_is(i0, s0[None, :])[0, :]
         else:
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
-- 
2.43.0


From 2a79369e9cd1dd60ccfb44c7b1fec36b61d3217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 038/104] fix: report simulated shocks of models without
 definitions

---
 dolo/algos/simulations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 587b57d..e25369b 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -198,8 +198,12 @@ def simulate(
             s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
-        l = [s_simul, x_simul]
-        varnames = model.symbols["states"] + model.symbols["controls"]
+        l = [m_simul, s_simul, x_simul]
+        varnames = (
+            model.symbols["exogenous"]
+            + model.symbols["states"]
+            + model.symbols["controls"]
+        )
     else:
         aux = model.functions["auxiliary"]
         a_simul = aux(
-- 
2.43.0


From 156076dbc671994731e1f0e8a9d059d3e5516470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 039/104] fix: multilinear decision rules over the states of a
 markov chain

---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From 8000de0f851f6f7273ba95b99538c6999162a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 040/104] fix: exogenous values are not indices when they
 happen to be integers

---
 dolo/numeric/decision_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..f0216f4 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -60,7 +60,7 @@ class CallableDecisionRule:
             else:
                 return self.eval_s(args[0])
         elif len(args) == 2:
-            if args[0].dtype in ("int64", "int32"):
+            if args[0].ndim == 0 and args[0].dtype in ("int64", "int32"):
                 (i, s) = args
                 if s.ndim == 1:
                     return self.eval_is(i, s[None, :])[0, :]
-- 
2.43.0


From b330082b8e1efb9845806ed333f27a8758c529e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 041/104] fix: evaluate decision rules at one exogenous value
 and several states

---
 dolo/numeric/decision_rule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index f0216f4..1669ec9 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -72,9 +72,9 @@ class CallableDecisionRule:
                 if s.ndim == 1 and m.ndim == 1:
                     return self.eval_ms(m[None, :], s[None, :])[0, :]
                 elif m.ndim == 1:
-                    m = m[None, :]
+                    m = m[None, :].repeat(s.shape[0], axis=0)
                 elif s.ndim == 1:
-                    s = s[None, :]
+                    s = s[None, :].repeat(m.shape[0], axis=0)
                 return self.eval_ms(m, s)
 
 
@@ -204,7 +204,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
@@ -261,7 +261,7 @@ def eval_is(
     i: object,
     s: object,
 ):
-    m = exo_grid.node(i)[None, :]
+    m = exo_grid.node(i)[None, :].repeat(s.shape[0], axis=0)
     return eval_ms(itp, exo_grid, endo_grid, interp_type, m, s)
 
 
-- 
2.43.0


From 8c5f6777d3d7f46d3cfe7f5f2c37908df2892bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 042/104] fix: custom decision rules with any number of
 controls

---
 dolo/numeric/decision_rule.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 1669ec9..db90b4a 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -519,7 +519,12 @@ class CustomDR(CallableDecisionRule):
         self.exo_grid = model.exogenous.discretize()  # this is never used
         self.endo_grid = model.endo_grid
         self.gufun = gufun
+        self.n_x = len(controls)
 
     def eval_ms(self, m, s):
 
-        return self.gufun(m, s, self.p)
+        # the number of controls can't be deduced from the arguments
+        shape = np.broadcast_shapes(m.shape[:-1], s.shape[:-1])
+        out = np.zeros(shape + (self.n_x,))
+        self.gufun(m, s, self.p, out)
+        return out
-- 
2.43.0


From 00250465927777282183a6fc3c66d46ed9727ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 043/104] fix: simulate along markov chains with states of
 identical values

---
 dolo/algos/simulations.py |  5 +++--
 dolo/numeric/processes.py | 11 +++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e25369b..d521ad2 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -163,8 +163,9 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
+            # several states of the chain may have the same values
+            i_simul = dp.simulate_indices(N, T, i0=i0, stochastic=stochastic)
+            m_simul = dp.values[i_simul]
             m0 = dp.node(i0)
             x0 = dr.eval_is(i0, s0[None, :])[0, :]
         else:
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 710ab6a..35dd55e 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -286,12 +286,15 @@ class MarkovChain(DiscretizedProcess, DiscreteProcess):
     def iweight(self, i: int, j: int):  # scalar
         return self.transitions[i, j]
 
-    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
-        # m0 is basically ignored
+    def simulate_indices(self, N, T, i0=0, stochastic=True):
         if stochastic:
-            inds = simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
+            return simulate_markov_chain(self.values, self.transitions, N, T, i0=i0)
         else:
-            inds = np.zeros((T, N), dtype=int) + i0
+            return np.zeros((T, N), dtype=int) + i0
+
+    def simulate(self, N, T, i0=0, m0=None, stochastic=True):
+        # m0 is basically ignored
+        inds = self.simulate_indices(N, T, i0=i0, stochastic=stochastic)
         return self.values[inds]
 
 
-- 
2.43.0


From 93f05e7a85d4bfba588bc44fe5e458c9f1ba78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 044/104] fix: tabulate decision rules at a given exogenous
 value

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index d521ad2..fae0b4d 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -288,7 +288,7 @@ def tabulate(
         xvec = dr.eval_is(i0, svec)
     elif m0 is not None:
         m = m0
-        xvec = dr.eval_ms(m0, svec)
+        xvec = dr.eval_ms(numpy.row_stack([m0] * n_steps), svec)
 
     mm = numpy.row_stack([m] * n_steps)
     l = [mm, svec, xvec]
-- 
2.43.0


From 3c29239cec5ac6a9322b419d84d196760580d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 045/104] fix: tabulate decision rules which don't carry a
 discretized process

---
 dolo/algos/simulations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index fae0b4d..1233d5a 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -268,9 +268,8 @@ def tabulate(
     svec = numpy.row_stack([s0] * n_steps)
     svec[:, index] = values
 
-    try:
-        dp = dr.dprocess
-    except:
+    dp = getattr(dr, "dprocess", None)
+    if dp is None:
         dp = model.exogenous.discretize()
 
     if (i0 is None) and (m0 is None):
-- 
2.43.0


From c85810c32c951d95e3b2d862a6c3171ad1ac09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 046/104] fix: solve on the grid of the discretized process
 given by the user

---
 dolo/algos/improved_time_iteration.py | 2 +-
 dolo/algos/time_iteration.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..99352ab 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -305,7 +305,7 @@ def improved_time_iteration(
         dprocess = dprocess_
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     n_m = max(dprocess.n_nodes, 1)
     n_s = len(model.symbols["states"])
diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index ae47e44..fcec6d4 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -114,7 +114,7 @@ def time_iteration(
     n_s = len(model.symbols["states"])
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     mdr = DecisionRule(
         exo_grid, endo_grid, dprocess=dprocess, interp_method=interp_method
-- 
2.43.0


From be23b06c605c1ace6108ff484aaf7889992bca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 047/104] fix: inversion by gmres with the current scipy

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 99352ab..27eaf3b 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -458,7 +458,7 @@ def improved_time_iteration(
             L.addid = True
             ttol = err_0 / 100
             sol = scipy.sparse.linalg.gmres(
-                L, ddx.ravel(), tol=ttol
+                L, ddx.ravel(), rtol=ttol
             )  # , maxiter=1, restart=smaxit)
             lam0 = 0.01
             nn = L.counter - n0
-- 
2.43.0


From 7da2ed0ec53a0d3f2031193d8dee8020e0bbf9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 048/104] fix: improved time iteration for models without
 bounds

---
 dolo/algos/improved_time_iteration.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 27eaf3b..decbe4f 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -294,8 +294,12 @@ def improved_time_iteration(
 
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
-    x_lb = model.functions["arbitrage_lb"]
-    x_ub = model.functions["arbitrage_ub"]
+
+    if complementarities and "arbitrage_lb" in model.functions:
+        x_lb = model.functions["arbitrage_lb"]
+        x_ub = model.functions["arbitrage_ub"]
+    else:
+        complementarities = False
 
     parms = model.calibration["parameters"]
 
@@ -340,12 +344,13 @@ def improved_time_iteration(
 
     steps = 0.5 ** numpy.arange(maxbsteps)
 
-    lb = x0.copy()
-    ub = x0.copy()
-    for i_m in range(n_m):
-        m = dprocess.node(i_m)
-        lb[i_m, :] = x_lb(m, s, parms)
-        ub[i_m, :] = x_ub(m, s, parms)
+    if complementarities:
+        lb = x0.copy()
+        ub = x0.copy()
+        for i_m in range(n_m):
+            m = dprocess.node(i_m)
+            lb[i_m, :] = x_lb(m, s, parms)
+            ub[i_m, :] = x_ub(m, s, parms)
 
     x = x0
 
-- 
2.43.0


From 8dbf234622cd745b5f5c21626319c2b5cf915f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 049/104] fix: start improved time iteration from any decision
 rule

---
 dolo/algos/improved_time_iteration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index decbe4f..d8203a1 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -338,8 +338,15 @@ def improved_time_iteration(
     )
 
     if dr0 is not None:
-        for i_m in range(n_m):
-            x0[i_m, :, :] = dr0.eval_is(i_m, s)
+        if isinstance(dr0, AlgoResult):
+            dr0 = dr0.dr
+        try:
+            for i_m in range(n_m):
+                x0[i_m, :, :] = dr0(i_m, s)
+        except Exception:
+            for i_m in range(n_m):
+                m = dprocess.node(i_m)
+                x0[i_m, :, :] = dr0(m, s)
     ddr.set_values(x0)
 
     steps = 0.5 ** numpy.arange(maxbsteps)
-- 
2.43.0


From fd154d9b4edbefba4d45d572dfd65848f7e5489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 050/104] fix: value iteration within the bounds of the
 controls

---
 dolo/algos/value_iteration.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..882e3ba 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -50,8 +50,7 @@ def value_iteration(
 
     transition = model.functions["transition"]
     felicity = model.functions["felicity"]
-    controls_lb = model.functions["controls_lb"]
-    controls_ub = model.functions["controls_ub"]
+    x_bounds = model.x_bounds
 
     parms = model.calibration["parameters"]
     discount = model.calibration["beta"]
@@ -134,9 +133,12 @@ def value_iteration(
             for n in range(N):
                 s_ = s[n, :]
                 x = controls[i_m, n, :]
-                lb = controls_lb(m, s_, parms)
-                ub = controls_ub(m, s_, parms)
-                bnds = [e for e in zip(lb, ub)]
+                if x_bounds is None:
+                    bnds = None
+                else:
+                    lb = x_bounds[0](m, s_, parms)
+                    ub = x_bounds[1](m, s_, parms)
+                    bnds = [e for e in zip(lb, ub)]
 
                 def valfun(xx):
                     return -choice_value(
-- 
2.43.0


From 45fd2407bacac8549272978d8c3e5ba4764a3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 051/104] fix: value iteration updates the value of the
 improved controls

---
 dolo/algos/value_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 882e3ba..27a0619 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -155,7 +155,7 @@ def value_iteration(
 
                 res = scipy.optimize.minimize(valfun, x, bounds=bnds)
                 controls[i_m, n, :] = res.x
-                values[i_m, n, 0] = -valfun(x)
+                values[i_m, n, 0] = -valfun(res.x)
 
         # compute error, update value and dr
         err_x = abs(controls - controls_0).max()
-- 
2.43.0


From 9dfcb2225a283b038ac22817a2558c77f5f89e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 052/104] fix: evaluate policies given by any decision rule

---
 dolo/algos/value_iteration.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 27a0619..de7ecc2 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -285,12 +285,25 @@ def evaluate_policy(
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
 
+    if isinstance(mdr, AlgoResult):
+        mdr = mdr.dr
+
     if isinstance(mdr, np.ndarray):
         controls = mdr
+        mdr = DecisionRule(
+            exo_grid,
+            endo_grid,
+            interp_method=interp_method,
+            dprocess=dprocess,
+            values=controls,
+        )
     else:
         controls = np.zeros((n_ms, N, n_x))
         for i_m in range(n_ms):
-            controls[i_m, :, :] = mdr.eval_is(i_m, s)
+            if hasattr(mdr, "eval_is"):
+                controls[i_m, :, :] = mdr.eval_is(i_m, s)
+            else:
+                controls[i_m, :, :] = mdr(dprocess.node(i_m), s)
 
     values_0 = np.zeros((n_ms, N, n_v))
     if dr0 is None:
@@ -390,7 +403,10 @@ def update_value(val, g, s, x, v, dr, drv, dprocess, parms):
             prob = dprocess.iweight(i_ms, I_ms)
 
             S = g(m, s, xm, M, parms)
-            XM = dr.eval_ijs(i_ms, I_ms, S)
+            if hasattr(dr, "eval_ijs"):
+                XM = dr.eval_ijs(i_ms, I_ms, S)
+            else:
+                XM = dr(M, S)
             VM = drv.eval_ijs(i_ms, I_ms, S)
             rr = val(m, s, xm, vm, M, S, XM, VM, parms)
 
-- 
2.43.0


From f8a7b1eade4fd74b67c7c8df90c4258ae4d4df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 053/104] fix: order generalized eigenvalues by modulus when
 they are complex

---
 dolo/numeric/extern/qz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..1051ba7 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -10,12 +10,14 @@ def qzordered(A, B, crit=1.0):
 
     TOL = 1e-10
 
+    # alpha and beta are complex for conjugate pairs of eigenvalues
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    with numpy.errstate(divide="ignore", invalid="ignore"):
+        eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From 6407e55e411eb49d845a2e0b501946e71389e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 054/104] fix: perturbation of models driven by a vector
 autoregression

---
 dolo/algos/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..fdcfc32 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
-- 
2.43.0


From b9929365dbd6f71567b8de81a085c379bb76e1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 055/104] fix: report models without or with many stable
 solutions

---
 dolo/algos/perturbation.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index fdcfc32..999842b 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -116,6 +116,22 @@ from numpy.linalg import solve
 from dolo.numeric.extern.qz import qzordered
 
 
+# generalized eigenvalues above this threshold correspond to stable roots
+EIGMAX = 1.0 - 1e-8
+
+
+class GeneralizedEigenvaluesError(Exception):
+    def __init__(self, **info):
+        self.info = info
+        super().__init__(f"Eigenvalues are not uniquely defined: {info}")
+
+
+class GeneralizedEigenvaluesSelectionError(Exception):
+    def __init__(self, **info):
+        self.info = info
+        super().__init__(f"Eigenvalues can't be separated: {info['eigval']}")
+
+
 def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     n_s = g_s.shape[0]  # number of controls
@@ -129,7 +145,7 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
+    [S, T, Q, Z, eigval] = qzordered(A, B, EIGMAX)
 
     Z = Z.real
 
@@ -144,15 +160,17 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
     except Exception as e:
         raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
 
+    # generalized eigenvalues are the inverse of the roots of the dynamics:
+    # the solution is associated to the `n_s` biggest ones
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    ev_a = eigval_s[n_x]
+    ev_b = eigval_s[n_x - 1]
+    if ev_a > EIGMAX and ev_b <= EIGMAX:
         # BK conditions are met
         pass
     else:
-        ev_a = eigval_s[n_s - 1]
-        ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
-        if not ev_a > ev_b:
+        cutoff = (ev_a + ev_b) / 2 if np.isfinite(ev_a) else 2 * ev_b
+        if not ev_a > ev_b * (1 + tol_geneigvals):
             raise GeneralizedEigenvaluesSelectionError(
                 A=A,
                 B=B,
@@ -164,13 +182,14 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
             )
         import warnings
 
-        if cutoff > 1:
+        if ev_a <= EIGMAX:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
                 "There are multiple convergent solutions. The one with the smaller eigenvalues was selected."
             )
         [S, T, Q, Z, eigval] = qzordered(A, B, cutoff)
+        Z = Z.real
 
     Z11 = Z[:n_s, :n_s]
     # Z12 = Z[:n_s, n_s:]
@@ -247,6 +266,7 @@ def perturb(
     m = steady_state["exogenous"]
     s = steady_state["states"]
     x = steady_state["controls"]
+    n_x = len(x)
 
     from dolo.numeric.processes import VAR1, IIDProcess
     from dolo.numeric.distribution import MvNormal
@@ -266,7 +286,7 @@ def perturb(
         return PerturbationResult(
             dr,
             eigvals,
+            bool(eigvals[n_x] > EIGMAX),
             True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
+            bool(eigvals[n_x - 1] <= EIGMAX),
         )
-- 
2.43.0


From 30d95ce7e0c52519f7d226ffceac617589a90568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 056/104] fix: report when no steady state is found

---
 dolo/algos/steady_state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/algos/steady_state.py b/dolo/algos/steady_state.py
index 800fb53..1633182 100644
--- a/dolo/algos/steady_state.py
+++ b/dolo/algos/steady_state.py
@@ -48,5 +48,9 @@ def find_steady_state(model: Model, *, m=None):
     sol = scipy.optimize.root(fobj, x0)
     res = sol.x
 
+    # the solver may stop making progress when the residuals are already negligible
+    if not (sol.success or abs(sol.fun).max() < 1e-8):
+        raise Exception(f"Could not find a steady state: {sol.message}")
+
     d = dict(exogenous=m, states=res[:n_s], controls=res[n_s:], parameters=p)
     return CalibrationDict(model.symbols, d)
-- 
2.43.0


From 08d3acd7bc2b159dd2c728aec90559ca619608cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 057/104] fix: option of the perturbation to solve for the
 steady state

---
 dolo/algos/perturbation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 999842b..ed78e44 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -255,7 +255,12 @@ def perturb(
         raise Exception("Not implemented.")
 
     if steady_state is None:
-        steady_state = model.calibration
+        if solve_steady_state:
+            from dolo.algos.steady_state import find_steady_state
+
+            steady_state = find_steady_state(model)
+        else:
+            steady_state = model.calibration
 
     G_s, G_x, G_e, F_s, F_x, F_S, F_X = get_derivatives(
         model, steady_state=steady_state
-- 
2.43.0


From 3de1ef4959c83ef7c1810e7cb2754871777617b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 058/104] fix: refuse models whose selected roots do not
 determine the controls

---
 dolo/algos/perturbation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index ed78e44..7fdded9 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -198,6 +198,10 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
     # S11 = S[:n_s, :n_s]
     # T11 = T[:n_s, :n_s]
 
+    if np.linalg.cond(Z11) > 1e12:
+        # the selected roots leave some controls undetermined
+        raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
+
     # first order solution
     # P = (solve(S11.T, Z11.T).T @ solve(Z11.T, T11.T).T)
     C = solve(Z11.T, Z21.T).T
-- 
2.43.0


From 0c4fb20deba531efaaf2a0a5661b5c1e71e9e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 059/104] fix: complementarity conditions with dense jacobians
 were ignored

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 82a4e85c2dbd4c71714017f0b1ae79c68ed28b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 060/104] fix: derivative of the complementarity conditions at
 the kink

---
 dolo/numeric/optimize/ncpsolve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 1862b7d..afd32ae 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -48,6 +48,10 @@ def smooth(x, a, b, fx, J, jactype="serial"):
 
     fxnew[dbinf] = pval[dbinf]
 
+    # the functions are not differentiable at 0: choose a generalized derivative
+    sq1[sq1 == 0] = 1
+    sq2[sq2 == 0] = 1
+
     dpdy = 1 + fx / sq1
     dpdy[dainf] = 1
 
-- 
2.43.0


From f82083cd76df42da4694c916051c13cf4c57e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 061/104] fix: newton: recognize a solution reached at the last
 iteration

---
 dolo/numeric/optimize/newton.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/optimize/newton.py b/dolo/numeric/optimize/newton.py
index 2947155..102fb4c 100644
--- a/dolo/numeric/optimize/newton.py
+++ b/dolo/numeric/optimize/newton.py
@@ -150,6 +150,10 @@ def newton(f, x, verbose=False, tol=1e-6, maxit=5, jactype="serial"):
             if verbose:
                 print("\t> {} | {} | {}".format(it, err, bck))
 
+    if not converged:
+        # the last iterate may be a solution
+        converged = abs(f(x)[0]).max() < tol
+
     if not converged:
         import warnings
 
-- 
2.43.0


From b043f72a9516f1ed92eacadac921c2f41532ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 062/104] fix: lmmcp: report failures to evaluate the system

---
 dolo/numeric/extern/lmmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/extern/lmmcp.py b/dolo/numeric/extern/lmmcp.py
index ed5dbf8..5a4969f 100644
--- a/dolo/numeric/extern/lmmcp.py
+++ b/dolo/numeric/extern/lmmcp.py
@@ -371,7 +371,7 @@ def lmmcp(fun, Dfun, x0, lb, ub, verbose=True, options={}):
         if verbose:
             print("{}\t{}\t{}\t{}\n".format(k, Psix, normDPsix, t))
 
-    if k == kmax:
+    if not Psix <= eps2:
         raise Exception("No convergence")
     return x
 
-- 
2.43.0


From ef9cb2e93ef781e7d3e1e072710aeb9c23e1b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 063/104] fix: batched elimination with rectangular right-hand
 sides

---
 dolo/algos/invert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From 843fb46f3a29923194f86c872cb0e9e260d35712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 064/104] fix: indexing in numdiff2

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..4fbee49 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From 26b145043b2b7519ad62dacd61adbb2605471f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 065/104] fix: second_order_solver could not be called

---
 dolo/numeric/matrix_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..1e75233 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -13,7 +13,6 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
 
     from numpy import (
         array,
-        mat,
         c_,
         r_,
         eye,
@@ -43,6 +42,7 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
     [Delta_up, Xi_up, UUU, VVV, eigval] = qzordered(
         Delta_mat,
         Xi_mat,
+        1 / eigmax,
     )
 
     VVVH = VVV.T
-- 
2.43.0


From 59140ed377ad0622888a4bc29d8815031b439b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 066/104] fix: perfect foresight: first observation of series
 given as arrays was dropped, long series were refused

---
 dolo/algos/perfect_foresight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..d239976 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -24,7 +24,7 @@ def _shocks_to_epsilons(model, shocks, T):
         epsilons = np.zeros((T + 1, n_e))
         for i, k in enumerate(model.symbols["exogenous"]):
             if k in shocks:
-                this_shock = shocks[k]
+                this_shock = shocks[k][: T + 1]
                 epsilons[: len(this_shock), i] = this_shock
                 epsilons[len(this_shock) :, i] = this_shock[-1]
             else:
@@ -43,9 +43,10 @@ def _shocks_to_epsilons(model, shocks, T):
     shocks = shocks.reshape((-1, n_e))
 
     # until last period, exogenous shock takes its last value
+    shocks = shocks[: T + 1, :]
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From f22d890db07802031b18ee0b058614beb6f82d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 067/104] fix: perfect foresight: start in the initial state,
 instead of the one which would follow it

---
 dolo/algos/perfect_foresight.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index d239976..bebb6a1 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -167,22 +167,27 @@ def deterministic_solve(
         start_state = find_steady_state(model, m=m0)
         s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
     else:
         if s0 is None:
             s0 = model.calibration["states"]
+        elif isinstance(s0, dict):
+            calib_s = zip(model.symbols["states"], model.calibration["states"])
+            s0 = np.array([s0.get(k, v) for k, v in calib_s])
         if m0 is None:
             m0 = model.calibration["exogenous"]
+        elif isinstance(m0, dict):
+            calib_m = zip(model.symbols["exogenous"], model.calibration["exogenous"])
+            m0 = np.array([m0.get(k, v) for k, v in calib_m])
         # if m0 is None:
         #     m0 = np.zeros(len(model.symbols['exogenous']))
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
+        epsilons[0, :] = m0
         x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+
+    # the simulation starts in the initial state
+    s1 = np.array(s0)
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
-- 
2.43.0


From 1512985d0864a67cae1ed7b29b055a8b22d6455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 068/104] fix: perfect foresight: simulations could not be used
 as initial guesses

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index bebb6a1..c3fe2ce 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -205,8 +205,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
-        initial_guess = initial_guess[:, : n_s + n_x]
+        # a steady-state may have been kept in front of the simulation
+        initial_guess = initial_guess[-(T + 1) :, : n_s + n_x]
 
     sh = initial_guess.shape
 
-- 
2.43.0


From 532e007f55770fdb6d304c7298ea8156e34dc081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 069/104] fix: perfect foresight: solver options were ignored
 without constraints

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index c3fe2ce..40cba92 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -276,7 +276,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, tol=tol, maxit=maxit, verbose=verbose, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From b3edbe7dc730e100730abf9d380dcd5b75fd325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 070/104] fix: perfect foresight: order of the arguments of
 lmmcp

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 40cba92..cdea01b 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -254,10 +254,10 @@ def deterministic_solve(
 
             sol = lmmcp(
                 lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From d1b06dec7fb2cefcace3b5b471653252503edab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 071/104] fix: perfect foresight: varying bounds were not
 always detected

---
 dolo/algos/perfect_foresight.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index cdea01b..e9c2dbb 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -51,6 +51,17 @@ def _shocks_to_epsilons(model, shocks, T):
     return epsilons
 
 
+def _check_constant_bounds(model, epsilons, states):
+
+    p = model.calibration["parameters"]
+    for u in model.x_bounds:
+        b = u(epsilons, states, p)
+        if not np.allclose(b, b[:1, :], rtol=0, atol=1e-8):
+            msg = "Not implemented: perfect foresight solution requires that "
+            msg += "controls have constant bounds."
+            raise Exception(msg)
+
+
 def deterministic_solve(
     model: Model,
     *,  #
@@ -217,12 +228,7 @@ def deterministic_solve(
         lower_bound[:, n_s:] = lb
         upper_bound = initial_guess * 0 + np.inf
         upper_bound[:, n_s:] = ub
-        test1 = max(lb.max(axis=0) - lb.min(axis=0))
-        test2 = max(ub.max(axis=0) - ub.min(axis=0))
-        if test1 > 0.00000001 or test2 > 0.00000001:
-            msg = "Not implemented: perfect foresight solution requires that "
-            msg += "controls have constant bounds."
-            raise Exception(msg)
+        _check_constant_bounds(model, epsilons, initial_states)
     else:
         ignore_constraints = True
         lower_bound = None
@@ -281,6 +287,10 @@ def deterministic_solve(
         )
         sol = sol.reshape(sh)
 
+    if not ignore_constraints:
+        # bounds must not have changed along the solution either
+        _check_constant_bounds(model, epsilons, sol[:, :n_s])
+
     # sol = sol[:-1, :]
 
     if (exogenous is not None) and keep_steady_state:
-- 
2.43.0


From 326231240feea8bb203ad87dba83d544ae330015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 072/104] fix: perfect foresight: any bound satisfied the
 terminal condition

---
 dolo/algos/perfect_foresight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index e9c2dbb..b17527f 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -378,7 +378,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
     res[:-1, n_s:] = res_x
 
     res[0, :n_s] = -(guess[0, :n_s] - start)
-    res[-1, n_s:] = -(guess[-1, n_s:] - guess[-2, n_s:])
+    # increasing in the last controls, so that bounds don't satisfy it spuriously
+    res[-1, n_s:] = guess[-1, n_s:] - guess[-2, n_s:]
 
     if not diff:
         return res
@@ -409,8 +410,8 @@ def det_residual(model, guess, start, final, shocks, diff=True, jactype="sparse"
                 # jac[i,:n_s,i+1,n_s:] = SS_x[i,:,:]
                 # jac[i+1,:n_s,i+1,:n_s] = -np.eye(n_s)
             jac[0, :n_s, 0, :n_s] = -np.eye(n_s)
-            jac[-1, n_s:, -1, n_s:] = -np.eye(n_x)
-            jac[-1, n_s:, -2, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -1, n_s:] = +np.eye(n_x)
+            jac[-1, n_s:, -2, n_s:] = -np.eye(n_x)
             nn = jac.shape[0] * jac.shape[1]
             res = res.ravel()
             jac = jac.reshape((nn, nn))
-- 
2.43.0


From 20eb6001db59bd5ba271d9463364e0d2a37c811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 073/104] fix: eval_formula: x(1) is the value of the next
 period

pandas' shift(1) moves the series forward, so that x(1) was evaluated
at the previous date and x(-1) at the next one.
---
 dolo/compiler/eval_formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..2f847f5 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From 23e857db512f2d4f2681ad80ac6ea4f8354f2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 074/104] fix: memoized: different arguments with the same hash
 shared their result

hash(-1) == hash(-2): f(-2) returned the value of f(-1). A TypeError
raised by the function itself made it run a second time.
---
 dolo/misc/caching.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..de0fdbc 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -13,20 +13,17 @@ class memoized(object):
 
     def __call__(self, *args, **kargs):
 
-        targs = (e for e in args)
-        hh = tuple(hashable(e) for e in targs)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
-            return self.cache[h]
-        except KeyError:
-            value = self.func(*args, **kargs)
-            self.cache[h] = value
-            return value
+            # the arguments themselves: different arguments can have the same hash
+            h = (tuple(hashable(e) for e in args), hashable(kargs))
+            hash(h)
         except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
+            # uncachable -- for instance, passing a data frame as an argument.
             # Better to not cache than to blow up entirely.
             return self.func(*args, **kargs)
+        if h not in self.cache:
+            self.cache[h] = self.func(*args, **kargs)
+        return self.cache[h]
 
     def __repr__(self):
         """Return the function's docstring."""
-- 
2.43.0


From 800512c0d740cbcc38ed9aedaba633edd62ab52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 075/104] fix: caching: arguments of different types or shapes
 shared their result

Arrays were identified by their elements only (a 2x2 matrix and a vector
of four elements were the same argument), and so were lists and tuples.
---
 dolo/misc/caching.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index de0fdbc..1b6a2d4 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -139,13 +139,19 @@ import collections
 
 
 def hashable(obj):
+    # the type is part of the key: a list, a tuple, an array and arrays of other
+    # shapes or types with the same content are different arguments
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
+        return ("array", str(obj.dtype), obj.shape, tuple(obj.flatten().tolist()))
+    if isinstance(obj, tuple):
+        return (type(obj).__name__, tuple([hashable(item) for item in obj]))
     if isinstance(obj, collections.abc.Hashable):
         return obj
     if isinstance(obj, collections.abc.Mapping):
         items = [(k, hashable(v)) for (k, v) in obj.items()]
-        return frozenset(items)
-    if isinstance(obj, collections.abc.Iterable):
-        return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+        return (type(obj).__name__, frozenset(items))
+    if isinstance(obj, collections.abc.Set):
+        return (type(obj).__name__, frozenset(obj))
+    if isinstance(obj, collections.abc.Sequence):
+        return (type(obj).__name__, tuple([hashable(item) for item in obj]))
+    raise TypeError(type(obj))
-- 
2.43.0


From e12fbc8658ba1e44c9ffa6a28a256b797210c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 076/104] fix: cachedondisk: wrong or unreadable entries

Entries were identified by the name of the function and a hash: different
arguments, or functions of the same name, could share their result, and
arguments with strings were never found again by another process. An
interrupted write left a truncated file, on which all later calls failed;
so did a result which cannot be pickled, or a missing directory.
---
 dolo/misc/caching.py | 80 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 1b6a2d4..b61b950 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -45,33 +45,31 @@ class cachedondisk(object):
         # create caching direcory if it is not there already
         import os
 
-        if not os.path.isdir(".cache"):
-            os.mkdir(".cache")
+        os.makedirs(".cache", exist_ok=True)
 
         self.func = func
         self.fname = func.__name__
 
     def __call__(self, *args, **kargs):
-        import pickle
-
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
-            with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
-                value = pickle.load(f)
-            return value
-        except IOError:
-            value = self.func(*args, **kargs)
-            if value is not None:  # should there be other kinds of error values
-                # write file with h
-                with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
-                    pickle.dump(value, f)
-            return value
+            hh = tuple(hashable(e) for e in args)
+            # two functions can have the same name
+            key = (self.func.__module__, self.func.__qualname__, hh, hashable(kargs))
+            filename = ".cache/{0}.{1}.pickle".format(self.fname, digest(key))
         except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
+            # uncachable -- for instance, passing a data frame as an argument.
             # Better to not cache than to blow up entirely.
             return self.func(*args, **kargs)
+        found, value = read_entry(filename, key)
+        if not found:
+            value = self.func(*args, **kargs)
+            if value is not None:  # should there be other kinds of error values
+                try:
+                    write_entry(filename, key, value)
+                except Exception:
+                    # not cached: the result cannot be pickled, the disk is full...
+                    pass
+        return value
 
     def __repr__(self):
         """Return the function's docstring."""
@@ -82,6 +80,52 @@ class cachedondisk(object):
         return functools.partial(self.__call__, obj)
 
 
+def digest(key):
+    """Identifies a key. Contrary to hash(), it is the same in all processes."""
+    import hashlib
+
+    def canonical(obj):
+        if isinstance(obj, tuple):
+            return "({})".format(",".join([canonical(e) for e in obj]))
+        if isinstance(obj, frozenset):
+            return "{{{}}}".format(",".join(sorted([canonical(e) for e in obj])))
+        return repr(obj)
+
+    hash(key)  # raises TypeError
+    return hashlib.sha1(canonical(key).encode()).hexdigest()
+
+
+def read_entry(filename, key):
+    """Returns (True, value) if the file holds the value for that key"""
+    import pickle
+
+    try:
+        with open(filename, "rb") as f:
+            saved_key, value = pickle.load(f)
+        return (True, value) if saved_key == key else (False, None)
+    except Exception:
+        # no such file, or a damaged one
+        return False, None
+
+
+def write_entry(filename, key, value):
+    """Saves a value. A partially written file is never visible."""
+    import os
+    import pickle
+    import tempfile
+
+    directory = os.path.dirname(filename)
+    os.makedirs(directory, exist_ok=True)
+    fd, temp = tempfile.mkstemp(dir=directory, suffix=".tmp")
+    try:
+        with os.fdopen(fd, "wb") as f:
+            pickle.dump((key, value), f)
+        os.replace(temp, filename)
+    except BaseException:
+        os.remove(temp)
+        raise
+
+
 def clear_cache(function_name=None):
 
     import os
-- 
2.43.0


From 9d64465cac6786deba47ae22a5cc43ad86c5abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 077/104] fix: DiskDictionary: nothing could be stored

Pickles were written in text mode, which always raises a TypeError.
---
 dolo/misc/caching.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index b61b950..3be36dc 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -145,38 +145,22 @@ import os
 class DiskDictionary:
     def __init__(self, directory=".cache", funname="fun"):
         self.funname = funname
-        if not os.path.isdir(directory):
-            os.mkdir(directory)
+        os.makedirs(directory, exist_ok=True)
         self.directory = directory
 
     def get_filename(self, key):
-        import pickle
-
-        hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(tuple(hashable(k) for k in key))
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
     def __setitem__(self, key, value):
-        import pickle
-
-        filename = self.get_filename(key)
-        try:
-            with open(filename, "w") as f:
-                pickle.dump(value, f)
-        except TypeError as e:
-            raise e
+        hh = tuple(hashable(k) for k in key)
+        write_entry(self.get_filename(key), hh, value)
 
     def get(self, item):
-        import pickle
-
-        filename = self.get_filename(item)
-        try:
-            with open(filename) as f:
-                value = pickle.load(f)
-                return value
-        except:
-            return None
+        hh = tuple(hashable(k) for k in item)
+        found, value = read_entry(self.get_filename(item), hh)
+        return value
 
 
 import collections
-- 
2.43.0


From c87186d62098ef3452ea5a1f18cc6736a24ea8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 078/104] fix: hp_filter: the smoothing parameter was ignored
 for stacked series

All series of a matrix were filtered with lam=1600.
---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..8f16236 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam=lam) for e in Y]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From 69050c521e4348105632bdef3e4da68c09867e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 079/104] fix: bandpass_filter: refuse series shorter than the
 filter

The roles of the series and of the filter were exchanged, and meaningless
numbers returned.
---
 dolo/numeric/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 8f16236..5abca89 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -105,6 +105,8 @@ def bandpass_filter(data, k, w1, w2):
             The filtered data.
     """
     data = np.asarray(data)
+    if data.shape[-1] < 2 * k + 1:
+        raise ValueError("The series is too short for a filter of that order.")
     low_w = np.pi * 2 / w2
     high_w = np.pi * 2 / w1
     bweights = np.zeros(2 * k + 1)
-- 
2.43.0


From 54b9eb64330a7c43914ff9f71f19f88315e7f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 080/104] fix: equations assigned to the wrong variables

The left-hand sides of transitions (and of the other definition blocks) are
ignored: equations written in another order, for undeclared symbols or at
other dates, missing or superfluous ones, silently gave another model.
---
 dolo/compiler/model.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 586d6bc..cc1935c 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -104,8 +104,8 @@ class SymbolicModel:
                         d[g + "_lb"] = ll_lb
                         d[g + "_ub"] = ll_ub
                 else:
-                    # TODO: we should check here that equations are well specified
                     d[g] = [str_expression(e) for e in eq_list]
+                    self.check_targets(g, d[g])
 
             # if "controls_lb" not in d:
             #     for ind, g in enumerate(("controls_lb", "controls_ub")):
@@ -127,6 +127,24 @@ class SymbolicModel:
 
         return self.__equations__
 
+    def check_targets(self, g, eqs):
+        """The equations of a block must define the symbols of its target group,
+        in declaration order (their left-hand sides are not used otherwise)."""
+
+        from dolo.compiler.recipes import recipes
+
+        specs = recipes["dtcc"]["specs"].get(g, {})
+        if "target" not in specs:
+            return
+        group, date, _ = specs["target"]
+        t = "[t]" if date == 0 else f"[t{date:+d}]"
+        expected = [s + t for s in self.symbols[group]]
+        found = [eq.split("=")[0].strip() for eq in eqs]
+        if found != expected:
+            raise Exception(
+                f"Incorrect left-hand sides in block '{g}': expected {expected}. Found {found}"
+            )
+
     @property
     def definitions(self):
 
-- 
2.43.0


From 206e0a29199ba3e41e07833c82879ad07be13099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 081/104] fix: refuse models without exactly one arbitrage
 equation per control

---
 dolo/compiler/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index cc1935c..5eace65 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -99,6 +99,11 @@ class SymbolicModel:
 
                         # syms = list_symbols(eq)
                         ll.append(str_expression(eq))
+                    n_controls = len(self.symbols["controls"])
+                    if len(ll) != n_controls:
+                        raise Exception(
+                            f"Expected {n_controls} arbitrage equations (one per control). Found {len(ll)}."
+                        )
                     d[g] = ll
                     if with_complementarity:
                         d[g + "_lb"] = ll_lb
-- 
2.43.0


From aa16fc3754bc68acde30da6230e8d3b69ac9e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 082/104] fix: refuse symbols declared several times

One of the declarations was silently ignored.
---
 dolo/compiler/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 5eace65..d7db1a9 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -22,6 +22,13 @@ class SymbolicModel:
             for sg in self.data["symbols"].keys():
                 symbols[sg] = [s.value for s in self.data["symbols"][sg]]
 
+            names = sum(symbols.values(), [])
+            duplicates = sorted(set(s for s in names if names.count(s) > 1))
+            if duplicates:
+                raise Exception(
+                    "Symbols declared several times: {}.".format(", ".join(duplicates))
+                )
+
             self.__symbols__ = symbols
 
             # the following call adds auxiliaries (tricky, isn't it?)
-- 
2.43.0


From e1c2c051eeb78e066393f5e785c377d920eb625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 083/104] fix: refuse processes whose dimension is not the
 number of shocks

---
 dolo/compiler/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index d7db1a9..6e59cfb 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -426,8 +426,16 @@ class SymbolicModel:
 
         from dolo.numeric.processes import ProductProcess, Process
 
+        def check_dimension(process, syms):
+            d = getattr(process, "d", len(syms))
+            if d != len(syms):
+                raise Exception(
+                    f"'exogenous' section: process of dimension {d} for shocks {syms}."
+                )
+
         if isinstance(exogenous, Process):
             # old style
+            check_dimension(exogenous, self.symbols["exogenous"])
             return exogenous
         elif isinstance(exo, list):
             # old style (2)
@@ -449,6 +457,9 @@ class SymbolicModel:
                     f"{lc.line}:{lc.col}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
                 )
 
+            for k, process in exogenous.items():
+                check_dimension(process, [v.strip() for v in k.split(",")])
+
             return ProductProcess(*exogenous.values())
 
     @property
-- 
2.43.0


From d7701548cff25951c03970da779e8ca3799fa2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:26 +0000
Subject: [PATCH 084/104] fix: refuse uniform grids with missing or superfluous
 orders or bounds

The superfluous ones were ignored by the nodes but announced by the grid.
---
 dolo/numeric/grids.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 7fb4c8d..644310b 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -117,6 +117,9 @@ class UniformCartesianGrid(CartesianGrid):
         else:
             self.n = np.array(n, dtype=int)
 
+        if not len(self.min) == len(self.max) == len(self.n):
+            raise ValueError("There should be one min, max and n per dimension.")
+
         # this should be done only on request.
         self.__nodes__ = mlinspace(self.min, self.max, self.n)
 
-- 
2.43.0


From ec28dfbb3f23a91899da95231f21d4592e4058a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 085/104] fix: refuse definitions which redefine another symbol

A definition with the name of a parameter, or in the old format of any
symbol, replaced it in some of the equations.
---
 dolo/compiler/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 6e59cfb..36719c6 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -200,7 +200,7 @@ class SymbolicModel:
                     tok_date: Token = lhs.children[1].children[0]
                     name = tok_name.value
                     date = int(tok_date.value)
-                    if name in vars:
+                    if name in vars or name in self.symbols.get("parameters", []):
                         raise Exception(
                             f"definitions:{tok_name.line}:{tok_name.column}: Auxiliary variable '{name}'' already defined."
                         )
@@ -244,6 +244,12 @@ class SymbolicModel:
                     for k in self.data.get("definitions", {})
                 ]
                 auxiliaries = [str_expression(e) for e in auxiliaries]
+                names = sum(self.symbols.values(), []) + auxiliaries
+                for name in auxiliaries:
+                    if names.count(name) > 1:
+                        raise Exception(
+                            f"definitions: Auxiliary variable '{name}' already defined."
+                        )
                 self.__symbols__["auxiliaries"] = auxiliaries
                 vars = self.variables
                 auxs = []
-- 
2.43.0


From b74eeb3abbca12d6bca519c20ab1b07b81c55a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 086/104] fix: do not truncate the solutions of linear systems
 with integer data

---
 dolo/numeric/optimize/newton.py   | 4 ++--
 dolo/numeric/serial_operations.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/optimize/newton.py b/dolo/numeric/optimize/newton.py
index 102fb4c..23bcaf7 100644
--- a/dolo/numeric/optimize/newton.py
+++ b/dolo/numeric/optimize/newton.py
@@ -54,7 +54,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -69,7 +69,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
         serial_solve_numba(M, sol)
 
     return sol
diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index 4fbee49..990db88 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -120,7 +120,7 @@ def serial_solve(A, B, diagnose=True):
 
     if diagnose:
 
-        sol = zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
 
         for i in range(sol.shape[0]):
             try:
@@ -135,7 +135,7 @@ def serial_solve(A, B, diagnose=True):
 
     else:
         M = numpy.concatenate([A, B[:, :, None]], axis=2)
-        sol = numpy.zeros_like(B)
+        sol = numpy.zeros(B.shape, dtype=numpy.result_type(A, B, float))
         serial_solve_numba(M, sol)
 
     return sol
-- 
2.43.0


From 674662c9b7399d2ac639845c5d5085996240aa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 087/104] fix: return an N times d matrix when a single vector
 is drawn from a Normal

---
 dolo/numeric/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 6f1ba20..02c2cbf 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -595,11 +595,9 @@ class Normal(ContinuousDistribution):
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
-        if res.ndim == 1:
-            # scipy returns a 1d object for 1d distribution
-            res = res[:, None]
 
-        return res
+        # scipy drops the dimensions of size 1
+        return np.reshape(res, (N, self.d))
 
     def discretize(self, to="iid", N=None) -> FiniteDistribution:
 
-- 
2.43.0


From 78e9c3240bef443ce317a8d7314039e9228a89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 088/104] fix: let egm use one rule per node when the shocks it
 is given form a Markov chain

---
 dolo/algos/egm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..13a23b7 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -26,10 +26,6 @@ def egm(
         len(model.symbols["controls"]) == 1
     )  # we probably don't need this restriction
 
-    from dolo.numeric.processes import IIDProcess
-
-    iid_process = isinstance(model.exogenous, IIDProcess)
-
     def vprint(t):
         if verbose:
             print(t)
@@ -39,6 +35,11 @@ def egm(
     if grid is None and dp is None:
         grid, dp = model.discretize()
 
+    from dolo.numeric.processes import DiscretizedIIDProcess
+
+    # there is then one decision rule, whatever the current shock
+    iid_process = isinstance(dp, DiscretizedIIDProcess)
+
     s = grid["endo"].nodes
 
     funs = model.__original_gufunctions__
-- 
2.43.0


From f189953038300debea804742aae95c61d91484b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 089/104] fix: refuse to run egm on shocks whose integration
 nodes are not grid nodes

---
 dolo/algos/egm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 13a23b7..f3b5d06 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -35,7 +35,12 @@ def egm(
     if grid is None and dp is None:
         grid, dp = model.discretize()
 
-    from dolo.numeric.processes import DiscretizedIIDProcess
+    from dolo.numeric.processes import DiscretizedIIDProcess, MarkovChain
+
+    if not isinstance(dp, (DiscretizedIIDProcess, MarkovChain)):
+        raise Exception(
+            f"Exogenous shocks must be discretized as iid shocks or as a Markov chain (not {type(dp)})."
+        )
 
     # there is then one decision rule, whatever the current shock
     iid_process = isinstance(dp, DiscretizedIIDProcess)
-- 
2.43.0


From 7c60acfa180c5c3cdaf92e0dcffe868641623230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 090/104] fix: compile the model before egm uses its functions

---
 dolo/algos/egm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index f3b5d06..e90783f 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -47,6 +47,7 @@ def egm(
 
     s = grid["endo"].nodes
 
+    model.functions  # compiles the model if that has not been done yet
     funs = model.__original_gufunctions__
     h = funs["expectation"]
     gt = funs["half_transition"]
-- 
2.43.0


From 09878100ca1fbd351870a8100bdd0e56e81afeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 091/104] fix: let egm solve models without bounds on the
 controls

---
 dolo/algos/egm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index e90783f..107d1a0 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -53,8 +53,8 @@ def egm(
     gt = funs["half_transition"]
     τ = funs["direct_response_egm"]
     aτ = funs["reverse_state"]
-    lb = funs["arbitrage_lb"]
-    ub = funs["arbitrage_ub"]
+    lb = funs.get("arbitrage_lb")
+    ub = funs.get("arbitrage_ub")
 
     if dr0 is None:
         x0 = model.calibration["controls"]
@@ -99,11 +99,11 @@ def egm(
                 if iid_process:
                     i = 0
                 m = dp.node(i)
-                l_ = lb(m, ss, p)
-                u_ = ub(m, ss, p)
                 x = eval_linear((sa0[i, :, 0],), xa0[i, :, 0], ss)[:, None]
-                x = np.minimum(x, u_)
-                x = np.maximum(x, l_)
+                if ub is not None:
+                    x = np.minimum(x, ub(m, ss, p))
+                if lb is not None:
+                    x = np.maximum(x, lb(m, ss, p))
                 return x
 
         z[:, :, :] = 0
-- 
2.43.0


From 122f4fdf442e46530a39ee881d25e1b2532ae0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 092/104] fix: evaluate decision rules on a matrix of states in
 tabulate_2d

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 1233d5a..f524771 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -336,7 +336,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
         s[i_x] = xx
         for yy in lps[1]:
             s[i_y] = yy
-            x = dr.eval_is(i0, s)
+            x = dr.eval_is(i0, s[None, :])[0, :]
             vv.append(numpy.concatenate([s, x]))
         vals.append(vv)
     vv = numpy.array(vals)
-- 
2.43.0


From 4774d8c6f398776578166593484cfbf540ecc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 093/104] fix: do not truncate the states of simulations and
 tables which start from integers

---
 dolo/algos/simulations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f524771..5913774 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -115,6 +115,9 @@ def simulate(
 
     if s0 is None:
         s0 = calib["states"]
+    s0 = numpy.asarray(s0, dtype=float)
+    if m0 is not None:
+        m0 = numpy.asarray(m0, dtype=float)
 
     n_x = len(model.symbols["controls"])
     n_s = len(model.symbols["states"])
@@ -129,7 +132,7 @@ def simulate(
     # are we simulating a markov chain or a continuous process ?
     if driving_process is not None:
         if len(driving_process.shape) == 3:
-            m_simul = driving_process
+            m_simul = numpy.asarray(driving_process, dtype=float)
             sim_type = "continuous"
             if m0 is None:
                 m0 = model.calibration["exogenous"]
@@ -265,7 +268,7 @@ def tabulate(
     if s0 is None:
         s0 = model.calibration["states"]
 
-    svec = numpy.row_stack([s0] * n_steps)
+    svec = numpy.row_stack([numpy.asarray(s0, dtype=float)] * n_steps)
     svec[:, index] = values
 
     dp = getattr(dr, "dprocess", None)
@@ -287,7 +290,9 @@ def tabulate(
         xvec = dr.eval_is(i0, svec)
     elif m0 is not None:
         m = m0
-        xvec = dr.eval_ms(numpy.row_stack([m0] * n_steps), svec)
+        xvec = dr.eval_ms(
+            numpy.row_stack([numpy.asarray(m0, dtype=float)] * n_steps), svec
+        )
 
     mm = numpy.row_stack([m] * n_steps)
     l = [mm, svec, xvec]
@@ -330,7 +335,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
     i_y = model.symbols["states"].index(states[1])
     vals = []
     vstates = []
-    s = s0.copy()
+    s = numpy.array(s0, dtype=float)
     for xx in lps[0]:
         vv = []
         s[i_x] = xx
-- 
2.43.0


From 9585e6e517e46ec099f3dcc43a6a74de46a2b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 094/104] fix: evaluate decision rules at integer points

---
 dolo/numeric/decision_rule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index db90b4a..a419e0c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -114,21 +114,25 @@ class DecisionRule(CallableDecisionRule):
             self.set_values(values)
 
     def set_values(self, x):
+        x = np.asarray(x, dtype=float)
         self.coefficients = self.__get_coefficients__(
             self, self.exo_grid, self.endo_grid, self.__interp_method__, x
         )
 
     def eval_ms(self, m, s):
+        s = np.asarray(s, dtype=float)
         return self.__eval_ms__(
             self, self.exo_grid, self.endo_grid, self.__interp_method__, m, s
         )
 
     def eval_is(self, i, s):
+        s = np.asarray(s, dtype=float)
         return self.__eval_is__(
             self, self.exo_grid, self.endo_grid, self.__interp_method__, i, s
         )
 
     def eval_s(self, s):
+        s = np.asarray(s, dtype=float)
         return self.__eval_s__(
             self, self.exo_grid, self.endo_grid, self.__interp_method__, s
         )
-- 
2.43.0


From ac83f4a412dfd6b44f65b90d601199160b2f040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 095/104] fix: multimethod.register accepts a single class

---
 dolo/misc/multimethod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 2608d85..d55be2c 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -144,7 +144,11 @@ class multimethod(dict):
 
         Optionally call with types to return a decorator for unannotated functions.
         """
-        if len(args) == 1 and hasattr(args[0], "__annotations__"):
+        if (
+            len(args) == 1
+            and hasattr(args[0], "__annotations__")
+            and not isinstance(args[0], type)
+        ):
             return overload.register(self, *args)
         return lambda func: self.__setitem__(args, func) or func
 
-- 
2.43.0


From dffe2c4fbba4a3193e5443d406bf5301ed32166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 096/104] fix: multimethods link a new signature under every
 more specific one

---
 dolo/misc/multimethod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index d55be2c..c095ab5 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -171,7 +171,7 @@ class multimethod(dict):
         types = signature(types)
         parents = types.parents = self.parents(types)
         for key in self:
-            if types < key and (not parents or parents & key.parents):
+            if types < key:
                 key.parents -= parents
                 key.parents.add(types)
         if any(isinstance(cls, subtype) for cls in types):
-- 
2.43.0


From a923f835742171742d7c07c3b25a62e6533d2e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 097/104] fix: multimethods keep functions whose forward
 references are unresolved

---
 dolo/misc/multimethod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index c095ab5..0c5f01b 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -211,8 +211,9 @@ class multimethod(dict):
         otherwise cache misses will evaluate.
         """
         while self.pending:
-            func = self.pending.pop()
+            func = next(iter(self.pending))
             self[get_types(func)] = func
+            self.pending.discard(func)
 
     @property
     def docstring(self):
-- 
2.43.0


From 8812ad339cc133c56c714c257d63934ba7698b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 098/104] fix: multimethods of generic types, on python 3.11
 and later

---
 dolo/misc/multimethod.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolo/misc/multimethod.py b/dolo/misc/multimethod.py
index 0c5f01b..85cf30c 100644
--- a/dolo/misc/multimethod.py
+++ b/dolo/misc/multimethod.py
@@ -76,12 +76,13 @@ class subtype(type):
         return self.__origin__, self.__args__
 
     def __eq__(self, other):
-        return (
-            isinstance(other, subtype) and self.__getstate__() == other.__getstate__()
-        )
+        # (since python 3.11, classes inherit another __getstate__ from object)
+        return isinstance(other, subtype) and subtype.__getstate__(
+            self
+        ) == subtype.__getstate__(other)
 
     def __hash__(self):
-        return hash(self.__getstate__())
+        return hash(subtype.__getstate__(self))
 
     def __subclasscheck__(self, subclass):
         origin = getattr(
-- 
2.43.0


From 0bb708d7bdfadc5aaeaa59945c9609e92fe3f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 099/104] fix: plot_irfs compares more simulations than
 variables

---
 dolo/misc/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/graphs.py b/dolo/misc/graphs.py
index d87d48b..6f77758 100644
--- a/dolo/misc/graphs.py
+++ b/dolo/misc/graphs.py
@@ -57,7 +57,7 @@ def plot_irfs(
             layout = default_layout[n_v][1]
 
     if line_options is None:
-        line_options = [{}] * n_v
+        line_options = [{}] * len(sims)
 
     fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize)
     axes = axes.ravel()
-- 
2.43.0


From 7784be821ac82240b2bbcf3b6cda32ccd7d5f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 100/104] fix: plot_irfs plots a single variable

---
 dolo/misc/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/graphs.py b/dolo/misc/graphs.py
index 6f77758..9856893 100644
--- a/dolo/misc/graphs.py
+++ b/dolo/misc/graphs.py
@@ -60,7 +60,7 @@ def plot_irfs(
         line_options = [{}] * len(sims)
 
     fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize)
-    axes = axes.ravel()
+    axes = np.atleast_1d(axes).ravel()
     for i, v in enumerate(variables):
         ax = axes[i]
         for j, sim in enumerate(sims):
-- 
2.43.0


From 39ee99b66485a6d44950f58aa8994e4a895f087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 101/104] fix: plot_decision_rule takes the model, the decision
 rule and the state to plot

---
 dolo/algos/simulations.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 5913774..7eed71c 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -379,15 +379,30 @@ def plot3d(tab, varname):
     return iplot(fig, filename="graph_" + varname)
 
 
-def plot_decision_rule(plot_controls=None, **kwargs):
+def plot_decision_rule(
+    model,
+    dr,
+    state,
+    plot_controls=None,
+    bounds=None,
+    n_steps=100,
+    s0=None,
+    i0=None,
+    m0=None,
+    **kwargs
+):
 
-    if isinstance(dr, AlgoResult):
-        dr = dr.dr
+    df = tabulate(
+        model, dr, state, bounds=bounds, n_steps=n_steps, s0=s0, i0=i0, m0=m0
+    )
 
-    df = tabulate(dr, state, bounds=None, n_steps=100, s0=None, i0=None, m0=None)
+    if plot_controls is None:
+        return df
 
     from matplotlib import pyplot
 
+    values = df[str(state)]
+
     if isinstance(plot_controls, str):
         cn = plot_controls
         pyplot.plot(values, df[cn], **kwargs)
-- 
2.43.0


From afbbae2004077d52a49dc85c815fbc9eb0ad712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 102/104] fix: import models from files whose name contains
 http

---
 dolo/misc/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/display.py b/dolo/misc/display.py
index 16cf377..3fa4521 100644
--- a/dolo/misc/display.py
+++ b/dolo/misc/display.py
@@ -5,7 +5,7 @@ is_python_3 = sys.version_info >= (3, 0)
 
 def read_file_or_url(url):
 
-    if "http" in url:
+    if str(url).startswith(("http://", "https://")):
         if is_python_3:
             import urllib.request
 
-- 
2.43.0


From 267f420880066127d07efbf18dd0e866a73432be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:58 +0000
Subject: [PATCH 103/104] fix: evaluate_policy leaves the initial guess
 unchanged

The iterations overwrote the values of dr0, which was also the object
returned as the solution.
---
 dolo/algos/value_iteration.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index de7ecc2..9caa871 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -277,10 +277,8 @@ def evaluate_policy(
     n_v = len(v0)
     n_s = len(model.symbols["states"])
 
-    if dr0 is not None:
-        mdrv = dr0
-    else:
-        mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
+    # a new decision rule: the initial guess must not be modified
+    mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
-- 
2.43.0


From 7c9d79f292d1c2b17fcb53431e467661fc37b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 104/104] fix: imported models know the file they come from

The filename was stored under the key 'name': it was the name of models
without one, and their filename was always '<string>'.
---
 dolo/compiler/model_import.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model_import.py b/dolo/compiler/model_import.py
index 0cd2377..559211a 100644
--- a/dolo/compiler/model_import.py
+++ b/dolo/compiler/model_import.py
@@ -29,7 +29,14 @@ def yaml_import(fname, check=True, check_only=False):
     # if check_only:
     #     return output
 
-    data["filename"] = fname
+    if "filename" in data:
+        data["filename"] = fname
+    else:
+        # updating a yaml node does not create the missing keys properly
+        tag = "tag:yaml.org,2002:str"
+        data.value.append(
+            (yaml.ScalarNode(tag, "filename"), yaml.ScalarNode(tag, fname))
+        )
 
     from dolo.compiler.model import Model
 
-- 
2.43.0

