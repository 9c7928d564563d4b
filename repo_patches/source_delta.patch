From a0dc14d281bb99226b92e1c793e8127dd1ed0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 01/23] fix: RK53 second stage coefficient inconsistent with
 its node (3/16)

---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..616e964 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -215,7 +215,7 @@ class RK53(RK):
     aliases = ["ERK53"]
     A = [[0, 0, 0, 0, 0],
          [1/7, 0, 0, 0, 0],
-         [0, 3/13, 0, 0, 0],
+         [0, 3/16, 0, 0, 0],
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-- 
2.43.0


From 29ba3107a42d78e2bbb802e6bbcdb548f9f4db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/23] fix: barycentric weights follow the order of unsorted
 distinct points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From 2c2ff057fc415515862d0d4778a3a7e96083b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/23] fix: sparse interpolation reuses a row only for
 identical stencils

The default tolerances of np.allclose made rows of small-scale or slightly
stretched grids reuse the row of another stencil.
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..af920b9 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -584,7 +584,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and np.array_equal(closestPoints, lastClosestPoints):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From addc66e7d5e3f9b40bd1a5c99a0ea688f8ed8b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/23] fix: collocation snaps boundary nodes only if the
 quadrature type includes them

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..317cda5 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 0ae4be64ec1833d7ea80daa419476ea69bf90303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 05/23] fix: collocation hCoeffs and rightIsNode refer to
 tRight

---
 qmat/qcoeff/collocation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 317cda5..8f86b2f 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -82,6 +82,9 @@ class Collocation(QGenerator):
     @property
     def weights(self)->np.ndarray: return self._weights
 
+    @property
+    def rightIsNode(self)->bool: return self._nodes[-1] == self.tRight
+
     @property
     def S(self)->np.ndarray:
         nodes = self._nodes
@@ -91,7 +94,7 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
 
     @property
     def order(self)->int:
-- 
2.43.0


From 9f5556645481f47760772be73ed136f79fcb8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/23] fix: BEPAR, TRAPAR and SOE approximations take tLeft
 into account

---
 qmat/qdelta/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..7c38018 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag((self.nodes - self.tLeft)/2)
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 298ab3149f4de731d04c54e5d8b85c6b8f0c1c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 07/23] fix: QDelta genCoeffs does not expose the cached matrix

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..97a0f08 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -205,7 +205,7 @@ class QDeltaGenerator(object):
             k = list(k)
             out = [np.array([gen(_k, copy=False) for _k in k])]
         except TypeError:
-            out = [gen(k)]
+            out = [gen(k, copy=True)]
         if dTau:
             out += [self.dTau]
         return out if len(out) > 1 else out[0]
-- 
2.43.0


From b7e2deb6471aa90c109947207a29953f5b0be1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/23] fix: Q genCoeffs returns copies of the stored
 coefficients

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..628500e 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From 9721db24ddd7de0cc516fdeb3821bd6b91b9fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 09/23] fix: RK generators do not share their class table with
 callers

---
 qmat/qcoeff/butcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 616e964..41cc07f 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,8 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        self.A, self.b, self.c = self.A.copy(), self.b.copy(), self.c.copy()
+        if self.b2 is not None: self.b2 = self.b2.copy()
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From d8c0fa72093104438fd6bcc7d1b0ce9f2fbf41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 10/23] fix: RK padding also pads the embedded weights

---
 qmat/qcoeff/butcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 41cc07f..e30ae03 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -53,6 +53,7 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None: self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -61,6 +62,7 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None: self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 6c844c52529cbc94f62de463427774b331b517e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 11/23] fix: genQDeltaCoeffs does not extend the given list of
 types in place

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 97a0f08..65a751f 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From 2161d432e525d30e79caf1c7e5bd2dcb58c99b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 12/23] fix: time-stepping approximations accept nodes given as
 integers

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 7c38018..1d51451 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From 0174a77ec0d035ee75c6db2cd72f5be5f70c06c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 13/23] fix: time-stepping approximations extract the left
 bound from qGen

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 1d51451..8d46d54 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From 2ce344d2085971d51feea1f346e7902543988c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 14/23] fix: AUTO weight computation also detects overflow and
 underflow

Overflowing products gave zero or infinite barycentric weights, hence NaN
matrices, e.g. for 100 points on [-1e6, 1e6] or 520 Chebyshev points on [0, 1].
---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index af920b9..f2dc4cf 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise', under='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
-- 
2.43.0


From 4db2a012518940682fcc426f2bfeb0408f39e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 15/23] fix: CHEBFUN weight computation for a single point

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index f2dc4cf..b6ec8a3 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,7 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1: diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From 1b8a6840b4bb28206ba3b6945dffdcbbfe5deb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 16/23] fix: interpolation matrix does not overflow for very
 large barycentric weights

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index b6ec8a3..d99d2b3 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -345,7 +345,8 @@ class LagrangeApproximation(object):
         iDiff[i, :] = concom[i, :]
 
         # Compute interpolation matrix using weights
-        P = iDiff * self.weights
+        # (with an exact power of two scaling, to avoid overflow with large weights)
+        P = iDiff * np.ldexp(self.weights, -np.frexp(self.weights)[1].max())
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From 870d557590166d2abb06cbbf2054d27fa12bde21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:53 +0000
Subject: [PATCH 17/23] fix: AUTO weights: the scaled algorithm must not run in
 raising mode (underflow of many points)

---
 qmat/lagrange.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index d99d2b3..e0a9e2d 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,11 +211,11 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='raise', under='raise'):
-                try:
+            try:
+                with np.errstate(divide='raise', over='raise', under='raise'):
                     invProd = analytic(diffs)
-                except FloatingPointError:
-                    invProd = logScale(diffs)
+            except FloatingPointError:
+                invProd = logScale(diffs)
         elif weightComputation == 'FAST':
             invProd = analytic(diffs)
         elif weightComputation == 'STABLE':
-- 
2.43.0


From 2ce2d47de2502a6a40ffcaa3a520c2e42784ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 18/23] fix: store a class under all its names or none of them

---
 qmat/utils/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..a908f09 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -46,13 +46,18 @@ def storeAlias(cls, dico, alias):
 
 def storeClass(cls, dico):
     """Store a class into a dictionary"""
-    storeAlias(cls, dico, cls.__name__)
+    names = [cls.__name__]
     aliases = getattr(cls, "aliases", None)
     if aliases:
         assert isinstance(aliases, list), \
             f"aliases must be a list in class {cls.__name__}"
-        for alias in aliases:
-            storeAlias(cls, dico, alias)
+        names += aliases
+    # Check all names first, so that a rejected class is not partially stored
+    for i, name in enumerate(names):
+        assert name not in dico and name not in names[:i], \
+            f"{name} alias already registered in {dico}"
+    for name in names:
+        storeAlias(cls, dico, name)
 
 
 def importAll(localVars, __all__, __path__, __name__, __import__):
-- 
2.43.0


From e80ed1737359ddacb5a8c64a78f8163995bbb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:41 +0000
Subject: [PATCH 19/23] fix: a rejected Runge-Kutta class does not stay in
 RK_SCHEMES

---
 qmat/qcoeff/butcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index e30ae03..9a85e17 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -118,12 +118,13 @@ def checkAndStore(cls:RK) -> RK:
     assert cls.order is not None, \
         f"order not defined for {cls.__name__}"
 
+    register(cls)  # before storing into RK_SCHEMES, since it can reject the class
     storeClass(cls, RK_SCHEMES)
     return cls
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return register(checkAndStore(cls))
+    return checkAndStore(cls)
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 2ccefb5e53be716fafcb623ece5e6edd366c4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:12 +0000
Subject: [PATCH 20/23] fix: periodic sparse interpolation on grids that do not
 start in the first period

---
 qmat/lagrange.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index e0a9e2d..af13113 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -569,12 +569,15 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
     lastInterpolationLine = None
     lastClosestPoints = None
+    gridStart = np.min(inPoints) if gridPeriod > 0 else None
 
     for i in range(len(outPoints)):
         if gridPeriod > 0:
-            pathL = (inPoints - gridPeriod - outPoints[i] % gridPeriod)
-            pathR = (inPoints + gridPeriod - outPoints[i] % gridPeriod)
-            pathC = (inPoints - outPoints[i] % gridPeriod)
+            # Periodic image of the target in the period starting with the grid
+            target = gridStart + (outPoints[i] - gridStart) % gridPeriod
+            pathL = (inPoints - gridPeriod - target)
+            pathR = (inPoints + gridPeriod - target)
+            pathC = (inPoints - target)
             path = np.append(np.append(pathR, pathL), pathC)
             dist = np.abs(path)
             _closestPointsIdx = np.sort(np.argsort(dist)[:order])
-- 
2.43.0


From c15b6efedaf96dc486923bfc86eded01b8a69e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 21/23] fix: a Runge-Kutta class rejected by register does not
 stay in RK_SCHEMES (checkAndStore keeps its own scope)

---
 qmat/qcoeff/butcher.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9a85e17..dc94f82 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -118,13 +118,19 @@ def checkAndStore(cls:RK) -> RK:
     assert cls.order is not None, \
         f"order not defined for {cls.__name__}"
 
-    register(cls)  # before storing into RK_SCHEMES, since it can reject the class
     storeClass(cls, RK_SCHEMES)
     return cls
 
 def registerRK(cls:RK)->RK:
     """Class decorator registering a RK method in `qmat`"""
-    return checkAndStore(cls)
+    cls = checkAndStore(cls)
+    try:
+        return register(cls)
+    except Exception:
+        # Rejected class : does not stay in the RK schemes
+        for name in [name for name, c in RK_SCHEMES.items() if c is cls]:
+            del RK_SCHEMES[name]
+        raise
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 47529d23bb318054fbc43d8726a0a800984dd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:53 +0000
Subject: [PATCH 22/23] fix: interpolation rows of coinciding times also for
 weights that underflowed to zero

---
 qmat/lagrange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index af13113..b17b0bd 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -347,6 +347,7 @@ class LagrangeApproximation(object):
         # Compute interpolation matrix using weights
         # (with an exact power of two scaling, to avoid overflow with large weights)
         P = iDiff * np.ldexp(self.weights, -np.frexp(self.weights)[1].max())
+        P[i, :] = concom[i, :]  # (also for weights that underflowed to zero)
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From 5ae54798ba0d0face03a55221d54ae21f83a00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 23/23] fix: wrong or failing Radau and Lobatto nodes for more
 than 1074 nodes (underflow of the polynomial values)

---
 qmat/nodes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qmat/nodes.py b/qmat/nodes.py
index ccb5810..6607d76 100644
--- a/qmat/nodes.py
+++ b/qmat/nodes.py
@@ -209,13 +209,15 @@ class NodesGenerator(object):
         alpha, beta = self.getOrthogPolyCoefficients(nNodes)
 
         # If not Gauss quadrature type, modify the alpha/beta coefficients
+        # (polynomials scaled by 2 at each degree, since they underflow for many nodes)
+        alpha2, beta4 = 2 * alpha[:-1], 4 * beta[:-1]
         if self.quadType.startswith('RADAU'):
             b = -1.0 if self.quadType.endswith('LEFT') else 1.0
-            b1, b2 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1] = b - beta[-1] * b1 / b2
+            b1, b2 = self.evalOrthogPoly(2 * b, alpha2, beta4)[:2]
+            alpha[-1] = b - 2 * beta[-1] * b1 / b2
         elif self.quadType == 'LOBATTO':
             a, b = -1.0, 1.0
-            a2, a1 = self.evalOrthogPoly(a, alpha[:-1], beta[:-1])[:2]
-            b2, b1 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
+            a2, a1 = self.evalOrthogPoly(2 * a, alpha2, beta4)[:2]
+            b2, b1 = self.evalOrthogPoly(2 * b, alpha2, beta4)[:2]
+            alpha[-1], beta[-1] = np.linalg.solve([[a1, 2 * a2], [b1, 2 * b2]], [a * a1, b * b1])
         return alpha, beta
-- 
2.43.0

