From d136412c7c05754cde4b7452399ccc40ef1f36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 01/51] fix: refuse equispaced quadrature with fewer than two
 points instead of returning nan

---
 symfem/quadrature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/quadrature.py b/symfem/quadrature.py
index ed3b97f..8ed7544 100644
--- a/symfem/quadrature.py
+++ b/symfem/quadrature.py
@@ -18,6 +18,8 @@ def equispaced(n: int) -> typing.Tuple[typing.List[Scalar], typing.List[Scalar]]
     Returns:
         Quadrature points and weights
     """
+    if n < 2:
+        raise NotImplementedError()
     return (
         [sympy.Rational(i, n - 1) for i in range(n)],
         [
-- 
2.43.0


From b6375a6e413b35b9f6810c0d7b9a9c5f53c134be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 02/51] fix: integrate piecewise functions over their pieces in
 integral functionals

The integrand is written in the local coordinates t of the domain, but a
piecewise integrand was integrated over each piece without going back to x,
so the integral against a function on the interior was wrong (P1 macro).
---
 symfem/functionals.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 932b9fe..3316a2e 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -63,6 +63,22 @@ def _to_tex(f: FunctionInput, tfrac: bool = False) -> str:
         return out
 
 
+def _integrate_local(integrand: AnyFunction, domain: Reference) -> ScalarFunction:
+    """Integrate a function that is written in terms of the local coordinates t of a domain.
+
+    Args:
+        integrand: The function to integrate
+        domain: The domain
+
+    Returns:
+        The integral
+    """
+    if isinstance(integrand, PiecewiseFunction) and integrand.tdim == domain.tdim:
+        # The pieces are sub-cells of the domain, so write the function in terms of x again
+        integrand = integrand.subs(t, domain.get_inverse_map_to_self())
+    return integrand.integral(domain)
+
+
 def _nth(n: int) -> str:
     """Add th, st or nd to a number.
 
@@ -1002,7 +1018,7 @@ class IntegralAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_local(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1086,7 +1102,7 @@ class IntegralOfDivergenceAgainst(BaseFunctional):
                 point[i] += j * k
         v1 = function.div().subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_local(integrand, self.integral_domain)
 
     def dot(self, function: ScalarFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1171,7 +1187,7 @@ class IntegralOfDirectionalMultiderivative(BaseFunctional):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = ScalarFunction(self.scale) * function.subs(x, point)
-        return integrand.integral(self.integral_domain)
+        return _integrate_local(integrand, self.integral_domain)
 
     def perform_mapping(
         self, fs: typing.List[AnyFunction], map: PointType, inverse_map: PointType
@@ -1293,7 +1309,7 @@ class IntegralMoment(BaseFunctional):
 
         v1 = function.subs(x, point)
         integrand = self.dot(v1)
-        return integrand.integral(self.integral_domain)
+        return _integrate_local(integrand, self.integral_domain)
 
     def dot(self, function: AnyFunction) -> ScalarFunction:
         """Dot a function with the moment function.
@@ -1447,7 +1463,7 @@ class DerivativeIntegralMoment(IntegralMoment):
             for j, k in zip(a, t):
                 point[i] += j * k
         integrand = self.dot(function.grad(self.integral_domain.gdim).subs(x, point))
-        value = integrand.integral(self.integral_domain)
+        value = _integrate_local(integrand, self.integral_domain)
         return value
 
     name = "Derivative integral moment"
@@ -1492,7 +1508,7 @@ class DivergenceIntegralMoment(IntegralMoment):
                 point[i] += j * k
         assert function.is_vector
         integrand = self.dot(function.div().subs(x, point))
-        return integrand.integral(self.integral_domain)
+        return _integrate_local(integrand, self.integral_domain)
 
     def get_tex(self) -> typing.Tuple[str, typing.List[str]]:
         """Get a representation of the functional as TeX, and list of terms involved.
-- 
2.43.0


From 9734229193beef19b7662f2197121fb2608dc7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 03/51] fix: evaluate the direction of an integral moment at
 the local point of its DOF

The weight of the moment is a function of the local coordinates of the
entity, but it was evaluated at the point in the coordinates of the cell.
---
 symfem/functionals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/functionals.py b/symfem/functionals.py
index 3316a2e..c196a3d 100644
--- a/symfem/functionals.py
+++ b/symfem/functionals.py
@@ -1343,7 +1343,7 @@ class IntegralMoment(BaseFunctional):
         p = self.dof.dof_direction()
         if p is None:
             if self.f.is_vector:
-                p = (self.f.subs(t, self.dof_point())).as_sympy()
+                p = (self.f.subs(t, self.dof.dof_point())).as_sympy()
                 assert isinstance(p, tuple)
                 return p
             return None
-- 
2.43.0


From eb2d29ee47582893b6fe0a048aa4f6721b32d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 04/51] fix: map the reference pyramid affinely onto affine
 pyramids

The map collapsed the pyramid a second time, so it was not the identity on
the reference pyramid and not the inverse of get_inverse_map_to.
---
 symfem/references.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 7716b5f..b272608 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -2214,9 +2214,9 @@ class Pyramid(Reference):
         """
         assert self.vertices == self.reference_vertices
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            (1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1)
+            + x[1] * ((1 - x[0]) * v2 + x[0] * v3)
+            + x[2] * (v4 - v0)
             for v0, v1, v2, v3, v4 in zip(*vertices)
         )
 
@@ -2250,9 +2250,9 @@ class Pyramid(Reference):
             The map
         """
         return tuple(
-            (1 - x[2])
-            * ((1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1) + x[1] * ((1 - x[0]) * v2 + x[0] * v3))
-            + x[2] * v4
+            (1 - x[1]) * ((1 - x[0]) * v0 + x[0] * v1)
+            + x[1] * ((1 - x[0]) * v2 + x[0] * v3)
+            + x[2] * (v4 - v0)
             for v0, v1, v2, v3, v4 in zip(*self.vertices)
         )
 
-- 
2.43.0


From 8af5a502ce6654f9e690658ced28dfe84f55acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 05/51] fix: test the third coordinate with the right sign in
 Tetrahedron.contains

---
 symfem/references.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/references.py b/symfem/references.py
index b272608..e3a6c6a 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1408,7 +1408,7 @@ class Tetrahedron(Reference):
             t0 = minv[0, 0] * po[0] + minv[0, 1] * po[1] + minv[0, 2] * po[2]
             t1 = minv[1, 0] * po[0] + minv[1, 1] * po[1] + minv[1, 2] * po[2]
             t2 = minv[2, 0] * po[0] + minv[2, 1] * po[1] + minv[2, 2] * po[2]
-            return 0 <= t0 and 0 <= t1 and 0 >= t2 and t0 + t1 + t2 <= 1
+            return 0 <= t0 and 0 <= t1 and 0 <= t2 and t0 + t1 + t2 <= 1
 
 
 class Quadrilateral(Reference):
-- 
2.43.0


From 18da219b65e953a23335e960b572f271e2ced48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 06/51] fix: find points in quadrilaterals of either
 orientation

---
 symfem/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfem/geometry.py b/symfem/geometry.py
index 8ad84ba..396cbda 100644
--- a/symfem/geometry.py
+++ b/symfem/geometry.py
@@ -188,7 +188,8 @@ def point_in_quadrilateral(point: PointType, quad: SetOfPoints) -> bool:
     if isinstance(d3, sympy.Float) and _is_close(d3, 0):
         d3 = sympy.Integer(0)
 
-    return d0 >= 0 and d1 >= 0 and d2 >= 0 and d3 >= 0
+    d = [d0, d1, d2, d3]
+    return all(i >= 0 for i in d) or all(i <= 0 for i in d)
 
 
 def point_in_tetrahedron(point: PointType, tetrahedron: SetOfPoints) -> bool:
-- 
2.43.0


From 59dbb96921a46463d6782540c2aba12ab354de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 07/51] fix: invert the maps to triangles and quadrilaterals
 embedded in three dimensions

---
 symfem/references.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index e3a6c6a..3c60019 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -1157,13 +1157,7 @@ class Triangle(Reference):
             The inverse map
         """
         assert self.vertices == self.reference_vertices
-        vertices = parse_set_of_points_input(vertices_in)
-        assert len(vertices[0]) == 2
-        p = _vsub(tuple(x), vertices[0])
-        v1 = _vsub(vertices[1], vertices[0])
-        v2 = _vsub(vertices[2], vertices[0])
-        mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
+        return Triangle(vertices_in)._compute_inverse_map_to_self()
 
     def _compute_map_to_self(self) -> PointType:
         """Compute the map from the canonical reference to this reference.
@@ -1179,16 +1173,21 @@ class Triangle(Reference):
         Returns:
             The map
         """
+        p = _vsub(tuple(x), self.vertices[0])
+        v1 = _vsub(self.vertices[1], self.vertices[0])
+        v2 = _vsub(self.vertices[2], self.vertices[0])
+
         if len(self.vertices[0]) == 2:
-            p = _vsub(tuple(x), self.vertices[0])
-            v1 = _vsub(self.vertices[1], self.vertices[0])
-            v2 = _vsub(self.vertices[2], self.vertices[0])
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-            return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
+        elif len(self.vertices[0]) == 3:
+            v3 = _vcross(v1, v2)
+            mat = sympy.Matrix(
+                [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
+            ).inv()
+        else:
+            raise RuntimeError("Cannot get inverse map.")
 
-        return tuple(
-            _vdot(_vsub(tuple(x), self.origin), a) * sympy.Integer(1) / _vnorm(a) for a in self.axes
-        )
+        return (_vdot(mat.row(0), p), _vdot(mat.row(1), p))
 
     def volume(self) -> sympy.core.expr.Expr:
         """Calculate the volume.
@@ -1550,9 +1549,9 @@ class Quadrilateral(Reference):
         v1 = _vsub(vertices[1], vertices[0])
         v2 = _vsub(vertices[2], vertices[0])
 
-        if len(self.vertices[0]) == 2:
+        if len(vertices[0]) == 2:
             mat = sympy.Matrix([[v1[0], v2[0]], [v1[1], v2[1]]]).inv()
-        elif len(self.vertices[0]) == 3:
+        elif len(vertices[0]) == 3:
             v3 = _vcross(v1, v2)
             mat = sympy.Matrix(
                 [[v1[0], v2[0], v3[0]], [v1[1], v2[1], v3[1]], [v1[2], v2[2], v3[2]]]
-- 
2.43.0


From 97aabfb8fecb5f0cc9dfe2ff5bbc20f21ddc3078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 08/51] fix: decide whether a point is on an edge or face of a
 reference by that edge or face

---
 symfem/references.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/symfem/references.py b/symfem/references.py
index 3c60019..a176411 100644
--- a/symfem/references.py
+++ b/symfem/references.py
@@ -16,6 +16,7 @@ from symfem.geometry import (
     SetOfPointsInput,
     parse_point_input,
     parse_set_of_points_input,
+    point_in_triangle,
 )
 from symfem.symbols import AxisVariablesNotSingle, t, x
 
@@ -627,7 +628,7 @@ class Reference(ABC):
             v0 = VectorFunction(self.vertices[e[0]])
             v1 = VectorFunction(self.vertices[e[1]])
             crossed = (v0 - point).cross(v1 - point).norm()
-            if crossed == 0:
+            if crossed == 0 and (v0 - point).dot(v1 - point).as_sympy() <= 0:
                 return True
         return False
 
@@ -640,15 +641,16 @@ class Reference(ABC):
         Returns:
             Is the point on a face?
         """
-        from symfem.functions import VectorFunction
-
-        point = VectorFunction(point_in)
+        point = parse_point_input(point_in)
         for f in self.faces:
-            v0 = VectorFunction(self.vertices[f[0]])
-            v1 = VectorFunction(self.vertices[f[1]])
-            v2 = VectorFunction(self.vertices[f[2]])
-            crossed = (v0 - point).cross(v1 - point)
-            if crossed.dot(v2 - point):
+            vs = tuple(self.vertices[i] for i in f)
+            if self.gdim == 3:
+                normal = _vcross(_vsub(vs[1], vs[0]), _vsub(vs[2], vs[0]))
+                if _vdot(normal, _vsub(point, vs[0])) != 0:
+                    continue
+            if point_in_triangle(point, vs[:3]):
+                return True
+            if len(vs) == 4 and point_in_triangle(point, vs[1:]):
                 return True
         return False
 
-- 
2.43.0


From 0d7ec403d9cc2494fefdb676d909e1bfb56fe950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 09/51] fix: use the curls and gradients of the serendipity
 superlinear functions on quadrilaterals

---
 symfem/polynomials/polysets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index decc39c..72b52b7 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -353,10 +353,10 @@ def Hdiv_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                (variables[0] ** (order + 1), (order + 1) * variables[0] ** order * variables[1])
+                (variables[0] ** (order + 1), -(order + 1) * variables[0] ** order * variables[1])
             ),
             VectorFunction(
-                ((order + 1) * variables[0] * variables[1] ** order, variables[1] ** (order + 1))
+                ((order + 1) * variables[0] * variables[1] ** order, -(variables[1] ** (order + 1)))
             ),
         ]
     if domain_dim == 3:
@@ -410,7 +410,7 @@ def Hcurl_serendipity(
     if domain_dim == 2:
         return [
             VectorFunction(
-                ((order + 1) * variables[0] ** order * variables[1], -(variables[0] ** (order + 1)))
+                ((order + 1) * variables[0] ** order * variables[1], variables[0] ** (order + 1))
             ),
             VectorFunction(
                 (variables[1] ** (order + 1), (order + 1) * variables[0] * variables[1] ** order)
-- 
2.43.0


From 3ef155e26e0163fb3a35043a2ba589a6ed0f61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 10/51] fix: take the maximum degree of a function over its
 monomials

---
 symfem/functions.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 121c941..6a8a60b 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -913,20 +913,13 @@ class ScalarFunction(AnyFunction):
         """
         if cell.name == "pyramid":
             raise NotImplementedError()
-        degrees = []
-        for v in x:
-            f = 1 * self._f
-            d = 0
-            while f != 0:
-                d += 1
-                f = f.diff(v)
-            degrees.append(d - 1)
+        monomials = sympy.Poly(self._f, *x).monoms()
         if cell.name in ["interval", "triangle", "tetrahedron"]:
-            return sum(degrees)
+            return max(sum(m) for m in monomials)
         elif cell.name in ["quadrilateral", "hexahedron"]:
-            return max(degrees)
+            return max(max(m) for m in monomials)
         elif cell.name == "prism":
-            return max(degrees[0] + degrees[1], degrees[2])
+            return max(max(m[0] + m[1], m[2]) for m in monomials)
         else:
             raise ValueError(f"Unrecognised cell: {cell.name}")
 
-- 
2.43.0


From 945de53fc0da1267c60c04f778f14de18a32c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 11/51] fix: report the polynomial superdegree of the constant
 pyramid element

---
 symfem/elements/lagrange_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/elements/lagrange_pyramid.py b/symfem/elements/lagrange_pyramid.py
index 19db1a3..979a1a4 100644
--- a/symfem/elements/lagrange_pyramid.py
+++ b/symfem/elements/lagrange_pyramid.py
@@ -126,6 +126,8 @@ class Lagrange(CiarletElement):
 
     @property
     def polynomial_superdegree(self) -> typing.Optional[int]:
+        if self.order == 0:
+            return 0
         return None
 
     names = ["Lagrange", "P"]
-- 
2.43.0


From 5dda98905b2148506969a94717141982156ae1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 12/51] fix: build the face bubbles of the KMV tetrahedron from
 the face's barycentric coordinates

---
 symfem/elements/kmv.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/kmv.py b/symfem/elements/kmv.py
index 9440421..f1e6e82 100644
--- a/symfem/elements/kmv.py
+++ b/symfem/elements/kmv.py
@@ -51,12 +51,13 @@ def kmv_tet_polyset(m: int, mf: int, mi: int) -> typing.List[FunctionInput]:
     poly: typing.List[FunctionInput] = []
     poly += polynomial_set_1d(3, m)
 
-    # TODO: check this
-    for axes in [(x[0], x[1]), (x[0], x[2]), (x[1], x[2]), (x[1] - x[0], x[2] - x[0])]:
-        b = axes[0] * axes[1] * (1 - axes[0] - axes[1])
+    lambdas = [1 - x[0] - x[1] - x[2], x[0], x[1], x[2]]
+    for face in [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]:
+        ls = [lambdas[v] for v in face]
+        b = ls[0] * ls[1] * ls[2]
         for i in range(mf - 2):
             for j in range(mf - 2 - i):
-                poly.append(x[0] ** i * x[1] ** j * x[2] ** (mf - 3 - i - j) * b)
+                poly.append(ls[0] ** i * ls[1] ** j * ls[2] ** (mf - 3 - i - j) * b)
 
     b = x[0] * x[1] * x[2] * (1 - x[0] - x[1] - x[2])
     for i in range(mi - 3):
-- 
2.43.0


From c0f1abb78e9ddfe3fae5ddace0bf71a1e55f5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 13/51] fix: BDFM space of order above 1 on a tetrahedron

---
 symfem/elements/bdfm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index a69589e..f8cfe34 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -63,9 +63,9 @@ def bdfm_polyset(reference: Reference, order: int) -> typing.List[FunctionInput]
         for i in range(order):
             p = x[0] ** i * x[1] ** (order - 1 - i)
             pset.append((x[0] * p, x[1] * p, x[2] * p))
-        for i in range(1, order):
-            p = x[0] ** i * x[1] ** (order - 1 - i)
-            pset.append((p * (x[0] + x[1]), 0, x[1] * p))
+        for i in range(order - 1):
+            p = x[0] ** (i + 1) * x[1] ** (order - 1 - i)
+            pset.append((p, -p, 0))
 
     return pset
 
-- 
2.43.0


From e619c60edb671fdff907492539024c304777ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 14/51] fix: report the Lagrange subdegree of trimmed
 serendipity elements of high order

---
 symfem/elements/trimmed_serendipity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index 5e050d0..f4e5a3d 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -122,7 +122,9 @@ class TrimmedSerendipityHcurl(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + self.reference.tdim - 1) // (self.reference.tdim + 1)
+        if self.order in [2, 3]:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
@@ -223,7 +225,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
 
     @property
     def lagrange_subdegree(self) -> int:
-        return (self.order + 1) // (self.reference.tdim + 1)
+        if self.order == self.reference.tdim:
+            return 1
+        return (self.order - 1) // self.reference.tdim
 
     @property
     def lagrange_superdegree(self) -> typing.Optional[int]:
-- 
2.43.0


From 122c04812436eff1e3b3766b80a76be0bf51cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 15/51] fix: place the plotted DOFs of directly defined
 elements inside their sub-entity

---
 symfem/finite_element.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 674fc9e..0c4029e 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -951,25 +951,25 @@ class DirectElement(FiniteElement):
                     i += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (i + 1) * b, ne + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (i + 1) * b, ne + 2)
                         for o, a, b in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
             elif dim == 3:
                 ne = 1
-                while ne * (ne + 1) * (ne + 2) // 6 < n:
+                while ne * (ne + 1) * (ne + 2) // 6 < dof_count:
                     ne += 1
                 i = 0
                 while entity_n >= (ne - i) * (ne + 1 - i) // 2:
                     entity_n -= (ne - i) * (ne + 1 - i) // 2
                     i += 1
                 j = 0
-                while entity_n >= ne - j:
-                    entity_n -= ne - j
+                while entity_n >= ne - i - j:
+                    entity_n -= ne - i - j
                     j += 1
                 positions.append(
                     tuple(
-                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, n + 1)
+                        o + sympy.Rational((entity_n + 1) * a + (j + 1) * b + (i + 1) * c, ne + 3)
                         for o, a, b, c in zip(sub_ref.origin, *sub_ref.axes)
                     )
                 )
-- 
2.43.0


From c1093b9862a68397c945996456a9836f0f4fc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 16/51] fix: pass each part of an enriched element its own
 basis functions in map_to_cell

---
 symfem/finite_element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 0c4029e..72edf31 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -1218,8 +1218,11 @@ class EnrichedElement(FiniteElement):
             The basis functions mapped to the cell
         """
         out = []
+        start = 0
         for e in self._subelements:
-            out += e.map_to_cell(vertices_in, basis, forward_map, inverse_map)
+            sub_basis = None if basis is None else basis[start : start + e.space_dim]
+            out += e.map_to_cell(vertices_in, sub_basis, forward_map, inverse_map)
+            start += e.space_dim
         return out
 
     def get_polynomial_basis(self) -> typing.List[AnyFunction]:
-- 
2.43.0


From 7fbeb098050a916d8ce34c2d7b8a28dc39e54ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 17/51] fix: use all physical coordinates in covariant maps to
 cells embedded in a higher dimension

---
 symfem/mappings.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/symfem/mappings.py b/symfem/mappings.py
index 3be9c39..c75944e 100644
--- a/symfem/mappings.py
+++ b/symfem/mappings.py
@@ -102,14 +102,13 @@ def covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     return j_inv @ f
 
 
@@ -156,13 +155,12 @@ def double_covariant(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
     assert f.is_matrix
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     return j_inv @ f @ j_inv.transpose()
 
 
@@ -288,14 +286,13 @@ def contravariant_inverse_transpose(
     Returns:
         The mapped function
     """
-    tdim = len(inverse_map)
     f = parse_function_input(f_in)
     if substitute:
         f = f.subs(x, inverse_map)
 
     assert f.is_vector
 
-    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(tdim)])
+    j_inv = MatrixFunction([[i.diff(x[j]) for i in inverse_map] for j in range(len(map))])
     j_inv /= j_inv.det()
     return j_inv @ f
 
-- 
2.43.0


From 5932c2de48c6fa2b02bf127dcfa02c8b2959a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 18/51] fix: map tiniest tensor Hdiv and Hcurl functions with
 the Piola map of their space

---
 symfem/elements/tnt.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/symfem/elements/tnt.py b/symfem/elements/tnt.py
index 5fb4da2..59e85f7 100644
--- a/symfem/elements/tnt.py
+++ b/symfem/elements/tnt.py
@@ -240,12 +240,12 @@ class TNTcurl(CiarletElement):
                 )
         if reference.tdim == 2:
             for f in face_moments:
-                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="contravariant"))
+                dofs.append(IntegralAgainst(reference, f, entity=(2, 0), mapping="covariant"))
         elif reference.tdim == 3:
             for face_n in range(6):
                 for f in face_moments:
                     dofs.append(
-                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="contravariant")
+                        IntegralAgainst(reference, f, entity=(2, face_n), mapping="covariant")
                     )
 
         # Interior Moments
@@ -292,9 +292,7 @@ class TNTcurl(CiarletElement):
                         f *= x[2] ** (k - 1) * x[2] ** k
                         grad_f = ScalarFunction(f).grad(3)
                         dofs.append(
-                            IntegralAgainst(
-                                reference, grad_f, entity=(3, 0), mapping="contravariant"
-                            )
+                            IntegralAgainst(reference, grad_f, entity=(3, 0), mapping="covariant")
                         )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -392,7 +390,7 @@ class TNTdiv(CiarletElement):
                 grad_f = ScalarFunction(f).grad(reference.tdim)
                 dofs.append(
                     IntegralAgainst(
-                        reference, grad_f, entity=(reference.tdim, 0), mapping="covariant"
+                        reference, grad_f, entity=(reference.tdim, 0), mapping="contravariant"
                     )
                 )
 
@@ -405,7 +403,7 @@ class TNTdiv(CiarletElement):
                     )
                     dofs.append(
                         IntegralAgainst(
-                            reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                            reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                         )
                     )
         if reference.tdim == 3:
@@ -427,7 +425,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         f = (
@@ -445,7 +443,7 @@ class TNTdiv(CiarletElement):
                         )
                         dofs.append(
                             IntegralAgainst(
-                                reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                reference, f, entity=(reference.tdim, 0), mapping="contravariant"
                             )
                         )
                         if k in [0, 2]:
@@ -464,7 +462,10 @@ class TNTdiv(CiarletElement):
                             )
                             dofs.append(
                                 IntegralAgainst(
-                                    reference, f, entity=(reference.tdim, 0), mapping="covariant"
+                                    reference,
+                                    f,
+                                    entity=(reference.tdim, 0),
+                                    mapping="contravariant",
                                 )
                             )
 
-- 
2.43.0


From 268958862476ebd32775b6f15cba0bcacf676744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 19/51] fix: map trimmed serendipity Hdiv and Hcurl functions
 with the Piola map of their space

---
 symfem/elements/trimmed_serendipity.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/trimmed_serendipity.py b/symfem/elements/trimmed_serendipity.py
index f4e5a3d..74fe859 100644
--- a/symfem/elements/trimmed_serendipity.py
+++ b/symfem/elements/trimmed_serendipity.py
@@ -97,8 +97,8 @@ class TrimmedSerendipityHcurl(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             edges=(TangentIntegralMoment, DPC, order - 1, {"variant": variant}),
-            faces=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
-            volumes=(IntegralMoment, VectorDPC, order - 5, "contravariant", {"variant": variant}),
+            faces=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            volumes=(IntegralMoment, VectorDPC, order - 5, "covariant", {"variant": variant}),
         )
         if order >= 2:
             for f_n in range(reference.sub_entity_count(2)):
@@ -106,7 +106,7 @@ class TrimmedSerendipityHcurl(CiarletElement):
                     f = ScalarFunction(x[0] ** (order - 1 - i) * x[1] ** i).grad(2)
                     f2 = VectorFunction((f[1], -f[0])).subs(x, tuple(t))
                     dofs.append(
-                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="contravariant")
+                        IntegralAgainst(reference, f2, entity=(2, f_n), mapping="covariant")
                     )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
@@ -192,7 +192,7 @@ class TrimmedSerendipityHdiv(CiarletElement):
         dofs += make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 3, "covariant", {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 3, "contravariant", {"variant": variant}),
         )
         if order >= 2:
             if reference.tdim == 2:
@@ -209,7 +209,9 @@ class TrimmedSerendipityHdiv(CiarletElement):
             for f in fs:
                 f2 = f.subs(x, tuple(t))
                 dofs.append(
-                    IntegralAgainst(reference, f2, entity=(reference.tdim, 0), mapping="covariant")
+                    IntegralAgainst(
+                        reference, f2, entity=(reference.tdim, 0), mapping="contravariant"
+                    )
                 )
 
         super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
-- 
2.43.0


From 8ac31acecc7d9165f55861f8336d4e59ced0c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 20/51] fix: map the interior functions of BDM, BDDF, BDFM and
 ABF elements contravariantly

---
 symfem/elements/abf.py  |  2 +-
 symfem/elements/bddf.py |  2 +-
 symfem/elements/bdfm.py | 10 ++++++++--
 symfem/elements/bdm.py  |  8 +++++++-
 4 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/abf.py b/symfem/elements/abf.py
index 864e7a4..6bfd375 100644
--- a/symfem/elements/abf.py
+++ b/symfem/elements/abf.py
@@ -45,7 +45,7 @@ class ArnoldBoffiFalk(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             edges=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            faces=(IntegralMoment, Nedelec, order, {"variant": variant}),
+            faces=(IntegralMoment, Nedelec, order, "contravariant", {"variant": variant}),
         )
 
         for i in range(order + 1):
diff --git a/symfem/elements/bddf.py b/symfem/elements/bddf.py
index 7d0cdd5..1421bdf 100644
--- a/symfem/elements/bddf.py
+++ b/symfem/elements/bddf.py
@@ -63,7 +63,7 @@ class BDDF(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, DPC, order, {"variant": variant}),
-            cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+            cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
         )
 
         self.variant = variant
diff --git a/symfem/elements/bdfm.py b/symfem/elements/bdfm.py
index f8cfe34..633b071 100644
--- a/symfem/elements/bdfm.py
+++ b/symfem/elements/bdfm.py
@@ -91,13 +91,19 @@ class BDFM(CiarletElement):
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, Lagrange, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+                cells=(
+                    IntegralMoment,
+                    NedelecFirstKind,
+                    order - 1,
+                    "contravariant",
+                    {"variant": variant},
+                ),
             )
         else:
             dofs = make_integral_moment_dofs(
                 reference,
                 facets=(NormalIntegralMoment, DPC, order - 1, {"variant": variant}),
-                cells=(IntegralMoment, VectorDPC, order - 2, {"variant": variant}),
+                cells=(IntegralMoment, VectorDPC, order - 2, "contravariant", {"variant": variant}),
             )
         self.variant = variant
 
diff --git a/symfem/elements/bdm.py b/symfem/elements/bdm.py
index 05d0f0e..62cc758 100644
--- a/symfem/elements/bdm.py
+++ b/symfem/elements/bdm.py
@@ -38,7 +38,13 @@ class BDM(CiarletElement):
         dofs: ListOfFunctionals = make_integral_moment_dofs(
             reference,
             facets=(NormalIntegralMoment, Lagrange, order, {"variant": variant}),
-            cells=(IntegralMoment, NedelecFirstKind, order - 1, {"variant": variant}),
+            cells=(
+                IntegralMoment,
+                NedelecFirstKind,
+                order - 1,
+                "contravariant",
+                {"variant": variant},
+            ),
         )
         self.variant = variant
 
-- 
2.43.0


From afae505ef8a5b2d59b31163b5990d388c7f2af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 21/51] fix: map the interior functions of the nonconforming
 Arnold-Winther element double contravariantly

---
 symfem/elements/aw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symfem/elements/aw.py b/symfem/elements/aw.py
index 6477459..082188b 100644
--- a/symfem/elements/aw.py
+++ b/symfem/elements/aw.py
@@ -212,6 +212,7 @@ class NonConformingArnoldWinther(CiarletElement):
                         tuple(tuple(p * j for j in i) for i in component22),
                         dof,
                         entity=(2, 0),
+                        mapping="double_contravariant",
                     )
                 )
 
-- 
2.43.0


From 56edeaaeb32f9a5632da2577dbc91dd426f90cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 22/51] fix: build the Bell space from the edges of the
 reference it is defined on

---
 symfem/elements/bell.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/bell.py b/symfem/elements/bell.py
index c141f1f..de6b08a 100644
--- a/symfem/elements/bell.py
+++ b/symfem/elements/bell.py
@@ -5,9 +5,11 @@ This element's definition is given in https://doi.org/10.1002/nme.1620010108 (Be
 
 import typing
 
+import sympy
+
 from symfem.finite_element import CiarletElement
 from symfem.functionals import DerivativePointEvaluation, ListOfFunctionals, PointEvaluation
-from symfem.functions import FunctionInput
+from symfem.functions import FunctionInput, ScalarFunction
 from symfem.polynomials import polynomial_set_1d
 from symfem.references import Reference
 from symfem.symbols import x
@@ -40,9 +42,17 @@ class Bell(CiarletElement):
 
         poly: typing.List[FunctionInput] = []
         poly += polynomial_set_1d(reference.tdim, 4)
-        poly.append(x[0] ** 5 - x[1] ** 5)
-        poly.append(x[0] ** 3 * x[1] ** 2 - x[0] ** 2 * x[1] ** 3)
-        poly.append(5 * x[0] ** 2 * x[1] ** 3 - x[0] ** 5)
+        # The quintics whose normal derivative is cubic on each edge
+        constraints = []
+        for e_n in range(reference.sub_entity_count(1)):
+            (tangent,) = reference.sub_entity(1, e_n).axes
+            normal = (-tangent[1], tangent[0])
+            quintics = [ScalarFunction(x[0] ** i * x[1] ** (5 - i)) for i in range(6)]
+            constraints.append(
+                [q.directional_derivative(normal).subs(x, tangent) for q in quintics]
+            )
+        for c in sympy.Matrix([[f.as_sympy() for f in row] for row in constraints]).nullspace():
+            poly.append(sum(c[i] * x[0] ** i * x[1] ** (5 - i) for i in range(6)))
 
         super().__init__(reference, order, poly, dofs, reference.tdim, 1)
 
-- 
2.43.0


From f171e5977e7a111fa9c0b9b032bb8856eb77ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 23/51] fix: do not declare discontinuous enriched Galerkin and
 Morley-Wang-Xu elements continuous

---
 symfem/elements/enriched_galerkin.py        | 2 +-
 symfem/elements/morley_wang_xu.py           | 2 +-
 symfem/elements/vector_enriched_galerkin.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/elements/enriched_galerkin.py b/symfem/elements/enriched_galerkin.py
index 51b30fa..2ff4c69 100644
--- a/symfem/elements/enriched_galerkin.py
+++ b/symfem/elements/enriched_galerkin.py
@@ -50,6 +50,6 @@ class EnrichedGalerkin(EnrichedElement):
     names = ["enriched Galerkin", "EG"]
     references = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.05"
diff --git a/symfem/elements/morley_wang_xu.py b/symfem/elements/morley_wang_xu.py
index 340a2b5..5e94eb0 100644
--- a/symfem/elements/morley_wang_xu.py
+++ b/symfem/elements/morley_wang_xu.py
@@ -123,6 +123,6 @@ class MorleyWangXu(CiarletElement):
     min_order = 1
     max_order = {"interval": 1, "triangle": 2, "tetrahedron": 3}
     # continuity = "C{order}"
-    continuity = "C0"
+    continuity = "L2"
     value_type = "scalar"
     last_updated = "2023.06"
diff --git a/symfem/elements/vector_enriched_galerkin.py b/symfem/elements/vector_enriched_galerkin.py
index bdc6538..22d84ce 100644
--- a/symfem/elements/vector_enriched_galerkin.py
+++ b/symfem/elements/vector_enriched_galerkin.py
@@ -59,7 +59,7 @@ class Enrichment(CiarletElement):
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
     max_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
 
@@ -100,6 +100,6 @@ class VectorEnrichedGalerkin(EnrichedElement):
     names = ["enriched vector Galerkin", "locking-free enriched Galerkin", "LFEG"]
     references = ["triangle", "quadrilateral", "tetrahedron", "hexahedron"]
     min_order = 1
-    continuity = "C0"
+    continuity = "L2"
     value_type = "vector"
     last_updated = "2023.05"
-- 
2.43.0


From 9fe60bcfe13e0a13dfe31dd25c9480f35a333e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 24/51] fix: accept sympy matrices where functions are given

---
 symfem/functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index 6a8a60b..c2cc000 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1843,6 +1843,8 @@ def parse_function_input(f: FunctionInput) -> AnyFunction:
                 assert not isinstance(i, (tuple, list))
                 vec.append(i)
             return VectorFunction(tuple(vec))
+    if isinstance(f, sympy.matrices.dense.MutableDenseMatrix):
+        return MatrixFunction(f)
     raise ValueError(f"Could not parse input function: {f}")
 
 
-- 
2.43.0


From 1057af908a78593f111ec24330e551b451ea139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 25/51] fix: products of vectors and non-square matrices

---
 symfem/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index c2cc000..efe9a6e 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1055,8 +1055,8 @@ class VectorFunction(AnyFunction):
     def __matmul__(self, other: typing.Any) -> VectorFunction:
         """Multiply."""
         if isinstance(other, MatrixFunction):
-            assert other.shape[1] == len(self)
-            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[0])])
+            assert other.shape[0] == len(self)
+            return VectorFunction([other.col(i).dot(self) for i in range(other.shape[1])])
         return NotImplemented
 
     def __rmatmul__(self, other: typing.Any) -> VectorFunction:
@@ -1686,7 +1686,7 @@ class MatrixFunction(AnyFunction):
             assert self.shape == other.shape
             out = ScalarFunction(0)
             for i in range(self.shape[0]):
-                for j in range(self.shape[0]):
+                for j in range(self.shape[1]):
                     out += self._mat[i][j] * other._mat[i][j]
             return out
 
-- 
2.43.0


From fc5b53b8bbc6998efda6fcfd040368fbc3b0234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 26/51] fix: integrals over parametrised domains substitute the
 variables simultaneously

---
 symfem/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index efe9a6e..2d3f043 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -801,15 +801,13 @@ class ScalarFunction(AnyFunction):
         point = VectorFunction(domain.origin)
         for ti, a in zip(dummy_vars, domain.axes):
             point += ti * VectorFunction(a)
-        out = self._f * 1
-        for v, p in zip(vars, point):
-            out = out.subs(v, p)
+        out = self.subs(vars, point)._f
 
         if len(limits[0]) == 2:
             for i in limits:
                 assert len(i) == 2
                 out = out.subs(*i)
-            return out
+            return ScalarFunction(out)
 
         out *= domain.jacobian()
         return ScalarFunction(out.integrate(*limits))
-- 
2.43.0


From 3a5567ca46853e6ec30cd7199cc7f1e10b68b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 27/51] fix: let loops over the same vector function be nested

---
 symfem/functions.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 2d3f043..9a3c97b 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1259,16 +1259,7 @@ class VectorFunction(AnyFunction):
 
     def __iter__(self):
         """Get iterable."""
-        self.iter_n = 0
-        return self
-
-    def __next__(self):
-        """Get next item."""
-        if self.iter_n < len(self._vec):
-            self.iter_n += 1
-            return self._vec[self.iter_n - 1]
-        else:
-            raise StopIteration
+        return iter(self._vec)
 
     def plot_values(
         self,
-- 
2.43.0


From 8764f1c7f412aaa52a301edade44572064271988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 28/51] fix: refuse sums of functions and sequences of
 different lengths

---
 symfem/functions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index 9a3c97b..fcdb33c 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -988,6 +988,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self) == len(other)
             return VectorFunction(tuple(i._f + j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -997,6 +998,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f + j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self) == len(other)
             return VectorFunction(tuple(i + j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1006,6 +1008,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(self._vec, other._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self) == len(other)
             return VectorFunction(tuple(i._f - j for i, j in zip(self._vec, other)))
         return NotImplemented
 
@@ -1015,6 +1018,7 @@ class VectorFunction(AnyFunction):
             assert len(self._vec) == len(other._vec)
             return VectorFunction(tuple(i._f - j._f for i, j in zip(other._vec, self._vec)))
         if isinstance(other, (list, tuple)):
+            assert len(self) == len(other)
             return VectorFunction(tuple(i - j._f for i, j in zip(other, self._vec)))
         return NotImplemented
 
@@ -1415,6 +1419,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1442,6 +1447,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
@@ -1469,6 +1475,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(self._mat, other):
                 assert isinstance(j, (list, tuple)) and len(j) == self.shape[1]
@@ -1496,6 +1503,7 @@ class MatrixFunction(AnyFunction):
                 )
             )
         if isinstance(other, (list, tuple)):
+            assert len(other) == self.shape[0]
             data = []
             for i, j in zip(other, self._mat):
                 assert isinstance(i, (list, tuple)) and len(i) == self.shape[1]
-- 
2.43.0


From 8db5e1465495520abb2690a082cc17b945d16335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 29/51] fix: norm of a basis function

---
 symfem/basis_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 42859fe..3ef5eeb 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -290,7 +290,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The norm
         """
-        raise self.get_function().norm()
+        return self.get_function().norm()
 
     def integral(
         self,
-- 
2.43.0


From e27e079ac2f5134419ba6e9e79d7dd1e506c7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 30/51] fix: shape of a basis function

---
 symfem/basis_functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 3ef5eeb..0b70bdd 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -322,6 +322,15 @@ class BasisFunction(AnyFunction):
         """
         return SubbedBasisFunction(self, vars, values)
 
+    @property
+    def shape(self) -> typing.Tuple[int, ...]:
+        """Get the value shape of the function.
+
+        Returns:
+            The value shape
+        """
+        return self.get_function().shape
+
     def __getitem__(self, key) -> AnyFunction:
         """Forward all other function calls to symbolic function."""
         return self.get_function().__getitem__(key)
-- 
2.43.0


From f49328b24fe6cf4ed45635a9a88bd375bf40fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 31/51] fix: operators between basis functions and other
 functions

---
 symfem/basis_functions.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/symfem/basis_functions.py b/symfem/basis_functions.py
index 0b70bdd..392e391 100644
--- a/symfem/basis_functions.py
+++ b/symfem/basis_functions.py
@@ -58,7 +58,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__add__(other)
+        return self.get_function() + other
 
     def __radd__(self, other: typing.Any) -> AnyFunction:
         """Add.
@@ -69,7 +69,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The sum of two functions
         """
-        return self.get_function().__radd__(other)
+        return other + self.get_function()
 
     def __sub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -80,7 +80,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__sub__(other)
+        return self.get_function() - other
 
     def __rsub__(self, other: typing.Any) -> AnyFunction:
         """Subtract.
@@ -91,7 +91,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The difference of two functions
         """
-        return self.get_function().__rsub__(other)
+        return other - self.get_function()
 
     def __neg__(self) -> AnyFunction:
         """Negate.
@@ -110,7 +110,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__truediv__(other)
+        return self.get_function() / other
 
     def __rtruediv__(self, other: typing.Any) -> AnyFunction:
         """Divide.
@@ -121,7 +121,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The ratio of two functions
         """
-        return self.get_function().__rtruediv__(other)
+        return other / self.get_function()
 
     def __mul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -132,7 +132,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__mul__(other)
+        return self.get_function() * other
 
     def __rmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -143,7 +143,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two functions
         """
-        return self.get_function().__rmul__(other)
+        return other * self.get_function()
 
     def __matmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -154,7 +154,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__matmul__(other)
+        return self.get_function() @ other
 
     def __rmatmul__(self, other: typing.Any) -> AnyFunction:
         """Multiply.
@@ -165,7 +165,7 @@ class BasisFunction(AnyFunction):
         Returns:
             The product of two matrix functions
         """
-        return self.get_function().__rmatmul__(other)
+        return other @ self.get_function()
 
     def __pow__(self, other: typing.Any) -> AnyFunction:
         """Raise to a power.
-- 
2.43.0


From c380d5157120b9432aef5419a8fb9a7f4a345ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 32/51] fix: comparison of piecewise functions with different
 numbers of pieces

---
 symfem/piecewise_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 3d45b7c..1f987d1 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -172,6 +172,8 @@ class PiecewiseFunction(AnyFunction):
 
         if self.tdim != other.tdim:
             return False
+        if len(self._pieces) != len(other._pieces):
+            return False
         for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
             assert shape0 == shape1
             if f0 != f1:
-- 
2.43.0


From c0449e32e9f78c7f974d1ee541cd808f190b2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 33/51] fix: piece selected by substitution of a point with
 reordered variables

---
 symfem/piecewise_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index 1f987d1..f74346d 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -323,6 +323,9 @@ class PiecewiseFunction(AnyFunction):
                 if not i_s.is_constant():
                     break
             else:
+                point = dict(zip(vars, values))
+                if all(i in point for i in x[: self.tdim]):
+                    return self.get_piece(tuple(point[i] for i in x[: self.tdim])).subs(vars, values)
                 return self.get_piece(tuple(values)).subs(vars, values)
 
         return PiecewiseFunction(
-- 
2.43.0


From 7e2623a5e8efc3bc6e2d3e6f44b5d4e67a5df701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 34/51] fix: dot and cross products of piecewise functions

---
 symfem/functions.py           |  2 ++
 symfem/piecewise_functions.py | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/symfem/functions.py b/symfem/functions.py
index fcdb33c..59d0431 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -1186,6 +1186,8 @@ class VectorFunction(AnyFunction):
         """
         other = parse_function_input(other_in)
         assert other.is_vector and len(self) == len(other)
+        if not isinstance(other, VectorFunction):
+            return -other.cross(self)
         if len(self) == 2:
             return self[0] * other[1] - self[1] * other[0]
         else:
diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index f74346d..f5b2cc4 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -394,6 +394,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.dot(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.dot(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
@@ -407,6 +413,12 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The cross product
         """
+        if isinstance(other_in, PiecewiseFunction):
+            new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
+            for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
+                assert shape0 == shape1
+                new_pieces[shape0] = f0.cross(f1)
+            return PiecewiseFunction(new_pieces, self.tdim)
         return PiecewiseFunction(
             {shape: f.cross(other_in) for shape, f in self._pieces.items()}, self.tdim
         )
-- 
2.43.0


From 2b71e74821dc937e569207f9d0a2f255d39fb87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 35/51] fix: variables of the H(div) and H(curl) serendipity
 sets

---
 symfem/polynomials/polysets.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/symfem/polynomials/polysets.py b/symfem/polynomials/polysets.py
index 72b52b7..077b99a 100644
--- a/symfem/polynomials/polysets.py
+++ b/symfem/polynomials/polysets.py
@@ -387,7 +387,17 @@ def Hdiv_serendipity(
                     )
                 )
 
-        return [i.curl() for i in a]
+        v = variables
+        return [
+            VectorFunction(
+                (
+                    i[2].diff(v[1]) - i[1].diff(v[2]),
+                    i[0].diff(v[2]) - i[2].diff(v[0]),
+                    i[1].diff(v[0]) - i[0].diff(v[1]),
+                )
+            )
+            for i in a
+        ]
 
     raise NotImplementedError()
 
@@ -446,7 +456,7 @@ def Hcurl_serendipity(
                     )
                 )
 
-        for p in serendipity_set_1d(domain_dim, order + 1):
+        for p in serendipity_set_1d(domain_dim, order + 1, variables):
             out.append(VectorFunction(tuple(p.diff(i) for i in variables)))
         return out
 
-- 
2.43.0


From 94c0c14a2d27ede8bc7edb89b29275b2c0044502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 36/51] fix: norms of orthonormal bases in other variables

---
 symfem/polynomials/legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/polynomials/legendre.py b/symfem/polynomials/legendre.py
index a786642..46e65f7 100644
--- a/symfem/polynomials/legendre.py
+++ b/symfem/polynomials/legendre.py
@@ -678,7 +678,7 @@ def orthonormal_basis(
     ref = create_reference(cell)
     if variables is None:
         variables = x
-    norms = [sympy.sqrt((f**2).integral(ref, dummy_vars=variables)) for f in poly[0]]
+    norms = [sympy.sqrt((f**2).integral(ref, variables, variables)) for f in poly[0]]
     for i, n in enumerate(norms):
         for j in range(len(poly)):
             poly[j][i] /= n
-- 
2.43.0


From 85dbb9c0f4e5a73b3db6c3be04a64129aa8e047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 37/51] fix: arithmetic of piecewise functions with basis
 functions

---
 symfem/piecewise_functions.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/symfem/piecewise_functions.py b/symfem/piecewise_functions.py
index f5b2cc4..89819fc 100644
--- a/symfem/piecewise_functions.py
+++ b/symfem/piecewise_functions.py
@@ -8,6 +8,7 @@ import sympy
 
 import symfem
 
+from symfem.basis_functions import BasisFunction
 from symfem.functions import (
     AnyFunction,
     FunctionInput,
@@ -191,6 +192,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __add__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -201,6 +204,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __radd__(self, other: typing.Any) -> PiecewiseFunction:
         """Add."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -211,6 +216,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __sub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -221,6 +228,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __rsub__(self, other: typing.Any) -> PiecewiseFunction:
         """Subtract."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -231,6 +240,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __truediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -241,6 +252,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __rtruediv__(self, other: typing.Any) -> PiecewiseFunction:
         """Divide."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -251,6 +264,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __mul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -261,6 +276,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __rmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -271,6 +288,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __matmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -281,6 +300,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __rmatmul__(self, other: typing.Any) -> PiecewiseFunction:
         """Multiply."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -291,6 +312,8 @@ class PiecewiseFunction(AnyFunction):
 
     def __pow__(self, other: typing.Any) -> PiecewiseFunction:
         """Raise to a power."""
+        if isinstance(other, BasisFunction):
+            other = other.get_function()
         if isinstance(other, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other._pieces.items()):
@@ -394,6 +417,8 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The product
         """
+        if isinstance(other_in, BasisFunction):
+            other_in = other_in.get_function()
         if isinstance(other_in, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
@@ -413,6 +438,8 @@ class PiecewiseFunction(AnyFunction):
         Returns:
             The cross product
         """
+        if isinstance(other_in, BasisFunction):
+            other_in = other_in.get_function()
         if isinstance(other_in, PiecewiseFunction):
             new_pieces: typing.Dict[SetOfPointsInput, FunctionInput] = {}
             for (shape0, f0), (shape1, f1) in zip(self._pieces.items(), other_in._pieces.items()):
-- 
2.43.0


From 5cd31ebc481371a2c941026d36ce03bb58a3b01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 38/51] fix: matrix Lagrange basis functions are matrices

---
 symfem/elements/lagrange.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/symfem/elements/lagrange.py b/symfem/elements/lagrange.py
index a0797b1..1dbfa84 100644
--- a/symfem/elements/lagrange.py
+++ b/symfem/elements/lagrange.py
@@ -202,28 +202,32 @@ class MatrixLagrange(CiarletElement):
         """
         scalar_space = Lagrange(reference, order, variant)
         dofs: ListOfFunctionals = []
-        if reference.tdim == 1:
-            directions: typing.List[typing.Tuple[int, ...]] = [(1,)]
-        else:
-            directions = [
-                tuple(1 if i == j else 0 for j in range(reference.tdim**2))
-                for i in range(reference.tdim**2)
-            ]
+        tdim = reference.tdim
+        directions = [
+            tuple(
+                tuple(1 if i == tdim * row + col else 0 for col in range(tdim))
+                for row in range(tdim)
+            )
+            for i in range(tdim**2)
+        ]
         for p in scalar_space.dofs:
             for d in directions:
                 dofs.append(DotPointEvaluation(reference, p.dof_point(), d, entity=p.entity))
 
         poly: typing.List[FunctionInput] = []
-        poly += polynomial_set_vector(reference.tdim, reference.tdim**2, order)
+        poly += [
+            tuple(tuple(a[tdim * row + col] for col in range(tdim)) for row in range(tdim))
+            for a in polynomial_set_vector(tdim, tdim**2, order)
+        ]
 
         super().__init__(
             reference,
             order,
             poly,
             dofs,
-            reference.tdim,
-            reference.tdim**2,
-            (reference.tdim, reference.tdim),
+            tdim,
+            tdim**2,
+            (tdim, tdim),
         )
         self.variant = variant
 
-- 
2.43.0


From 845125a4b499d20012b3026b015096c1a2b6c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 39/51] fix: tensor factorisation of Q elements with variants
 and on other cells

---
 symfem/elements/q.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfem/elements/q.py b/symfem/elements/q.py
index 69157bb..703b61f 100644
--- a/symfem/elements/q.py
+++ b/symfem/elements/q.py
@@ -101,11 +101,13 @@ class Q(CiarletElement):
         Returns:
             The tensor factorisation
         """
-        if self.variant == "lobatto":
+        if self.variant in ["legendre", "lobatto"]:
+            return super().get_tensor_factorisation()
+        if self.reference != self.reference.default_reference():
             return super().get_tensor_factorisation()
         from symfem import create_element
 
-        interval_q = create_element("interval", "Lagrange", self.order)
+        interval_q = create_element("interval", "Lagrange", self.order, variant=self.variant)
 
         if self.order == 0:
             perm = [0]
-- 
2.43.0


From 470f6852964b89ed3201b2031376a7910f9a5620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 40/51] fix: value size of Alfeld-Sorokina elements

---
 symfem/elements/alfeld_sorokina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/elements/alfeld_sorokina.py b/symfem/elements/alfeld_sorokina.py
index 2c19329..44e1407 100644
--- a/symfem/elements/alfeld_sorokina.py
+++ b/symfem/elements/alfeld_sorokina.py
@@ -123,7 +123,7 @@ class AlfeldSorokina(CiarletElement):
         poly: typing.List[FunctionInput] = []
         poly += [PiecewiseFunction({i: j for i, j in zip(subs, p)}, 2) for p in piece_list]
 
-        super().__init__(reference, order, poly, dofs, reference.tdim, 1)
+        super().__init__(reference, order, poly, dofs, reference.tdim, reference.tdim)
 
     @property
     def lagrange_subdegree(self) -> int:
-- 
2.43.0


From fb835541d45d127df0834f863bdf78aa119a1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 41/51] fix: unknown value orderings are refused for scalar
 elements

---
 symfem/finite_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 72edf31..0e476a2 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -252,7 +252,7 @@ class FiniteElement(ABC):
         tabbed = [
             tuple(b.subs(x, p).as_sympy() for b in self.get_basis_functions()) for p in points
         ]
-        if self.range_dim == 1:
+        if self.range_dim == 1 and order in ["xyz,xyz", "xxyyzz", "xx,yy,zz", "xyzxyz"]:
             return tabbed
 
         if order == "xyz,xyz":
-- 
2.43.0


From 639fdd80f291c86b9ffd097106301d6a1dfb2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 42/51] fix: tensor basis functions do not replace the basis
 functions

---
 symfem/finite_element.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/symfem/finite_element.py b/symfem/finite_element.py
index 0e476a2..9eaae88 100644
--- a/symfem/finite_element.py
+++ b/symfem/finite_element.py
@@ -719,21 +719,21 @@ class CiarletElement(FiniteElement):
         Returns:
             The basis functions
         """
+        if use_tensor_factorisation:
+            return self._get_basis_functions_tensor()
+
         if self._basis_functions is None:
-            if use_tensor_factorisation:
-                self._basis_functions = self._get_basis_functions_tensor()
-            else:
-                minv = self.get_dual_matrix(inverse=True)
+            minv = self.get_dual_matrix(inverse=True)
 
-                sfs: typing.List[AnyFunction] = []
-                pb = self.get_polynomial_basis()
-                for i, dof in enumerate(self.dofs):
-                    sf = ScalarFunction(minv[i, 0]) * pb[0]
-                    for c, d in zip(minv.row(i)[1:], pb[1:]):
-                        sf += ScalarFunction(c) * d
-                    sfs.append(sf)
+            sfs: typing.List[AnyFunction] = []
+            pb = self.get_polynomial_basis()
+            for i, dof in enumerate(self.dofs):
+                sf = ScalarFunction(minv[i, 0]) * pb[0]
+                for c, d in zip(minv.row(i)[1:], pb[1:]):
+                    sf += ScalarFunction(c) * d
+                sfs.append(sf)
 
-                self._basis_functions = sfs
+            self._basis_functions = sfs
 
         assert isinstance(self._basis_functions, list)
 
-- 
2.43.0


From 04c0ca6547e5581ca93d2de7311278cb8b1c4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 43/51] fix: several processes can create the cache directory
 at once

---
 symfem/caching.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index 53ff17a..b9b8b9c 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -1,20 +1,22 @@
 """Functions to cache matrices."""
 
 import os
+import tempfile
 import typing
 from hashlib import sha256
 
 import sympy
 from appdirs import user_cache_dir
 
-if not os.path.isdir(user_cache_dir()):
-    os.mkdir(user_cache_dir())
 CACHE_DIR = user_cache_dir("symfem")
 CACHE_FORMAT = "1"
+# Other processes may be doing the same at the same time
 if os.path.isfile(CACHE_DIR):
-    os.remove(CACHE_DIR)
-if not os.path.isdir(CACHE_DIR):
-    os.mkdir(CACHE_DIR)
+    try:
+        os.remove(CACHE_DIR)
+    except OSError:
+        pass
+os.makedirs(CACHE_DIR, exist_ok=True)
 
 assert os.path.isdir(CACHE_DIR)
 
-- 
2.43.0


From 8713c7c27e656900db02acf79eb8bb3ac1437a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 44/51] fix: incomplete cached matrices are never loaded

---
 symfem/caching.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/caching.py b/symfem/caching.py
index b9b8b9c..6998e1b 100644
--- a/symfem/caching.py
+++ b/symfem/caching.py
@@ -9,7 +9,7 @@ import sympy
 from appdirs import user_cache_dir
 
 CACHE_DIR = user_cache_dir("symfem")
-CACHE_FORMAT = "1"
+CACHE_FORMAT = "2"
 # Other processes may be doing the same at the same time
 if os.path.isfile(CACHE_DIR):
     try:
@@ -59,8 +59,11 @@ def save_cached_matrix(
     """
     hashed_id = sha256(cache_id.encode("utf-8")).hexdigest()
     filename = os.path.join(CACHE_DIR, f"{matrix_type}{CACHE_FORMAT}-{hashed_id}.matrix")
-    with open(filename, "w") as f:
+    # Write to a temporary file first so that an incomplete matrix can never be loaded
+    handle, temp_filename = tempfile.mkstemp(suffix=".tmp", dir=CACHE_DIR)
+    with os.fdopen(handle, "w") as f:
         f.write(matrix_to_string(matrix))
+    os.replace(temp_filename, filename)
 
 
 def matrix_to_string(m: sympy.matrices.dense.MutableDenseMatrix) -> str:
-- 
2.43.0


From ef65769b05bf0e8ac5ca7ad3d9890a640acd70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 45/51] fix: a clash of element names is refused before
 anything is registered

---
 symfem/create.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfem/create.py b/symfem/create.py
index e255de2..d9ee780 100644
--- a/symfem/create.py
+++ b/symfem/create.py
@@ -34,14 +34,17 @@ def add_element(element_class: _typing.Type):
     if len(element_class.names) == 0:
         raise TypeError("An element with no names cannot be added")
 
+    for _n in element_class.names:
+        for _r in element_class.references:
+            if _elementmap.get(_n, {}).get(_r, element_class) != element_class:
+                raise ValueError(f"There is already a {_n} element on a {_r}.")
+
     if element_class not in _elementlist:
         _elementlist.append(element_class)
     for _n in element_class.names:
         for _r in element_class.references:
             if _n not in _elementmap:
                 _elementmap[_n] = {}
-            if _r in _elementmap[_n]:
-                assert element_class == _elementmap[_n][_r]
             _elementmap[_n][_r] = element_class
 
 
-- 
2.43.0


From 6869ebd96d011957f8eac8d5f17e955ef21e8607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 46/51] fix: Buffa-Christiansen functions conform between the
 triangles of the dual polygon

---
 symfem/elements/dual.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symfem/elements/dual.py b/symfem/elements/dual.py
index ecb5be9..7f62524 100644
--- a/symfem/elements/dual.py
+++ b/symfem/elements/dual.py
@@ -302,8 +302,8 @@ class BuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(i + 1 - N // 2, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -371,8 +371,8 @@ class RotatedBuffaChristiansen(DualCiarletElement):
             dual_coefficients[j][2 * j - 1][0] = sympy.Rational(-1, 2)
             N = 2 * reference.number_of_triangles
             for i in range(N - 1):
-                dual_coefficients[j][(2 * j + i) % N][2] = sympy.Rational(N // 2 - 1 - i, N)
-                dual_coefficients[j][(2 * j + i + 1) % N][1] = sympy.Rational(N // 2 - 1 - i, N)
+                dual_coefficients[j][(2 * j + i) % N][1] = sympy.Rational(i + 1 - N // 2, N)
+                dual_coefficients[j][(2 * j + i + 1) % N][2] = sympy.Rational(i + 1 - N // 2, N)
 
         dof_entities = [(0, i) for i in range(0, len(reference.vertices), 2)]
         dof_directions: typing.List[PointType] = []
@@ -412,6 +412,6 @@ class RotatedBuffaChristiansen(DualCiarletElement):
     references = ["dual polygon"]
     min_order = 1
     max_order = 1
-    continuity = "H(div)"
+    continuity = "H(curl)"
     value_type = "vector dual"
     last_updated = "2023.05"
-- 
2.43.0


From ce29edf3b0854db0e69bb4b88f31c3b1ce83f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 47/51] fix: a function plotted again at another value scale is
 redrawn

---
 symfem/functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/symfem/functions.py b/symfem/functions.py
index 59d0431..52a55dd 100644
--- a/symfem/functions.py
+++ b/symfem/functions.py
@@ -543,7 +543,7 @@ class ScalarFunction(AnyFunction):
             self._f = f
         assert isinstance(self._f, sympy.core.expr.Expr)
         self._plot_beziers: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[typing.Tuple[PointType, PointType, PointType, PointType]],
         ] = {}
 
@@ -849,8 +849,9 @@ class ScalarFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_beziers:
-            self._plot_beziers[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_beziers:
+            self._plot_beziers[key] = []
             pts, pairs = reference.make_lattice_with_lines_float(n)
 
             value_scale *= sympy.Rational(5, 8)
@@ -874,7 +875,7 @@ class ScalarFunction(AnyFunction):
                 dj = deriv.subs(x, pj).dot(d_pj - pts[j]).as_sympy()
                 assert isinstance(di, sympy.core.expr.Expr)
                 assert isinstance(dj, sympy.core.expr.Expr)
-                self._plot_beziers[(reference, n)].append(
+                self._plot_beziers[key].append(
                     (
                         tuple(pi) + (evals[i],),
                         tuple(d_pi) + (evals[i] + di * value_scale,),
@@ -883,7 +884,7 @@ class ScalarFunction(AnyFunction):
                     )
                 )
 
-        for s, m1, m2, e in self._plot_beziers[(reference, n)]:
+        for s, m1, m2, e in self._plot_beziers[key]:
             img.add_bezier(s, m1, m2, e, colors.ORANGE)
 
     def with_floats(self) -> AnyFunction:
@@ -956,7 +957,7 @@ class VectorFunction(AnyFunction):
             assert i.is_scalar
 
         self._plot_arrows: typing.Dict[
-            typing.Tuple[symfem.references.Reference, int],
+            typing.Tuple[symfem.references.Reference, int, sympy.core.expr.Expr],
             typing.List[
                 typing.Tuple[typing.Tuple[sympy.core.expr.Expr, ...], VectorFunction, float]
             ],
@@ -1286,8 +1287,9 @@ class VectorFunction(AnyFunction):
 
         assert isinstance(img, Picture)
 
-        if (reference, n) not in self._plot_arrows:
-            self._plot_arrows[(reference, n)] = []
+        key = (reference, n, value_scale)
+        if key not in self._plot_arrows:
+            self._plot_arrows[key] = []
             pts = reference.make_lattice_float(n)
             value_scale /= 4
 
@@ -1297,8 +1299,8 @@ class VectorFunction(AnyFunction):
                 value = VectorFunction(tuple(sympy.Float(float(v)) for v in value_s))
                 value *= value_scale
                 size = float(value.norm() * 40)
-                self._plot_arrows[(reference, n)].append((p, VectorFunction(p) + value, size))
-        for p, q, size in self._plot_arrows[(reference, n)]:
+                self._plot_arrows[key].append((p, VectorFunction(p) + value, size))
+        for p, q, size in self._plot_arrows[key]:
             img.add_arrow(p, q, colors.ORANGE, size)
 
     def with_floats(self) -> AnyFunction:
-- 
2.43.0


From 0959cdbbfd10137fe43bbb19d7bbe2425eee73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 48/51] fix: Picture.save writes every file it is given

---
 symfem/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 0f6d6d2..b86ad20 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -1144,7 +1144,7 @@ class Picture:
         if isinstance(filename, list):
             for fn in filename:
                 self.save(fn, plot_options)
-                return
+            return
 
         assert isinstance(filename, str)
         if filename.endswith(".svg"):
-- 
2.43.0


From 267d70058116bb8ac28a1cc9a7e0b3cef78d448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 49/51] fix: escape text in svg output

---
 symfem/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index b86ad20..e895b0a 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -2,6 +2,7 @@
 
 import typing
 from abc import ABC, abstractmethod
+from xml.sax.saxutils import escape
 
 import sympy
 
@@ -634,7 +635,7 @@ class Math(PictureElement):
         return (
             f"<text x='{c[0]}' y='{c[1]}' fill='{self.color}' font-size='{self.font_size}'"
             f" style=\"{anchor};font-family:'CMU Serif',serif;font-style:italic\">"
-            f"{self.math}</text>\n"
+            f"{escape(self.math)}</text>\n"
         )
 
     def as_tikz(self, map_pt: typing.Callable[[PointType], typing.Tuple[float, float]]) -> str:
@@ -1051,9 +1052,9 @@ class Picture:
             " xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'>\n"
         )
         if self.title is not None:
-            img += f"<title>{self.title}</title>\n"
+            img += f"<title>{escape(self.title)}</title>\n"
         if self.desc is not None:
-            img += f"<desc>{self.desc}</desc>\n"
+            img += f"<desc>{escape(self.desc)}</desc>\n"
         if self.svg_metadata is not None:
             img += self.svg_metadata + "\n"
 
-- 
2.43.0


From 79320569facd553315b4540490494ba5714777ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 50/51] fix: valid text anchors in svg output

---
 symfem/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index e895b0a..049fa81 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -617,16 +617,16 @@ class Math(PictureElement):
         else:
             anchor = ""
             if self.anchor.startswith("north"):
-                anchor += "dominant-baseline:top"
+                anchor += "dominant-baseline:text-top"
             elif self.anchor.startswith("south"):
-                anchor += "dominant-baseline:bottom"
+                anchor += "dominant-baseline:text-bottom"
             else:
                 anchor += "dominant-baseline:middle"
             anchor += ";"
             if self.anchor.endswith("east"):
-                anchor += "text-anchor:right"
+                anchor += "text-anchor:end"
             elif self.anchor.endswith("west"):
-                anchor += "text-anchor:left"
+                anchor += "text-anchor:start"
             else:
                 anchor += "text-anchor:middle"
 
-- 
2.43.0


From d9c88470ca3f085858a33fac67682fb07d767538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 51/51] fix: an arrow of length zero has no heads

---
 symfem/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfem/plotting.py b/symfem/plotting.py
index 049fa81..dffc0bf 100644
--- a/symfem/plotting.py
+++ b/symfem/plotting.py
@@ -384,6 +384,8 @@ class Arrow(PictureElement):
         ve = VectorFunction(self.end)
         vs = VectorFunction(self.start)
         vdirection = ve - vs
+        if vdirection.norm() == 0:
+            return out
         vdirection /= vdirection.norm()
         vdirection /= 30
         perp = VectorFunction((-vdirection[1], vdirection[0]))
-- 
2.43.0

