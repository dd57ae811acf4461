From 413a849d21a6ab9ede64e84dda72319ceeff938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 01/32] fix: do not validate a spatial array through itself in
 __array_wrap__

With NumPy 1, __array_wrap__ receives an instance of the spatial class. Validating it
called np.isfinite on the instance, which called __array_wrap__ again, until the
RecursionError was swallowed. Every arithmetic operation took about 1000 frames, and arrays
of a forbidden shape or with non-finite values kept the spatial class.
---
 src/skspatial/objects/_base_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..df6f3cf 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -45,6 +45,10 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         np.float64(2.16)
 
         """
+        # With NumPy 1, the array is already an instance of the spatial class, and validating
+        # it as such would call this method again.
+        array = np.asarray(array)
+
         if return_scalar:
             return array[()]
 
-- 
2.43.0


From e2871ca12fb9219816d49b608e96fc22d6fa08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 02/32] fix: do not swallow unrelated errors in __array_wrap__

Only a result that is not a valid spatial array (TypeError or ValueError) falls back to a
regular array. A MemoryError or RecursionError raised while wrapping was swallowed, and
the operation silently returned a regular array instead of a spatial object.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index df6f3cf..913b90e 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -54,7 +54,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
 
         try:
             return type(self)(array)
-        except Exception:
+        except (TypeError, ValueError):
             return array
 
     def to_array(self) -> np.ndarray:
-- 
2.43.0


From 672d5500c7506d21240487c4479216614dd18fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 03/32] fix: keep the dimension of a spatial array after
 unpickling

The dimension was stored when the array was allocated. Unpickling allocates an empty array
and then fills it, so the dimension of an unpickled Point or Vector was 0, and that of
Points was None. Derive the dimension from the shape instead.
---
 src/skspatial/objects/_base_array.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 913b90e..1c775a0 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -1,6 +1,6 @@
 """Private base classes for arrays."""
 
-from typing import Type, TypeVar
+from typing import Optional, Type, TypeVar
 
 import numpy as np
 
@@ -140,8 +140,9 @@ class _BaseArray1D(_BaseArray):
 
         return super().__new__(cls, array_like)
 
-    def __array_finalize__(self, _):
-        self.dimension = self.size
+    @property
+    def dimension(self) -> int:
+        return self.size
 
     def set_dimension(self: Array1D, dim: int) -> Array1D:
         """
@@ -199,11 +200,9 @@ class _BaseArray2D(_BaseArray):
 
         return super().__new__(cls, array)
 
-    def __array_finalize__(self, _):
-        try:
-            self.dimension = self.shape[1]
-        except IndexError:
-            self.dimension = None
+    @property
+    def dimension(self) -> Optional[int]:
+        return self.shape[1] if self.ndim > 1 else None
 
     def set_dimension(self: Array2D, dim: int) -> Array2D:
         """
-- 
2.43.0


From 86a1a7fadddf57f15a3bb5e64db622ba5545e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 04/32] fix: set the dimension of LineSegment

LineSegment.plotter raised an AttributeError because the dimension was missing. Points of
different dimensions are now rejected, as they are by Line and Triangle.
---
 src/skspatial/objects/line_segment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..009a1f8 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -54,9 +54,14 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The points must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From 761464a269d9f0132be7b631f5d3bb4a5a0b5094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 05/32] fix: reject a NaN radius in Circle and Sphere

NaN is not a positive radius. Cylinder already rejects it.
---
 src/skspatial/objects/_base_sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_sphere.py b/src/skspatial/objects/_base_sphere.py
index bb297d0..cb6117e 100644
--- a/src/skspatial/objects/_base_sphere.py
+++ b/src/skspatial/objects/_base_sphere.py
@@ -15,7 +15,7 @@ class _BaseSphere(_BaseSpatial):
     """Private parent class for Circle and Sphere."""
 
     def __init__(self, point: array_like, radius: float):
-        if radius <= 0:
+        if not radius > 0:
             raise ValueError("The radius must be positive.")
 
         self.point = Point(point)
-- 
2.43.0


From 5ff3c1e568c2f4168d64d1a62b86312b91154b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 06/32] fix: do not round a spatial array in place

The round method wrote the rounded values into the object itself, and into the array it was
created from, e.g. rounding the direction of a line for display changed the line.
---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 1c775a0..ac4ef41 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -126,7 +126,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return self.__array_wrap__(np.around(np.asarray(self), decimals=decimals))
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From d88dfa2496cfa115881876a6699b87f2493aa546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 07/32] fix: raise an error when projecting onto the zero
 vector

The projection is undefined, but an array of NaN was returned. The scalar projection
already raises this error.
---
 src/skspatial/objects/vector.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 1588542..0ff520a 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -680,6 +680,11 @@ class Vector(_BaseArray1D):
         Vector
             Vector projection.
 
+        Raises
+        ------
+        ValueError
+            If the magnitude of the vector is zero.
+
         Examples
         --------
         >>> from skspatial.objects import Vector
@@ -697,7 +702,12 @@ class Vector(_BaseArray1D):
         Vector([0., 5.])
 
         """
-        return self.dot(other) / self.dot(self) * self
+        dot_self = self.dot(self)
+
+        if dot_self == 0:
+            raise ValueError("The magnitude must not be zero.")
+
+        return self.dot(other) / dot_self * self
 
     def different_direction(self, **kwargs: float) -> Vector:
         """
-- 
2.43.0


From e29711c02ee8fbdcbcf97a967ed7f3f8edfb9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 08/32] fix: raise an error when normalizing points that are
 all at the origin

The normalization is undefined, but an array of NaN was returned.
---
 src/skspatial/objects/points.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index f0b24ac..16985e0 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -164,6 +164,11 @@ class Points(_BaseArray2D):
         Points
             Normalized points.
 
+        Raises
+        ------
+        ValueError
+            If the points are all at the origin.
+
         Examples
         --------
         >>> from skspatial.objects import Points
@@ -185,7 +190,12 @@ class Points(_BaseArray2D):
         """
         distances_to_points = np.linalg.norm(self, axis=1)
 
-        return self / distances_to_points.max()
+        distance_max = distances_to_points.max()
+
+        if distance_max == 0:
+            raise ValueError("The points must not all be at the origin.")
+
+        return self / distance_max
 
     def affine_rank(self, **kwargs) -> np.int64:
         """
-- 
2.43.0


From f487b3e5ad45a0e7b8e57158ae73e454c32e3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 09/32] fix: find the side of a plane without rounding the
 normal

The unit normal is inexact, so a point on the plane could be reported as in front of it or
behind it, e.g. Plane([0, 0, 0], [5, 5, 3]).side_point([5, -2, -5]) was 1.
---
 src/skspatial/objects/plane.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..462ec45 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -562,7 +562,11 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         -1
 
         """
-        return int(np.sign(self.distance_point_signed(point)))
+        vector_to_point = Vector.from_points(self.point, point)
+
+        # The sign does not depend on the magnitude of the normal.
+        # Normalizing it would add a rounding error for a point on the plane.
+        return int(np.sign(self.normal.dot(vector_to_point)))
 
     def intersect_line(self, line: Line, **kwargs) -> Point:
         """
-- 
2.43.0


From 073c4ee9bf9cacb8f15ce30a0322fae45ca2da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 10/32] fix: do not leave the domain of acos in Triangle.angle

For a thin triangle, rounding errors could put the cosine outside of [-1, 1], which raised
"math domain error".
---
 src/skspatial/objects/triangle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index da21687..27a04b1 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -415,7 +415,8 @@ class Triangle(_BaseSpatial):
         else:
             raise ValueError("The vertex must be 'A', 'B', or 'C'.")
 
-        return math.acos(arg)
+        # Ensure that the argument is in the range [-1, 1] despite rounding errors.
+        return math.acos(np.clip(arg, -1, 1))
 
     def centroid(self) -> Point:
         """
-- 
2.43.0


From 7c9e3b9541227aaed7ae2c3e927e2894d9ae1e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 11/32] fix: do not take the root of a negative number in
 Circle.intersect_circle

For tangent circles, rounding errors could make the argument slightly negative, which
raised "math domain error".
---
 src/skspatial/objects/circle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index b821adb..bba9add 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -281,7 +281,8 @@ class Circle(_BaseSphere):
 
         a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
 
-        h = math.sqrt(self.radius**2 - a**2)
+        # The difference can be slightly negative for tangent circles due to rounding errors.
+        h = math.sqrt(max(self.radius**2 - a**2, 0))
 
         point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
 
-- 
2.43.0


From 7a7876e3bcc3f4938792f10497fa00c19ea8e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 12/32] fix: intersect a circle or sphere with a line that is
 exactly tangent

The unit vector of the direction is rounded, so the discriminant of a tangent
line could be negative.
---
 src/skspatial/objects/circle.py | 18 +++++-------------
 src/skspatial/objects/sphere.py | 16 ++++++++++------
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index bba9add..bede841 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -362,23 +362,15 @@ class Circle(_BaseSphere):
         ValueError: The line does not intersect the circle.
 
         """
-        # Two points on the line.
-        point_1 = line.point
-        point_2 = point_1 + line.direction.unit()
+        # Translate the point on the line to mimic the circle being centered on the origin.
+        x_1, y_1 = Vector.from_points(self.point, line.point)
 
-        # Translate the points on the line to mimic the circle being centered on the origin.
-        point_translated_1 = point_1 - self.point
-        point_translated_2 = point_2 - self.point
-
-        x_1, y_1 = point_translated_1
-        x_2, y_2 = point_translated_2
-
-        d_x = x_2 - x_1
-        d_y = y_2 - y_1
+        # The direction is not normalized, because the rounding could miss a tangent line.
+        d_x, d_y = line.direction.astype(float)
 
         # Pre-compute variables common to x and y equations.
         d_r_squared = d_x**2 + d_y**2
-        determinant = x_1 * y_2 - x_2 * y_1
+        determinant = x_1 * d_y - d_x * y_1
         discriminant = self.radius**2 * d_r_squared - determinant**2
 
         if discriminant < 0:
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index e346a8e..20225bd 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -166,20 +166,24 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         ValueError: The line does not intersect the sphere.
 
         """
-        vector_to_line = Vector.from_points(self.point, line.point)
-        vector_unit = line.direction.unit()
+        vector_to_line = Vector.from_points(self.point, line.point).astype(float)
 
-        dot = vector_unit.dot(vector_to_line)
+        # The direction is not normalized, because the rounding could miss a tangent line.
+        direction = line.direction.astype(float)
 
-        discriminant = dot**2 - (vector_to_line.norm() ** 2 - self.radius**2)
+        a = direction.dot(direction)
+        b = direction.dot(vector_to_line)
+        c = vector_to_line.dot(vector_to_line) - self.radius**2
+
+        discriminant = b**2 - a * c
 
         if discriminant < 0:
             raise ValueError("The line does not intersect the sphere.")
 
         pm = np.array([-1, 1])  # Array to compute minus/plus.
-        distances = -dot + pm * math.sqrt(discriminant)
+        multiples = (-b + pm * math.sqrt(discriminant)) / a
 
-        point_a, point_b = line.point + distances.reshape(-1, 1) * vector_unit
+        point_a, point_b = line.point + multiples.reshape(-1, 1) * direction
 
         return Point(point_a), Point(point_b)
 
-- 
2.43.0


From bb1bae62a5e25220d87905f89bc40ee18b1cbdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 13/32] fix: find a line that is parallel to the axis of a
 cylinder

Rounding left a tiny perpendicular component, and the intersection points were
around 1e15.
---
 src/skspatial/objects/cylinder.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 0362fe6..5111a66 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -717,9 +717,17 @@ def _intersect_line_with_infinite_cylinder(
 
     delta_p = Vector.from_points(p_c, p_l)
 
-    a = (v_l - v_l.dot(v_c) * v_c).norm() ** 2
-    b = 2 * (v_l - v_l.dot(v_c) * v_c).dot(delta_p - delta_p.dot(v_c) * v_c)
-    c = (delta_p - delta_p.dot(v_c) * v_c).norm() ** 2 - r**2
+    # Components of the vectors that are perpendicular to the axis.
+    v_perpendicular = v_l - v_l.dot(v_c) * v_c
+    delta_perpendicular = delta_p - delta_p.dot(v_c) * v_c
+
+    # The component is not exactly zero for a line parallel to the axis, due to rounding errors.
+    if v_perpendicular.is_zero(abs_tol=1e-24):
+        raise ValueError("The line does not intersect the cylinder.")
+
+    a = v_perpendicular.norm() ** 2
+    b = 2 * v_perpendicular.dot(delta_perpendicular)
+    c = delta_perpendicular.norm() ** 2 - r**2
 
     try:
         X = _solve_quadratic(a, b, c, n_digits=n_digits)
-- 
2.43.0


From 396a1594c86bdd171e11049c98704b14b88f4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 14/32] fix: use the extent of the points as the length of
 Cylinder.best_fit

The length was twice the distance from the base to the centroid, which is only
correct if the points are evenly spread along the axis.
---
 src/skspatial/objects/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 5111a66..8f68413 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -633,7 +633,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         axis = Line(point=center, direction=unit_vector)
         points_1d = axis.transform_points(points)
         point_a = axis.project_point(points[np.argmin(points_1d)])
-        length = point_a.distance_point(center) * 2
+        length = np.ptp(points_1d)
         vector_ab = unit_vector * length
 
         return cls(point_a, vector_ab, radius)
-- 
2.43.0


From 04ca3ef2caebd62b97b6ebe8757aa93b97649930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 15/32] fix: round the coefficients of a quadratic equation to
 zero digits if asked

---
 src/skspatial/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 34e0333..f31aa4e 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -114,7 +114,7 @@ def _solve_quadratic(a: float, b: float, c: float, n_digits: Optional[int] = Non
     ValueError: The discriminant must not be negative.
 
     """
-    if n_digits:
+    if n_digits is not None:
         a = round(a, n_digits)
         b = round(b, n_digits)
         c = round(c, n_digits)
-- 
2.43.0


From 483d97d30f5676d84944d2167d3830f940db7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 16/32] fix: intersect line segments that meet at an endpoint

The angle between the vectors to the endpoints was used to decide if the
intersection point is on the segment, and it is meaningless if the point is at
an endpoint up to rounding errors.
---
 src/skspatial/objects/line_segment.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 009a1f8..fc93285 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -151,8 +151,8 @@ class LineSegment(_BaseSpatial):
 
         point_intersection = line_a.intersect_line(line_b, **kwargs)
 
-        point_on_segment_a = self.contains_point(point_intersection)
-        point_on_segment_b = other.contains_point(point_intersection)
+        point_on_segment_a = _is_between_endpoints(self, point_intersection)
+        point_on_segment_b = _is_between_endpoints(other, point_intersection)
 
         if not (point_on_segment_a and point_on_segment_b):
             raise ValueError("The line segments must intersect.")
@@ -233,3 +233,17 @@ class LineSegment(_BaseSpatial):
         from skspatial.plotting import _connect_points_3d
 
         _connect_points_3d(ax_3d, self.point_a, self.point_b, **kwargs)
+
+
+def _is_between_endpoints(segment: LineSegment, point: Point) -> bool:
+    """
+    Check if a point is between the endpoints of a line segment.
+
+    The lengths are compared instead of the angle between the vectors to the endpoints,
+    because the angle is meaningless if the point is at an endpoint up to rounding errors.
+
+    """
+    length = segment.point_a.distance_point(segment.point_b)
+    length_via_point = point.distance_point(segment.point_a) + point.distance_point(segment.point_b)
+
+    return math.isclose(length, length_via_point)
-- 
2.43.0


From 0c49e87e99c1e8b0ee38f1caacbcb3229804e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 17/32] fix: find the affine rank of points that are far from
 the origin

The centroid was rounded to the precision of the coordinates, so collinear points
such as [100, 100], [101, 102], [103, 106] were not found to be collinear.
---
 src/skspatial/objects/points.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index 16985e0..e100fcc 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -241,7 +241,11 @@ class Points(_BaseArray2D):
 
         """
         # Remove duplicate points so they do not affect the centroid.
-        points_centered = self.unique().mean_center()
+        points_unique = self.unique()
+
+        # Move the points to the origin first, so that the centroid is not rounded
+        # to the precision of coordinates that are far from the origin.
+        points_centered = Points(points_unique - points_unique[0]).mean_center()
 
         return matrix_rank(points_centered, **kwargs)
 
-- 
2.43.0


From 67f265ee668b618c074c5113dd2fe7c51ee22518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 18/32] fix: project a vector onto a plane without losing it in
 the plane's point

The vector was added to the point of the plane first, so a vector that is
short compared to the point was rounded away (and projecting a line with a
short direction raised an error).
---
 src/skspatial/objects/plane.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 462ec45..ea68101 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -326,10 +326,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         Vector([ 2., -2.,  2.])
 
         """
-        point_in_space = self.point + vector
-        point_on_plane = self.project_point(point_in_space)
+        vector = Vector(vector)
 
-        return Vector.from_points(self.point, point_on_plane)
+        return cast(Vector, vector - self.normal.project_vector(vector))
 
     def project_line(self, line: Line, **kwargs: float) -> Line:
         """
-- 
2.43.0


From 97f91730ae72978ed9fa1031ce2e7f88c7489a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 19/32] fix: centre the mesh of a vertical plane on the point
 of the plane

The limits apply to the two free axes, but were always added to the first
two coordinates of the point.
---
 src/skspatial/objects/plane.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index ea68101..220a16b 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -835,7 +835,10 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         """
         a, b, c, d = self.cartesian()
-        x_center, y_center = self.point[:2]
+
+        # The limits apply to the two axes along which the coordinates can be chosen freely.
+        axes_free = [0, 1] if c != 0 else [0, 2] if b != 0 else [1, 2]
+        x_center, y_center = self.point.set_dimension(3)[axes_free]
 
         values_x = x_center + lims_x
         values_y = y_center + lims_y
-- 
2.43.0


From ff943863fdfee2c5f2ac32d44ebc9bb646c5bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 20/32] fix: find the orthocenter of triangles whose altitudes
 are rounded

---
 src/skspatial/objects/triangle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/triangle.py b/src/skspatial/objects/triangle.py
index 27a04b1..3e1f953 100644
--- a/src/skspatial/objects/triangle.py
+++ b/src/skspatial/objects/triangle.py
@@ -526,6 +526,9 @@ class Triangle(_BaseSpatial):
         line_alt_a = self.altitude('A')
         line_alt_b = self.altitude('B')
 
+        # The altitudes of a triangle are always coplanar, even if their rounded coordinates are not.
+        kwargs.setdefault('check_coplanar', False)
+
         return line_alt_a.intersect_line(line_alt_b, **kwargs)
 
     def classify(self, **kwargs: float) -> str:
-- 
2.43.0


From 2791c4b984cfcf1c81e1fb5af8ed03949a4248c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 21/32] fix: fit a cylinder whose axis has a negative x and a
 zero y coordinate

---
 src/skspatial/objects/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 8f68413..329e677 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -608,7 +608,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
             if math.isclose(x, 0.0, abs_tol=1e-9) and math.isclose(y, 0.0, abs_tol=1e-9):
                 phi = 0.0
             else:
-                phi = np.sign(y) * np.arccos(x / np.sqrt(x**2 + y**2))
+                phi = np.arctan2(y, x)
             return _SphericalCoordinates(theta, phi)
 
         def _spherical_to_cartesian(spherical_coordinates: _SphericalCoordinates) -> Vector:
-- 
2.43.0


From f98bf86016330fd6282b927774a4d719b2af70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 22/32] fix: fit cylinders of any size by minimizing over
 scaled points

---
 src/skspatial/objects/cylinder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 329e677..da61a72 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -528,8 +528,11 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
 
         def _best_fit(points_centered: Points, centroid: Point) -> Tuple[Vector, Point, float, float]:
             """Return the cylinder of best fit for a set of 3D points."""
+            # The direction does not depend on the scale of the points, but the stopping criterion of the minimizer does.
+            points_scaled = points_centered.normalize_distance()
+
             best_fit = minimize(
-                lambda x: _compute_g(_spherical_to_cartesian(_SphericalCoordinates(x[0], x[1])), points_centered),
+                lambda x: _compute_g(_spherical_to_cartesian(_SphericalCoordinates(x[0], x[1])), points_scaled),
                 x0=_compute_initial_direction(points_centered),
                 method="Powell",
             )
-- 
2.43.0


From d48659cb6e2f55849895d82887948a8f1ffceae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 23/32] fix: circle through three points far from the origin
 was wrong

---
 src/skspatial/objects/circle.py | 36 +++++++++------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index bede841..57e554b 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -119,13 +119,6 @@ class Circle(_BaseSphere):
 
         """
 
-        def _minor(array, i: int, j: int):
-            subarray = array[
-                np.array(list(range(i)) + list(range(i + 1, array.shape[0])))[:, np.newaxis],
-                np.array(list(range(j)) + list(range(j + 1, array.shape[1]))),
-            ]
-            return np.linalg.det(subarray)
-
         point_a = Point(point_a)
         point_b = Point(point_b)
         point_c = Point(point_c)
@@ -136,30 +129,21 @@ class Circle(_BaseSphere):
         if Points([point_a, point_b, point_c]).are_collinear(**kwargs):
             raise ValueError("The points must not be collinear.")
 
-        x_a, y_a = point_a
-        x_b, y_b = point_b
-        x_c, y_c = point_c
+        # Move the second point to the origin, to stay precise far from it.
+        translation = -point_b
 
-        matrix = np.array(
-            [
-                [0, 0, 0, 1],
-                [x_a**2 + y_a**2, x_a, y_a, 1],
-                [x_b**2 + y_b**2, x_b, y_b, 1],
-                [x_c**2 + y_c**2, x_c, y_c, 1],
-            ],
-        )
+        x_a, y_a = np.asarray(point_a + translation, dtype=float)
+        x_c, y_c = np.asarray(point_c + translation, dtype=float)
 
-        M_00 = _minor(matrix, 0, 0)
-        M_01 = _minor(matrix, 0, 1)
-        M_02 = _minor(matrix, 0, 2)
-        M_03 = _minor(matrix, 0, 3)
+        square_a = x_a**2 + y_a**2
+        square_c = x_c**2 + y_c**2
 
-        x = 0.5 * M_01 / M_00
-        y = -0.5 * M_02 / M_00
+        denom = 2 * (x_c * y_a - x_a * y_c)
 
-        radius = math.sqrt(x**2 + y**2 + M_03 / M_00)
+        x = (square_c * y_a - square_a * y_c) / denom
+        y = (square_a * x_c - square_c * x_a) / denom
 
-        return cls([x, y], radius)
+        return cls([x, y] - translation, math.hypot(x, y))
 
     @np_float
     def circumference(self) -> float:
-- 
2.43.0


From da293455b8cb5b1f49d82aaa193aed7e9415ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 24/32] fix: signed area of a polygon far from the origin lost
 its precision and sign

---
 src/skspatial/measurement.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index d746a0e..90a560e 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -153,8 +153,9 @@ def area_signed(points: array_like) -> float:
     if n_points < 3:
         raise ValueError("There must be at least 3 points.")
 
-    X = np.array(points[:, 0])
-    Y = np.array(points[:, 1])
+    # The coordinates are relative to the first point, to stay precise far from the origin.
+    X = np.array(points[:, 0] - points[0, 0])
+    Y = np.array(points[:, 1] - points[0, 1])
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
-- 
2.43.0


From 9e47a700c877d405c5ccc4a775f7152b2b1d741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 25/32] fix: best fit circle and sphere were wrong for points
 far from the origin or of extreme size

---
 src/skspatial/objects/circle.py | 13 +++++++++----
 src/skspatial/objects/sphere.py | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 57e554b..f62ee4c 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -430,13 +430,18 @@ class Circle(_BaseSphere):
         if points.affine_rank() != 2:
             raise ValueError("The points must not be collinear.")
 
+        # The points are fitted relative to their centroid and size, to be independent of their position and unit of length.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+        size = np.abs(points_centered).max()
+        points_scaled = points_centered / size
+
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        A = np.hstack((2 * points_scaled, np.ones((n, 1))))
+        b = (points_scaled**2).sum(axis=1)
         c = np.linalg.lstsq(A, b, rcond=None)[0]
 
-        center = c[:2]
-        radius = np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
+        center = centroid + size * c[:2]
+        radius = size * np.sqrt(c[2] + c[0] ** 2 + c[1] ** 2)
 
         return cls(center, radius)
 
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index 20225bd..0722a21 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -236,14 +236,19 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         if points.affine_rank() != 3:
             raise ValueError("The points must not be in a plane.")
 
+        # The points are fitted relative to their centroid and size, to be independent of their position and unit of length.
+        points_centered, centroid = points.mean_center(return_centroid=True)
+        size = np.abs(points_centered).max()
+        points_scaled = points_centered / size
+
         n = points.shape[0]
-        A = np.hstack((2 * points, np.ones((n, 1))))
-        b = (points**2).sum(axis=1)
+        A = np.hstack((2 * points_scaled, np.ones((n, 1))))
+        b = (points_scaled**2).sum(axis=1)
 
         c, _, _, _ = np.linalg.lstsq(A, b, rcond=None)
 
-        center = c[:3]
-        radius = float(np.sqrt(np.dot(center, center) + c[3]))
+        center = centroid + size * c[:3]
+        radius = float(size * np.sqrt(np.dot(c[:3], c[:3]) + c[3]))
 
         return cls(center, radius)
 
-- 
2.43.0


From d047ed56aef019416024d9a707037b4d34ba6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 26/32] fix: products of integer coordinates overflowed

The products of three or four coordinates do not fit in 64 bits when the
coordinates exceed 2^16, nor do products of two coordinates fit in narrow
integer types.
---
 src/skspatial/measurement.py      |  8 ++++----
 src/skspatial/objects/circle.py   |  2 +-
 src/skspatial/objects/cylinder.py |  4 ++--
 src/skspatial/objects/line.py     |  4 ++--
 src/skspatial/objects/plane.py    | 13 +++++++------
 src/skspatial/objects/sphere.py   |  4 ++--
 src/skspatial/objects/vector.py   | 25 ++++++++++++++++---------
 src/skspatial/transformation.py   |  6 +++++-
 8 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index 90a560e..1283ee9 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -44,7 +44,7 @@ def area_triangle(point_a: array_like, point_b: array_like, point_c: array_like)
     vector_ac = Vector.from_points(point_a, point_c)
 
     # Normal vector of plane defined by the three points.
-    vector_normal = vector_ab.cross(vector_ac)
+    vector_normal = vector_ab.astype(float).cross(vector_ac)
 
     return 0.5 * vector_normal.norm()
 
@@ -92,7 +92,7 @@ def volume_tetrahedron(
     vector_ac = Vector.from_points(point_a, point_c)
     vector_ad = Vector.from_points(point_a, point_d)
 
-    vector_cross = vector_ac.cross(vector_ad)
+    vector_cross = vector_ac.astype(float).cross(vector_ad)
 
     # Set the dimension to 3 so it matches the cross product.
     vector_ab = vector_ab.set_dimension(3)
@@ -154,8 +154,8 @@ def area_signed(points: array_like) -> float:
         raise ValueError("There must be at least 3 points.")
 
     # The coordinates are relative to the first point, to stay precise far from the origin.
-    X = np.array(points[:, 0] - points[0, 0])
-    Y = np.array(points[:, 1] - points[0, 1])
+    X = np.array(points[:, 0] - points[0, 0], dtype=float)
+    Y = np.array(points[:, 1] - points[0, 1], dtype=float)
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index f62ee4c..55ce891 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -197,7 +197,7 @@ class Circle(_BaseSphere):
         np.float64(12.57)
 
         """
-        return np.pi * self.radius**2
+        return np.pi * float(self.radius) ** 2
 
     def intersect_circle(self, other: Circle) -> Tuple[Point, Point]:
         """
diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index da61a72..58eabdd 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -230,7 +230,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         np.float64(50.265)
 
         """
-        return self.lateral_surface_area() + 2 * np.pi * self.radius**2
+        return self.lateral_surface_area() + 2 * np.pi * float(self.radius) ** 2
 
     def volume(self) -> np.float64:
         r"""
@@ -258,7 +258,7 @@ class Cylinder(_BaseSpatial, _ToPointsMixin):
         np.float64(6.28319)
 
         """
-        return np.pi * self.radius**2 * self.length()
+        return np.pi * float(self.radius) ** 2 * self.length()
 
     def is_point_within(self, point: array_like) -> bool:
         """
diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 05cb3fd..62933f3 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -542,7 +542,7 @@ class Line(_BaseLinePlane):
         else:
             # The lines are skew.
             vector_ab = Vector.from_points(self.point, other.point)
-            vector_perpendicular = self.direction.cross(other.direction)
+            vector_perpendicular = self.direction.astype(float).cross(other.direction)
 
             distance = abs(vector_ab.dot(vector_perpendicular)) / vector_perpendicular.norm()
 
@@ -643,7 +643,7 @@ class Line(_BaseLinePlane):
         vector_ab = Vector.from_points(self.point, other.point)
 
         # Vector perpendicular to both lines.
-        vector_perpendicular = self.direction.cross(other.direction)
+        vector_perpendicular = self.direction.astype(float).cross(other.direction)
 
         num = vector_ab.cross(other.direction).dot(vector_perpendicular)
         denom = vector_perpendicular.norm() ** 2
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 220a16b..e76391a 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -232,7 +232,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         # The normal must be 3D to extract the coefficients.
         a, b, c = self.normal.set_dimension(3)
 
-        d = -self.normal.dot(self.point)
+        d = -self.normal.astype(np.result_type(self.normal, np.int64)).dot(self.point)
 
         return a, b, c, d
 
@@ -565,7 +565,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         # The sign does not depend on the magnitude of the normal.
         # Normalizing it would add a rounding error for a point on the plane.
-        return int(np.sign(self.normal.dot(vector_to_point)))
+        return int(np.sign(self.normal.astype(float).dot(vector_to_point)))
 
     def intersect_line(self, line: Line, **kwargs) -> Point:
         """
@@ -620,8 +620,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
 
         vector_plane_line = Vector.from_points(self.point, line.point)
 
-        num = -self.normal.dot(vector_plane_line)
-        denom = self.normal.dot(line.direction)
+        normal = self.normal.astype(float)
+        num = -normal.dot(vector_plane_line)
+        denom = normal.dot(line.direction)
 
         # Vector along the line to the intersection point.
         vector_line_scaled = num / denom * line.direction
@@ -692,8 +693,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array_11 = np.zeros((2, 2))
         matrix = np.block([[array_00, array_01], [array_10, array_11]])
 
-        dot_a = np.dot(self.point, self.normal)
-        dot_b = np.dot(other.point, other.normal)
+        dot_a = np.dot(self.point, self.normal.astype(float))
+        dot_b = np.dot(other.point, other.normal.astype(float))
         array_y = np.array([0, 0, 0, dot_a, dot_b])
 
         # Solve the linear system.
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index 0722a21..2cbf7f9 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -103,7 +103,7 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         np.float64(50.27)
 
         """
-        return 4 * np.pi * self.radius**2
+        return 4 * np.pi * float(self.radius) ** 2
 
     @np_float
     def volume(self) -> float:
@@ -130,7 +130,7 @@ class Sphere(_BaseSphere, _ToPointsMixin):
         np.float64(33.51)
 
         """
-        return 4 / 3 * np.pi * self.radius**3
+        return 4 / 3 * np.pi * float(self.radius) ** 3
 
     def intersect_line(self, line: Line) -> Tuple[Point, Point]:
         """
diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 0ff520a..3347e3b 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -208,7 +208,10 @@ class Vector(_BaseArray1D):
         True
 
         """
-        return math.isclose(self.dot(self), 0, **kwargs)
+        # The products of integers are computed as floats, to avoid integer overflow.
+        vector = self.astype(float)
+
+        return math.isclose(vector.dot(vector), 0, **kwargs)
 
     def cross(self, other: array_like) -> Vector:
         """
@@ -245,7 +248,10 @@ class Vector(_BaseArray1D):
         vector_a = self.set_dimension(3)
         vector_b = Vector(other).set_dimension(3)
 
-        return Vector(np.cross(vector_a, vector_b))
+        # Narrow integers are widened, to avoid integer overflow.
+        dtype = np.result_type(vector_a, vector_b, np.int64)
+
+        return Vector(np.cross(vector_a.astype(dtype), vector_b.astype(dtype)))
 
     def cosine_similarity(self, other: array_like) -> np.float64:
         """
@@ -295,7 +301,7 @@ class Vector(_BaseArray1D):
         if denom == 0:
             raise ValueError("The vectors must have non-zero magnitudes.")
 
-        cos_theta = self.dot(other) / denom
+        cos_theta = self.astype(float).dot(other) / denom
 
         # Ensure that the output is in the range [-1, 1],
         # so that the angle theta is defined.
@@ -387,7 +393,7 @@ class Vector(_BaseArray1D):
         if not (self.dimension == 2 and Vector(other).dimension == 2):
             raise ValueError("The vectors must be 2D.")
 
-        dot = self.dot(other)
+        dot = self.astype(float).dot(other)
         det = np.linalg.det([self, other])
 
         return math.atan2(det, dot)
@@ -461,7 +467,7 @@ class Vector(_BaseArray1D):
             )
 
         direction_positive = Vector(direction_positive).unit()
-        return np.arctan2(cross.dot(direction_positive), self.dot(other))
+        return np.arctan2(cross.dot(direction_positive), self.astype(float).dot(other))
 
     def is_perpendicular(self, other: array_like, **kwargs: float) -> bool:
         r"""
@@ -503,7 +509,7 @@ class Vector(_BaseArray1D):
         True
 
         """
-        return math.isclose(self.dot(other), 0, **kwargs)
+        return math.isclose(self.astype(float).dot(other), 0, **kwargs)
 
     def is_parallel(self, other: array_like, **kwargs: float) -> bool:
         r"""
@@ -627,7 +633,7 @@ class Vector(_BaseArray1D):
         if self.dimension != 2 or vector_other.dimension != 2:
             raise ValueError("The vectors must be 2D.")
 
-        product = np.cross(vector_other.set_dimension(3), self.set_dimension(3))
+        product = vector_other.cross(self)
 
         return int(np.sign(product[2]))
 
@@ -702,12 +708,13 @@ class Vector(_BaseArray1D):
         Vector([0., 5.])
 
         """
-        dot_self = self.dot(self)
+        vector = self.astype(float)
+        dot_self = vector.dot(vector)
 
         if dot_self == 0:
             raise ValueError("The magnitude must not be zero.")
 
-        return self.dot(other) / dot_self * self
+        return vector.dot(other) / dot_self * self
 
     def different_direction(self, **kwargs: float) -> Vector:
         """
diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index 4b53d7e..e509eff 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -51,6 +51,10 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
 
     """
     vectors_to_points = np.subtract(points, point_origin)
-    array_transformed = np.matmul(vectors_to_points, np.transpose(vectors_basis))
+    array_basis = np.transpose(vectors_basis)
+
+    # Narrow integers are widened, to avoid integer overflow.
+    dtype = np.result_type(vectors_to_points, array_basis, np.int64)
+    array_transformed = np.matmul(vectors_to_points, array_basis, dtype=dtype)
 
     return cast(np.ndarray, array_transformed)
-- 
2.43.0


From f0e97b8d1ce41398573a78edf195e63e9a51d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:58 +0000
Subject: [PATCH 27/32] fix: differences of unsigned and narrow integer
 coordinates wrapped around

---
 src/skspatial/_functions.py     |  8 ++++++++
 src/skspatial/measurement.py    |  5 +++--
 src/skspatial/objects/circle.py | 13 +++++++------
 src/skspatial/objects/line.py   |  3 ++-
 src/skspatial/objects/plane.py  |  5 +++--
 src/skspatial/objects/points.py |  3 ++-
 src/skspatial/objects/vector.py |  8 +++-----
 src/skspatial/transformation.py |  3 ++-
 8 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index f31aa4e..5a1025d 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -11,6 +11,14 @@ import numpy as np
 from skspatial.typing import array_like
 
 
+def _subtract(array_a: array_like, array_b: array_like) -> np.ndarray:
+    """Subtract arrays, widening unsigned and narrow integers so that the difference does not overflow."""
+    array_a = np.asarray(array_a)
+    array_b = np.asarray(array_b)
+
+    return np.subtract(array_a, array_b, dtype=np.result_type(array_a, array_b, np.int64))
+
+
 def _contains_point(obj: Any, point: array_like, **kwargs: float) -> bool:
     """
     Check if the object contains a point.
diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index 1283ee9..78fd72a 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -2,6 +2,7 @@
 
 import numpy as np
 
+from skspatial._functions import _subtract
 from skspatial.objects import Points, Vector
 from skspatial.typing import array_like
 
@@ -154,8 +155,8 @@ def area_signed(points: array_like) -> float:
         raise ValueError("There must be at least 3 points.")
 
     # The coordinates are relative to the first point, to stay precise far from the origin.
-    X = np.array(points[:, 0] - points[0, 0], dtype=float)
-    Y = np.array(points[:, 1] - points[0, 1], dtype=float)
+    X = np.asarray(_subtract(points[:, 0], points[0, 0]), dtype=float)
+    Y = np.asarray(_subtract(points[:, 1], points[0, 1]), dtype=float)
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 55ce891..8a6d969 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -130,10 +130,10 @@ class Circle(_BaseSphere):
             raise ValueError("The points must not be collinear.")
 
         # Move the second point to the origin, to stay precise far from it.
-        translation = -point_b
+        translation = Vector.from_points(point_b, [0, 0])
 
-        x_a, y_a = np.asarray(point_a + translation, dtype=float)
-        x_c, y_c = np.asarray(point_c + translation, dtype=float)
+        x_a, y_a = Vector.from_points(point_b, point_a).astype(float)
+        x_c, y_c = Vector.from_points(point_b, point_c).astype(float)
 
         square_a = x_a**2 + y_a**2
         square_c = x_c**2 + y_c**2
@@ -268,12 +268,13 @@ class Circle(_BaseSphere):
         # The difference can be slightly negative for tangent circles due to rounding errors.
         h = math.sqrt(max(self.radius**2 - a**2, 0))
 
-        point_middle = self.point + a * Vector.from_points(self.point, other.point) / d
+        vector_centres = Vector.from_points(self.point, other.point)
+        point_middle = self.point + a * vector_centres / d
 
         pm = np.array([1, -1])
 
-        X = point_middle[0] + pm * h * (self.point[1] - other.point[1]) / d
-        Y = point_middle[1] - pm * h * (self.point[0] - other.point[0]) / d
+        X = point_middle[0] - pm * h * vector_centres[1] / d
+        Y = point_middle[1] + pm * h * vector_centres[0] / d
 
         point_a = Point([X[0], Y[0]])
         point_b = Point([X[1], Y[1]])
diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index 62933f3..e073e97 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -6,6 +6,7 @@ from typing import Optional, cast
 
 import numpy as np
 
+from skspatial._functions import _subtract
 from skspatial.objects._base_line_plane import _BaseLinePlane
 from skspatial.objects.point import Point
 from skspatial.objects.points import Points
@@ -328,7 +329,7 @@ class Line(_BaseLinePlane):
 
         """
         # Vectors from the points on the line to the point in space.
-        vectors = np.subtract(points, self.point)
+        vectors = _subtract(points, self.point)
 
         # Project the vectors onto the line.
         dot_products = np.dot(vectors, self.direction.unit())
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index e76391a..64dc1ff 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -6,6 +6,7 @@ from typing import Optional, Tuple, cast
 
 import numpy as np
 
+from skspatial._functions import _subtract
 from skspatial.objects._base_line_plane import _BaseLinePlane
 from skspatial.objects._mixins import _ToPointsMixin
 from skspatial.objects.line import Line
@@ -296,7 +297,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                 [ 1.,  2.,  0.]])
 
         """
-        vectors = np.subtract(self.point, points)
+        vectors = _subtract(self.point, points)
 
         dot_products = np.dot(vectors, self.normal.unit())
 
@@ -448,7 +449,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         array([ 0.,  1., -4., -4.])
 
         """
-        vectors = np.subtract(points, self.point)
+        vectors = _subtract(points, self.point)
 
         return np.array(np.dot(vectors, self.normal.unit()))
 
diff --git a/src/skspatial/objects/points.py b/src/skspatial/objects/points.py
index e100fcc..92a4634 100644
--- a/src/skspatial/objects/points.py
+++ b/src/skspatial/objects/points.py
@@ -7,6 +7,7 @@ from typing import cast
 import numpy as np
 from numpy.linalg import matrix_rank
 
+from skspatial._functions import _subtract
 from skspatial.objects._base_array import _BaseArray2D
 from skspatial.objects.point import Point
 
@@ -245,7 +246,7 @@ class Points(_BaseArray2D):
 
         # Move the points to the origin first, so that the centroid is not rounded
         # to the precision of coordinates that are far from the origin.
-        points_centered = Points(points_unique - points_unique[0]).mean_center()
+        points_centered = Points(_subtract(points_unique, points_unique[0])).mean_center()
 
         return matrix_rank(points_centered, **kwargs)
 
diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 3347e3b..216bb3f 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -7,7 +7,7 @@ from typing import cast
 
 import numpy as np
 
-from skspatial._functions import np_float
+from skspatial._functions import _subtract, np_float
 from skspatial.objects._base_array import _BaseArray1D
 from skspatial.typing import array_like
 
@@ -96,9 +96,7 @@ class Vector(_BaseArray1D):
         Vector([ 4,  6, -1])
 
         """
-        array_vector_ab = cast(np.ndarray, np.subtract(point_b, point_a))
-
-        return cls(array_vector_ab)
+        return cls(_subtract(point_b, point_a))
 
     def norm(self, **kwargs) -> np.float64:
         """
@@ -762,7 +760,7 @@ class Vector(_BaseArray1D):
             raise ValueError("The vector must not be the zero vector.")
 
         if self.dimension == 1:
-            return Vector([-np.sign(self[0])])
+            return Vector([-int(np.sign(self[0]))])
 
         vector_different_direction = Vector(np.zeros(self.dimension))
         vector_different_direction[0] = 1
diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index e509eff..f4df78f 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -4,6 +4,7 @@ from typing import Sequence, cast
 
 import numpy as np
 
+from skspatial._functions import _subtract
 from skspatial.typing import array_like
 
 
@@ -50,7 +51,7 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
            [7, 1]])
 
     """
-    vectors_to_points = np.subtract(points, point_origin)
+    vectors_to_points = _subtract(points, point_origin)
     array_basis = np.transpose(vectors_basis)
 
     # Narrow integers are widened, to avoid integer overflow.
-- 
2.43.0


From 0643dd16d79cfb6b3bfa56e1a7aba248e7020eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 28/32] fix: the mesh of a plane wrapped around for narrow
 integer limits

---
 src/skspatial/objects/plane.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 64dc1ff..8506026 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -842,6 +842,9 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         axes_free = [0, 1] if c != 0 else [0, 2] if b != 0 else [1, 2]
         x_center, y_center = self.point.set_dimension(3)[axes_free]
 
+        # Narrow integers are widened, to avoid integer overflow.
+        lims_x, lims_y = (np.asarray(x, dtype=np.result_type(np.asarray(x), np.int64)) for x in (lims_x, lims_y))
+
         values_x = x_center + lims_x
         values_y = y_center + lims_y
 
-- 
2.43.0


From 1376d7c152296e48a510187f953359bc4f6b6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 29/32] fix: points of dimension one were accepted together
 with points of any dimension

---
 src/skspatial/_functions.py  | 5 ++++-
 src/skspatial/measurement.py | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 5a1025d..8f6d229 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -12,10 +12,13 @@ from skspatial.typing import array_like
 
 
 def _subtract(array_a: array_like, array_b: array_like) -> np.ndarray:
-    """Subtract arrays, widening unsigned and narrow integers so that the difference does not overflow."""
+    """Subtract points, widening unsigned and narrow integers so that the difference does not overflow."""
     array_a = np.asarray(array_a)
     array_b = np.asarray(array_b)
 
+    if array_a.shape[-1:] != array_b.shape[-1:]:
+        raise ValueError("The points must have the same dimension.")
+
     return np.subtract(array_a, array_b, dtype=np.result_type(array_a, array_b, np.int64))
 
 
diff --git a/src/skspatial/measurement.py b/src/skspatial/measurement.py
index 78fd72a..313df02 100644
--- a/src/skspatial/measurement.py
+++ b/src/skspatial/measurement.py
@@ -155,8 +155,7 @@ def area_signed(points: array_like) -> float:
         raise ValueError("There must be at least 3 points.")
 
     # The coordinates are relative to the first point, to stay precise far from the origin.
-    X = np.asarray(_subtract(points[:, 0], points[0, 0]), dtype=float)
-    Y = np.asarray(_subtract(points[:, 1], points[0, 1]), dtype=float)
+    X, Y = _subtract(points, points[0]).astype(float).T
 
     indices = np.arange(n_points)
     indices_offset = indices - 1
-- 
2.43.0


From 5cfe8d2a99f9623a883a003e8f835552d5cd475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 30/32] fix: Line.to_point wrapped around for narrow integer
 types

---
 src/skspatial/objects/line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/line.py b/src/skspatial/objects/line.py
index e073e97..8b599ab 100644
--- a/src/skspatial/objects/line.py
+++ b/src/skspatial/objects/line.py
@@ -261,7 +261,8 @@ class Line(_BaseLinePlane):
         Point([4, 0])
 
         """
-        vector_along_line = t * self.direction
+        # Narrow integers are widened, to avoid integer overflow.
+        vector_along_line = t * self.direction.astype(np.result_type(self.direction, np.int64))
 
         return cast(Point, self.point + vector_along_line)
 
-- 
2.43.0


From 1ed6cf0f624e1cc0eddd62413a94e8337787ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 31/32] fix: sums and squares of integer radii overflowed

---
 src/skspatial/objects/circle.py   | 14 +++++++++-----
 src/skspatial/objects/cylinder.py |  2 +-
 src/skspatial/objects/sphere.py   |  2 +-
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/skspatial/objects/circle.py b/src/skspatial/objects/circle.py
index 8a6d969..85cea9a 100644
--- a/src/skspatial/objects/circle.py
+++ b/src/skspatial/objects/circle.py
@@ -257,16 +257,20 @@ class Circle(_BaseSphere):
         if d == 0:
             raise ValueError("The centres of the circles are coincident.")
 
-        if d > self.radius + other.radius:
+        # Convert the radii to floats, to avoid integer overflow.
+        r_a = float(self.radius)
+        r_b = float(other.radius)
+
+        if d > r_a + r_b:
             raise ValueError("The circles do not intersect. These circles are separate.")
 
-        if d < abs(self.radius - other.radius):
+        if d < abs(r_a - r_b):
             raise ValueError("The circles do not intersect. One circle is contained within the other.")
 
-        a = (self.radius**2 - other.radius**2 + d**2) / (2 * d)
+        a = (r_a**2 - r_b**2 + d**2) / (2 * d)
 
         # The difference can be slightly negative for tangent circles due to rounding errors.
-        h = math.sqrt(max(self.radius**2 - a**2, 0))
+        h = math.sqrt(max(r_a**2 - a**2, 0))
 
         vector_centres = Vector.from_points(self.point, other.point)
         point_middle = self.point + a * vector_centres / d
@@ -356,7 +360,7 @@ class Circle(_BaseSphere):
         # Pre-compute variables common to x and y equations.
         d_r_squared = d_x**2 + d_y**2
         determinant = x_1 * d_y - d_x * y_1
-        discriminant = self.radius**2 * d_r_squared - determinant**2
+        discriminant = float(self.radius) ** 2 * d_r_squared - determinant**2
 
         if discriminant < 0:
             raise ValueError("The line does not intersect the circle.")
diff --git a/src/skspatial/objects/cylinder.py b/src/skspatial/objects/cylinder.py
index 58eabdd..3953156 100644
--- a/src/skspatial/objects/cylinder.py
+++ b/src/skspatial/objects/cylinder.py
@@ -713,7 +713,7 @@ def _intersect_line_with_infinite_cylinder(
 ) -> Tuple[Point, Point]:
     p_c = cylinder.point
     v_c = cylinder.vector.unit()
-    r = cylinder.radius
+    r = float(cylinder.radius)
 
     p_l = line.point
     v_l = line.vector.unit()
diff --git a/src/skspatial/objects/sphere.py b/src/skspatial/objects/sphere.py
index 2cbf7f9..2096219 100644
--- a/src/skspatial/objects/sphere.py
+++ b/src/skspatial/objects/sphere.py
@@ -173,7 +173,7 @@ class Sphere(_BaseSphere, _ToPointsMixin):
 
         a = direction.dot(direction)
         b = direction.dot(vector_to_line)
-        c = vector_to_line.dot(vector_to_line) - self.radius**2
+        c = vector_to_line.dot(vector_to_line) - float(self.radius) ** 2
 
         discriminant = b**2 - a * c
 
-- 
2.43.0


From e8cf9df10ce872e5ed9065f47ea442fbfd90bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:06 +0000
Subject: [PATCH 32/32] fix: products of large integer coordinates wrapped
 around

---
 src/skspatial/_functions.py     | 21 +++++++++++++++++++++
 src/skspatial/objects/plane.py  | 13 +++++++------
 src/skspatial/objects/vector.py |  6 +++---
 src/skspatial/transformation.py |  5 ++---
 4 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/skspatial/_functions.py b/src/skspatial/_functions.py
index 8f6d229..8cd30e5 100644
--- a/src/skspatial/_functions.py
+++ b/src/skspatial/_functions.py
@@ -22,6 +22,27 @@ def _subtract(array_a: array_like, array_b: array_like) -> np.ndarray:
     return np.subtract(array_a, array_b, dtype=np.result_type(array_a, array_b, np.int64))
 
 
+def _product_type(array_a: array_like, array_b: array_like) -> np.dtype:
+    """
+    Return a data type in which dot and cross products of two arrays do not overflow.
+
+    Narrow integers are widened, and integers that are too large are converted to floats.
+
+    """
+    array_a = np.asarray(array_a)
+    array_b = np.asarray(array_b)
+    dtype = np.result_type(array_a, array_b, np.int64)
+
+    if np.issubdtype(dtype, np.integer):
+        max_a = np.abs(array_a.astype(float)).max()
+        max_b = np.abs(array_b.astype(float)).max()
+
+        if array_a.shape[-1] * max_a * max_b >= np.iinfo(dtype).max:
+            return np.dtype(float)
+
+    return dtype
+
+
 def _contains_point(obj: Any, point: array_like, **kwargs: float) -> bool:
     """
     Check if the object contains a point.
diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 8506026..2f42560 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -6,7 +6,7 @@ from typing import Optional, Tuple, cast
 
 import numpy as np
 
-from skspatial._functions import _subtract
+from skspatial._functions import _product_type, _subtract
 from skspatial.objects._base_line_plane import _BaseLinePlane
 from skspatial.objects._mixins import _ToPointsMixin
 from skspatial.objects.line import Line
@@ -233,7 +233,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         # The normal must be 3D to extract the coefficients.
         a, b, c = self.normal.set_dimension(3)
 
-        d = -self.normal.astype(np.result_type(self.normal, np.int64)).dot(self.point)
+        d = -self.normal.astype(_product_type(self.normal, self.point)).dot(self.point)
 
         return a, b, c, d
 
@@ -836,7 +836,8 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
                [0., 0.]])
 
         """
-        a, b, c, d = self.cartesian()
+        # The coefficients are floats, to avoid integer overflow.
+        a, b, c, d = np.multiply(self.cartesian(), 1.0)
 
         # The limits apply to the two axes along which the coordinates can be chosen freely.
         axes_free = [0, 1] if c != 0 else [0, 2] if b != 0 else [1, 2]
@@ -851,14 +852,14 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         X, Y = np.meshgrid(values_x, values_y)
 
         if c != 0:
-            Z = -(a * X + b * Y + d) / c
+            Z = (0 - (a * X + b * Y + d)) / c
 
         elif b != 0:
-            Z = -(a * X + c * Y + d) / b
+            Z = (0 - (a * X + c * Y + d)) / b
             X, Y, Z = X, Z, Y
 
         else:
-            Z = -(b * X + c * Y + d) / a
+            Z = (0 - (b * X + c * Y + d)) / a
             X, Y, Z = Z, X, Y
 
         return X, Y, Z
diff --git a/src/skspatial/objects/vector.py b/src/skspatial/objects/vector.py
index 216bb3f..ae136d3 100644
--- a/src/skspatial/objects/vector.py
+++ b/src/skspatial/objects/vector.py
@@ -7,7 +7,7 @@ from typing import cast
 
 import numpy as np
 
-from skspatial._functions import _subtract, np_float
+from skspatial._functions import _product_type, _subtract, np_float
 from skspatial.objects._base_array import _BaseArray1D
 from skspatial.typing import array_like
 
@@ -246,8 +246,8 @@ class Vector(_BaseArray1D):
         vector_a = self.set_dimension(3)
         vector_b = Vector(other).set_dimension(3)
 
-        # Narrow integers are widened, to avoid integer overflow.
-        dtype = np.result_type(vector_a, vector_b, np.int64)
+        # Use a type in which the products do not overflow.
+        dtype = _product_type(vector_a, vector_b)
 
         return Vector(np.cross(vector_a.astype(dtype), vector_b.astype(dtype)))
 
diff --git a/src/skspatial/transformation.py b/src/skspatial/transformation.py
index f4df78f..123346a 100644
--- a/src/skspatial/transformation.py
+++ b/src/skspatial/transformation.py
@@ -4,7 +4,7 @@ from typing import Sequence, cast
 
 import numpy as np
 
-from skspatial._functions import _subtract
+from skspatial._functions import _product_type, _subtract
 from skspatial.typing import array_like
 
 
@@ -54,8 +54,7 @@ def transform_coordinates(points: array_like, point_origin: array_like, vectors_
     vectors_to_points = _subtract(points, point_origin)
     array_basis = np.transpose(vectors_basis)
 
-    # Narrow integers are widened, to avoid integer overflow.
-    dtype = np.result_type(vectors_to_points, array_basis, np.int64)
+    dtype = _product_type(vectors_to_points, array_basis)
     array_transformed = np.matmul(vectors_to_points, array_basis, dtype=dtype)
 
     return cast(np.ndarray, array_transformed)
-- 
2.43.0

