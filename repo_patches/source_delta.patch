From d49ac2d3c67ff0956ead53ceaf5e8fcd4bda5732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 01/46] fix: do not reject valid polygons in ear clipping

The failure counter was accumulated over the whole run, so a simple polygon
with many reflex corners was reported as impossible to triangulate. Count
only the attempts made since the last clipped ear.
---
 building3d/geom/triangles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..c764211 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -262,6 +262,8 @@ def triangulate(
                 triangles.append((prev_id, curr_id, next_id))
                 # Remove pos from index
                 vertices.pop(pos)
+                # Remaining vertices get a fresh chance, because the polygon has changed
+                num_fail = 0
                 continue
             else:
                 # There is some point inside this triangle
-- 
2.43.0


From ece966c1c2a6d15ca60eb19b8e9d211ba5e7b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 02/46] fix: roll polygon points to a convex first corner when
 the normal is given

The class documentation promises it, and the plane coefficients, as well as
all file formats that do not store the normal, rely on the first corner.
---
 building3d/geom/polygon/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..e6f5575 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -7,6 +7,7 @@ from building3d.config import GEOM_ATOL
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.points import are_points_coplanar
+from building3d.geom.points import roll_forward
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.polygon.area import polygon_area
 from building3d.geom.polygon.centroid import polygon_centroid
@@ -16,9 +17,11 @@ from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_margin
 from building3d.geom.polygon.plane import plane_coefficients
 from building3d.geom.polygon.touching import are_polygons_touching
+from building3d.geom.triangles import is_corner_convex
 from building3d.geom.triangles import triangle_centroid
 from building3d.geom.triangles import triangulate
 from building3d.geom.types import FLOAT
+from building3d.geom.types import INT
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
@@ -83,6 +86,14 @@ class Polygon:
             assert len(tri) > 0, "Empty triangles provided"
             self.tri: IndexType = tri
 
+        if vn is not None:
+            # Roll points forward until the first corner is convex
+            for _ in range(len(self.pts)):
+                if is_corner_convex(self.pts[-1], self.pts[0], self.pts[1], self.vn):
+                    break
+                self.pts = roll_forward(self.pts)
+                self.tri = ((self.tri + 1) % len(self.pts)).astype(INT)
+
         self.ctr: PointType = polygon_centroid(self.pts, self.tri)
         self.area: float = polygon_area(self.pts, self.vn)
         self.plane_coefficients: tuple[FLOAT, FLOAT, FLOAT, FLOAT] = plane_coefficients(
-- 
2.43.0


From c453850a170486c134dc6da197cf2ee7c73b0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 03/46] fix: keep the flipped polygon's normal opposite to the
 original one

The normal was recalculated from the new first corner, which is the last
corner of the original polygon and may be non-convex or straight.
---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e6f5575..040a11a 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -150,7 +150,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-1 * self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From 510be08cf3630f0c9a32241f54c811be4c30d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:37 +0000
Subject: [PATCH 04/46] fix: make floor plans independent of the starting
 corner

A plan starting at (or ending with) a non-convex or straight corner produced
a floor or ceiling facing inwards and a wrong volume. The flipped floor or
ceiling polygon was also losing its name.
---
 building3d/geom/solid/floor_plan.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..16fe272 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -9,6 +9,7 @@ from building3d.geom.polygon import Polygon
 from building3d.geom.rotation import rotate_points_around_vector
 from building3d.geom.solid import Solid
 from building3d.geom.types import FLOAT
+from building3d.geom.vectors import new_vector
 from building3d.geom.wall import Wall
 
 logger = logging.getLogger(__name__)
@@ -101,15 +102,10 @@ def floor_plan(
 
         walls.append(wall)
 
-    floor_poly = Polygon(floor_pts, name=floor_name)
-    # Floor's normal should point downwards
-    if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
-
-    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
-    # Ceiling's normal should point upwards
-    if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+    # Floor's normal should point downwards, ceiling's normal should point upwards.
+    # The normals are given explicitly, because the plan may start at any corner.
+    floor_poly = Polygon(floor_pts, name=floor_name, vn=new_vector(0.0, 0.0, -1.0))
+    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name, vn=new_vector(0.0, 0.0, 1.0))
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From 54d7be56c24d6046326d8d370f6fe159346daa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:56 +0000
Subject: [PATCH 05/46] fix: solid volume must not be nan for faces coplanar
 with the origin

The Cayley-Menger determinant of a flat tetrahedron is a rounding residue,
which for room-sized coordinates can be more negative than the added epsilon.
The epsilon was also dominating the volume of small tetrahedra.
---
 building3d/geom/tetrahedrons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..14d213d 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
 
@@ -29,7 +28,8 @@ def tetrahedron_volume(
     nominator = (
         4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
     )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    # The nominator of a flat tetrahedron may be slightly negative due to rounding
+    vol = np.sqrt(max(nominator, 0.0)) / 12.0
 
     return vol
 
-- 
2.43.0


From 6c54423f5aceb7830ddf67de8dabc0e5b7152d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:15 +0000
Subject: [PATCH 06/46] fix: triangle area must not be nan for flat triangles

Same as in the tetrahedron volume: the epsilon under the square root did not
cover the rounding errors, and it dominated the area of small triangles.
---
 building3d/geom/triangles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index c764211..d94d9e8 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.config import GEOM_ATOL
 from building3d.config import GEOM_RTOL
 from building3d.config import POINT_NUM_DEC
@@ -29,7 +28,8 @@ def triangle_area(pt1: PointType, pt2: PointType, pt3: PointType) -> float:
     c = np.linalg.norm(vc)
 
     s = 0.5 * (a + b + c)
-    area = np.sqrt(s * (s - a) * (s - b) * (s - c) + EPSILON)
+    # The product may be slightly negative due to rounding
+    area = np.sqrt(max(s * (s - a) * (s - b) * (s - c), 0.0))
 
     return area
 
-- 
2.43.0


From dacab56253aea8f775343aa26b92bfeec6959224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:15 +0000
Subject: [PATCH 07/46] fix: normalize weights in the polygon centroid

The weighted sum of triangle centroids was not divided by the total area, so
the centroid was correct only for polygons with the area equal to 1.
---
 building3d/geom/polygon/centroid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..c072d08 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,4 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
-    return poly_ctr
+    return poly_ctr / weights.sum()
-- 
2.43.0


From a22e121cbc860d780fbaa3f2bbae5cb2d77e5da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:08 +0000
Subject: [PATCH 08/46] fix: slicing a polygon along its last edge

If slicing points started and ended at the edge connecting the last point with
the first one, they were inserted after the first point and the resulting
polygon was self-intersecting.
---
 .../geom/polygon/slice/get_point_arrays.py       | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 721076e..c742047 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -2,7 +2,6 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
-from building3d.geom.points import is_point_in_array
 from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
@@ -158,15 +157,12 @@ def get_point_arrays(
             raise ValueError("Unexpected slicing plane orientation")
 
         points_2 = []
-        slice_points_included = False
-        for p in pts:
-            points_2.append(p)
-            if not slice_points_included:
-                if is_point_in_array(p, edges[edge_num]):
-                    # Slicing ocurred at this edge - need to add slice_points
-                    for sp in slicing_pts:
-                        points_2.append(sp)
-                    slice_points_included = True
+        for i in range(len(pts)):
+            points_2.append(pts[i])
+            if i == edge_num:
+                # Slicing ocurred at the edge starting at this point - need to add slice_points
+                for sp in slicing_pts:
+                    points_2.append(sp)
 
         pts2 = list_pts_to_array(points_2)
 
-- 
2.43.0


From 1b482ef16a63168eb990c3e80ae87af83a1c9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:29 +0000
Subject: [PATCH 09/46] fix: replace only the sliced polygon when stitching
 solids

Polygon names are unique only within a wall, so comparing names replaced also
the polygons of other walls, if they happened to share the name.
---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..389fefb 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 541880203a385f7adb96655e95ef691d3e0370b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:40 +0000
Subject: [PATCH 10/46] fix: mesh of objects with empty children

An empty wall, solid or zone placed between non-empty ones made the following
meshes overwrite the previous ones.
---
 building3d/geom/mesh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..b42764f 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -36,13 +36,12 @@ def vstack_mesh(
     tri_offset = 0
     pts_offset = 0
     for i in range(num_objects):
+        if i > 0:
+            tri_offset += num_tri_per_obj[i - 1]
+            pts_offset += num_pts_per_obj[i - 1]
         for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
             faces[j + tri_offset] = t_tri[i][j] + num_pts_added
         for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
             verts[j + pts_offset] = t_pts[i][j]
             num_pts_added += 1
 
-- 
2.43.0


From d23e85890bd902c6b3560dbde41471b11c885817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:40 +0000
Subject: [PATCH 11/46] fix: return the identity matrix if points do not need
 to be rotated

---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From e123e64f69171dad1a56b0fd1502a7edd749ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:54 +0000
Subject: [PATCH 12/46] fix: do not skip translation of points already parallel
 to the plane

If no rotation was needed, the points were returned relative to the anchor
and were not moved to the requested plane.
---
 building3d/geom/rotation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..69a573f 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -116,25 +116,24 @@ def rotate_points_to_plane(
     # Find rotation axis
     rotaxis = np.cross(p_norm, u)
     if (np.abs(rotaxis) < GEOM_ATOL).all():
-        # No need to rotate, the points are already at the correct plane
+        # No need to rotate, the points are already parallel to the correct plane
         phi = 0.0
-        return pts, rotaxis, phi
+    else:
+        rotaxis /= np.linalg.norm(rotaxis)
 
-    rotaxis /= np.linalg.norm(rotaxis)
+        # Find rotation angle
+        phi = float(angle(p_norm, u))
 
-    # Find rotation angle
-    phi = angle(p_norm, u)
-
-    # Rotate the points
-    R = rotation_matrix(rotaxis, float(phi))
-    pts = pts.dot(R.T)
+        # Rotate the points
+        R = rotation_matrix(rotaxis, phi)
+        pts = pts.dot(R.T)
 
     # Move points back from anchor
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts += anchor
+        pts = pts + anchor
 
     # Move points to d (translation)
     p_dest = u * d
-    pts += p_dest
+    pts = pts + p_dest
 
-    return pts, rotaxis, float(phi)
+    return pts, rotaxis, phi
-- 
2.43.0


From b81b9ffa0ffc262d57be1b372b3839fbca738deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:43 +0000
Subject: [PATCH 13/46] fix: keep intersection points in order along the edge

If an edge was intersected more than once, the points were added in the order
of the other polygon's edges, which could make the new edges go back and forth.
---
 .../geom/polygon/slice/add_intersection_points.py    | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/building3d/geom/polygon/slice/add_intersection_points.py b/building3d/geom/polygon/slice/add_intersection_points.py
index 40b2b54..f304bd2 100644
--- a/building3d/geom/polygon/slice/add_intersection_points.py
+++ b/building3d/geom/polygon/slice/add_intersection_points.py
@@ -66,18 +66,20 @@ def add_intersection_points(
                     intersect_ix2[i2] = typed.List.empty_list(types.int64)
                 intersect_ix2[i2].append(pt_index)
 
-    # Add intersection points
+    # Add intersection points (in the order they are met when moving along the edge)
     for i1 in range(edges1.shape[0]):
         out1.append(edges1[i1, 0])
         if i1 in intersect_ix1:
-            for pt_index in intersect_ix1[i1]:
-                out1.append(intersect_pts[pt_index])
+            d = [np.linalg.norm(intersect_pts[k] - edges1[i1, 0]) for k in intersect_ix1[i1]]
+            for k in np.argsort(np.array(d)):
+                out1.append(intersect_pts[intersect_ix1[i1][k]])
 
     for i2 in range(edges2.shape[0]):
         out2.append(edges2[i2, 0])
         if i2 in intersect_ix2:
-            for pt_index in intersect_ix2[i2]:
-                out2.append(intersect_pts[pt_index])
+            d = [np.linalg.norm(intersect_pts[k] - edges2[i2, 0]) for k in intersect_ix2[i2]]
+            for k in np.argsort(np.array(d)):
+                out2.append(intersect_pts[intersect_ix2[i2][k]])
 
     new_pts1 = list_pts_to_array(out1)
     new_pts2 = list_pts_to_array(out2)
-- 
2.43.0


From 9e71e94ead2b9a5ec227037e2dbc8ad80fd2e5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:17 +0000
Subject: [PATCH 14/46] fix: stitch solids if one polygon crosses the other
 more than once

The slicing points were expected to make a single chain. If a polygon was
crossed twice (e.g. by a long and narrow wall), stitching failed with
NotImplementedError or never ended. Slice along one chain at a time.
---
 building3d/geom/solid/stitch.py | 62 +++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index 389fefb..d3c9273 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -2,8 +2,12 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
+from building3d.geom.points import is_point_on_segment
+from building3d.geom.points import points_equal
 from building3d.geom.points.find_close_pairs import find_close_pairs
 from building3d.geom.polygon import Polygon
+from building3d.geom.polygon.edges import polygon_edges
+from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.slice import slice_polygon
 from building3d.geom.polygon.slice.add_intersection_points import \
     add_intersection_points
@@ -116,7 +120,7 @@ def slice_one_and_replace(
         tuple of polygons `(a, b)`, where `b` is the polygon surrounded by `slicing_pts`
     """
     _, slicing_pts = add_intersection_points(p.pts, slicing_pts)
-    slicing_pts = remove_outside_points(p, slicing_pts)
+    slicing_pts = get_crossing_chain(p, slicing_pts)
 
     if len(slicing_pts) < 2:
         return None, None
@@ -158,13 +162,49 @@ def get_walls_and_polygons(s: Solid) -> list[tuple[Wall, Polygon]]:
     return wpl
 
 
-def remove_outside_points(poly: Polygon, slicing_pts: PointType) -> PointType:
-    """Returns only those slicing points which are inside `poly` (boundary included)."""
-    pts = np.zeros(slicing_pts.shape, dtype=FLOAT)
-    j = 0
-    for i in range(slicing_pts.shape[0]):
-        pt = slicing_pts[i]
-        if poly.is_point_inside(pt, boundary_in=True):
-            pts[j] = pt
-            j += 1
-    return pts[:j]
+def get_crossing_chain(poly: Polygon, slicing_pts: PointType) -> PointType:
+    """Returns the first chain of slicing points crossing the interior of `poly`.
+
+    The chain starts and ends at the boundary of `poly`, so it slices it into exactly 2 parts.
+    If the slicing points cross the polygon more than once, only a single chain is returned.
+
+    Args:
+        poly: Polygon to be sliced
+        slicing_pts: Slicing points (closed, the last point is connected with the first one)
+
+    Return:
+        chain of points or empty array if the interior of `poly` is not crossed
+    """
+    pts = add_vertices_on_edges(poly.pts, slicing_pts)
+    num_pts = len(pts)
+    at_boundary = [is_point_at_boundary(pt, poly.pts) for pt in pts]
+
+    for start in range(num_pts):
+        if not at_boundary[start]:
+            continue
+        chain = [pts[start]]
+        for i in range(start + 1, start + num_pts):
+            pt = pts[i % num_pts]
+            if not poly.is_point_inside(0.5 * (chain[-1] + pt), boundary_in=False):
+                break
+            chain.append(pt)
+            if at_boundary[i % num_pts]:
+                return np.vstack(chain)
+
+    return np.zeros((0, 3), dtype=FLOAT)
+
+
+def add_vertices_on_edges(vertices: PointType, pts: PointType) -> PointType:
+    """Adds to `pts` those `vertices` which lay on the edges of `pts`."""
+    out = []
+    for pt1, pt2 in polygon_edges(pts):
+        out.append(pt1)
+        on_edge = [
+            v
+            for v in vertices
+            if is_point_on_segment(v, pt1, pt2)
+            and not points_equal(v, pt1)
+            and not points_equal(v, pt2)
+        ]
+        out.extend(sorted(on_edge, key=lambda v: np.linalg.norm(v - pt1)))
+    return np.vstack(out)
-- 
2.43.0


From 154374f645b3cb305686e1bf8fa0be60a13900f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:53 +0000
Subject: [PATCH 15/46] fix: do not return a cached graph made for different
 connection types

---
 building3d/geom/building/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..572b77c 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -56,6 +56,7 @@ class Building:
         self.graph_wall = {}
         self.graph_solid = {}
         self.graph_zone = {}
+        self.graph_params = ()
 
         logger.info(f"Building created: {self}")
 
@@ -162,10 +163,12 @@ class Building:
         Returns:
             dict with connections at a specified level
         """
-        if len(self.graph) == 0:
+        params = (facing, overlapping, touching)
+        if len(self.graph) == 0 or self.graph_params != params:
             new = True
 
         if new is True:
+            self.graph_params = params
             self.graph = graph_polygon(self, facing, overlapping, touching)
             self.graph_wall = graph_wall(
                 self, facing, overlapping, touching, self.graph
-- 
2.43.0


From a3f0708ab0c6acbfcd8dc0f9fcbe3d6d75813822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:14 +0000
Subject: [PATCH 16/46] fix: stitch all adjacent solids of a building

Solids with the same names in different zones were mistaken for each other,
solids with a polygon completely inside another one were not found, and
the cached graph was outdated after stitching.
---
 building3d/geom/building/__init__.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 572b77c..c28a8c1 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -9,6 +9,7 @@ from building3d.geom.building.graph import graph_polygon
 from building3d.geom.building.graph import graph_solid
 from building3d.geom.building.graph import graph_wall
 from building3d.geom.building.graph import graph_zone
+from building3d.geom.building.graph import iter_solids
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.paths import PATH_SEP
 from building3d.geom.paths.validate_name import validate_name
@@ -195,21 +196,14 @@ class Building:
         """Find adjacent solids and stitch them."""
         logger.info(f"Stitching solids in building {self}")
 
-        # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
-        done = []
-
-        for s_path in adj_solids.keys():
-            for adj_s_path in adj_solids[s_path]:
-                _, z1_name, s_name = s_path.split(PATH_SEP)
-                _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
-
-                if set([s_name, adj_s_name]) not in done:
-                    stitch_solids(
-                        s1=self.zones[z1_name].solids[s_name],
-                        s2=self.zones[z2_name].solids[adj_s_name],
-                    )
-                    done.append(set([s_name, adj_s_name]))
+        # Solids which are not adjacent are left untouched
+        solids = list(iter_solids(self))
+        for i, s1 in enumerate(solids):
+            for s2 in solids[i + 1 :]:
+                stitch_solids(s1, s2)
+
+        # Polygons might have been replaced, so the graph is outdated
+        self.graph = {}
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From b528e94866ef6426a392da1a3dd57b881cffed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:03 +0000
Subject: [PATCH 17/46] fix: do not cache transparent polygons

The cache was indexed with id(building), so the results were outdated after
modifying the building, or could come from another (deleted) building.
---
 building3d/sim/rays/find_transparent.py | 75 +++++++++++--------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..7bcca31 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -2,7 +2,7 @@
 Lines of code, a building's tale,
 Transparent polygons we unveil.
 From solids and zones, a structure grows,
-A cache to speed up what it knows.
+And light goes where the model shows.
 
 Graphs and paths, a complex dance,
 Finding faces at a glance.
@@ -14,8 +14,8 @@ Building models, day and night.
 A script so clever, it does impart,
 The essence of the builder's art.
 
-In memory cached, results we keep,
-For future queries, fast and deep.
+No result from the past we keep,
+For every query, fresh and deep.
 A poem of logic, clean and neat,
 This building script, a coding feat.
 """
@@ -29,10 +29,6 @@ from building3d.geom.paths.split_path import split_path
 logger = logging.getLogger(__name__)
 
 
-# Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
-
-
 def find_transparent(building: Building) -> set[str]:
     """Finds and returns the list of transparent polygons in the building.
 
@@ -45,39 +41,32 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
-
-    else:
-        # Find facing polygons (matching exactly)
-        logger.debug("Making graph")
-        graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
-
-        transparent_polygons = []
-        added = set()
-
-        logger.debug("Iterating through the graph items")
-        for k, v in graph.items():
-            assert isinstance(v, list)
-            assert (
-                len(v) <= 1
-            ), f"Expected one facing polygon, but found more ({len(v)})"
-
-            if len(v) == 1:
-                if k not in added or v[0] not in added:
-                    _, z0, *_ = split_path(k)
-                    _, z1, *_ = split_path(v[0])
-
-                    # Doesn't have to check if plg0 is facing plg1,
-                    # because if they are in the graph, they must be
-                    if z0 == z1:
-                        logger.debug(f"Transparent polygons found: {k}, {v[0]}")
-                        transparent_polygons.extend([k, v[0]])
-                        added.add(k)
-                        added.add(v[0])
-
-        # Add to CACHE
-        set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
-
-        return set_of_transparent_polygons
+
+    # Find facing polygons (matching exactly)
+    logger.debug("Making graph")
+    graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
+
+    transparent_polygons = []
+    added = set()
+
+    logger.debug("Iterating through the graph items")
+    for k, v in graph.items():
+        assert isinstance(v, list)
+        assert (
+            len(v) <= 1
+        ), f"Expected one facing polygon, but found more ({len(v)})"
+
+        if len(v) == 1:
+            if k not in added or v[0] not in added:
+                _, z0, *_ = split_path(k)
+                _, z1, *_ = split_path(v[0])
+
+                # Doesn't have to check if plg0 is facing plg1,
+                # because if they are in the graph, they must be
+                if z0 == z1:
+                    logger.debug(f"Transparent polygons found: {k}, {v[0]}")
+                    transparent_polygons.extend([k, v[0]])
+                    added.add(k)
+                    added.add(v[0])
+
+    return set(transparent_polygons)
-- 
2.43.0


From 6c4047c1a853767fa4f7b32c0847bb1ffad956f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:03 +0000
Subject: [PATCH 18/46] fix: do not fail if the buffer directory exists and is
 empty

---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..27fab01 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -94,7 +94,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From c9ff167cd81ce3699cfec8150b347974eb7474ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:03 +0000
Subject: [PATCH 19/46] fix: create the dump directory if it does not exist

---
 building3d/sim/rays/dump_buffers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/sim/rays/dump_buffers.py b/building3d/sim/rays/dump_buffers.py
index 0df4ea2..6d20706 100644
--- a/building3d/sim/rays/dump_buffers.py
+++ b/building3d/sim/rays/dump_buffers.py
@@ -1,4 +1,5 @@
 import logging
+import os
 
 import numpy as np
 
@@ -36,6 +37,7 @@ def dump_buffers(
         None
     """
     logger.debug(f"Saving buffers to {dump_dir}")
+    os.makedirs(dump_dir, exist_ok=True)
 
     step = 0
     num_steps = pos_buf.shape[0]
-- 
2.43.0


From fdb93453f645e9fb91107f2408bab84234cb8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:50 +0000
Subject: [PATCH 20/46] fix: use surface absorption set for individual polygons
 in the simulation

The values set with set_surface_param() were ignored. The default value can
still be changed after the configuration is initialized.
---
 building3d/sim/rays/simulation.py        |  5 +++--
 building3d/sim/rays/simulation_config.py | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 27fab01..7c6866a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..7175ba7 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -50,6 +50,8 @@ class SimulationConfig:
                 # To add custom values to each polygon use self.set_surface_param()
             },
         }
+        # Values filled in with the default, i.e. not set by the user
+        self.default_surfaces: dict[str, dict[str, float]] = {}
         self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
@@ -80,6 +82,9 @@ class SimulationConfig:
         for key in self.surfaces.keys():
             for path in poly_paths:
                 self.surfaces[key][path] = self.surfaces[key]["default"]
+            self.default_surfaces[key] = {
+                path: self.surfaces[key]["default"] for path in poly_paths
+            }
 
     def set_surface_param(
         self,
@@ -118,13 +123,17 @@ class SimulationConfig:
             logger.error(str(e))
             raise e
 
+        default_surfaces = self.default_surfaces.get(param_name, {})
+
         if isinstance(obj, Polygon):
             self.surfaces[param_name][surface_path] = value
+            default_surfaces.pop(surface_path, None)
         elif isinstance(obj, (Building, Zone, Solid, Wall)):
             # Set the value to all polygons belonging to this object
             polygon_paths = obj.get_polygon_paths()
             for path in polygon_paths:
                 self.surfaces[param_name][path] = value
+                default_surfaces.pop(path, None)
         else:
             raise TypeError(f"Incorrect type of object: {type(obj)}")
 
@@ -161,8 +170,11 @@ class SimulationConfig:
             assert 0 <= poly.num < len(poly_paths), "The polygon is numbered incorrectly"
 
             # Assign values to the return array
-            if pp in self.surfaces[param_name]:
-                values[poly.num] = self.surfaces[param_name][pp]
+            # (the default might have been changed since the surfaces were filled with it)
+            value = self.surfaces[param_name].get(pp)
+            default_value = self.default_surfaces.get(param_name, {}).get(pp)
+            if value is not None and value != default_value:
+                values[poly.num] = value
             else:
                 values[poly.num] = self.surfaces[param_name]["default"]
 
-- 
2.43.0


From f230fb04c87da03f8ad5eeb113d1909ed97e4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:27 +0000
Subject: [PATCH 21/46] fix: write objects without children to B3D

Empty zones, solids and walls were lost, and a building without polygons
could not be read back.
---
 building3d/io/b3d.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..b23d6a4 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -61,17 +61,18 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
 
+    # Nested dicts are created also for objects without children
+    zones = bdict["zones"]
     for z in bdg.zones.values():
+        solids = zones[z.name]
         for s in z.solids.values():
+            walls = solids[s.name]
             for w in s.walls.values():
+                polygons = walls[w.name]
                 for p in w.polygons.values():
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "pts"
-                    ] = p.pts.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "tri"
-                    ] = p.tri.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name]["uid"] = p.uid
+                    polygons[p.name]["pts"] = p.pts.tolist()
+                    polygons[p.name]["tri"] = p.tri.tolist()
+                    polygons[p.name]["uid"] = p.uid
 
     # Save to JSON
     with open(path, "w") as f:
-- 
2.43.0


From 86b234bc9edbceb9644d94f6b7817749be7af3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:27 +0000
Subject: [PATCH 22/46] fix: read a building without solids from the array
 format

---
 building3d/io/arrayformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/arrayformat.py b/building3d/io/arrayformat.py
index 44fa6d0..9b6bf21 100644
--- a/building3d/io/arrayformat.py
+++ b/building3d/io/arrayformat.py
@@ -120,7 +120,7 @@ def from_array_format(
     num_polys = len(walls)
     num_walls = len(solids)
     num_solids = len(zones)
-    num_zones = np.max(zones) + 1
+    num_zones = np.max(zones) + 1 if num_solids > 0 else 0
 
     poly_obj = []
     for pi in range(num_polys):
-- 
2.43.0


From 43561856bdba4da681120484e67d9f12f5416ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:27 +0000
Subject: [PATCH 23/46] fix: keep solid ids when reading STL

---
 building3d/io/stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/io/stl.py b/building3d/io/stl.py
index a74420b..dda3695 100644
--- a/building3d/io/stl.py
+++ b/building3d/io/stl.py
@@ -165,7 +165,7 @@ def read_stl(path: str) -> Building:
                 if solid_uid is None or solid_uid == "":
                     solid_uid = random_id()
 
-                solid = Solid([wall])
+                solid = Solid([wall], uid=solid_uid)
                 zone.add_solid(solid)
             else:
                 raise ValueError("No wall created, so cannot add it to the zone/solid.")
-- 
2.43.0


From f834dd5ac30489f4149d9ccef180d8bfdbdc7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:37 +0000
Subject: [PATCH 24/46] fix: compare polygons with different number of points

Facing and touching depended on the order of polygons, and comparing them
with == raised an error.
---
 building3d/geom/polygon/__init__.py | 2 +-
 building3d/geom/polygon/facing.py   | 3 +++
 building3d/geom/polygon/touching.py | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 040a11a..5a5b5ca 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -186,7 +186,7 @@ class Polygon:
         return are_polygons_touching(self.pts, self.tri, other.pts, other.tri)
 
     def __eq__(self, other):
-        if np.allclose(self.pts, other.pts):
+        if self.pts.shape == other.pts.shape and np.allclose(self.pts, other.pts):
             return True
         else:
             return False
diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..f0ef95f 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -39,6 +39,9 @@ def are_polygons_facing(
     if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
         return False
 
+    if len(pts1) != len(pts2):
+        return False
+
     bbox1 = bounding_box(pts1)
     bbox2 = bounding_box(pts2)
     if not are_bboxes_overlapping(bbox1, bbox2):
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..3fd35e4 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -87,9 +87,12 @@ def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
         pts2 (PointType): Second set of points.
 
     Returns:
-        bool: True if all points in pts1 have a matching point in pts2,
+        bool: True if all points in pts1 have a matching point in pts2 and vice versa,
               False otherwise.
     """
+    if len(pts1) != len(pts2):
+        return False
+
     num_matching = 0
     matched = set()
 
-- 
2.43.0


From 2456d1dcc2cefbd54852fd77c42fcf037ea74a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:26 +0000
Subject: [PATCH 25/46] fix: polygons with same points but different shape are
 not facing

---
 building3d/geom/polygon/facing.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index f0ef95f..3866606 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -5,7 +5,6 @@ from building3d.config import GEOM_RTOL
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import points_equal
-from building3d.geom.polygon.area import polygon_area
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
 
@@ -34,7 +33,7 @@ def are_polygons_facing(
 
     Note:
         This function uses bounding box overlap and point matching to determine
-        if polygons are facing. It may have rare cases of incorrect solutions.
+        if polygons are facing. The connections between the points must be the same.
     """
     if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
         return False
@@ -47,22 +46,14 @@ def are_polygons_facing(
     if not are_bboxes_overlapping(bbox1, bbox2):
         return False
 
-    num_matching = 0
-    matched = set()
-
-    # This does not test if the connections between points are same,
-    # so it additionally tests if the areas are the same.
-    # If all the points are the same and areas are the same, the polygons are
-    # most likely with the same shape.
-    # TODO: There might still be rare cases where it gives incorrect result.
-    for i in range(pts1.shape[0]):
-        for j in range(pts2.shape[0]):
-            if j not in matched:
-                if points_equal(pts1[i], pts2[j]):
-                    num_matching += 1
-                    matched.add(j)
-                    break
-    if num_matching == len(pts1):
-        if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
+    # Facing polygons have the same points, but in the opposite order
+    num_pts = len(pts1)
+    for start in range(num_pts):
+        num_matching = 0
+        for i in range(num_pts):
+            if not points_equal(pts1[i], pts2[(start - i) % num_pts]):
+                break
+            num_matching += 1
+        if num_matching == num_pts:
             return True
     return False
-- 
2.43.0


From a1b3f1f871d01c9705aa031c003575997c59fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:26 +0000
Subject: [PATCH 26/46] fix: time axis of the impulse response

The last sample was assigned to num_steps * time_step, so the samples were
not spaced with time_step.
---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From 0ec8b144774e9222f942465643262bd1c2fdfa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:55 +0000
Subject: [PATCH 27/46] fix: match wildcard paths literally and from the
 beginning of a name

Regex special characters were not escaped. Files with names only ending with
the pattern were also matched, and leading digits were lost if the path was
starting with a wildcard.
---
 building3d/paths/wildcardpath.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..f89d50c 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -216,16 +216,17 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
+        re_path = re.escape(self.path)
         start, stop = WildcardPath.wcard_sep
 
         for wname in self._wildcards:
-            wcard = self.wrap(wname)
+            wcard = re.escape(self.wrap(wname))
             groups = self._groups[wname]
 
             for gr in groups:
                 re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        # The path must start with a complete name of a file or directory
+        re_path = r"(?:.*[/\\])?" + re_path + "/*$"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From d400e6b0f8f92d51bc232ae92c32e9b0da146f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:51 +0000
Subject: [PATCH 28/46] fix: points near the edges of a triangle which is not
 axis-aligned

Directions of two parallel vectors were compared with a very strict tolerance,
so points inside could be treated as being outside due to rounding.
---
 building3d/geom/triangles.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index d94d9e8..12b0bf1 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -76,9 +76,8 @@ def is_point_on_same_side(
         # This point lies on the edge connecting p1 and p2
         return False
     else:
-        vtest /= len_vtest
-        vref /= len_vref
-        return bool(np.isclose(vtest, vref, atol=atol).all())
+        # Both vectors are perpendicular to the same plane, so only the sign is important
+        return bool(np.dot(vtest, vref) > 0.0)
 
 
 @njit
-- 
2.43.0


From c1f293ff382fce640da489f22bf392ffc11dc5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:51 +0000
Subject: [PATCH 29/46] fix: point inside a solid far from the origin

Points projected on the polygon's plane are subject to rounding errors larger
than the default tolerance.
---
 building3d/geom/solid/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..7ab1775 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -150,7 +150,11 @@ class Solid:
         num_crossings = 0
         all_polys = [p for w in self.children.values() for p in w.children.values()]
         for poly in all_polys:
-            p_crosses_polygon = is_point_inside_projection(pt, vec, poly.pts, poly.tri)
+            # The projected point is never exactly on the polygon's plane due to rounding,
+            # so the default tolerance is too strict
+            p_crosses_polygon = is_point_inside_projection(
+                pt, vec, poly.pts, poly.tri, atol=1e-8
+            )
             if p_crosses_polygon:
                 num_crossings += 1
 
-- 
2.43.0


From bb680e80287281df36b35c2d551058abb947c415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:21 +0000
Subject: [PATCH 30/46] fix: point inside a solid if the test ray goes through
 an edge

---
 building3d/geom/solid/__init__.py | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 7ab1775..1c691b7 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -143,22 +143,30 @@ class Solid:
             return False
 
         # It is possible, so we proceed with the ray casting algorithm
-        # This algorithm may give wrong answer if the point lays in the corner
-        vec = np.array([0.739, 0.239, 0.113])  # Just a random vector
-        vec /= np.linalg.norm(vec)
-
-        num_crossings = 0
+        # A single direction may give wrong answer if it goes through an edge or a corner,
+        # because such a crossing is counted more than once. Most of the directions must agree.
+        directions = np.array(  # Just random vectors
+            [[0.739, 0.239, 0.113], [-0.283, 0.691, 0.419], [0.157, -0.367, -0.811]]
+        )
+        num_inside = 0
         all_polys = [p for w in self.children.values() for p in w.children.values()]
-        for poly in all_polys:
-            # The projected point is never exactly on the polygon's plane due to rounding,
-            # so the default tolerance is too strict
-            p_crosses_polygon = is_point_inside_projection(
-                pt, vec, poly.pts, poly.tri, atol=1e-8
-            )
-            if p_crosses_polygon:
-                num_crossings += 1
-
-        if num_crossings % 2 == 1:
+        for vec in directions:
+            vec /= np.linalg.norm(vec)
+
+            num_crossings = 0
+            for poly in all_polys:
+                # The projected point is never exactly on the polygon's plane due to rounding,
+                # so the default tolerance is too strict
+                p_crosses_polygon = is_point_inside_projection(
+                    pt, vec, poly.pts, poly.tri, atol=1e-8
+                )
+                if p_crosses_polygon:
+                    num_crossings += 1
+
+            if num_crossings % 2 == 1:
+                num_inside += 1
+
+        if num_inside > len(directions) // 2:
             return True
         else:
             # Check if point is at the boundary
-- 
2.43.0


From 27fd2ab4c206bc59d7ba93e1e0692cbe6595337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:21 +0000
Subject: [PATCH 31/46] fix: keep the wall and solid unchanged if a child
 cannot be replaced

---
 building3d/geom/solid/__init__.py | 4 ++++
 building3d/geom/wall/__init__.py  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 1c691b7..d99bcd3 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,6 +81,10 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
+        # Make sure the new wall can be added before removing the old one
+        if new_wall.name != old_name and new_wall.name in self.walls.keys():
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+
         del self.walls[old_name]
         self.add_wall(new_wall)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..cda7ceb 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,6 +81,12 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
+        # Make sure the new polygons can be added before removing the old one
+        names = [poly.name for poly in new_poly]
+        remaining = [name for name in self.polygons.keys() if name != old_name]
+        if len(set(names + remaining)) < len(names + remaining):
+            raise GeometryError(f"Polygon names must be unique within the wall: {names}")
+
         del self.polygons[old_name]
         for np in new_poly:
             self.add_polygon(np)
-- 
2.43.0


From bdc826403ff8ac0a269ba632bf84b4df553b5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:50 +0000
Subject: [PATCH 32/46] fix: polygons with a small overlap or the same area are
 not touching

---
 building3d/geom/polygon/touching.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 3fd35e4..43c7bc8 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -4,8 +4,10 @@ from numba import njit
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
+from building3d.geom.polygon.crossing import are_polygons_crossing
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.ispointinside import is_point_inside
+from building3d.geom.triangles import triangle_centroid
 from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 
@@ -40,6 +42,14 @@ def are_polygons_touching(
     if are_all_points_same(pts1, pts2):
         return False
 
+    # The area may be the same even if the points are not, e.g. due to additional points on edges
+    some_pt1 = triangle_centroid(pts1[tri1[0, 0]], pts1[tri1[0, 1]], pts1[tri1[0, 2]])
+    some_pt2 = triangle_centroid(pts2[tri2[0, 0]], pts2[tri2[0, 1]], pts2[tri2[0, 2]])
+    if is_point_inside(some_pt1, pts2, tri2, boundary_in=False):
+        return False
+    if is_point_inside(some_pt2, pts1, tri1, boundary_in=False):
+        return False
+
     ab_touch, ab_inside = check_poly_a_against_b(pts1, tri1, pts2)
     ba_touch, ba_inside = check_poly_a_against_b(pts2, tri2, pts1)
 
@@ -47,7 +57,8 @@ def are_polygons_touching(
         # If any point is inside another polygon, they are crossing
         return False
     elif ab_touch or ba_touch:
-        return True
+        # The part inside might be too small to be noticed above
+        return not are_polygons_crossing(pts1, tri1, pts2, tri2)
 
     # Not touching, not not crossing
     return False
-- 
2.43.0


From 55abfaf8902bbf129b638320c781ccc5519fb9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:16 +0000
Subject: [PATCH 33/46] fix: find points on long segments and segments far from
 the origin

---
 building3d/geom/points/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 5b257f3..276bb46 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -257,10 +257,11 @@ def is_point_on_segment(
     if np.allclose(ptest, pt1, atol=atol) or np.allclose(ptest, pt2, atol=atol):
         return True
 
-    # Check collinearity using the cross product
-    if not np.allclose(
-        np.cross(ptest - pt1, pt2 - pt1), np.zeros(3, dtype=FLOAT), atol=atol
-    ):
+    # Check collinearity using the cross product, i.e. distance from the line times segment length
+    # The rounding errors are proportional to the coordinates
+    max_dist = atol * max(1.0, np.abs(pt1).max(), np.abs(pt2).max())
+    cross_product = np.cross(ptest - pt1, pt2 - pt1)
+    if np.linalg.norm(cross_product) > max_dist * np.linalg.norm(pt2 - pt1):
         return False
 
     # Check if the point lies within the segment bounds
-- 
2.43.0


From 5b38b9062e933da3ba8921c996559dd36bd6212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:57 +0000
Subject: [PATCH 34/46] fix: segments ending at a polygon cross it

---
 building3d/geom/polygon/crossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index bc34a88..9e6c77d 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -105,7 +105,7 @@ def is_line_segment_crossing_polygon(
     )
 
     # Check if the intersection point is within the line segment
-    if t < 0 or t > 1:
+    if t < -epsilon or t > 1 + epsilon:
         return False
 
     intersect_pt = seg_start + t * segment_direction
-- 
2.43.0


From 541d0a4a3de74c0576893d69a8ade234081b841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:06 +0000
Subject: [PATCH 35/46] fix: points at the boundary of a rotated solid are
 inside

---
 building3d/geom/solid/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index d99bcd3..9d75a4d 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -3,6 +3,7 @@ from typing import Sequence
 
 import numpy as np
 
+from building3d.config import GEOM_ATOL
 from building3d.random import random_id
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.paths import PATH_SEP
@@ -137,8 +138,9 @@ class Solid:
         solid; if the number of intersections is odd, it is inside.
         """
         bbox = self.bbox()
-        min_x, min_y, min_z = bbox[0]
-        max_x, max_y, max_z = bbox[1]
+        # Points at the boundary may be slightly outside the bounding box due to rounding
+        min_x, min_y, min_z = bbox[0] - GEOM_ATOL
+        max_x, max_y, max_z = bbox[1] + GEOM_ATOL
 
         # Check if it is possible that the point is inside the solid
         if pt[0] > max_x or pt[1] > max_y or pt[2] > max_z:
-- 
2.43.0


From 20da6807d2c0e7da11b9b31599219e6d67337410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:50 +0000
Subject: [PATCH 36/46] fix: volume of solids far from the origin

---
 building3d/geom/tetrahedrons.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index 14d213d..fd15237 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -12,24 +12,12 @@ def tetrahedron_volume(
     pt2: PointType,
     pt3: PointType,
 ) -> FLOAT:
-    """Calculates volume using the Cayley-Menger formula."""
-    # Edge lengths
-    a = np.linalg.norm(pt1 - pt0)
-    b = np.linalg.norm(pt2 - pt0)
-    c = np.linalg.norm(pt3 - pt0)
-    d = np.linalg.norm(pt2 - pt1)
-    e = np.linalg.norm(pt3 - pt2)
-    f = np.linalg.norm(pt3 - pt1)
+    """Calculates volume using the scalar triple product.
 
-    x = b**2 + c**2 - e**2
-    y = a**2 + c**2 - f**2
-    z = a**2 + b**2 - d**2
-
-    nominator = (
-        4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
-    )
-    # The nominator of a flat tetrahedron may be slightly negative due to rounding
-    vol = np.sqrt(max(nominator, 0.0)) / 12.0
+    The Cayley-Menger formula, based only on the edge lengths, is not accurate enough for
+    almost flat tetrahedrons, e.g. if one of the vertices is far away from the others.
+    """
+    vol = np.abs(np.dot(pt1 - pt0, np.cross(pt2 - pt0, pt3 - pt0))) / 6.0
 
     return vol
 
-- 
2.43.0


From 6e77b0a682a37adfa1e7cb2bfe6771acacbe9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:08 +0000
Subject: [PATCH 37/46] fix: detect all overlapping polygons, independent of
 the size of the common part

---
 building3d/geom/polygon/crossing.py | 80 +++++++++++++++++++----------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index 9e6c77d..90f5220 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -1,14 +1,14 @@
 import numpy as np
 from numba import njit
 
+from building3d.config import EPSILON
 from building3d.geom.points import are_points_coplanar
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import cube_edges
 from building3d.geom.bboxes import cube_polygons
+from building3d.geom.points import is_point_on_segment
 from building3d.geom.points import new_point_between_2_points
-from building3d.geom.points import points_equal
-from building3d.geom.points.distance import distance_point_to_edge
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_inside
@@ -42,30 +42,58 @@ def are_polygons_crossing(
         return False
 
     for e1 in polygon_edges(pts1):
-        for e2 in polygon_edges(pts2):
-            if (
-                points_equal(e1[0], e2[0])
-                or points_equal(e1[0], e2[1])
-                or points_equal(e1[1], e2[1])
-                or points_equal(e1[1], e2[0])
-            ):
-                continue
-            else:
-                p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
-                if np.isnan(p_cross).any():
-                    continue
-                elif np.isclose(
-                    distance_point_to_edge(p_cross, e1[0], e1[1]), 0
-                ) or np.isclose(distance_point_to_edge(p_cross, e2[0], e2[1]), 0):
-                    for x in np.linspace(0, 1, 10):
-                        p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
-                        if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
-                            return True
-                        p_mid = new_point_between_2_points(e2[0], e2[1], rel_d=x)
-                        if is_point_inside(p_mid, pts1, tri1, boundary_in=False):
-                            return True
-                else:
-                    return True
+        if is_edge_entering_polygon(e1[0], e1[1], pts2, tri2):
+            return True
+    for e2 in polygon_edges(pts2):
+        if is_edge_entering_polygon(e2[0], e2[1], pts1, tri1):
+            return True
+    return False
+
+
+@njit
+def is_edge_entering_polygon(
+    pt1: PointType,
+    pt2: PointType,
+    pts: PointType,
+    tri: IndexType,
+) -> bool:
+    """Checks if an edge meets the boundary of a coplanar polygon and some part of it is inside.
+
+    The edge is divided at all points common with the boundary of the polygon,
+    so each part is either completely inside or completely outside.
+
+    Args:
+        pt1: first point of the edge
+        pt2: second point of the edge
+        pts: polygon's points
+        tri: polygon's triangles
+
+    Returns:
+        True if the edge enters the polygon, False if it's outside or doesn't meet the boundary
+    """
+    common_pts = [pt1, pt2]
+    for ed in polygon_edges(pts):
+        p_cross = line_segment_intersection(pt1, pt2, ed[0], ed[1])
+        if not np.isnan(p_cross).any():
+            common_pts.append(p_cross)
+        if is_point_on_segment(ed[0], pt1, pt2):
+            common_pts.append(ed[0])
+
+    if len(common_pts) == 2:
+        return False
+
+    # Relative positions along the edge
+    v12 = pt2 - pt1
+    rel_d = np.array([np.dot(pt - pt1, v12) / np.dot(v12, v12) for pt in common_pts])
+    rel_d = np.sort(rel_d)
+
+    for i in range(len(rel_d) - 1):
+        if rel_d[i + 1] - rel_d[i] > EPSILON:
+            p_mid = new_point_between_2_points(
+                pt1, pt2, rel_d=0.5 * (rel_d[i] + rel_d[i + 1])
+            )
+            if is_point_inside(p_mid, pts, tri, boundary_in=False):
+                return True
     return False
 
 
-- 
2.43.0


From f88ff89f80d6fed514df423e11db6cce6c8d5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:28 +0000
Subject: [PATCH 38/46] fix: make stitched polygons of non-rectangular solids
 match exactly

---
 building3d/geom/solid/stitch.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index d3c9273..a2d15c9 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -2,6 +2,7 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
+from building3d.geom.points import are_points_collinear
 from building3d.geom.points import is_point_on_segment
 from building3d.geom.points import points_equal
 from building3d.geom.points.find_close_pairs import find_close_pairs
@@ -138,11 +139,32 @@ def slice_one_and_replace(
     if not np.allclose(b.vn, p.vn):
         b = b.flip()
 
+    # Both solids must have exactly the same points at the interface
+    a = remove_points_on_straight_edges(a)
+    b = remove_points_on_straight_edges(b)
+
     replace_polygon(s, p, a, b)
 
     return a, b
 
 
+def remove_points_on_straight_edges(poly: Polygon) -> Polygon:
+    """Returns the same polygon without the points laying between two collinear edges."""
+    num_pts = len(poly.pts)
+    corners = []
+    for i in range(num_pts):
+        adjacent = np.vstack(
+            (poly.pts[i - 1], poly.pts[i], poly.pts[(i + 1) % num_pts])
+        )
+        if not are_points_collinear(adjacent):
+            corners.append(poly.pts[i])
+
+    if len(corners) == num_pts:
+        return poly
+    else:
+        return Polygon(np.vstack(corners), name=poly.name, vn=poly.vn)
+
+
 def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
-- 
2.43.0


From 8544df7d5f8a9ec57566591add097ef94396e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:46 +0000
Subject: [PATCH 39/46] fix: stitching if all corners of a polygon are at the
 boundary of the other one

---
 building3d/geom/solid/stitch.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index a2d15c9..d74c957 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -50,10 +50,8 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
     """Slices polygons `p1` and `p2` and replaces them in solids `s1` and `s2` (in-place)."""
     p2_in_p1 = p1.contains_polygon(p2)
     p1_in_p2 = p2.contains_polygon(p1)
-    p2_in_p1_with_bnd = p1.contains_polygon(p2, margin=-1e6)  # Includes boundary
-    p1_in_p2_with_bnd = p2.contains_polygon(p1, margin=-1e6)  # Includes boundary
 
-    if p2_in_p1 or p1_in_p2:
+    if (p2_in_p1 or p1_in_p2) and not p1.is_crossing_polygon(p2):
         # One polygon is completely inside the other
         # Algorithm:
         # - find close pairs which are mutually visible
@@ -81,16 +79,9 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
         else:
             raise RuntimeError("Should not happen")
 
-    elif p1_in_p2_with_bnd:
-        # Need to slice only p2
-        _, _ = slice_one_and_replace(s2, p2, p1.pts)
-
-    elif p2_in_p1_with_bnd:
-        # Need to slice only p1
-        _, _ = slice_one_and_replace(s1, p1, p2.pts)
-
     else:
         # The polygons are overlapping. Need to slice both.
+        # A polygon is left unchanged if its interior is not crossed by the other one.
         _, _ = slice_one_and_replace(s1, p1, p2.pts)
         _, _ = slice_one_and_replace(s2, p2, p1.pts)
 
-- 
2.43.0


From 1a48eeae9162252e11b4bc815c9e5e84a21056a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:46 +0000
Subject: [PATCH 40/46] fix: connect polygons with coordinates differing by
 rounding

---
 building3d/geom/bboxes.py           |  5 ++++-
 building3d/geom/polygon/touching.py | 23 +----------------------
 2 files changed, 5 insertions(+), 23 deletions(-)

diff --git a/building3d/geom/bboxes.py b/building3d/geom/bboxes.py
index 55d6ecf..c41b189 100644
--- a/building3d/geom/bboxes.py
+++ b/building3d/geom/bboxes.py
@@ -33,6 +33,7 @@ def is_point_inside_bbox(
 def are_bboxes_overlapping(
     bbox1: tuple[PointType, PointType],
     bbox2: tuple[PointType, PointType],
+    atol: float = 1e-8,
 ) -> bool:
     """Check if two bounding boxes are overlapping.
 
@@ -44,12 +45,14 @@ def are_bboxes_overlapping(
                                  [[min_x, min_y, min_z], [max_x, max_y, max_z]].
         bbox2 (tuple of points): Second bounding box, represented as
                                  [[min_x, min_y, min_z], [max_x, max_y, max_z]].
+        atol (float): Absolute tolerance. Boxes sharing a face must not be missed
+                      due to rounding of their coordinates.
 
     Returns:
         bool: True if the bounding boxes overlap, False otherwise.
     """
     # Check if max1 < min2 or min1 > max2
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
+    if (bbox1[1] < bbox2[0] - atol).any() or (bbox1[0] > bbox2[1] + atol).any():
         return False
     else:
         return True
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 43c7bc8..879863c 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numba import njit
 
+from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
@@ -64,28 +65,6 @@ def are_polygons_touching(
     return False
 
 
-@njit
-def are_bboxes_overlapping(bbox1, bbox2):
-    """Check if two bounding boxes are overlapping.
-
-    This function determines if two axis-aligned bounding boxes are overlapping
-    in any dimension.
-
-    Args:
-        bbox1 (tuple of points): First bounding box, represented as
-                                 [[min_x, min_y, min_z], [max_x, max_y, max_z]].
-        bbox2 (tuple of points): Second bounding box, represented as
-                                 [[min_x, min_y, min_z], [max_x, max_y, max_z]].
-
-    Returns:
-        bool: True if the bounding boxes overlap, False otherwise.
-    """
-    if (bbox1[1] < bbox2[0]).any() or (bbox1[0] > bbox2[1]).any():
-        return False
-    else:
-        return True
-
-
 @njit
 def are_all_points_same(pts1: PointType, pts2: PointType) -> bool:
     """Check if all points in two sets are the same.
-- 
2.43.0


From b2d145ab2103001514c921a1fd82b584fb5fe871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:46 +0000
Subject: [PATCH 41/46] fix: coplanarity of points far from the origin

---
 building3d/geom/points/__init__.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 276bb46..d8ceb18 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -128,17 +128,14 @@ def are_points_coplanar(
         vec_n = normal(pts[i], pts[i + 1], pts[i + 2])
         i += 1
 
-    # Plane equation:
-    # ax + by + cz + d = 0
-    # (a, b, c) are taken from the normal vector
-    # d is calculated by substituting one of the points
-    ref = 0  # reference point index
-    ref_pt = pts[ref]
-    d = -1 * np.dot(vec_n, ref_pt)
+    # All points must have zero distance to the plane going through the reference point.
+    # The coordinates of points far from the origin are less accurate.
+    ref_pt = pts[0]
+    max_dist = max(atol, GEOM_ATOL * np.max(np.abs(pts)))
 
     # Check if all points lay on the same plane
     for i in range(num_pts):
-        coplanar = np.abs(d + np.dot(vec_n, pts[i])) < atol
+        coplanar = np.abs(np.dot(vec_n, pts[i] - ref_pt)) < max_dist
         if not coplanar:
             return False
     return True
@@ -259,7 +256,7 @@ def is_point_on_segment(
 
     # Check collinearity using the cross product, i.e. distance from the line times segment length
     # The rounding errors are proportional to the coordinates
-    max_dist = atol * max(1.0, np.abs(pt1).max(), np.abs(pt2).max())
+    max_dist = max(atol, GEOM_ATOL * np.abs(pt1).max(), GEOM_ATOL * np.abs(pt2).max())
     cross_product = np.cross(ptest - pt1, pt2 - pt1)
     if np.linalg.norm(cross_product) > max_dist * np.linalg.norm(pt2 - pt1):
         return False
-- 
2.43.0


From 123a115f8128aaf3058663e216c61a715d044e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:13 +0000
Subject: [PATCH 42/46] fix: test of points at edges of triangles far from the
 origin

The tolerance did not depend on the magnitude of the coordinates, so points
at a common edge of two polygons could be classified as outside of both. Rays
aimed at such an edge left the room.
---
 building3d/geom/triangles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 12b0bf1..bcd1c2d 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -95,6 +95,9 @@ def is_point_inside(
 
     This function does not test if the point is coplanar with the triangle.
     """
+    # The rounding error of coordinates is proportional to their magnitude
+    atol = max(atol, GEOM_ATOL * np.max(np.abs(ptest)))
+
     # Check if point is inside the bounding box
     # Large atol used to assure bbox surrounds the triangle
     if not is_point_inside_bbox(ptest, np.vstack((pt1, pt2, pt3)), atol=1e-2):
-- 
2.43.0


From ed0d38012815a1b3a1f46f3b5ade710ff5eb32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:23 +0000
Subject: [PATCH 43/46] fix: rays stopped forever if they were exactly at the
 reflection distance from a surface

---
 building3d/sim/rays/simulation_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..dc03415 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -229,7 +229,7 @@ def simulation_loop(
                     vn = np.zeros(3, dtype=FLOAT)
                     dist = np.inf
 
-            if energy[rn] > eps and dist > reflection_dist:
+            if energy[rn] > eps and dist >= reflection_dist:
                 position[rn] += delta_pos[rn]
             else:
                 continue
-- 
2.43.0


From 1f76f946016bc6fa05ebe933f8a97fde7e078703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:14 +0000
Subject: [PATCH 44/46] fix: some voxels were missing for buildings with faces
 next to cell borders

---
 building3d/sim/rays/voxel_grid.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/building3d/sim/rays/voxel_grid.py b/building3d/sim/rays/voxel_grid.py
index 6e8cae0..27224cb 100644
--- a/building3d/sim/rays/voxel_grid.py
+++ b/building3d/sim/rays/voxel_grid.py
@@ -49,21 +49,16 @@ def make_voxel_grid(
 
     # The range is extended with "+step" to accommodate models
     # with negative and positive coordinates
-    x_range = np.arange(min_x, max_x + step + eps, step)
-    y_range = np.arange(min_y, max_y + step + eps, step)
-    z_range = np.arange(min_z, max_z + step + eps, step)
+    # (consecutive cell numbers, because rounding coordinates of cells down could skip some of them)
+    x_range = range(int(np.floor(min_x / step)), int(np.floor((max_x + step) / step)) + 1)
+    y_range = range(int(np.floor(min_y / step)), int(np.floor((max_y + step) / step)) + 1)
+    z_range = range(int(np.floor(min_z / step)), int(np.floor((max_z + step) / step)) + 1)
 
     keys = []
     for x in x_range:
         for y in y_range:
             for z in z_range:
-                keys.append(
-                    (
-                        int(np.floor(x / step)),
-                        int(np.floor(y / step)),
-                        int(np.floor(z / step)),
-                    )
-                )
+                keys.append((x, y, z))
 
     max_polygons_per_cell = len(poly_pts)  # Worst case: all polygons in one cell
     added_polygons = np.zeros(len(poly_pts), dtype=np.bool_)
-- 
2.43.0


From c454e79f5c9430f045b355dfc2be8c65943f2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:18 +0000
Subject: [PATCH 45/46] fix: colour ray trails in movies with the energy of
 their own ray

---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..003f57f 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()  # Same order as line_varr (ray by ray)
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()  # Same order as line_varr (ray by ray)
 
             plotter.write_frame()
 
-- 
2.43.0


From 6acd624c6607ac682f97fb410add7ffac5e22a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:08 +0000
Subject: [PATCH 46/46] fix: use the given colour when plotting a single object

---
 building3d/display/plot_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..6ba8993 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -54,7 +54,7 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         # If more than 1 object is given, use different color for each
         if len(objects) > 1 and len(colors) == 0:
             col = random_rgb_color()
-        elif len(objects) > 1 and len(colors) == len(objects):
+        elif len(colors) == len(objects):
             col = [
                 float(x) for x in colors[obj_num]
             ]  # PyVista does not handle integer colors
-- 
2.43.0

