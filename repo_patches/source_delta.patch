From 5b9526ce91695dcc76e42c47b8a977421d70bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 01/65] fix: polygon_normal is well defined for polygons with
 collinear points

The three points picked from the distances to the centroid can be collinear
(e.g. a kite or a pentagon with a vertex on its diagonal), the normal is then
the zero vector and the convexity test and the triangulation fail.
---
 .../operations/polygon_geometry_operations.py | 27 +++++--------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index e06868a..399cae6 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -31,27 +31,12 @@ def __projection_directions(points):
 
 
 def polygon_normal(points: np.array):
-    # centroid
-    xc = np.mean(points, axis=0)
-
-    # get two relevant in-plane directions
-    dxc = np.array([np.linalg.norm(point - xc) for point in points])
-    if np.isclose(np.max(dxc), np.min(dxc)):
-        pa = points[0]
-        pb = points[1]
-        pc = points[2]
-    else:
-        pa = points[np.argmax(dxc)]
-        points_red = np.delete(points, np.argmax(dxc), axis=0)
-        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))
-        dxc_red = np.delete(dxc, np.argmax(dxc), axis=0)
-        overall_dxc_red = np.linalg.norm(np.mean(points_red, axis=0) - xc)
-        dxc_red = np.append(dxc_red, overall_dxc_red)
-        pb = points_red[np.argmax(dxc_red)]
-        pc = points_red[np.argmin(dxc_red)]
-
-    # normal vector of the polygon
-    normal = __normalize(np.cross(pb - pa, pc - pa))
+    # area-weighted normal over all the edges: well defined even if some of the
+    # points are collinear
+    d_points = points - np.mean(points, axis=0)
+    normal = __normalize(
+        np.sum(np.cross(d_points, np.roll(d_points, -1, axis=0)), axis=0)
+    )
     return normal
 
 
-- 
2.43.0


From 96de8398f791359f52eff0a10d3e3726ec3040a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 02/65] fix: triangulate_polygon keeps the edges of a
 non-convex polygon

An unconstrained Delaunay triangulation does not contain every edge of a
non-convex polygon: triangles that cross an edge were kept or dropped as a
whole, so points of the polygon were reported to be outside of it.
---
 .../operations/polygon_geometry_operations.py | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index 399cae6..f2e7196 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -1,6 +1,5 @@
 import numpy as np
-from scipy.spatial import Delaunay
-from functools import partial
+from globals import geometry_collapse_tol as collapse_tol
 
 
 def __normalize(v):
@@ -118,18 +117,36 @@ def triangulate_polygon(points: np.array):
     # Drop a direction to project the 3D vertices to 2D
     dir_idx = __projection_directions(points)
 
-    # Perform Delaunay triangulation on the 2D projected vertices
-    delaunay = Delaunay(points[:, dir_idx])
-
-    # Get the triangles
-    triangles_R2 = delaunay.simplices
-
-    # delete triangles outside the original polygon
-    triangle_xc = np.mean(points[:, dir_idx][triangles_R2], axis=1)
-    polygon_winding = partial(winding_number, polygon_points=points[:, dir_idx])
-    valid_triangles = np.argwhere(list(map(polygon_winding, triangle_xc))).ravel()
-    triangles_R2 = triangles_R2[valid_triangles]
+    points_R2 = points[:, dir_idx]
+
+    def signed_area(i, j, k):
+        u = points_R2[j] - points_R2[i]
+        v = points_R2[k] - points_R2[i]
+        return 0.5 * (u[0] * v[1] - u[1] * v[0])
+
+    def inside_q(p, i, j, k):
+        areas = [signed_area(p, i, j), signed_area(p, j, k), signed_area(p, k, i)]
+        return np.all(np.array(areas) >= -collapse_tol)
+
+    # Clip ears, so every edge of the polygon is kept
+    idx = list(range(len(points)))
+    if np.sum([signed_area(0, i, i + 1) for i in range(1, len(points) - 1)]) < 0.0:
+        idx.reverse()
+    triangles_R2 = []
+    while len(idx) > 2:
+        for pos in range(len(idx)):
+            i, j, k = idx[pos - 1], idx[pos], idx[(pos + 1) % len(idx)]
+            area = signed_area(i, j, k)
+            if np.isclose(area, 0.0, rtol=collapse_tol, atol=collapse_tol):
+                break  # collinear vertex
+            others = [p for p in idx if p not in (i, j, k)]
+            if area > 0.0 and not any(inside_q(p, i, j, k) for p in others):
+                triangles_R2.append([i, j, k])
+                break
+        else:
+            raise ValueError("The polygon is not simple.")
+        idx.pop(pos)
 
     # Map the triangles back to 3D
-    triangles = points[triangles_R2]
+    triangles = points[np.array(triangles_R2)]
     return triangles
-- 
2.43.0


From 5739077854ed59712976e38d28c99d4fbc120008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 03/65] fix: report a segment that lies strictly inside of the
 other one

line_line_intersection(a, b, c, d) returned None if c-d is contained in the
interior of a-b, although the same pair in the opposite order is reported, and
lines_line_intersection raised a ValueError whenever an overlap was found.
---
 .../operations/line_geometry_operations.py    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 2b33ca1..1714255 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -24,6 +24,11 @@ def line_line_intersection(
             assert np.all(np.isclose(out, np.array([a, b])[intx_q]))
             return out
 
+    # overlap with the segment c-d strictly inside of the segment a-b
+    out, intx_q = points_line_intersection(np.array([c, d]), a, b, p_incidence_tol)
+    if np.all(intx_q):
+        return out, intx_q
+
     # Direction vectors
     d1 = b - a
     d2 = d - c
@@ -59,11 +64,16 @@ def lines_line_intersection(
 ) -> float:
     # compute intersections
     line_line_intx = partial(line_line_intersection, c=a, d=b, eps=eps)
-    result = [line_line_intx(line[0], line[1]) for line in lines]
-
-    # filter lines outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
-    return result
+    result = []
+    for line in lines:
+        out = line_line_intx(line[0], line[1])
+        if out is None:  # filter lines outside segment
+            continue
+        if isinstance(out, tuple):  # overlap: both end points are reported
+            out, _ = out
+        result += [np.array([point]) for point in out]
+
+    return np.array(result)
 
 
 def lines_lines_intersection(
-- 
2.43.0


From 7e0e4489a324dc1d413341960c36ccb90d5b84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 04/65] fix: edge_edge_intersection returns a vertex with a
 point of shape (3,)

line_line_intersection returns an array of points (or a tuple for overlapping
lines), the vertex at an interior crossing got the whole array as its point.
---
 src/topology/operations/edge_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index d73fb0f..8443444 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -87,4 +87,6 @@ def edge_edge_intersection(
     if out is None:
         return None
     else:
-        return Vertex(tag, out)
+        if isinstance(out, tuple):  # overlapping edges
+            out, _ = out
+        return Vertex(tag, out[0])
-- 
2.43.0


From 46c59799e8e7d3eada52266f34df92777874a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 05/65] fix: domain_union links every edge that meets at a
 glued vertex

Only the first edge at a vertex of the c0 domain was connected to the vertex
of the c1 domain, the remaining ones lost that end point.
---
 src/topology/operations/domain_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/operations/domain_operations.py b/src/topology/operations/domain_operations.py
index 305c906..9137cf0 100644
--- a/src/topology/operations/domain_operations.py
+++ b/src/topology/operations/domain_operations.py
@@ -185,7 +185,7 @@ def domain_union(
         ]
         # filter v_tool if is included already in the graph
         chunk = [index for index in chunk if index != v_tool_index]
-        predecessors = [list(md_G_partial.predecessors(index))[0] for index in chunk]
+        predecessors = [p for index in chunk for p in md_G_partial.predecessors(index)]
         [md_G_partial.add_edge(index, v_tool_index) for index in predecessors]
         md_G_partial.remove_nodes_from(chunk)
 
-- 
2.43.0


From 9257021744657fc5f0548a806f946f7249a30f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 06/65] fix: vertices_edges_intersection with several edges

An edge without intersections raised a ValueError, the first intersection of
an edge reused the tag of the last one of the previous edge, so one of them was
lost in domain_intersection, and an intersection at a boundary vertex changed
the tag of that vertex in the intersected edge.
---
 src/topology/operations/vertex_operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 1c9a3f7..92bab10 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from typing import Union, List, Tuple
 from topology.vertex import Vertex
@@ -128,6 +129,7 @@ def vertices_edge_intersection(
     for idx, shape in enumerate(resulting_shapes):
         if shape is None:
             continue
+        shape = copy.copy(shape)  # it can be a boundary vertex of the edge
         shape.tag = tag
         tag += 1
         shape_intx.append(shape)
@@ -149,7 +151,8 @@ def vertices_edges_intersection(
         shape_intx, shapes_tool = vertices_edge_intersection(
             vertices_tool, edge, tag, eps
         )
-        tag = np.max([shape.tag for shape in shape_intx])
+        if len(shape_intx) != 0:
+            tag = np.max([shape.tag for shape in shape_intx]) + 1
         output.append((edge, shape_intx, shapes_tool))
     return output
 
-- 
2.43.0


From de10133ae6ae4fe9f91fc2cdc93e6df8b56de220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 07/65] fix: shapes with different boundaries and equal
 immersed shapes differ

The comparison of the immersed shapes overwrote the result of the comparison
of the boundary shapes.
---
 src/topology/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index fdae18c..e25a7b7 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -141,7 +141,7 @@ class Shape(ABC):
 
         equality_by_immersed_shapes = True
         if self.immersed_shapes.size != 0 and n_immersed_shapes_q:
-            equality_by_boundary_shapes = np.all(
+            equality_by_immersed_shapes = np.all(
                 np.array(
                     [
                         shape == other_shape
-- 
2.43.0


From 12f74d8b0a0e1df52b440badcee3c31d670c1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 08/65] fix: a closed wire contains its boundary vertex

The end vertex of a closed wire is stored twice in its boundary, the membership
test accepted shapes that are stored exactly once.
---
 src/topology/shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index e25a7b7..cb6af9c 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -171,11 +171,11 @@ class Shape(ABC):
         immersed_q = other_id in immersed_ids
         if boundary_q:
             boundary_q = (
-                len([shape for shape in self.boundary_shapes if shape == other]) == 1
+                len([shape for shape in self.boundary_shapes if shape == other]) >= 1
             )
         if immersed_q:
             immersed_q = (
-                len([shape for shape in self.immersed_shapes if shape == other]) == 1
+                len([shape for shape in self.immersed_shapes if shape == other]) >= 1
             )
         return boundary_q or immersed_q
 
-- 
2.43.0


From 1c03826f43482d3d79aa526eff55917ab819a771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 09/65] fix: orientation of a wire that starts with a reversed
 edge

The first edge was always taken from its lowest to its highest tag, so a loop
whose second edge starts at the lowest tag got inconsistent orientations.
---
 src/topology/wire.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index e04df3c..990e367 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -40,11 +40,21 @@ class Wire(Shape):
                 self.admissible_dimensions(),
             )
 
+    def seed_vertex(self):
+        edges = self.immersed_shapes
+        seed_vertex, end_vertex = edges[0].boundary_shapes
+        if seed_vertex.tag > end_vertex.tag:
+            seed_vertex, end_vertex = end_vertex, seed_vertex
+        if len(edges) > 1:
+            # the first edge ends at the vertex that it shares with the second one
+            next_vertices = list(edges[1].boundary_shapes)
+            if seed_vertex in next_vertices and end_vertex not in next_vertices:
+                seed_vertex = end_vertex
+        return seed_vertex
+
     def orient_immersed_edges(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.seed_vertex()
 
         self.orientation = []
         for edge in edges:
@@ -58,9 +68,7 @@ class Wire(Shape):
 
     def orient_immersed_vertices(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.seed_vertex()
 
         vertices = []
         for edge in edges:
-- 
2.43.0


From 94287de7ee0995c78dd94fdd4631c23169ee8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 10/65] fix: create_md_box_2D with fractures that meet on the
 boundary

Two vertices were created at such a point and domain_union raised a
NetworkXError.
---
 src/topology/domain_market.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..42cda34 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -227,7 +227,11 @@ def create_md_box_2D(
             vertices.append(vertex)
             tag += 1
 
+    b_vertices = vertices.copy()
     for point in fracture_intx:
+        # fractures that meet on the boundary already have a boundary vertex
+        if np.any([np.allclose(vertex.point, point) for vertex in b_vertices]):
+            continue
         v: Vertex = Vertex(tag, point)
         v.physical_tag = fracture_physical_tags["point"]
         vertices.append(v)
-- 
2.43.0


From 53e6ac0925e4a8ac48604c71edde9d8928ba90b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 11/65] fix: create_md_box_2D sorts the edges of the wire along
 the loop

The fractured edges of the last side were listed in the opposite direction.
---
 src/topology/domain_market.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 42cda34..9d4f88e 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -278,14 +278,15 @@ def create_md_box_2D(
     edges = edges[e_intx_q]
 
     wire_edges = []
-    for boundary_edge in rock_domain_edges:
+    for i, boundary_edge in enumerate(rock_domain_edges):
         sub_edges = np.array(
             [edge for edge in edges if edge.physical_tag == boundary_edge.physical_tag]
         )
         sub_edges_xcs = np.array(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
-        a, b = boundary_edge.boundary_points()
+        # along the loop, the boundary of the last edge is sorted in the other way
+        a, b = box_points[i], box_points[(i + 1) % len(box_points)]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0


From 014de175628873f30db1016463f7f8bcceb35814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 12/65] fix: the wire of create_md_box_2D gets a tag of its own

It reused the first tag of the shapes that were created by domain_difference.
---
 src/topology/domain_market.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 9d4f88e..e28c9f5 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -290,6 +290,7 @@ def create_md_box_2D(
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
+    tag = md_domain_c1.max_tag() + 1
     wire_boundary = wire_edges[0].boundary_shapes[[0]]  # closed
     wire0: Wire = Wire(tag, wire_edges, wire_boundary)
     tag += 1
-- 
2.43.0


From 76079ef83702b5aa37cd60a6678b2518f15c4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 13/65] fix: conformity of 3D spaces across interior faces with
 a physical tag

The orientation of the dofs of a tagged face was overwritten on local faces 1
and 3 only, so the two cells that share a tagged interior face disagreed.
---
 src/basis/permute_and_transform.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/basis/permute_and_transform.py b/src/basis/permute_and_transform.py
index b2797d6..f75150d 100644
--- a/src/basis/permute_and_transform.py
+++ b/src/basis/permute_and_transform.py
@@ -99,11 +99,6 @@ def _validate_face_orientation_3d(data: ElementData):
                 rotations[i] += 1
                 reflections[i] += 1
 
-        if data.bc_entities[i] and i in [1, 3]:
-            orientation[i] = False
-            reflections[i] = 1
-            continue
-
     return orientation, rotations, reflections
 
 
-- 
2.43.0


From ef0584373e447523e035c6161082eac1b7bc699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 14/65] fix: node tags of the edges of a tetrahedron are arrays

MeshCell.node_tag_index raised on edges first met in a tetrahedron, whose node
tags were stored as a list.
---
 src/mesh/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..16c16aa 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -184,12 +184,12 @@ class Mesh:
             # vertex id
             vertex_ids = [self.entities_0d[node] for node in node_tags]
 
-            edge_0 = [node_tags[2], node_tags[3]]
-            edge_1 = [node_tags[1], node_tags[3]]
-            edge_2 = [node_tags[1], node_tags[2]]
-            edge_3 = [node_tags[0], node_tags[3]]
-            edge_4 = [node_tags[0], node_tags[2]]
-            edge_5 = [node_tags[0], node_tags[1]]
+            edge_0 = node_tags[np.array([2, 3])]
+            edge_1 = node_tags[np.array([1, 3])]
+            edge_2 = node_tags[np.array([1, 2])]
+            edge_3 = node_tags[np.array([0, 3])]
+            edge_4 = node_tags[np.array([0, 2])]
+            edge_5 = node_tags[np.array([0, 1])]
             edges = [edge_0, edge_1, edge_2, edge_3, edge_4, edge_5]
 
             edge_ids = []
-- 
2.43.0


From 02e1c2da7ee9c5d8ee23c5c0ee2ab7d284dcceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 15/65] fix: a mesh with a node outside every element has a
 cell for it

build_conformal_mesh left None in mesh.cells, and every later query failed.
---
 src/mesh/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 16c16aa..2425e80 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -336,6 +336,10 @@ class Mesh:
         for cell_block, physical in zip(cells, physical_tag):
             self.insert_simplex_cell_from_block(cell_block, physical)
 
+        # nodes without a cell on them
+        for node_tag in self.entities_0d:
+            self.insert_vertex(node_tag)
+
         self.clean_up_entity_maps()
 
     def clean_up_entity_maps(self):
-- 
2.43.0


From c946cdaea44e82b8c235e6c29b995b086bc7ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 16/65] fix: coloring_mesh_by_co_dimension colors the cells
 that share a sub entity apart

It compared cell indices of the form (dimension, id) with ids, so it failed on
every mesh, and it colored the bipartite incidence graph, where the cells that
share a sub entity are not adjacent.
---
 src/mesh/mesh_coloring.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh_coloring.py b/src/mesh/mesh_coloring.py
index 18c29a9..41c7d9d 100644
--- a/src/mesh/mesh_coloring.py
+++ b/src/mesh/mesh_coloring.py
@@ -1,3 +1,5 @@
+from itertools import combinations
+
 import networkx as nx
 import numpy as np
 
@@ -9,18 +11,25 @@ def coloring_mesh_by_co_dimension(n_colors, mesh, dim, sub_entity_co_dim):
     mesh_topology.build_data()
 
     map = mesh_topology.entity_map_by_codimension(sub_entity_co_dim)
-    reverse_map = map.reverse(copy=False)
+
+    # cells that share a sub entity are in conflict
+    conflicts = nx.Graph()
+    conflicts.add_nodes_from(mesh_topology.entities_by_dimension(dim))
+    for entity_id in mesh_topology.entities_by_codimension(sub_entity_co_dim):
+        neighs = [idx[1] for idx in map.predecessors((dim - sub_entity_co_dim, entity_id))]
+        conflicts.add_edges_from(combinations(neighs, 2))
 
     # coloring graph
-    rcoloring = nx.coloring.equitable_color(reverse_map, num_colors=n_colors)
-    c0_entities = [cell.id for cell in mesh.cells if cell.dimension == dim]
-    colored_elements = [item for item in rcoloring.items() if item[0] in c0_entities]
-    colored_elements = np.vstack(colored_elements)
+    max_degree = max(degree for _, degree in conflicts.degree())
+    rcoloring = nx.coloring.equitable_color(
+        conflicts, num_colors=max(n_colors, max_degree + 1)
+    )
+    colored_elements = np.vstack(list(rcoloring.items()))
 
     # coloring mesh
     base_colors, idx_inv = np.unique(colored_elements[:, 1], return_inverse=True)
     colors = np.array(list(range(len(base_colors))))
-    colored_elements[:, 1] = colors[np.array([idx_inv])]
+    colored_elements[:, 1] = colors[idx_inv]
 
     # building color maps
     entity_to_color = dict(colored_elements)
-- 
2.43.0


From 37cae65f0a94ef7cfda145b3e13451c83baff6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:15 +0000
Subject: [PATCH 17/65] fix: cutting along a slanted line keeps the fracture
 itself connected

The side of the cut cells with respect to their own line was decided by rounding
noise, so some of them were moved to the nodes of one side.
---
 src/mesh/mesh_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8a08313..52288eb 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -382,6 +382,8 @@ def cut_conformity_along_c1_line(
     c1_cells_data = [list(g_d1_0d.predecessors(cell.index())) for cell in c2_cells]
     c1_cells_idx = np.array(list(itertools.chain(*c1_cells_data)))
     c1_cell_ids = np.unique([cell_idx[1] for cell_idx in c1_cells_idx])
+    # the cells on the line keep their nodes
+    c1_cell_ids = np.setdiff1d(c1_cell_ids, [cell.id for cell in c1_cells])
     c1_cells = np.array([mesh.cells[c1_id] for c1_id in c1_cell_ids])
     c1_xcs = np.array([cell_centroid(cell, mesh) for cell in c1_cells])
     c1_dirs = c1_xcs - np.mean([a, b], axis=0)
-- 
2.43.0


From 74cac2815b5da4c235bf428318d9bb4fd799ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 18/65] fix: fractures that meet at their end points get no
 edge of zero length

---
 src/geometry/fracture_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index c625b8f..6f2376c 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -66,6 +66,10 @@ class FractureNetwork:
                     break
         return vertex
 
+    def coincident_vertices_q(self, i, j):
+        x, y = [self.points[self.cells[k].point_id] for k in (i, j)]
+        return la.norm(x - y) < self.eps
+
     def insert_fracture_cell(self, cell_id, fracture, physical_tag):
         self.points = np.append(
             self.points, np.array([point for point in fracture]), axis=0
@@ -264,9 +268,9 @@ class FractureNetwork:
                 cell_indices = list(dict.fromkeys(cell_indices))
 
                 # Insert bondary points
-                if b not in cell_indices:
+                if not self.coincident_vertices_q(b, cell_indices[0]):
                     cell_indices.insert(0, b)
-                if e not in cell_indices:
+                if not self.coincident_vertices_q(e, cell_indices[-1]):
                     cell_indices.append(e)
                 connectivities = np.array(
                     [
-- 
2.43.0


From 1db071ff94b87ec17e91156ea4eb8d8f3bf477d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 19/65] fix: unpair_intergers uses the integer square root

---
 src/geometry/fracture_network.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index 6f2376c..957c647 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -1,3 +1,5 @@
+import math
+
 import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
@@ -297,12 +299,12 @@ class FractureNetwork:
 
     def unpair_intergers(self, z):
         # http://szudzik.com/ElegantPairing.pdf
-        pair = None
-        test = z - np.sqrt(z) ** 2 < np.sqrt(z)
-        if test:
-            pair = [z - np.sqrt(z) ** 2, np.sqrt(z)]
+        root = math.isqrt(z)
+        rest = z - root**2
+        if rest < root:
+            pair = [rest, root]
         else:
-            pair = [np.sqrt(z), z - np.sqrt(z) ** 2 - np.sqrt(z)]
+            pair = [root, rest - root]
         return pair
 
     def shift_point_ids(self, shift=0):
-- 
2.43.0


From 4dbbbf065ce40b9160e5e9ce1c9040261b243f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 20/65] fix: the fracture network intersects its lines with the
 exact segment test

Collinear fractures that do not overlap were reported to intersect, and
fractures that meet at an end point missed each other because of rounding.
---
 src/geometry/fracture_network.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index 957c647..9e86fcc 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -7,6 +7,7 @@ from numpy import linalg as la
 
 import geometry.operations.polygon_polygon_intersection_test as pp_intersector
 import geometry.operations.triangle_triangle_intersection_test as tt_intersector
+from geometry.operations.line_geometry_operations import line_line_intersection
 
 from .geometry_cell import GeometryCell
 
@@ -246,11 +247,13 @@ class FractureNetwork:
                 p, q = [self.points[id] for id in cell_j_bc_ids]
                 if i >= j:
                     continue
-                intersection_data = tt_test.line_line_intersection(
-                    a, b, p, q, pos, render_intersection_q
-                )
-                if intersection_data[0]:
-                    point = intersection_data[1]
+                if render_intersection_q:
+                    tt_test.render_lines(a, b, p, q, pos)
+                intersection_data = line_line_intersection(a, b, p, q)
+                if intersection_data is not None:
+                    if isinstance(intersection_data, tuple):  # overlapping lines
+                        intersection_data, _ = intersection_data
+                    point = intersection_data[0]
                     physical_tag = self.pair_intergers(
                         cell_i.physical_tag, cell_j.physical_tag
                     )
-- 
2.43.0


From 6f4c8e393f264abad96f207ff667fc33979198b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:46 +0000
Subject: [PATCH 21/65] fix: batches of lines that meet a polygon in points and
 in segments

A batch with intersections of both kinds raised an error, and a line that
misses the plane of a triangle by rounding was reported as an intersection.
---
 .../operations/line_geometry_operations.py      | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 1714255..fdd230f 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -228,7 +228,7 @@ def line_triangle_intersection(
     # Calculate the distance from line_start to the plane of the triangle
     d = np.dot(normal, a - p) / denom
     if d < 0 or d > 1:
-        return False
+        return None
 
     # Calculate the intersection point on the line
     intx_point = p + d * line_dir
@@ -239,6 +239,17 @@ def line_triangle_intersection(
         return np.array([intx_point])
 
 
+def stack_intersections(result: list) -> np.array:
+    shapes = set(data.shape for data in result)
+    if len(shapes) < 2:
+        return np.array(result)
+    # points and segments in the same batch
+    stacked = np.empty(len(result), dtype=object)
+    for i, data in enumerate(result):
+        stacked[i] = data
+    return stacked
+
+
 def lines_triangle_intersection(
     lines: np.array, a: np.array, b: np.array, c: np.array, eps: float = s_incidence_tol
 ) -> np.array:
@@ -256,7 +267,7 @@ def lines_triangle_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
+    result = stack_intersections([data for data in result if data is not None])
     return result, intx_q
 
 
@@ -331,5 +342,5 @@ def lines_polygon_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
+    result = stack_intersections([data for data in result if data is not None])
     return result, intx_q
-- 
2.43.0


From 0fcb70e2f0da9c888bf3ce0bab1faeb25ad6367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 22/65] fix: a vertex can be compared with a shape of another
 dimension

---
 src/topology/vertex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/topology/vertex.py b/src/topology/vertex.py
index 4f2c17f..68aab2e 100644
--- a/src/topology/vertex.py
+++ b/src/topology/vertex.py
@@ -15,6 +15,8 @@ class Vertex(Shape):
 
     def __eq__(self, other):
         identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)
+        if not identity_check:
+            return False
         geometry_check = np.all(np.isclose(self.point, other.point))
         return identity_check and geometry_check
 
-- 
2.43.0


From 623a7b33cd550d48646b1e037c0c2c7bcc48c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:03 +0000
Subject: [PATCH 23/65] fix: functions inside a face of a tetrahedron follow
 the orientation of the face

---
 src/basis/finite_element.py        | 17 +++++++++++++++++
 src/basis/permute_and_transform.py | 28 ++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..408a3c7 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -106,6 +106,23 @@ class FiniteElement:
             self.basis_generator.dof_transformations_are_identity
         )
         self.data.dof.transformations = self.basis_generator.entity_transformations()
+        trace_of_tetrahedron_q = (
+            self.data.cell.dimension == 2
+            and self.mesh.dimension == 3
+            and self.family is family_by_name("Lagrange")
+            and self.k_order > 3
+            and not self.discontinuous
+        )
+        if trace_of_tetrahedron_q:
+            # the interior functions follow the orientation of the face as well
+            tetrahedron_generator = basix.create_element(
+                family=self.family,
+                celltype=type_by_dimension(3),
+                degree=self.k_order,
+                lagrange_variant=basis_variant(),
+            )
+            transformations = tetrahedron_generator.entity_transformations()
+            self.data.dof.transformations["triangle"] = transformations["triangle"]
         for entity_dofs in self.data.dof.num_entity_dofs:
             self.data.dof.n_dof += np.sum(entity_dofs)
 
diff --git a/src/basis/permute_and_transform.py b/src/basis/permute_and_transform.py
index f75150d..4181673 100644
--- a/src/basis/permute_and_transform.py
+++ b/src/basis/permute_and_transform.py
@@ -32,6 +32,21 @@ def _permute_and_transform_2d(phi, data: ElementData):
             for d in range(phi.shape[0]):
                 for dim in range(phi.shape[3]):
                     phi[d, :, dofs, dim] = transformation @ phi[d, :, dofs, dim]
+
+    # functions of the interior of a triangle that are traces of a tetrahedron
+    if "triangle" in data.dof.transformations:
+        face_q, rot_data, ref_data = _validate_faces_orientation([data.cell.node_tags])
+        if not face_q[0]:
+            rotate_t, reflect_t = data.dof.transformations["triangle"]
+            transformation = np.identity(len(rotate_t))
+            for i in range(rot_data[0]):
+                transformation = rotate_t @ transformation
+            for i in range(ref_data[0]):
+                transformation = reflect_t @ transformation
+            dofs = data.dof.entity_dofs[2][0]
+            for d in range(phi.shape[0]):
+                for dim in range(phi.shape[3]):
+                    phi[d, :, dofs, dim] = transformation @ phi[d, :, dofs, dim]
     return phi
 
 
@@ -60,13 +75,14 @@ def _validate_face_orientation_3d(data: ElementData):
     face_2 = np.array([0, 1, 3])
     face_3 = np.array([0, 1, 2])
     faces = [face_0, face_1, face_2, face_3]
+    return _validate_faces_orientation([data.cell.node_tags[con] for con in faces])
+
 
-    orientation = [False, False, False, False]
-    rotations = [0, 0, 0, 0]
-    reflections = [0, 0, 0, 0]
-    for i, face_con in enumerate(faces):
-        volume_node_tags = data.cell.node_tags
-        face = volume_node_tags[face_con]
+def _validate_faces_orientation(faces):
+    orientation = [False for _ in faces]
+    rotations = [0 for _ in faces]
+    reflections = [0 for _ in faces]
+    for i, face in enumerate(faces):
         face_ref = np.sort(face)
 
         valid_orientation = np.all(face_ref == face)
-- 
2.43.0


From 90e021056aef7c5f6d5c1b7f43c95738ee20f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 24/65] fix: vector families on lines with any number of
 evaluation points

---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 408a3c7..bfee026 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -194,8 +194,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            scale = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            phi_mapped[:, :, 0] = scale[:, np.newaxis] * phi_mapped[:, :, 0]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0


From b2cd3717e1bf96c54c0ef1f234be2186d5618bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:09 +0000
Subject: [PATCH 25/65] fix: the L2 projector keeps the entries of small cells

---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..d088dfe 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -41,7 +41,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.nonzero(data)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From 92b84a631a728d4d719e9f51aaa4c1c75f38117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 26/65] fix: grad_error evaluates the map and the basis of each
 element

---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..5fbbc69 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -124,6 +124,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e3 = np.array([0, 0, 1])
 
     grad_errors = []
+    points, weights = fe_space.quadrature[dim]
     for item in fe_space.discrete_spaces.items():
         name, space = item
         grad_error = 0.0
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From d30b7c823b98c6d236e2b9e2312472540ae6ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:18 +0000
Subject: [PATCH 27/65] fix: DiscreteDomain meshes domains of dimension 3

---
 src/mesh/discrete_domain.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 3c95c63..59de145 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -245,15 +245,13 @@ class DiscreteDomain:
 
         # transfer volumes
         if dimension > 2:
-            volume_stride = surface_stride + len(self.domain.shapes[2])
             for volume in self.domain.shapes[3]:
-                tag = volume_stride + volume.tag + 1
+                tag = self.stride_tag(3, volume.tag)
                 if not volume.composite:
                     # print("creating surface tag: ", surface.tag)
                     shell = volume.boundary_shapes[0]
                     loop_tags = [
-                        surface_stride + shape.tag + 1
-                        for shape in shell.immersed_shapes
+                        self.stride_tag(2, shape.tag) for shape in shell.immersed_shapes
                     ]
                     gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
                     gmsh.model.occ.addVolume([tag], tag)
@@ -272,7 +270,7 @@ class DiscreteDomain:
             for volume in self.domain.shapes[3]:
                 if volume.physical_tag is not None:
                     gmsh.model.addPhysicalGroup(
-                        3, [volume_stride + volume.tag + 1], volume.physical_tag
+                        3, [self.stride_tag(3, volume.tag)], volume.physical_tag
                     )
 
         gmsh.model.occ.synchronize()
@@ -298,21 +296,21 @@ class DiscreteDomain:
                 for shape_c1 in shapes_c1:
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c1.immersed_shapes
                         ]
                     else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c2.immersed_shapes
                         ]
 
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
-                gmsh.model.mesh.embed(1, tags_1d, 3, volume_stride + volume.tag + 1)
-                gmsh.model.mesh.embed(2, tags_2d, 3, volume_stride + volume.tag + 1)
+                gmsh.model.mesh.embed(1, tags_1d, 3, self.stride_tag(3, volume.tag))
+                gmsh.model.mesh.embed(2, tags_2d, 3, self.stride_tag(3, volume.tag))
 
                 numNodes = 2
                 for tag_1d in tags_1d:
-- 
2.43.0


From 87a647eb5c97ad1a6fc94a0cf3a9dabdc7e1fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 28/65] fix: ConformalMesher adds no vertices for the
 duplicated ends of fractures

---
 src/mesh/conformal_mesher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 17b2e34..ca24b62 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -471,6 +471,7 @@ class ConformalMesher:
                 cell.point_id + 1
                 for cell in geo_0_cells
                 if cell.physical_tag == geo_1_cell.physical_tag
+                and cell.point_id + 1 in self.tags_0d
             ]
             gmsh.model.addPhysicalGroup(0, tags, geo_1_cell.physical_tag)
 
-- 
2.43.0


From 3865f8e9a34c6af0ea0d61408aba7d7c7fec3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 29/65] fix: the primal Laplace forms use the quadrature of the
 cell and all trace functions

---
 src/weak_forms/laplace_primal_weak_form.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..97631f1 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -23,7 +23,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +84,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -106,7 +106,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = p_space.id_to_element[neigh_cell_id]
         neigh_element = p_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
@@ -125,10 +125,9 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
             dof_idxs_per_entity = []
             for id in cell.sub_cells_ids[entity_dim]:
                 index = neigh_cell.sub_cells_ids[entity_dim].tolist().index(id)
-                if len(neigh_element.data.dof.entity_dofs[entity_dim][index]) == 0:
-                    continue
-                dof_n_index = neigh_element.data.dof.entity_dofs[entity_dim][index][0]
-                dof_idxs_per_entity.append(dof_n_index)
+                dof_idxs_per_entity.extend(
+                    neigh_element.data.dof.entity_dofs[entity_dim][index]
+                )
             if len(dof_idxs_per_entity) == 0:
                 continue
             dof_idxs.append(dof_idxs_per_entity)
-- 
2.43.0


From cfdd7bdce6fada15b2dca1c47bb2320b05a6d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 30/65] fix: the differentiated elasticity forms use the
 quadrature of the cell

---
 src/weak_forms/le_dual_weak_form.py      | 2 +-
 src/weak_forms/le_riesz_map_weak_form.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..87c4410 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From 64d8ea9194808d422d8c427ead62d1b062a68a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:53 +0000
Subject: [PATCH 31/65] fix: the stress boundary forms evaluate the mapping and
 basis of their elements

---
 src/weak_forms/lce_scaled_dual_weak_form.py | 31 +++++++++++++--------
 src/weak_forms/le_dual_weak_form.py         | 21 ++++++++------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/weak_forms/lce_scaled_dual_weak_form.py b/src/weak_forms/lce_scaled_dual_weak_form.py
index bab11ed..23f1330 100644
--- a/src/weak_forms/lce_scaled_dual_weak_form.py
+++ b/src/weak_forms/lce_scaled_dual_weak_form.py
@@ -827,14 +827,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         m_data: ElementData = m_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
-        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
+        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
 
         n_s_phi = s_phi_tab.shape[2]
         n_m_phi = m_phi_tab.shape[2]
@@ -852,14 +854,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
@@ -870,14 +877,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, m_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = m_space.id_to_element[neigh_cell_id]
         neigh_element = m_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute M trace space
         mapped_points = transform_lower_to_higher(points, m_data, neigh_element.data)
-        m_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        m_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_m_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index 87c4410..e97c938 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -589,13 +589,13 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         s_data: ElementData = s_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
         n_s_phi = s_phi_tab.shape[2]
 
         n_s_dof = n_s_phi * s_components
@@ -610,14 +610,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
-- 
2.43.0


From 420b485cc16fd086448d7c16918acf1adcafa51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 32/65] fix: the normal displacement condition couples the
 components on slanted boundaries

---
 src/weak_forms/le_primal_weak_form.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/weak_forms/le_primal_weak_form.py b/src/weak_forms/le_primal_weak_form.py
index 3019527..eccc05b 100644
--- a/src/weak_forms/le_primal_weak_form.py
+++ b/src/weak_forms/le_primal_weak_form.py
@@ -266,10 +266,15 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
             b = c
             e = b + n_u_dof
 
-            jac_block_u = np.zeros((n_u_phi, n_u_phi))
-            for i, omega in enumerate(weights):
-                phi = u_phi_tab[0, i, :, 0] * n[c]
-                jac_block_u += beta * det_jac[i] * omega * np.outer(phi, phi)
+            # the normal displacement couples the components
+            for d in range(u_components):
+                jac_block_u = np.zeros((n_u_phi, n_u_phi))
+                for i, omega in enumerate(weights):
+                    phi = u_phi_tab[0, i, :, 0]
+                    jac_block_u += (
+                        beta * det_jac[i] * omega * n[c] * n[d] * np.outer(phi, phi)
+                    )
+                j_el[b:e:u_components, d : d + n_u_dof : u_components] += jac_block_u
 
             res_block_u = np.zeros(n_u_phi)
             for i, omega in enumerate(weights):
@@ -281,6 +286,5 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
                 res_block_u -= beta * det_jac[i] * omega * u_D_normal * phi
 
             r_el[b:e:u_components] += res_block_u
-            j_el[b:e:u_components, b:e:u_components] += jac_block_u
 
         return r_el, j_el
-- 
2.43.0


From 482407d23486e562bb21f0c6aaa40f8a8f919718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:40 +0000
Subject: [PATCH 33/65] fix: the degenerate boundary form leaves the values of
 the user's function as they are

---
 src/weak_forms/degenerate_elliptic_weak_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_forms/degenerate_elliptic_weak_form.py b/src/weak_forms/degenerate_elliptic_weak_form.py
index 922f26b..da2e271 100644
--- a/src/weak_forms/degenerate_elliptic_weak_form.py
+++ b/src/weak_forms/degenerate_elliptic_weak_form.py
@@ -207,7 +207,7 @@ class DegenerateEllipticWeakFormBCDirichlet(WeakForm):
                 d_phi = f_d_phi(x[i, 0], x[i, 1], x[i, 2])
                 phi_v = f_porosity(x[i, 0], x[i, 1], x[i, 2])
                 if not np.isclose(phi_v, 0.0) and phi_v > 0.0:
-                    q_D_v *= d_phi / np.sqrt(phi_v)
+                    q_D_v = q_D_v * (d_phi / np.sqrt(phi_v))
                 phi = mp_tr_phi_tab[0, i, mp_dof_n_index, 0:dim] @ n[0:dim]
                 res_block_mp += det_jac[i] * omega * q_D_v[c] * phi
 
-- 
2.43.0


From 3f890759ff618e4411bc7adedf74cb71ddf0ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 34/65] fix: written solutions keep all the components of a
 field

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..ad6ff0c 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -50,7 +50,7 @@ def node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha):
 
         # Generalized displacement
         if space.family is family_by_name("Lagrange"):
-            f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+            f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
         else:
             f_h = np.vstack(
                 tuple(
@@ -95,7 +95,7 @@ def cell_centered_quatity(cell, fe_space, name, alpha):
 
     # Generalized displacement
     if space.family is family_by_name("Lagrange"):
-        f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+        f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
     else:
         f_h = np.vstack(
             tuple([phi_tab[0, 0, :, 0:dim].T @ alpha_star[:, c] for c in range(n_comp)])
-- 
2.43.0


From 847e55497463d01fe7f150d3a16ffccf63f05f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 35/65] fix: the written pointwise error compares component by
 component

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index ad6ff0c..8503bef 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -363,7 +363,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[cell_idx] = e_f.ravel()
 
             c_data_dict[name + "_error"] = [eh_data]
@@ -382,7 +382,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = gmesh.points[node_idx]
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(f_e.ravel() - f_h.ravel())
                 eh_data[node_idx] = e_f.ravel()
 
             p_data_dict[name + "_error"] = eh_data
-- 
2.43.0


From 9bd23c6fa7aabbe2d881e631595c9ccceb0afa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 36/65] fix: values per cell are written for the cells of the
 field

---
 src/postprocess/solution_post_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 8503bef..2020e09 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -185,7 +185,11 @@ def write_vtk_file_with_exact_solution(
             n_data *= dim
 
         if name in cell_centered:
-            cells = [cell for cell in gmesh.cells if cell.dimension == dim]
+            cells = [
+                cell
+                for cell in gmesh.cells
+                if cell.material_id in fe_space.fields_physical_tags[name]
+            ]
             fh_data = np.zeros((len(cells), n_data))
             fe_data = np.zeros((len(cells), n_data))
 
-- 
2.43.0


From e69d2f3a34b654b7ad30fcece9175311236c3a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 37/65] fix: retagging a dimension keeps the tags of immersed
 shapes of other dimensions

---
 src/topology/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/domain.py b/src/topology/domain.py
index b3bbd4a..57fd488 100644
--- a/src/topology/domain.py
+++ b/src/topology/domain.py
@@ -55,7 +55,7 @@ class Domain:
             tag += 1
             if len(shape.immersed_shapes):
                 for j, ishape in enumerate(shape.immersed_shapes):
-                    if shape.dimension != dim:
+                    if ishape.dimension != dim:
                         continue
                     ishape.tag = tag
                     tag += 1
-- 
2.43.0


From bb9626dc7908530d276f014412c400db96604b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 38/65] fix: cutting along a fracture of one mesh edge

---
 src/mesh/mesh_operations.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 52288eb..8c46e17 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -313,7 +313,10 @@ def cut_conformity_along_c1_line(
         if mesh.cells[cell_id].material_id != physical_tags["internal_bc"]
     ]
 
-    c0_cells_data = [list(g_d_0d.predecessors(cell.index())) for cell in c2_cells]
+    c0_cells_data = [
+        list(g_d_0d.predecessors(mesh.cells[cell_id].index()))
+        for cell_id in c2_cells_ids
+    ]
     c0_cells_idx = np.array(list(itertools.chain(*c0_cells_data)))
     c0_cell_ids = np.unique([cell_idx[1] for cell_idx in c0_cells_idx])
     c0_cells = np.array([mesh.cells[c0_id] for c0_id in c0_cell_ids])
@@ -333,11 +336,12 @@ def cut_conformity_along_c1_line(
     mesh.append_cells(np.array(positive_c1_cells))
     assert cell_id == mesh.max_cell_id()
     positive_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, physical_tag_map)
-    bump_args["side"] = +1.0
-    duplicate_mesh_points_from_0d_cells(
-        positive_c2_cells, mesh, bump_args=bump_args
-    )  # update node_tags
-    mesh.append_cells(np.array(positive_c2_cells))
+    if len(positive_c2_cells) > 0:
+        bump_args["side"] = +1.0
+        duplicate_mesh_points_from_0d_cells(
+            positive_c2_cells, mesh, bump_args=bump_args
+        )  # update node_tags
+        mesh.append_cells(np.array(positive_c2_cells))
     assert cell_id == mesh.max_cell_id()
     positive_cell_pairs = [
         None,
@@ -350,11 +354,12 @@ def cut_conformity_along_c1_line(
     mesh.append_cells(np.array(negative_c1_cells))
     assert cell_id == mesh.max_cell_id()
     negative_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, physical_tag_map)
-    bump_args["side"] = -1.0
-    duplicate_mesh_points_from_0d_cells(
-        negative_c2_cells, mesh, bump_args=bump_args
-    )  # update node_tags
-    mesh.append_cells(np.array(negative_c2_cells))
+    if len(negative_c2_cells) > 0:
+        bump_args["side"] = -1.0
+        duplicate_mesh_points_from_0d_cells(
+            negative_c2_cells, mesh, bump_args=bump_args
+        )  # update node_tags
+        mesh.append_cells(np.array(negative_c2_cells))
     assert cell_id == mesh.max_cell_id()
     negative_cell_pairs = [
         None,
@@ -376,6 +381,10 @@ def cut_conformity_along_c1_line(
     interface["c1"] = [c1_cells, positive_c1_cells, negative_c1_cells]
     interface["c2"] = [c2_cells, positive_c2_cells, negative_c2_cells]
 
+    # both ends of a line of one cell keep their nodes
+    if len(c2_cells) == 0:
+        return interface
+
     # update c1 cells
     # # classify associated c1 cells
     # g_d1_0d = mesh.build_graph(mesh.dimension - 1, mesh.dimension - 1)
-- 
2.43.0


From ff24272b984f9accef6aec03cad4d27ff8b7d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:49 +0000
Subject: [PATCH 39/65] fix: traces look up the neighbour by its identifier

---
 src/basis/basis_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..420c8fe 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    c0_cell_id = neigh_list[neigh_idx][1]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
-- 
2.43.0


From 7990f3ed35e5306798c5f050ca09684d864e5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 40/65] fix: the mesher of domains takes vertices immersed in
 faces and solids

---
 src/mesh/conformal_mesher.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index ca24b62..84bebbd 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -274,6 +274,9 @@ class ConformalMesher:
                 tags_1d = []
                 shapes_c1 = [shape for shape in surface.immersed_shapes]
                 for shape_c1 in shapes_c1:
+                    if shape_c1.dimension == 0:
+                        tags_0d = tags_0d + [shape_c1.tag + 1]
+                        continue
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
                             curve_stride + curve.tag + 1
@@ -302,10 +305,17 @@ class ConformalMesher:
                 if volume.composite:
                     continue
                 # print("volume tag: ", volume.tag)
+                tags_0d = []
                 tags_1d = []
                 tags_2d = []
                 shapes_c1 = [shape for shape in volume.immersed_shapes]
                 for shape_c1 in shapes_c1:
+                    if shape_c1.dimension == 0:
+                        tags_0d = tags_0d + [shape_c1.tag + 1]
+                        continue
+                    if shape_c1.dimension == 1 and not shape_c1.composite:
+                        tags_1d = tags_1d + [curve_stride + shape_c1.tag + 1]
+                        continue
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
                             curve_stride + curve.tag + 1
@@ -319,8 +329,10 @@ class ConformalMesher:
                             for curve in shape_c2.immersed_shapes
                         ]
 
+                tags_0d = list(np.unique(tags_0d))
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
+                gmsh.model.mesh.embed(0, tags_0d, 3, volume_stride + volume.tag + 1)
                 gmsh.model.mesh.embed(1, tags_1d, 3, volume_stride + volume.tag + 1)
                 gmsh.model.mesh.embed(2, tags_2d, 3, volume_stride + volume.tag + 1)
 
-- 
2.43.0


From edc745ded92c3242d9259f2b4f951a820d298f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 41/65] fix: discrete domains take vertices immersed in edges,
 faces and solids

---
 src/mesh/discrete_domain.py | 76 ++++++++++++++++++-------------------
 src/topology/wire.py        |  6 ++-
 2 files changed, 40 insertions(+), 42 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 59de145..4c94f29 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -42,6 +42,8 @@ class DiscreteDomain:
         gmsh.model.occ.synchronize()
 
     def __transfer_curves(self):
+        self.curve_tags = {}
+        n_parts = 1
         for curve in self.domain.shapes[1]:
             if curve.composite:
                 continue
@@ -52,10 +54,21 @@ class DiscreteDomain:
             ]
             if len(shapes_with_same_dimension) > 0:
                 continue
-            tag = self.stride_tag(1, curve.tag)
-            b = self.stride_tag(0, curve.boundary_shapes[0].tag)
-            e = self.stride_tag(0, curve.boundary_shapes[1].tag)
-            gmsh.model.occ.addLine(b, e, tag)
+            # gmsh does not embed vertices in curves, they split the curve instead
+            begin, end = curve.boundary_shapes
+            vertices = {shape.tag: shape for shape in curve.immersed_shapes}
+            vertices = sorted(
+                vertices.values(),
+                key=lambda vertex: np.linalg.norm(vertex.point - begin.point),
+            )
+            vertices = [self.stride_tag(0, v.tag) for v in [begin, *vertices, end]]
+            for i, (b, e) in enumerate(zip(vertices[:-1], vertices[1:])):
+                tag = self.stride_tag(1, curve.tag)
+                if i > 0:
+                    tag = self.stride_tag(1, self.domain.max_tag() + n_parts)
+                    n_parts += 1
+                gmsh.model.occ.addLine(b, e, tag)
+                self.curve_tags.setdefault(curve.tag, []).append(tag)
         gmsh.model.occ.synchronize()
 
     def __transfer_surfaces(self):
@@ -81,12 +94,9 @@ class DiscreteDomain:
                 # print("creating surface tag: ", surface.tag)
                 wire = surface.boundary_shapes[0]
                 wire.orient_immersed_edges()
-                loop_tags = [
-                    self.stride_tag(1, shape.tag) for shape in wire.immersed_shapes
-                ]
-                loop_tags = [
-                    loop_tags[i] * sign for i, sign in enumerate(wire.orientation)
-                ]
+                loop_tags = []
+                for shape, sign in zip(wire.immersed_shapes, wire.orientation):
+                    loop_tags += [tag * sign for tag in self.curve_tags[shape.tag][::sign]]
                 gmsh.model.occ.addCurveLoop(loop_tags, tag)
                 gmsh.model.occ.addPlaneSurface([tag], tag)
         gmsh.model.occ.synchronize()
@@ -144,7 +154,7 @@ class DiscreteDomain:
                 ]
                 if len(shapes_with_same_dimension) > 0:
                     continue
-                curve_tags.append(self.stride_tag(1, curve.tag))
+                curve_tags.extend(self.curve_tags[curve.tag])
             gmsh.model.addPhysicalGroup(1, curve_tags, physical_tag)
 
             target_physical_tags, curve_controls = self.mesh_arguments.get(
@@ -180,24 +190,6 @@ class DiscreteDomain:
             gmsh.model.addPhysicalGroup(2, surface_tags, physical_tag)
         gmsh.model.occ.synchronize()
 
-    def __embed_vertices_in_curves(self):
-        for curve in self.domain.shapes[1]:
-            if curve.composite:
-                continue
-            shapes_with_same_dimension = [
-                shape
-                for shape in curve.immersed_shapes
-                if shape.dimension == curve.dimension
-            ]
-            if len(shapes_with_same_dimension) > 0:
-                continue
-
-            tags_0d = []
-            for shape in curve.immersed_shapes:  # only vertices are embedded in curves
-                tags_0d = tags_0d + [self.stride_tag(0, shape.tag)]
-            tags_0d = list(np.unique(tags_0d))
-            gmsh.model.mesh.embed(0, tags_0d, 1, self.stride_tag(1, curve.tag))
-
     def __embed_curves_in_surfaces(self):
         # tags_2d = [shape.tag for shape in self.domain.shapes[2]]
         for surface in self.domain.shapes[2]:
@@ -208,13 +200,12 @@ class DiscreteDomain:
             tags_1d = []
             shapes_c1 = [shape for shape in surface.immersed_shapes]
             for shape_c1 in shapes_c1:
-                if len(shape_c1.immersed_shapes) > 0:
-                    tags_1d = tags_1d + [
-                        self.stride_tag(1, curve.tag)
-                        for curve in shape_c1.immersed_shapes
-                    ]
-                else:
-                    tags_1d = tags_1d + [self.stride_tag(1, shape_c1.tag)]
+                if shape_c1.dimension == 0:
+                    tags_0d = tags_0d + [self.stride_tag(0, shape_c1.tag)]
+                    continue
+                parts = [s for s in shape_c1.immersed_shapes if s.dimension == 1]
+                for curve in parts or [shape_c1]:
+                    tags_1d = tags_1d + self.curve_tags[curve.tag]
                 tags_0d = tags_0d + [
                     self.stride_tag(0, vertex.tag)
                     for vertex in shape_c1.boundary_shapes
@@ -275,10 +266,6 @@ class DiscreteDomain:
 
         gmsh.model.occ.synchronize()
 
-        # embed entities
-        if dimension > 0:
-            self.__embed_vertices_in_curves()
-
         # embed entities
         if dimension > 1:
             self.__embed_curves_in_surfaces()
@@ -290,10 +277,17 @@ class DiscreteDomain:
                 if volume.composite:
                     continue
                 # print("volume tag: ", volume.tag)
+                tags_0d = []
                 tags_1d = []
                 tags_2d = []
                 shapes_c1 = [shape for shape in volume.immersed_shapes]
                 for shape_c1 in shapes_c1:
+                    if shape_c1.dimension == 0:
+                        tags_0d = tags_0d + [self.stride_tag(0, shape_c1.tag)]
+                        continue
+                    if shape_c1.dimension == 1 and not shape_c1.composite:
+                        tags_1d = tags_1d + self.curve_tags[shape_c1.tag]
+                        continue
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
                             self.stride_tag(1, curve.tag)
@@ -307,8 +301,10 @@ class DiscreteDomain:
                             for curve in shape_c2.immersed_shapes
                         ]
 
+                tags_0d = list(np.unique(tags_0d))
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
+                gmsh.model.mesh.embed(0, tags_0d, 3, self.stride_tag(3, volume.tag))
                 gmsh.model.mesh.embed(1, tags_1d, 3, self.stride_tag(3, volume.tag))
                 gmsh.model.mesh.embed(2, tags_2d, 3, self.stride_tag(3, volume.tag))
 
diff --git a/src/topology/wire.py b/src/topology/wire.py
index 990e367..5d6000b 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -20,8 +20,10 @@ class Wire(Shape):
     def immersed_shapes(self):
         shapes = np.array([], dtype=Shape)
         for shape in self._immersed_shapes:
-            if len(shape.immersed_shapes) > 0:
-                for ishape in shape.immersed_shapes:
+            # vertices immersed in an edge do not divide it
+            parts = [s for s in shape.immersed_shapes if s.dimension > 0]
+            if len(parts) > 0:
+                for ishape in parts:
                     shapes = np.append(shapes, np.array([ishape]), axis=0)
             else:
                 shapes = np.append(shapes, np.array([shape]), axis=0)
-- 
2.43.0


From 55ec449bfd5d6872c1087d63136b9e36a34a2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 42/65] fix: measure the opening of a cut along the line itself

duplicate_mesh_points_from_0d_cells shaped the visual opening with
s * (1 - s), where s was a length instead of a fraction of the line: on
lines longer than one the copies of the points moved through the cut to
the other side.
---
 src/mesh/mesh_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8c46e17..4a356e5 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -179,7 +179,7 @@ def duplicate_mesh_points_from_0d_cells(cells_0d, mesh, bump_args=None):
         side = bump_args["side"]
         scale = bump_args.get("scale", 0.1)
         idx = points_line_argsort(new_points, a, b)
-        sv = np.linalg.norm(new_points[idx] - a, axis=1)
+        sv = np.linalg.norm(new_points[idx] - a, axis=1) / np.linalg.norm(b - a)
         nv = side * scale * (sv * (1.0 - sv) + 1.0e-1)
         new_points[idx] += (np.tile(normal, (nv.shape[0], 1)).T * nv).T
 
-- 
2.43.0


From 318fd7f36b009443c306b3021fd6609f528d7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 43/65] fix: embed in an edge only the vertices that lie on it

embed_vertex_in_edge looked at the distances to the first end alone, so a
vertex off the edge or behind it was embedded and the edge was split
through it.
---
 src/topology/shape_manipulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index c7255d0..403f432 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy import linalg as la
 
 from globals import geometry_collapse_tol as collapse_tol
+from geometry.operations.point_geometry_operations import points_line_intersection
 from topology.vertex import Vertex
 
 
@@ -178,7 +179,11 @@ def embed_vertex_in_edge(vertices: np.ndarray, edge: Edge, tag_shift=0):
         if ra_norm < r_norm and r_norm < rb_norm:
             is_a = np.isclose(r_norm, ra_norm)
             is_b = np.isclose(r_norm, rb_norm)
-            if not is_a and not is_b:
+            out = points_line_intersection(
+                np.array([vertex.point]), a.point, b.point
+            )
+            on_edge_q = len(out[0]) > 0
+            if not is_a and not is_b and on_edge_q:
                 valid_indices.append(i)
                 r_norms.append(r_norm)
         vertex.point = vertex.point + translation
-- 
2.43.0


From 33f406465cb3b23b78539f077665bed24f2c8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 44/65] fix: embed planes of a solid that carry vertices and
 edges of their own

---
 src/mesh/conformal_mesher.py | 13 ++++++-------
 src/mesh/discrete_domain.py  | 11 ++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 84bebbd..f553d9f 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -316,13 +316,12 @@ class ConformalMesher:
                     if shape_c1.dimension == 1 and not shape_c1.composite:
                         tags_1d = tags_1d + [curve_stride + shape_c1.tag + 1]
                         continue
-                    if len(shape_c1.immersed_shapes) > 0:
-                        tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
-                            for curve in shape_c1.immersed_shapes
-                        ]
-                    else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                    tags_1d = tags_1d + [
+                        curve_stride + curve.tag + 1
+                        for curve in shape_c1.immersed_shapes
+                        if curve.dimension == 1
+                    ]
+                    tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
                             curve_stride + curve.tag + 1
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 4c94f29..4cb879b 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -288,13 +288,10 @@ class DiscreteDomain:
                     if shape_c1.dimension == 1 and not shape_c1.composite:
                         tags_1d = tags_1d + self.curve_tags[shape_c1.tag]
                         continue
-                    if len(shape_c1.immersed_shapes) > 0:
-                        tags_1d = tags_1d + [
-                            self.stride_tag(1, curve.tag)
-                            for curve in shape_c1.immersed_shapes
-                        ]
-                    else:
-                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
+                    for curve in shape_c1.immersed_shapes:
+                        if curve.dimension == 1:
+                            tags_1d = tags_1d + self.curve_tags[curve.tag]
+                    tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
                             self.stride_tag(1, curve.tag)
-- 
2.43.0


From d952f67deee83c95a5d255e6979726ebb4040f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 45/65] fix: a space built without boundary tags has no
 boundary elements

---
 src/spaces/discrete_space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spaces/discrete_space.py b/src/spaces/discrete_space.py
index 76b2eac..65daec8 100644
--- a/src/spaces/discrete_space.py
+++ b/src/spaces/discrete_space.py
@@ -60,6 +60,9 @@ class DiscreteSpace:
 
     def build_boundary_structures(self, bc_physical_tags=[None]):
         if len(bc_physical_tags) == 0:
+            self.bc_elements = []
+            self.bc_element_ids = []
+            self.id_to_bc_element = {}
             return
         self._build_bc_elements(bc_physical_tags)
 
-- 
2.43.0


From 1f3f1f40da7dd3fdfd98404fd8583f4b2ef27375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 46/65] fix: write meshes with untagged tetrahedra

---
 src/mesh/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 2425e80..383d9a8 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -439,7 +439,9 @@ class Mesh:
             [
                 cell.material_id
                 for cell in self.cells
-                if cell.dimension == 3 and cell.id is not None
+                if cell.dimension == 3
+                and cell.id is not None
+                and cell.material_id is not None
             ]
         )
         entity_tags_3d = np.array(
-- 
2.43.0


From 2c6b36f78a75106e0da07f262fdc52041b5591a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 47/65] fix: write values per cell and errors of fields that
 live on a part of the mesh

---
 src/postprocess/solution_post_processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 2020e09..3dbb549 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -126,6 +126,8 @@ def write_vtk_file(file_name, gmesh, fe_space, alpha, cell_centered=[]):
             fh_data = np.zeros((len(cells), n_data))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.id not in space.id_to_element:
+                    continue
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
                 fh_data[cell_idx] = f_h.ravel()
 
@@ -364,6 +366,8 @@ def write_vtk_file_pointwise_l2_error(
             eh_data = np.zeros((len(cells), 1))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.id not in space.id_to_element:
+                    continue
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-- 
2.43.0


From 01bb2779b32492e4e5a698769e154a28ce25bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 48/65] fix: written solutions leave out cells of other
 dimensions with the same tag

---
 src/postprocess/solution_post_processor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 3dbb549..1f424fb 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -190,7 +190,8 @@ def write_vtk_file_with_exact_solution(
             cells = [
                 cell
                 for cell in gmesh.cells
-                if cell.material_id in fe_space.fields_physical_tags[name]
+                if cell.dimension == space.dimension
+                and cell.material_id in fe_space.fields_physical_tags[name]
             ]
             fh_data = np.zeros((len(cells), n_data))
             fe_data = np.zeros((len(cells), n_data))
@@ -230,7 +231,8 @@ def write_vtk_file_with_exact_solution(
     cells = [
         cell
         for cell in gmesh.cells
-        if cell.material_id in fe_space.fields_physical_tags[name]
+        if cell.dimension == fe_space.dimension()
+        and cell.material_id in fe_space.fields_physical_tags[name]
     ]
     con_d = np.array([cell.node_tags for cell in cells])
     meshio_cell_types = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
-- 
2.43.0


From 67c5f7c2ccc637359b048849bc9d34613d9ce511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 49/65] fix: sides of a fractured domain that share a physical
 tag

---
 src/topology/domain_market.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index e28c9f5..ac47c4c 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -287,6 +287,9 @@ def create_md_box_2D(
         )
         # along the loop, the boundary of the last edge is sorted in the other way
         a, b = box_points[i], box_points[(i + 1) % len(box_points)]
+        # sides and fractures can share a physical tag
+        _, on_side_q = points_line_intersection(sub_edges_xcs, a, b)
+        sub_edges, sub_edges_xcs = sub_edges[on_side_q], sub_edges_xcs[on_side_q]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0


From a1b642e198d0cb5870c3ec1d07ce9e109a086931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 50/65] fix: mesh solids that share a physical tag

---
 src/mesh/discrete_domain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 4cb879b..3f1c847 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -258,11 +258,14 @@ class DiscreteDomain:
             self.__physical_group_surfaces()
 
         if dimension > 2:
+            volume_tags = {}
             for volume in self.domain.shapes[3]:
                 if volume.physical_tag is not None:
-                    gmsh.model.addPhysicalGroup(
-                        3, [self.stride_tag(3, volume.tag)], volume.physical_tag
+                    volume_tags.setdefault(volume.physical_tag, []).append(
+                        self.stride_tag(3, volume.tag)
                     )
+            for physical_tag, tags in volume_tags.items():
+                gmsh.model.addPhysicalGroup(3, tags, physical_tag)
 
         gmsh.model.occ.synchronize()
 
-- 
2.43.0


From 6aac70ce4f69530dbe11c7c73cca99bdcd094310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 51/65] fix: export mesh files without elements of every
 dimension

---
 src/mesh/mesh.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 383d9a8..fe4f295 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -352,31 +352,18 @@ class Mesh:
         assert self.dimension == 2
 
         # write vtk files
-        physical_tags_2d = self.conformal_mesh.get_cell_data(
-            "gmsh:physical", "triangle"
-        )
-        cells_dict = {"triangle": self.conformal_mesh.get_cells_type("triangle")}
-        cell_data = {"physical_tag": [physical_tags_2d]}
-        mesh_2d = meshio.Mesh(
-            self.conformal_mesh.points, cells=cells_dict, cell_data=cell_data
-        )
-        meshio.write("conf_geometric_mesh_2d.vtk", mesh_2d)
-
-        physical_tags_1d = self.conformal_mesh.get_cell_data("gmsh:physical", "line")
-        cells_dict = {"line": self.conformal_mesh.get_cells_type("line")}
-        cell_data = {"physical_tag": [physical_tags_1d]}
-        mesh_1d = meshio.Mesh(
-            points=self.conformal_mesh.points, cells=cells_dict, cell_data=cell_data
-        )
-        meshio.write("conf_geometric_mesh_1d.vtk", mesh_1d)
-
-        physical_tags_0d = self.conformal_mesh.get_cell_data("gmsh:physical", "vertex")
-        cells_dict = {"vertex": self.conformal_mesh.get_cells_type("vertex")}
-        cell_data = {"physical_tag": [physical_tags_0d]}
-        mesh_0d = meshio.Mesh(
-            points=self.conformal_mesh.points, cells=cells_dict, cell_data=cell_data
-        )
-        meshio.write("conf_geometric_mesh_0d.vtk", mesh_0d)
+        for cell_type, dim in [("triangle", 2), ("line", 1), ("vertex", 0)]:
+            if cell_type not in self.conformal_mesh.cells_dict:
+                continue
+            physical_tags = self.conformal_mesh.get_cell_data(
+                "gmsh:physical", cell_type
+            )
+            cells_dict = {cell_type: self.conformal_mesh.get_cells_type(cell_type)}
+            cell_data = {"physical_tag": [physical_tags]}
+            mesh = meshio.Mesh(
+                points=self.conformal_mesh.points, cells=cells_dict, cell_data=cell_data
+            )
+            meshio.write("conf_geometric_mesh_{}d.vtk".format(dim), mesh)
 
     def write_data(self, file_name="gmesh.txt"):
         with open(file_name, "w") as file:
-- 
2.43.0


From 00a4cdda60d6bad92686bdbe940830ee15d82be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 52/65] fix: L2 projection into a shifted space

---
 src/postprocess/projectors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index d088dfe..ae00411 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -29,7 +29,6 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
     def scatter_form_data(A, i, weak_form):
         # destination indexes
         dest = weak_form.space.destination_indexes(i)
-        dest += dof_shift
         alpha_l = alpha[dest]
         r_el, j_el = weak_form.evaluate_form(i, alpha_l)
 
-- 
2.43.0


From 76ffee2550f6ab358607bf1f74753931bc6da766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 53/65] fix: errors and norms of fields with more components
 than dimensions

---
 src/postprocess/l2_error_post_processor.py       | 6 +++---
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 5fbbc69..efda0e0 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -33,8 +33,8 @@ def l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star).T
                 l2_error += np.sum(
                     det_jac * weights * (f_e_s - f_h_s) * (f_e_s - f_h_s)
                 )
@@ -91,7 +91,7 @@ def l2_error_projected(dim, fe_space, alpha, skip_fields=[], dof_shift=0):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star).T
                 l2_error += np.sum(det_jac * weights * f_h_s * f_h_s)
             else:
                 f_h = np.array(
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index d6a2aa2..bdd751f 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -26,7 +26,7 @@ def l2_norm(dim, fe_space, functions, skip_fields=[]):
             # vectorization
             exact = functions[name]
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
                 l2_norm += np.sum(det_jac * weights * (f_e_s) * (f_e_s))
             else:
                 f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-- 
2.43.0


From 5e13f95d28e8e0b8cf6d4265aaf2993e55afe807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 54/65] fix: segments far from the origin were taken for the
 same segment

---
 src/geometry/operations/line_geometry_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index fdd230f..6ada552 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -87,7 +87,8 @@ def lines_lines_intersection(
     output = [None for _ in range(lines_objects.shape[0])]
     for i, line_obj in enumerate(lines_objects):
         line_equality = [
-            np.all(np.isclose(line_tool, line_obj)) for line_tool in lines_tools
+            np.all(np.isclose(line_tool, line_obj, rtol=l_incidence_tol))
+            for line_tool in lines_tools
         ]
         tuple_idx = np.where(line_equality)
         if len(tuple_idx) > 0:
-- 
2.43.0


From 5df1002246c3fd6bf52b227d997f9b1ad406e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 55/65] fix: vertices far from the origin were taken for the
 same vertex

---
 src/topology/domain.py | 3 ++-
 src/topology/vertex.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain.py b/src/topology/domain.py
index 57fd488..6ca07b3 100644
--- a/src/topology/domain.py
+++ b/src/topology/domain.py
@@ -1,6 +1,7 @@
 import networkx as nx
 import numpy as np
 
+from globals import geometry_collapse_tol as collapse_tol
 from topology.shape import Shape
 
 
@@ -67,7 +68,7 @@ class Domain:
     def lookup_vertex(self, point):
         indices = []
         for i, vertex in enumerate(self.shapes[0]):
-            if np.all(np.isclose(vertex.point, point)):
+            if np.all(np.isclose(vertex.point, point, rtol=collapse_tol)):
                 indices.append(i)
         if len(indices) > 0:
             assert len(indices) == 1
diff --git a/src/topology/vertex.py b/src/topology/vertex.py
index 68aab2e..1f85d85 100644
--- a/src/topology/vertex.py
+++ b/src/topology/vertex.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from globals import geometry_collapse_tol as collapse_tol
 from topology.shape import Shape
 
 
@@ -17,7 +18,7 @@ class Vertex(Shape):
         identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)
         if not identity_check:
             return False
-        geometry_check = np.all(np.isclose(self.point, other.point))
+        geometry_check = np.all(np.isclose(self.point, other.point, rtol=collapse_tol))
         return identity_check and geometry_check
 
     @property
-- 
2.43.0


From 302b8a33e7109844d0a32e1d35dd258ac0aab5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 56/65] fix: points of cut edges and boxes far from the origin
 were lost

---
 src/topology/domain_market.py                | 8 +++++++-
 src/topology/operations/vertex_operations.py | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index ac47c4c..ef20f88 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -13,6 +13,7 @@ from topology.wire import Wire
 
 from globals import topology_tag_shape_info
 from globals import geometry_collapse_precision as collapse_precision
+from globals import geometry_collapse_tol as collapse_tol
 from topology.operations.domain_operations import create_domain
 from topology.operations.domain_operations import domain_difference
 from topology.operations.domain_operations import domain_union
@@ -230,7 +231,12 @@ def create_md_box_2D(
     b_vertices = vertices.copy()
     for point in fracture_intx:
         # fractures that meet on the boundary already have a boundary vertex
-        if np.any([np.allclose(vertex.point, point) for vertex in b_vertices]):
+        if np.any(
+            [
+                np.allclose(vertex.point, point, rtol=collapse_tol)
+                for vertex in b_vertices
+            ]
+        ):
             continue
         v: Vertex = Vertex(tag, point)
         v.physical_tag = fracture_physical_tags["point"]
diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 92bab10..81991cc 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -183,8 +183,8 @@ def vertices_edge_difference(
     idx = points_line_argsort(points, a, b)
     internal_idx = idx.copy()
 
-    first_point_is_on_a = np.all(np.isclose(points[idx][0], a))
-    last_point_is_on_b = np.all(np.isclose(points[idx][-1], b))
+    first_point_is_on_a = np.all(np.isclose(points[idx][0], a, rtol=collapse_tol))
+    last_point_is_on_b = np.all(np.isclose(points[idx][-1], b, rtol=collapse_tol))
     if first_point_is_on_a:
         internal_idx = np.delete(internal_idx, 0)
     if last_point_is_on_b:
-- 
2.43.0


From 20f52b5a290c48e4400eb036e134e064e952c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 57/65] fix: edges cut far from the origin took close points
 for the same

---
 src/topology/shape_manipulation.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 403f432..99918f8 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -114,7 +114,10 @@ def vertex_edge_intersection(
 
 
 def point_on_edge_boundary(point, edge):
-    check = [np.all(np.isclose(point, vertex.point)) for vertex in edge.boundary_shapes]
+    check = [
+        np.all(np.isclose(point, vertex.point, rtol=collapse_tol))
+        for vertex in edge.boundary_shapes
+    ]
     if check[0]:
         return edge.boundary_shapes[0]
     elif check[1]:
@@ -138,7 +141,8 @@ def points_on_face_boundary(points, face):
 def embed_vertex_in_edge_boundary(vertex, edge):
     vertices_bc = [vertex_bc for vertex_bc in edge.boundary_shapes]
     check = [
-        np.all(np.isclose(vertex.point, vertex_bc.point)) for vertex_bc in vertices_bc
+        np.all(np.isclose(vertex.point, vertex_bc.point, rtol=collapse_tol))
+        for vertex_bc in vertices_bc
     ]
     if check[0]:
         edge.boundary_shapes[0] = vertex
@@ -177,8 +181,8 @@ def embed_vertex_in_edge(vertices: np.ndarray, edge: Edge, tag_shift=0):
         vertex.point = vertex.point - translation
         r_norm = la.norm(vertex.point, axis=0)
         if ra_norm < r_norm and r_norm < rb_norm:
-            is_a = np.isclose(r_norm, ra_norm)
-            is_b = np.isclose(r_norm, rb_norm)
+            is_a = np.isclose(r_norm, ra_norm, rtol=collapse_tol)
+            is_b = np.isclose(r_norm, rb_norm, rtol=collapse_tol)
             out = points_line_intersection(
                 np.array([vertex.point]), a.point, b.point
             )
@@ -250,7 +254,10 @@ def intersect_edges(
                         continue
 
                 existence_check = np.array(
-                    [np.all(np.isclose(new_point, point)) for point in points]
+                    [
+                        np.all(np.isclose(new_point, point, rtol=collapse_tol))
+                        for point in points
+                    ]
                 )
 
                 # new approach
-- 
2.43.0


From 0483167b8805a509df12317844d287df3f5a2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 58/65] fix: end points of edges cut by integer vertices were
 truncated

---
 src/topology/operations/vertex_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 81991cc..1387cad 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -165,7 +165,7 @@ def vertices_edge_difference(
 ):
 
     # deduplication of vertices
-    points_tool = np.array([vertex.point for vertex in vertices_tool])
+    points_tool = np.array([vertex.point for vertex in vertices_tool], dtype=float)
 
     points_rounded = np.round(points_tool, decimals=collapse_precision)
     _, unique_idx = np.unique(points_rounded, axis=0, return_index=True)
-- 
2.43.0


From cefba34c42404a6996fa530afe5414b75bb2febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 59/65] fix: points on long segments were not found on them

---
 src/geometry/operations/point_geometry_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry/operations/point_geometry_operations.py b/src/geometry/operations/point_geometry_operations.py
index 30751d8..c0a960f 100644
--- a/src/geometry/operations/point_geometry_operations.py
+++ b/src/geometry/operations/point_geometry_operations.py
@@ -18,7 +18,9 @@ def point_line_incidence(
     p: np.array, a: np.array, b: np.array, eps: float = l_incidence_tol
 ) -> float:
     measurement = colinear_measurement(a, b, p)
-    point_line_incidence_q = np.isclose(measurement, 0.0, rtol=eps, atol=eps)
+    # the measurement is an area: its roundoff grows with the squared lengths
+    scale = max(1.0, np.dot(a - p, a - p), np.dot(b - p, b - p))
+    point_line_incidence_q = np.isclose(measurement, 0.0, rtol=eps, atol=eps * scale)
     return point_line_incidence_q
 
 
-- 
2.43.0


From c878befb4bbe9af5031b77ba0cc9dd53a3cd08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 60/65] fix: points in large triangles were not found in them

---
 src/geometry/operations/point_geometry_operations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry/operations/point_geometry_operations.py b/src/geometry/operations/point_geometry_operations.py
index c0a960f..f81f921 100644
--- a/src/geometry/operations/point_geometry_operations.py
+++ b/src/geometry/operations/point_geometry_operations.py
@@ -105,7 +105,11 @@ def point_triangle_incidence(
     p: np.array, a: np.array, b: np.array, c: np.array, eps: float = incidence_tol
 ) -> float:
     measurement = coplanar_measurement(p, a, b, c)
-    point_triangle_incidence_q = np.isclose(measurement, 0.0, rtol=eps, atol=eps)
+    # the measurement is a volume: its roundoff grows with the cubed lengths
+    scale = max(1.0, np.max(np.linalg.norm(np.array([b, c, p]) - a, axis=1)) ** 3)
+    point_triangle_incidence_q = np.isclose(
+        measurement, 0.0, rtol=eps, atol=eps * scale
+    )
     return point_triangle_incidence_q
 
 
-- 
2.43.0


From c7be249dbd021a187f82f4fb3bc3c55bc657030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 61/65] fix: large polygons are triangulated with a tolerance
 of their size

---
 src/geometry/operations/polygon_geometry_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index f2e7196..b0d6740 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -119,6 +119,9 @@ def triangulate_polygon(points: np.array):
 
     points_R2 = points[:, dir_idx]
 
+    # roundoff of the areas grows with the squared lengths
+    area_tol = collapse_tol * max(1.0, np.max(np.ptp(points_R2, axis=0)) ** 2)
+
     def signed_area(i, j, k):
         u = points_R2[j] - points_R2[i]
         v = points_R2[k] - points_R2[i]
@@ -126,7 +129,7 @@ def triangulate_polygon(points: np.array):
 
     def inside_q(p, i, j, k):
         areas = [signed_area(p, i, j), signed_area(p, j, k), signed_area(p, k, i)]
-        return np.all(np.array(areas) >= -collapse_tol)
+        return np.all(np.array(areas) >= -area_tol)
 
     # Clip ears, so every edge of the polygon is kept
     idx = list(range(len(points)))
@@ -137,7 +140,7 @@ def triangulate_polygon(points: np.array):
         for pos in range(len(idx)):
             i, j, k = idx[pos - 1], idx[pos], idx[(pos + 1) % len(idx)]
             area = signed_area(i, j, k)
-            if np.isclose(area, 0.0, rtol=collapse_tol, atol=collapse_tol):
+            if np.isclose(area, 0.0, rtol=collapse_tol, atol=area_tol):
                 break  # collinear vertex
             others = [p for p in idx if p not in (i, j, k)]
             if area > 0.0 and not any(inside_q(p, i, j, k) for p in others):
-- 
2.43.0


From f2f0215bbdff6bb45802a27710a954f2cfc97672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 62/65] fix: segments that meet large triangles in their plane
 were not found

---
 src/geometry/operations/line_geometry_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 6ada552..f69debc 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -162,8 +162,11 @@ def line_triangle_incidence(
     line: np.array, a: np.array, b: np.array, c: np.array, eps: float = s_incidence_tol
 ) -> bool:
     measurement_p, measurement_q = coplanar_measurements(line, a, b, c)
-    p_triangle_incidence_q = np.isclose(measurement_p, 0.0, rtol=eps, atol=eps)
-    q_triangle_incidence_q = np.isclose(measurement_q, 0.0, rtol=eps, atol=eps)
+    # the measurements are volumes: their roundoff grows with the cubed lengths
+    lengths = np.linalg.norm(np.vstack((b, c, line)) - a, axis=1)
+    atol = eps * max(1.0, np.max(lengths) ** 3)
+    p_triangle_incidence_q = np.isclose(measurement_p, 0.0, rtol=eps, atol=atol)
+    q_triangle_incidence_q = np.isclose(measurement_q, 0.0, rtol=eps, atol=atol)
 
     if p_triangle_incidence_q or q_triangle_incidence_q:
         return True
@@ -223,7 +226,8 @@ def line_triangle_intersection(
     # Calculate normal of the triangle
     normal = np.cross(ab, ac)
     denom = np.dot(normal, line_dir)
-    if np.isclose(denom, 0.0, rtol=eps, atol=eps):
+    scale = max(1.0, np.linalg.norm(normal) * np.linalg.norm(line_dir))
+    if np.isclose(denom, 0.0, rtol=eps, atol=eps * scale):
         return None
 
     # Calculate the distance from line_start to the plane of the triangle
-- 
2.43.0


From 0b8d9fcbb8c56a27006f6ca85f4dfc4f07373228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 63/65] fix: intersections of large fracture networks got
 several vertices

---
 src/geometry/fracture_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index 9e86fcc..00b4eac 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -51,7 +51,7 @@ class FractureNetwork:
     def insert_vertex_cell(self, point, physical_tag):
         R = self.points - point
         r_norm = la.norm(R, axis=1)
-        index = np.where(r_norm < self.eps)
+        index = np.where(r_norm < self.eps * max(1.0, la.norm(point)))
         vertex = None
         if index[0].size == 0:
             point_id = len(self.points)
@@ -71,7 +71,7 @@ class FractureNetwork:
 
     def coincident_vertices_q(self, i, j):
         x, y = [self.points[self.cells[k].point_id] for k in (i, j)]
-        return la.norm(x - y) < self.eps
+        return la.norm(x - y) < self.eps * max(1.0, la.norm(x))
 
     def insert_fracture_cell(self, cell_id, fracture, physical_tag):
         self.points = np.append(
-- 
2.43.0


From db49d7201f7f226c2e38bf19c5e70c0011c422f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 64/65] fix: points above small triangles were found in them

---
 src/geometry/operations/point_geometry_operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/operations/point_geometry_operations.py b/src/geometry/operations/point_geometry_operations.py
index f81f921..8f4b157 100644
--- a/src/geometry/operations/point_geometry_operations.py
+++ b/src/geometry/operations/point_geometry_operations.py
@@ -96,8 +96,8 @@ def points_line_argsort(
 
 
 def coplanar_measurement(p: np.array, a: np.array, b: np.array, c: np.array) -> float:
-    t_equ = np.hstack((np.array([a, b, c, p]), np.ones((4, 1))))
-    measurement = np.linalg.det(t_equ) / 6.0
+    # edges from one corner: the size of the coordinates does not matter
+    measurement = np.dot(np.cross(b - a, c - a), a - p) / 6.0
     return measurement
 
 
@@ -106,7 +106,7 @@ def point_triangle_incidence(
 ) -> float:
     measurement = coplanar_measurement(p, a, b, c)
     # the measurement is a volume: its roundoff grows with the cubed lengths
-    scale = max(1.0, np.max(np.linalg.norm(np.array([b, c, p]) - a, axis=1)) ** 3)
+    scale = np.max(np.linalg.norm(np.array([b, c, p]) - a, axis=1)) ** 3
     point_triangle_incidence_q = np.isclose(
         measurement, 0.0, rtol=eps, atol=eps * scale
     )
-- 
2.43.0


From ba5b9b4e7cf0d46d39b454cbbb124297affc6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:15 +0000
Subject: [PATCH 65/65] fix: segments that miss small triangles were reported
 to meet them

---
 src/geometry/operations/line_geometry_operations.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index f69debc..4e2fec1 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -150,11 +150,10 @@ def coplanar_measurements(
     line: np.array, a: np.array, b: np.array, c: np.array
 ) -> float:
     p, q = line
-    p_t_equ = np.hstack((np.array([a, b, c, p]), np.ones((4, 1))))
-    measurement_p = np.linalg.det(p_t_equ) / 6.0
-
-    q_t_equ = np.hstack((np.array([a, b, c, q]), np.ones((4, 1))))
-    measurement_q = np.linalg.det(q_t_equ) / 6.0
+    # edges from one corner: the size of the coordinates does not matter
+    normal = np.cross(b - a, c - a)
+    measurement_p = np.dot(normal, a - p) / 6.0
+    measurement_q = np.dot(normal, a - q) / 6.0
     return measurement_p, measurement_q
 
 
@@ -164,7 +163,7 @@ def line_triangle_incidence(
     measurement_p, measurement_q = coplanar_measurements(line, a, b, c)
     # the measurements are volumes: their roundoff grows with the cubed lengths
     lengths = np.linalg.norm(np.vstack((b, c, line)) - a, axis=1)
-    atol = eps * max(1.0, np.max(lengths) ** 3)
+    atol = eps * np.max(lengths) ** 3
     p_triangle_incidence_q = np.isclose(measurement_p, 0.0, rtol=eps, atol=atol)
     q_triangle_incidence_q = np.isclose(measurement_q, 0.0, rtol=eps, atol=atol)
 
@@ -226,7 +225,7 @@ def line_triangle_intersection(
     # Calculate normal of the triangle
     normal = np.cross(ab, ac)
     denom = np.dot(normal, line_dir)
-    scale = max(1.0, np.linalg.norm(normal) * np.linalg.norm(line_dir))
+    scale = np.linalg.norm(normal) * np.linalg.norm(line_dir)
     if np.isclose(denom, 0.0, rtol=eps, atol=eps * scale):
         return None
 
-- 
2.43.0

