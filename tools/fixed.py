"""Keeps the 'fixed' entries of known_findings.json (python3 tools/fixed.py)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
 ("polygon_normal is well", "G03", "normal of a polygon whose first corners are collinear"),
 ("triangulate_polygon keeps", "G03", "triangulation of a non-convex polygon"),
 ("strictly inside of the other", "G02", "a segment strictly inside another one was reported as disjoint"),
 ("returns a vertex with a point of shape", "T05", "edge_edge_intersection returned a vertex with a nested point"),
 ("domain_union links every edge", "T02", "only one of the edges that meet at a glued vertex was linked"),
 ("vertices_edges_intersection with several", "T05", "crashed or mixed tags with several edges"),
 ("shapes with different boundaries", "T01", "equality ignored differing boundary or immersed shapes"),
 ("a closed wire contains", "T01", "membership of the boundary vertex of a closed wire"),
 ("orientation of a wire that starts", "T01", "orientation of a wire whose first edge is reversed"),
 ("fractures that meet on the boundary", "T03", "create_md_box_2D with fractures that meet on the boundary"),
 ("sorts the edges of the wire", "T03", "edges of the boundary wire were not in loop order"),
 ("the wire of create_md_box_2D gets", "T03", "the wire had the tag of another shape"),
 ("interior faces with a physical tag", "S02", "spaces on tetrahedra were not conforming across a tagged interior face"),
 ("node tags of the edges of a tetrahedron", "M01", "edges of a tetrahedron stored a list of node tags"),
 ("node outside every element", "M01", "a node outside every element left a hole in the list of cells"),
 ("coloring_mesh_by_co_dimension colors", "M05", "cells that share a sub-entity got one colour"),
 ("cutting along a slanted line", "M04", "a slanted fracture was torn at its vertices"),
 ("intersects its lines with the exact segment test", "G06", "disjoint collinear fractures were reported to intersect; fractures meeting at an end point missed each other because of rounding"),
 ("get no edge of zero length", "G06", "fractures meeting at end points got an edge of zero length"),
 ("batches of lines that meet a polygon", "G04", "a batch of lines of which some meet a polygon in a point and some in a segment crashed"),
 ("vertex can be compared", "T01", "comparing a vertex with a shape of another dimension crashed"),
 ("functions inside a face of a tetrahedron follow", "S04", "functions of degree 4 inside a face did not follow the orientation of the face, so facet and cell disagreed"),
 ("vector families on lines with any number", "S05", "vector families on lines gave values only for as many points as functions"),
 ("keeps the entries of small cells", "S05", "the projector dropped the entries of small cells"),
 ("grad_error evaluates the map", "W02", "grad_error reused stale or missing maps and basis values"),
 ("DiscreteDomain meshes domains of dimension 3", "M02", "DiscreteDomain crashed on a domain of dimension 3"),
 ("duplicated ends of fractures", "M02", "fractures that meet at end points left isolated duplicated nodes in the mesh"),
 ("primal Laplace forms use", "W01", "the primal Laplace forms could not be evaluated, and their boundary form dropped functions of degree 3 and more"),
 ("differentiated elasticity forms use", "W01", "the differentiated mixed elasticity forms could not be evaluated"),
 ("stress boundary forms evaluate", "W03", "two essential boundary forms of the stress could not be evaluated"),
 ("normal displacement condition couples", "W03", "on slanted boundaries the penalised normal displacement was not the given one"),
 ("degenerate boundary form leaves", "W03", "the degenerate boundary form changed an array the user's function returned, and failed on integer data"),
 ("written solutions keep all", "W04", "fields with more components than the dimension were cut when written"),
 ("written pointwise error compares", "W04", "the written pointwise error of fields with several components mixed the components"),
 ("values per cell are written for", "W04", "values per cell of a field on part of the mesh could not be written"),
 ("retagging a dimension keeps", "T04", "renumbering the faces of a domain also renumbered their immersed vertices and edges, which then shared tags"),
 ("cutting along a fracture of one mesh edge", "M04", "cutting along a fracture that is one edge of the mesh failed"),
 ("traces look up the neighbour", "S06", "every trace failed, the neighbour was looked up by a pair"),
 ("mesher of domains takes vertices immersed", "M02", "vertices immersed in faces or solids could not be meshed"),
 ("discrete domains take vertices immersed", "M02", "vertices immersed in edges were not nodes of the mesh of the edge, those in faces and solids could not be meshed"),
 ("measure the opening of a cut", "M04", "the visual opening of a cut longer than one moved the copies of its points through the cut to the other side"),
 ("embed planes of a solid", "M02", "planes inside a solid that carry vertices could not be meshed, those that carry edges were not part of the mesh of the solid"),
 ("a space built without boundary tags", "S03", "a space that was built again without boundary tags kept its old boundary elements"),
 ("write meshes with untagged tetrahedra", "M06", "a mesh with an untagged tetrahedron could not be written"),
 ("write values per cell and errors", "W04", "values per cell and errors of a field on a part of the mesh could not be written"),
 ("leave out cells of other dimensions", "W04", "solutions on cells whose tag number a lower-dimensional cell has as well could not be written"),
 ("embed in an edge only the vertices", "T06", "vertices off an edge or behind its first end were embedded in it and the edge was split through them"),
 ("sides of a fractured domain that share", "T03", "sides of a domain with fractures that share a physical tag were put into the boundary loop once per side"),
 ("solids that share a physical tag", "M02", "two solids with one physical tag could not be meshed"),
 ("mesh files without elements of every", "M06", "the elements of a mesh file without vertices or lines could not be exported"),
 ("projection into a shifted space", "S05", "projecting with the shift of the space used wrong or negative indices"),
 ("more components than dimensions", "W02", "components of a field beyond the dimension were left out of errors and norms"),
 ("segments far from the origin", "G02", "segments far from the origin were taken for the same segment and reported as not crossing"),
 ("vertices far from the origin", "T01", "vertices far from the origin that differ were equal and looked up as one"),
 ("points of cut edges and boxes far", "T02", "far from the origin points that cut an edge next to its ends, or fractures next to each other, were lost"),
 ("edges cut far from the origin", "T06", "edges that meet far from the origin were cut at the wrong of two close points"),
 ("cut by integer vertices", "T02", "the end points of an edge cut by vertices with integer coordinates were truncated to integers"),
 ("points on long segments", "T03", "points on slanted segments kilometres long (in metres) were not found on them, so that intersections, pieces and vertices of networks were lost"),
 ("points in large triangles", "G01", "points in tilted triangles with sides of thousands of units were not found in them"),
 ("large polygons are triangulated", "G03", "polygons with sides of thousands of units were triangulated with overlapping triangles or triangles outside"),
 ("segments that meet large triangles", "G04", "segments that meet tilted triangles and polygons with sides of thousands of units in their plane or with an end were not found"),
 ("intersections of large fracture networks", "G06", "intersections in networks with coordinates of thousands got several vertices"),
 ("points above small triangles", "G01", "points off a triangle with sides of millimetres (in metres) were found in it"),
 ("segments that miss small triangles", "G04", "points were reported for segments that miss triangles with sides of millimetres"),
 ("uses the integer square root", "G06", "unpairing failed for large indices"),
]
p = os.path.join(ROOT, "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
d["fixed"] = []
used = set()
exec(open(os.path.join(ROOT, "tools", "fixed_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "fixed_more.py")) else None
for h, s in log:
    if s.startswith("fix:"):
        m = [x for x in MAP if x[0] in s]
        assert len(m) == 1, (h, s, m)
        d["fixed"].append(f"fixed: property={m[0][1]} {h} {m[0][2]}")
json.dump(d, open(p, "w"), indent=1)
print(len(d["fixed"]))
