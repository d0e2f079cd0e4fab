prop("G02", "Segment-segment intersection is exact",
 "For any two segments of positive length in space, the intersection query reports nothing exactly when the segments share no point. When they share one point (a crossing, a T, a common end point) it reports that point. When they overlap along a piece it reports an intersection, and every point it reports lies on the common piece.",
 ["inputs"], "All ordered pairs of segments, in any relative position (parallel, collinear, skew, touching, crossing, nested) and under rigid motion.",
 "The tests try a dozen hand picked pairs; the outcome depends on degenerate position classes whose combinations and orderings they do not sample.",
 ["geometry/operations/line_geometry_operations.py"],
 [("line_line_intersection", "geometry/operations/line_geometry_operations.py"), ("lines_line_intersection, lines_lines_intersection", "geometry/operations/line_geometry_operations.py")],
 ["return values of the intersection functions"], GEO,
 "Every ordered pair of segments of the 4x4 planar grid and of the 2x2x2 grid, under the listed motions, against exact rational arithmetic.")

prop("G03", "Polygons: normal, convexity, triangulation and point incidence are exact",
 "For any simple planar polygon, convex or not and with or without collinear vertices, the reported normal is a unit vector orthogonal to it, and the triangulation covers it exactly. The convexity test answers the geometric question when no three consecutive vertices are collinear. A point is reported to lie on the polygon exactly when it lies in its closure, boundary and vertices included.",
 ["inputs"], "All simple polygons and all points of their plane and off it, in any position and vertex order.",
 "The tests use a few convex polygons; re-entrant corners, collinear vertices and points on edges, vertices or diagonals are position classes they never reach.",
 ["geometry/operations/polygon_geometry_operations.py", "geometry/operations/point_geometry_operations.py"],
 [("polygon_normal, convex_q, triangulate_polygon, winding_number", "geometry/operations/polygon_geometry_operations.py"), ("point_triangle_intersection, point_polygon_intersection", "geometry/operations/point_geometry_operations.py")],
 ["return values of the polygon and point queries"], GEO,
 "Every simple polygon with 3 to 6 vertices of the 3x3 grid (both orientations) x every half-grid point around it, against exact rational arithmetic.")

prop("G06", "A planar network of line fractures is split at its intersections",
 "Intersecting a set of line fractures that meet in single points splits every fracture into consecutive pieces that start and end at its end points and at its intersections with the others, each piece keeping the identity of its fracture. Pieces that meet at an intersection share one vertex, and the recorded connectivity links each piece to its two vertices. The key that identifies a pair of indices maps back to that pair.",
 ["inputs", "configurations"], "All finite sets of planar segments that do not overlap along a piece, in any order and orientation; all pairs of natural numbers.",
 "The tests intersect one or two fixed networks; T and L junctions, several crossings on a fracture, order of insertion and large indices are not reached.",
 ["geometry/fracture_network.py", "geometry/operations/line_geometry_operations.py"],
 [("FractureNetwork.intersect_1D_fractures", "geometry/fracture_network.py"), ("pair_intergers, unpair_intergers", "geometry/fracture_network.py"), ("lines_lines_intersection", "geometry/operations/line_geometry_operations.py")],
 ["cells, points and graph of the network"], GEO,
 "Every ordered pair of segments of the 3x3 grid and every ordered triple (thorough: quadruple) of an alphabet of 8 segments, against an exact arrangement.")

prop("T02", "Cutting a line network at points and gluing it back is faithful",
 "Subtracting a set of vertices from a set of edges replaces every edge by the consecutive pieces between its end points and the given vertices that lie on it, each piece keeping the physical tag of its edge. Every shape of the result has a tag of its own, and the end vertices of every piece belong to the result. Gluing the vertices back leaves exactly one vertex, with the tags of the given one, at each of them, bounding exactly the pieces that end there; end vertices of the edges away from the given vertices stay as they are.",
 ["inputs", "configurations"], "All finite sets of edges, with shared or duplicated end vertices, and all ordered sets of cutting vertices on and off them.",
 "The tests cut one or two edges at fixed points; vertices at end points, on several edges, repeated, in any order, or on shared end points are combinations they do not reach.",
 ["topology/operations/domain_operations.py", "topology/operations/vertex_operations.py"],
 [("domain_difference, domain_union", "topology/operations/domain_operations.py"), ("vertices_edge_difference", "topology/operations/vertex_operations.py")],
 ["shapes of the resulting domain: tags, physical tags, boundary vertices and points"], OPS,
 "Every set of at most 2 (thorough 3) edges of an alphabet of 9, with and without shared end vertices, x every set of candidate vertices (intersections, end points, points off the edges), pairs in both orders.")

prop("T03", "A polygon with line fractures becomes a conforming line network",
 "Building a polygonal domain with line fractures yields the arrangement of the sides and the fractures clipped to the domain: one edge per piece between consecutive intersections, with the physical tag of its side or of the fractures, which several of them may share, and one vertex per end point, shared by all edges that meet there. Vertices carry the physical tag of their side, of an inner end point, or of an intersection of fractures. Tags are unique per dimension, and the boundary is one closed loop made of all pieces of the sides.",
 ["inputs", "configurations"], "All finite sets of fractures that do not overlap along a piece, in any order, inside, crossing, touching or leaving the domain.",
 "The tests build one or two fixed fracture sets; fractures that meet on the boundary, pass corners or intersect in several points, and the order of insertion, are not covered.",
 ["topology/domain_market.py", "topology/operations/domain_operations.py", "topology/wire.py"],
 [("create_md_box_2D", "topology/domain_market.py"), ("Wire.orient_immersed_edges", "topology/wire.py")],
 ["shapes of the resulting domain"], OPS,
 "Every ordered set of at most 2 fractures and every set of 3 (thorough: every ordered set of 3, every set of 4) of an alphabet of 17, in five placements; parallelograms from any corner and both ways with given and default tags; against an exact arrangement.")

prop("M01", "A mesh file becomes the exact cell complex of its elements",
 "Reading a mesh of lines, triangles or tetrahedra yields exactly the elements of the file and all their faces, edges and vertices, each once, whatever the numbering of the nodes, the node order of the elements and the lower-dimensional elements the file lists. Every cell lists its sub-entities at their reference positions, keeps the node order of its element, and carries the physical tag of its element and no other. Identifiers are positions, grouped by dimension, and a vertex has the identifier of its node.",
 ["inputs", "configurations"], "All conforming simplicial complexes, numberings, node orders and arrangements of tagged lower-dimensional elements.",
 "The tests read a handful of generated meshes, whose generator always uses few orders; the bookkeeping depends on the permutation of every cell and on which entities the file lists first.",
 ["mesh/mesh.py", "mesh/mesh_cell.py"],
 [("create_mesh_cells, gather_cells_from_msh, sub-entity creation", "mesh/mesh.py"), ("sub_cell_index, node_tag_index", "mesh/mesh_cell.py")],
 ["cells and points of the mesh"], CPX,
 "Every set of at most 3 cells on at most 5 nodes (2 in 3D), every node order of every cell, up to 9 arrangements of listed lower-dimensional elements.")

prop("M02", "Meshing a domain fills it and follows its pieces and tags",
 "Meshing a line network, a polygon, a hexahedron or such a domain with immersed fractures yields a conforming mesh that fills the domain exactly. The elements that carry the tag of a side, line or plane tile exactly the pieces with that tag, also after refinement, and every vertex of the domain, or immersed in it, is one node with its tag. A requested number of points on the fractures is met on every piece of a fracture.",
 ["inputs", "configurations"], "All polygons, boxes, line networks and fracture sets whose pieces meet only in shared vertices, all tags, mesh sizes, refinements and placements.",
 "The tests mesh a few fixed domains and look at counts or nothing at all; shared corners, fractures that touch the boundary, equal tags, planes that share edges and small or large placements are not reached.",
 ["mesh/discrete_domain.py", "mesh/conformal_mesher.py", "geometry/geometry_builder.py", "topology/domain_market.py"],
 [("DiscreteDomain.generate_mesh", "mesh/discrete_domain.py"), ("ConformalMesher.generate, generate_from_domain", "mesh/conformal_mesher.py"), ("build_box_1D, build_box_2D, build_box_3D", "topology/domain_market.py"), ("GeometryBuilder", "geometry/geometry_builder.py")],
 ["cells and points of the mesh read back from the file"], OPS,
 "Every ordered pair and every set of 3 of 17 fractures in a box, every pair of 9 lines as a network, every set of 3 of 8 fractures of a network, every set of 3 of 6 planes in a box, sets of vertices and edges immersed in boxes and sides, 9 boxes and polygons with every mesher, against the exact arrangement.")

prop("M03", "Incidence graphs, neighbour queries and tag restrictions are exact",
 "The incidence graph between two dimensions links a cell with an entity exactly when the entity is a sub-entity of the cell; restricted to physical tags, to tagged cells or to given cells it contains exactly the pairs of the selected cells. The topology built on a mesh, or on a set of physical tags, lists exactly the entities of the selected cells. The neighbours of an entity are exactly the selected cells that contain it, and a topology of a dimension the mesh does not have is refused.",
 ["inputs", "configurations"], "All meshes, assignments of physical tags, and selections of tags and dimensions.",
 "The tests query one mesh with one tag; the result depends on every tag assignment and dimension pair.",
 ["mesh/mesh.py", "mesh/mesh_topology.py", "mesh/topological_queries.py"],
 [("build_graph, build_graph_on_physical_tags, build_graph_on_materials, build_graph_from_cell_ids", "mesh/mesh.py"), ("MeshTopology", "mesh/mesh_topology.py"), ("find_higher_dimension_neighs", "mesh/topological_queries.py")],
 ["edges of the graphs, entity lists, neighbour lists"], CPX,
 "Every set of at most 3 cells on at most 5 nodes x every assignment of two tags x every tag selection x every dimension pair.")

prop("M04", "Cutting conformity along fractures splits exactly along them",
 "Cutting the conformity of a planar mesh along tagged line fractures keeps every triangle with its corners, and two triangles that share an edge or a vertex still share it exactly when no fracture separates them there. Every fracture edge gets one copy per side, at its place, bounding the triangle of that side and tagged for that side. Only where an opening is asked for do the copies move, away from the cut to their own side; a fracture itself stays connected except where it crosses another one.",
 ["inputs", "configurations"], "All planar meshes and all networks of straight fractures, inside the mesh, ending on its boundary or crossing it, in any order, orientation and position.",
 "The tests cut one mesh along one network; slanted lines, ends on the boundary, crossings, several lines and element orders are configurations they do not vary.",
 ["mesh/mesh_operations.py", "mesh/mesh.py"],
 [("cut_conformity_along_c1_lines", "mesh/mesh_operations.py"), ("cut_conformity_on_fractures_mds_ec, cut_conformity_on_embed_shapes", "mesh/mesh.py")],
 ["cells and points of the mesh after the cut", "pairs reported by the cut"], CPX,
 "Every ordered set of at most 2 (thorough 4) admissible lines of an alphabet of 12 on a 64-triangle mesh, three placements, three element orders, for the three cut operations, with and without an opening, and on meshes generated with the lines as fractures, against the fans of triangles around every vertex.")

prop("M05", "A colouring never gives one colour to cells that share an entity",
 "Colouring the cells of a mesh by a co-dimension gives every cell exactly one colour, and cells that share an entity of that co-dimension different ones. Colours are numbered from zero, and both directions of the reported map agree. No more colours than requested are used when the request exceeds the number of conflicts of every cell.",
 ["inputs", "configurations"], "All meshes, co-dimensions and requested numbers of colours.",
 "The tests look at a single mesh through its export; the colouring depends on the whole conflict graph and on the requested number.",
 ["mesh/mesh_coloring.py"], [("coloring_mesh_by_co_dimension", "mesh/mesh_coloring.py")],
 ["the two returned maps"], CPX,
 "Every set of at most 4 lines on 6 nodes, 4 triangles on 5 nodes and 3 tetrahedra on 6 nodes (thorough: 5, 5 on 6 nodes, 4), strips and grids of up to 6 (9) squares in every triangulation and cell stride, every co-dimension, every number of colours up to 8 (14).")

prop("M06", "Mesh exports describe the mesh",
 "Exporting a mesh writes one file per dimension that has tagged cells, and that file holds exactly those cells, with their nodes, physical tags and identifiers, over the points of the mesh. Exported colours differ for cells that share an entity of the co-dimension of the colouring. The text listing holds every point and every cell with its nodes, tags and sub-entities, and its header counts them.",
 ["inputs", "configurations"], "All meshes and arrangements of tagged entities.",
 "The tests write files and do not read them back.",
 ["mesh/mesh.py", "mesh/mesh_coloring.py"], [("write_vtk, write_data", "mesh/mesh.py")],
 ["the files written"], CPX,
 "Every set of at most 3 (thorough 4 in 1D and 2D) cells on at most 6 nodes, every arrangement of tagged entities, two node orders, with and without colours; files are read back.")

prop("S02", "Discrete spaces are conforming across facets",
 "On two cells that share a facet, every basis function of a continuous space takes the same values on the facet from both sides. In a divergence-conforming space the normal component agrees when the two cells are listed with the same orientation, and in a curl-conforming space the tangential components agree. This holds for every supported degree, node numbering and node order, and also when the facet is itself a tagged element of the mesh.",
 ["inputs", "configurations"], "All pairs of neighbouring cells, node numberings and orders, families and degrees.",
 "The tests use generated meshes with few orderings and check integrals; conformity depends on the relative permutation of every pair of cells.",
 ["basis/permute_and_transform.py", "basis/finite_element.py", "spaces/dof_map.py", "spaces/discrete_space.py"],
 [("permute_and_transform", "basis/permute_and_transform.py"), ("DoFMap destination indices", "spaces/dof_map.py")],
 ["basis values and destination indices of the space"], FEM,
 "Every numbering and every node order of a pair of triangles; every numbering of the apexes and every node order of a pair of tetrahedra; 13 (12) spaces each.")

prop("G01", "Point incidence with lines, segments and triangles is exact",
 "A point is reported to lie on a segment, or in a triangle, exactly when it belongs to it, end points, edges and corners included, and then the point itself is reported. Asking about several points at once gives the answer of every single one, in their order, with a mask of those that belong. Sorting points along a segment orders them by their distance from its start, or in reverse.",
 ["inputs"], "All points, segments of positive length and triangles of positive area in space, in any position and vertex order.",
 "The tests use one segment and one triangle; points on end points, edges, extensions and planes of them are classes they only touch once.",
 ["geometry/operations/point_geometry_operations.py"],
 [("point_line_incidence, point_line_intersection, points_line_argsort", "geometry/operations/point_geometry_operations.py"), ("point_triangle_intersection, points_triangle_intersection", "geometry/operations/point_geometry_operations.py")],
 ["return values of the point queries"], GEO,
 "Every segment of the 3x3x3 grid and every triangle of the 2x2x2 grid x every half-grid point around them, under two (thorough four) motions.")

prop("G04", "Segment-polygon and segment-triangle intersection is exact",
 "For any segment and any simple planar polygon or triangle, the intersection query reports nothing exactly when they share no point. A segment that meets the plane in one point gets that point. A segment in the plane with both ends outside gets the first and last common point, every reported point is common to both, and asking about several segments at once gives the answers of the single ones, in order.",
 ["inputs"], "All segments and simple polygons, convex or not, in any relative position and under rigid motion.",
 "The tests use a few segments through the middle; ends on edges, corners or the plane, coplanar and touching segments, and re-entrant polygons are classes they do not reach.",
 ["geometry/operations/line_geometry_operations.py", "geometry/operations/polygon_geometry_operations.py"],
 [("line_polygon_intersection, lines_polygon_intersection", "geometry/operations/line_geometry_operations.py"), ("line_triangle_intersection, lines_triangle_intersection", "geometry/operations/line_geometry_operations.py")],
 ["return values of the intersection functions"], GEO,
 "One triangle and quadrilateral of the 3x3 grid per symmetry class (thorough: all, plus pentagons and hexagons) x every segment between the grids of three heights and of a larger grid in the plane, against exact rational arithmetic.")

prop("T01", "Shapes have a consistent identity, structure and orientation",
 "Two shapes are equal exactly when they agree in dimension, tag, place, and boundary and immersed shapes; membership and assignment follow that equality, and a shape of another kind, or one of an inadmissible dimension, is refused and changes nothing. The oriented edges of a wire form a path that follows the order of its edges, whatever the order of their ends and the numbering of their vertices. Renumbering followed by a new orientation keeps the path.",
 ["inputs", "histories"], "All shapes of every dimension and nesting, sequences of assignments, and open or closed wires in any orientation and numbering.",
 "The tests build single shapes of each kind; equality and orientation depend on nested structure and on the relative order of ends, which they do not vary.",
 ["topology/shape.py", "topology/wire.py", "topology/edge.py", "topology/vertex.py", "topology/face.py", "topology/solid.py"],
 [("Shape.__eq__, __contains__, shape_assignment, setters", "topology/shape.py"), ("Wire.orient_immersed_edges, orient_immersed_vertices", "topology/wire.py")],
 ["comparisons, membership, accessors and refused values of shapes"], OPS,
 "Every pair (thorough: triple) of a universe of 60 shapes, and every wire of at most 4 (5) edges with every numbering and edge orientation.")

prop("T04", "Domains keep their shapes, tags and incidences straight",
 "After any sequence of appending, renumbering, reorienting and graph building, a domain lists the same shapes, with the same structure and physical tags and tags unique per dimension; lookups by place, tag or physical tag find exactly those shapes, and the incidence graph holds exactly the boundary and immersion relations below the shapes it is built from. A segment, polygon or box built from corner points is closed: every corner, side and edge appears once, every side joins the right corners with its physical tag, every edge of a box bounds two sides, and the graph reaches every shape from the whole.",
 ["histories", "inputs"], "All domains, all sequences of operations on them, all simple polygons and hexahedral boxes in any position, and all choices of physical tags.",
 "The tests build the standard boxes once and never renumber; effects of renumbering shared and immersed shapes appear only in sequences of operations.",
 ["topology/domain.py", "topology/domain_market.py", "topology/wire.py"],
 [("Domain", "topology/domain.py"), ("build_box_1D, build_box_2D, build_box_3D, read_fractures_file", "topology/domain_market.py")],
 ["lists, tags, lookups and graph of a domain"], OPS,
 "Domains from every subset of 6 features x 3 numberings x every sequence of at most 3 (thorough 4) of 10 operations; every polygon on 3 to 5 of 6 points, segments and boxes in three placements with three choices of tags.")

prop("T05", "Vertex and edge intersections keep tags, places and inputs right",
 "Intersecting vertices and edges reports a vertex exactly when they meet, at the right place, with the requested tag when it is new and with the existing vertex when that is one of the end vertices. With several vertices and edges every edge gets its own vertices, in order, with consecutive tags. Intersections change none of the given shapes, and collapsing merges only shapes at the same place.",
 ["inputs", "configurations"], "All vertices and edges, with shared or separate end vertices, and all ordered lists of them.",
 "The tests intersect single pairs; lists, shared end vertices, tags that coincide and degenerate positions are combinations they do not reach.",
 ["topology/operations/vertex_operations.py", "topology/operations/edge_operations.py", "topology/operations/domain_operations.py"],
 [("vertex_edge_intersection, vertices_edges_intersection", "topology/operations/vertex_operations.py"), ("edge_edge_intersection, collapse_edge", "topology/operations/edge_operations.py"), ("domain_intersection", "topology/operations/domain_operations.py")],
 ["returned vertices with their tags and points; the given shapes afterwards"], OPS,
 "Every pair of edges and every edge x half-grid point of the 3x3 grid, and every ordered set of at most 3 (thorough 4) of 8 points x every ordered set of at most 2 (3) of 6 edges.")

prop("T06", "Lines embedded in a rectangle are cut where they cross",
 "Lines given for a rectangle that meet each other and its sides only in points inside both are cut there and nowhere else: the domain has exactly the pieces between consecutive crossings, in their order along each side and line, pieces that meet share one vertex, and every shape has its own tag. Crossing edges directly gives the same pieces in each coordinate plane, numbered consecutively from the requested tags. Vertices embedded in an edge split it exactly at those that lie inside it, wherever the others are, and move nothing.",
 ["inputs", "configurations"], "All sets of lines in general position, points around an edge, coordinate planes and shifts of tags.",
 "The tests use one set of lines and one list of points; how many lines meet in a point, their order, and points off the edge or behind it are combinations they do not reach.",
 ["topology/domain_market.py", "topology/shape_manipulation.py", "topology/domain.py"],
 [("build_box_2D_with_lines", "topology/domain_market.py"), ("intersect_edges, embed_vertex_in_edge", "topology/shape_manipulation.py"), ("refresh_wires, remove_vertex, retag_shapes", "topology/domain.py")],
 ["shapes of the domain with their tags, boundaries and immersed pieces; the given vertices and edges afterwards"], OPS,
 "Every line of a grid around the rectangle, pairs and triples of them (thorough: all pairs, quadruples), every set of at most 3 (4) of 10 segments in every order, and every ordered list of at most 3 (4) of 9 points.")

prop("S01", "Degrees of freedom are numbered consistently with the cells",
 "The degrees of freedom of a space on the cells of chosen physical tags are numbered consecutively from zero. Every vertex, edge, face and cell of these cells owns as many as the family, degree and number of components require; a continuous space gives an entity the same numbers in all cells that contain it, and different entities and components never share one. A discontinuous space gives every cell numbers of its own, and asking for boundary tags yields exactly the tagged facets of the chosen cells.",
 ["inputs", "configurations"], "All simplicial meshes, physical tags and their selections, families, degrees and numbers of components.",
 "The tests count degrees of freedom on single meshes; the numbering depends on which entities are shared, on the selection of tags and on the family.",
 ["spaces/dof_map.py", "spaces/discrete_space.py", "basis/element_family.py", "basis/element_data.py"],
 [("DoFMap.build_entity_maps, destination_indices, dof_number", "spaces/dof_map.py"), ("DiscreteSpace.build_structures, build_boundary_structures, make_discontinuous", "spaces/discrete_space.py")],
 ["destination indices, n_dof, elements and boundary elements of the space"], FEM,
 "Every set of at most 3 cells on at most 5 nodes x every assignment of two tags x every selection x up to 21 spaces x 1 to 3 components.")

prop("S03", "Product spaces lay out their fields, shifts and quadratures correctly",
 "A product of fields numbers the fields one after the other in the order they are given, from the chosen shift on: on every cell and every boundary facet, each field has the indices it has alone, moved by the shift and the sizes of the fields before it. An inadmissible shift is refused and changes nothing. The quadrature rules of cells and of boundary facets integrate polynomials up to twice the highest degree of the fields plus one exactly.",
 ["inputs", "configurations"], "All products of spaces of any families, degrees and components, selections of tags and shifts.",
 "The tests use fixed products; order, mixed continuous and broken fields, shifts and boundary tags combine in ways they do not sample.",
 ["spaces/product_space.py"],
 [("ProductSpace.destination_indexes, bc_destination_indexes, dof_shift", "spaces/product_space.py"), ("ProductSpace.quadrature, bc_quadrature", "spaces/product_space.py")],
 ["indices, sizes, quadrature rules of the product"], FEM,
 "Every set of 2 lines, triangles or tetrahedra x every ordered set of at most 2 (thorough 3) of 6 to 8 fields x three tag selections x three shifts; every pair of degrees up to 5 for the quadratures.")

prop("S04", "Facets match the cells they bound: places, indices and traces",
 "Points of a facet are mapped to the parameters of every cell that contains it so that both give the same place, for any order of the nodes of the facet and of the cell. The boundary indices of a facet are exactly the degrees of freedom whose functions act on the facet (value, normal or tangential component, by family). For continuous scalar families the functions of the facet are the traces of the functions of the cell with the same index and component.",
 ["inputs", "configurations"], "All cells and facets, node numberings and orders, families, degrees and components.",
 "The tests use generated meshes whose facets come in few orders; agreement depends on the relative permutation of facet and cell.",
 ["basis/parametric_transformation.py", "basis/permute_and_transform.py", "spaces/dof_map.py", "spaces/product_space.py", "basis/finite_element.py"],
 [("transform_lower_to_higher", "basis/parametric_transformation.py"), ("DoFMap.bc_destination_indices", "spaces/dof_map.py"), ("permute_and_transform", "basis/permute_and_transform.py")],
 ["mapped points, boundary indices, basis values"], FEM,
 "Every numbering and node order of two cells (3D: every apex numbering) x every facet in two or three node orders x up to 13 spaces.")

prop("S05", "The L2 projection reproduces the space and is the closest function",
 "Projecting a function that belongs to a product space gives coefficients that represent it exactly, in every field and component, on meshes of any size and position. For a function outside of the space the error of the projection is orthogonal to every function of the space, up to quadrature. Both modes of solving give the same coefficients.",
 ["inputs", "configurations"], "All meshes, numberings, products of continuous, broken, divergence- and curl-conforming fields, and functions.",
 "The tests project on a few meshes and compare norms; the result depends on numbering, orientation, size of cells and on the mix of fields.",
 ["postprocess/projectors.py", "spaces/product_space.py", "basis/finite_element.py"],
 [("l2_projector", "postprocess/projectors.py"), ("FiniteElement.evaluate_basis", "basis/finite_element.py")],
 ["coefficients returned by the projection"], FEM,
 "Every numbering of two cells that share a facet x node orders x three placements x products of up to 8 kinds, against an independent quadrature of degree 2k+2.")

prop("S06", "Traces of a space on a facet are the values of a neighbour",
 "For every facet of the cells of a space and each of its neighbours, the trace of the functions gives, for every field asked for, the values of all functions of that neighbour at the chosen points of the facet. All fields follow the same neighbour, every neighbour can be chosen, and the first one is the default. Restricted to the facet, the trace has exactly the functions that act on that facet and on no other one, in the order of the boundary indices for divergence-conforming fields.",
 ["inputs", "configurations"], "All simplicial meshes, numberings, node orders of cells and facets, and products of continuous and broken fields.",
 "No test takes a trace; it depends on the numbering of the neighbours, the position of the facet in each of them and the orientation of both.",
 ["basis/basis_trace.py", "basis/parametric_transformation.py", "mesh/topological_queries.py"],
 [("trace_product_space, trace_discrete_space", "basis/basis_trace.py"), ("transform_lower_to_higher", "basis/parametric_transformation.py")],
 ["values returned by the trace"], FEM,
 "Two cells that share a facet in 1D, 2D and 3D, numberings x node orders x facets x neighbours x products of the families, and 10 larger meshes, against evaluation at barycentric coordinates.")

prop("W02", "Errors and norms of discrete fields are the integrals they denote",
 "For any coefficients of a product space and any exact fields, the reported L2 error of every field, L2 errors of gradients, of divergences and of the divergence of a field times a given scale, L2 norm and norm of the divergence are the square roots of the corresponding integrals over the mesh, field by field. The variant that projects the exact fields first gives the error against the projection. This holds for cells of any size, position, numbering and orientation.",
 ["inputs", "configurations"], "All meshes, products of fields, coefficients and polynomial exact fields.",
 "The tests only look at convergence of small errors; a wrong factor, component or direction is invisible when the error is small.",
 ["postprocess/l2_error_post_processor.py", "postprocess/solution_norms_post_processor.py"],
 [("l2_error, l2_error_projected, grad_error, div_error, div_scaled_error", "postprocess/l2_error_post_processor.py"), ("l2_norm, div_norm", "postprocess/solution_norms_post_processor.py")],
 ["numbers returned by the evaluators"], FEM,
 "The meshes, placements and products of S05 with coefficients without structure, against an independent quadrature.")

prop("W04", "Files with solutions carry the fields that were computed",
 "A file written from a discrete solution shows the points of the mesh and the cells of the fields, and for every field at every node the mean of its values there on the cells that carry it, or at every cell its value at the centroid, in all components. Exact fields are shown by their values at the same places and errors by the length of the difference. Where several fields on different parts of the mesh are written together, places outside of a field carry no number.",
 ["inputs", "configurations"], "All meshes, numberings, materials, products of fields, coefficients, and choices of what is written by cell.",
 "No test reads a written solution back; components, averages at nodes shared by materials and broken fields can be wrong unnoticed.",
 ["postprocess/solution_post_processor.py"],
 [("write_vtk_file, write_vtk_file_with_exact_solution, write_vtk_file_pointwise_l2_error", "postprocess/solution_post_processor.py"), ("write_fe_spaces_on_vtk_file_with_exact_solution, write_vtk_file_exact_solution", "postprocess/solution_post_processor.py")],
 ["contents of the written files"], FEM,
 "Two cells that share a facet, and fans of up to 5 cells, x materials x numberings x products of up to 10 kinds on all cells, on one material, or one product per material, and on the facet alone x every choice of fields written by cell, read back with an independent reader.")

prop("G07", "Maps of cells, facet normals and mesh sizes are right",
 "The map of a line, triangle or tetrahedron sends the reference corners to the nodes in order and is affine; its Jacobian and its inverse are those of that map and its determinant is the ratio of the volumes, for cells in any position in space. The normal of a facet of a cell is a unit vector, orthogonal to the facet, in the plane of the cell, that points out of it. The centroid is the mean of the corners, the diameter of a cell is its longest edge, and the mesh sizes are the least, mean and largest diameter of the selected cells.",
 ["inputs"], "All non-degenerate simplices in space, of any size and orientation, and their facets.",
 "The tests use meshes in coordinate planes; rotated, stretched and tiny cells and all node orders are not sampled.",
 ["basis/finite_element.py", "geometry/mapping.py", "geometry/compute_normal.py", "mesh/mesh_metrics.py"],
 [("evaluate_mapping", "basis/finite_element.py"), ("normal", "geometry/compute_normal.py"), ("cell_centroid, cell_diam, mesh_size", "mesh/mesh_metrics.py")],
 ["returned points, Jacobians, determinants, normals and sizes"], GEO,
 "Every ordered non-degenerate pair, triple and quadruple of the 2x2x2 grid under up to 4 placements; every set of 2 cells for the sizes.")

prop("A01", "Assembly adds exactly the local contributions, once each",
 "Assembling adds, for every entry of every sequence of elements, its local residual and matrix at the global indices of that element, or of the pair of elements for interfaces, and nothing else; repeated entries and repeated runs add up. Every form is given the coefficients of its own element, and the time and the older coefficients where it asks for them. The given coefficients are not changed.",
 ["inputs", "histories"], "All meshes, products of spaces, shifts, kinds of forms and sequences of elements.",
 "The tests compare solutions of whole problems; a contribution misplaced, doubled or dropped for some kind of form or combination stays hidden.",
 ["assembly/SequentialAssembler.py", "assembly/ScatterFormData.py", "spaces/product_space.py"],
 [("SequentialAssembler.scatter_forms", "assembly/SequentialAssembler.py")],
 ["matrix, residual, and the arguments of the forms"], OPS,
 "4 meshes x 3 products x 2 shifts x every sequence of at most 2 (3) elements for each of 6 kinds of forms; every ordered set of at most 3 (4) kinds in one run, two runs into one matrix.")

prop("A02", "Solving a model problem returns the solution its spaces contain",
 "For every model with boundary conditions (primal and dual diffusion, degenerate and unscaled two-phase flow, primal and Taylor-Hood elasticity, primal Cosserat, mixed elasticity, Cosserat and scaled Cosserat), when the exact solution lies in the chosen spaces, assembling its forms on the cells and its natural, essential and traction conditions on the facets and solving the system returns that solution at every point, and the reported errors vanish. This holds on meshes built from domains, boxes of every dimension and meshes cut along fractures, where the parts on both sides of a cut are independent and a flow along the fracture shares the system. It holds for every numbering, node order and assignment of conditions to the boundary.",
 ["inputs", "configurations"], "All meshes, numberings, cuts, assignments of boundary conditions and polynomial solutions.",
 "The tests solve a few convergence problems with conditions of one kind on the whole boundary; an index, orientation or tag that goes wrong for another boundary, cut or numbering stays hidden.",
 ["spaces/product_space.py", "assembly/SequentialAssembler.py", "weak_forms", "mesh/mesh_operations.py"],
 [("ProductSpace.build_structures", "spaces/product_space.py"), ("SequentialAssembler.scatter_forms", "assembly/SequentialAssembler.py"), ("cut_conformity_along_c1_lines", "mesh/mesh_operations.py")],
 ["the solution of the assembled system, evaluated on every cell"], FEM,
 "Pairs of cells, larger, generated and cut meshes x 11 models x assignments of conditions, against polynomial solutions whose data are differentiated exactly.")

prop("W01", "Local forms of the models are the integrals that define them",
 "For every cell and every pair of fields of the space, the local tangent of each weak form (primal and dual diffusion, degenerate and unscaled two-phase flow, projections, primal, mixed and Taylor-Hood elasticity, primal, mixed and scaled Cosserat elasticity and their Riesz maps) is the bilinear form of its model, with coefficients that vary in space. The residual at the zero state is its load term, and the residual of the forms that take a state is the tangent applied to it plus the load. The variants of a form that are written in different ways agree.",
 ["inputs", "configurations"], "All cells of any size, numbering and orientation, degrees, families, coefficient functions, loads and states.",
 "The tests assemble none of these forms; a wrong sign, factor, component or index of one term can only be seen with fields and coefficients that excite it.",
 ["weak_forms/le_primal_weak_form.py", "weak_forms/le_primal_stress_constraint_weak_form.py", "weak_forms/le_taylor_hood_weak_form.py", "weak_forms/lce_primal_weak_form.py", "weak_forms/laplace_primal_weak_form.py", "weak_forms/laplace_dual_weak_form.py", "weak_forms/degenerate_elliptic_weak_form.py", "weak_forms/unscaled_elliptic_weak_form.py", "weak_forms/scaled_to_physical_l2_projection.py", "weak_forms/l2_projector_weak_form.py", "weak_forms/le_dual_weak_form.py", "weak_forms/lce_dual_weak_form.py", "weak_forms/lce_scaled_dual_weak_form.py", "weak_forms/le_riesz_map_weak_form.py", "weak_forms/lce_riesz_map_weak_form.py", "weak_forms/lce_scaled_riesz_map_weak_form.py"],
 [("evaluate_form, evaluate_form_vectorized of the weak forms", "weak_forms")],
 ["local residuals and tangents"], FEM,
 "Both cells of a patch in every node order, 3 placements x 17 forms x degrees and families; every pair of polynomials of the local space against the integral computed from the polynomials.")

prop("W03", "Local forms of boundary conditions are the integrals that define them",
 "For every boundary facet and every field of the space, the local residual of each boundary condition is the integral over the facet of the given data against the trace the condition acts on: values for displacements, pressures and tractions, the outward normal component for normal displacements, fluxes and stresses. Conditions imposed by penalty have the penalised mass of that trace as their tangent, so that their solution is the given data; the others have none. Rows and columns are those of the boundary indices of the facet.",
 ["inputs", "configurations"], "All facets of cells of any size, numbering and node order, degrees, families and data that vary in space.",
 "The tests assemble none of these forms; axis-aligned sides, constant data and one node order hide errors of normals, components and order of the functions.",
 ["weak_forms/le_primal_weak_form.py", "weak_forms/le_taylor_hood_weak_form.py", "weak_forms/lce_primal_weak_form.py", "weak_forms/laplace_primal_weak_form.py", "weak_forms/laplace_dual_weak_form.py", "weak_forms/degenerate_elliptic_weak_form.py", "weak_forms/unscaled_elliptic_weak_form.py", "weak_forms/le_dual_weak_form.py", "weak_forms/lce_dual_weak_form.py", "weak_forms/lce_scaled_dual_weak_form.py", "basis/parametric_transformation.py", "geometry/compute_normal.py"],
 [("evaluate_form of the boundary forms", "weak_forms"), ("transform_lower_to_higher", "basis/parametric_transformation.py"), ("normal", "geometry/compute_normal.py")],
 ["local residuals and tangents, boundary indices"], FEM,
 "Every boundary facet of a patch of two cells in every node order, 3 placements x 15 conditions x degrees and families; every pair of polynomials of the local space.")
