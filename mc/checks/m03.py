"""M03: incidence graphs, neighbour queries and topologies restricted by tags."""
import itertools

import numpy as np

from mc import larger
from mc.complexes import POINTS, REF, cell_sets, orders, faces
from mc.meshes import read_mesh
from mesh.mesh_topology import MeshTopology
from mesh.topological_queries import find_higher_dimension_neighs, find_lower_dimension_neighs, sub_entity_by_co_dimension

ID = "M03"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "1D: all sets of <=3 lines on <=4 nodes; 2D: all sets of <=3 triangles on <=4 nodes and of 2 triangles on 5 nodes; 3D: 1 tetrahedron and all pairs on 5 nodes; every assignment of the tags {1,2,none} to the cells x every tag selection; two node orders per cell; 13 larger meshes (up to 48 cells) in 3 numberings; every sequence of builds (whole, restricted) of two graphs of one mesh with exchanges of the tags or of the places of the cells in between",
    "thorough": "as quick, every node order in 2D, sets of 3 triangles on 5 nodes, 4 on 4 nodes",
}


OPS = [("A", None), ("A", [1]), ("A", [2]), ("B", [1]), ("B", None), "exchange tags", "exchange cells"]


def spaces(tier):
    t = tier == "thorough"
    yield "lines", [
        [1, n, list(map(list, s))]
        for n, k in ((2, 1), (3, 2), (4, 2), (3, 3), (4, 3))
        for s in cell_sets(1, n, k)
    ]
    two = ((3, 1), (4, 2), (5, 2), (4, 3)) + (((5, 3), (4, 4)) if t else ())
    yield "triangles", [[2, n, list(map(list, s))] for n, k in two for s in cell_sets(2, n, k)]
    yield "tetrahedra", [[3, n, list(map(list, s))] for n, k in ((4, 1), (5, 2)) for s in cell_sets(3, n, k)]
    yield "larger", larger.keys(larger.MEDIUM, (0, 1) if t else (1,))
    # sequences of builds of two topologies on one mesh, and exchanges of its tags
    yield "histories", [
        [dim, n, cells, list(h)]
        for dim, n, cells in ((1, 3, [[0, 1], [2, 1]]), (2, 4, [[0, 1, 2], [1, 3, 2]]), (3, 5, [[0, 1, 2, 3], [1, 2, 3, 4]]))
        for h in itertools.product(range(len(OPS)), repeat=(5, 4, 4)[dim - 1] if t else (4, 4, 3)[dim - 1])
    ]


def history(case, rep):
    dim, n, cells, ops = case
    mesh = read_mesh(dim, np.array(POINTS[:n]), [(dim, cells, [1, 2])])
    rep.state(case)
    topo = {name: MeshTopology(mesh, dim) for name in "AB"}
    state = {}
    for k, op in enumerate(ops):
        rep.step()
        if OPS[op] == "exchange tags":
            for c in mesh.cells:
                if c.dimension == dim:
                    c.set_material_id(3 - c.material_id)
        elif OPS[op] == "exchange cells":
            # the two cells trade their places: nodes and lower cells
            a, b = [c for c in mesh.cells if c.dimension == dim]
            a.node_tags, b.node_tags = b.node_tags, a.node_tags
            low_a, low_b = [[c.sub_cells_ids[d] for d in range(dim)] for c in (a, b)]
            for d in range(dim):
                a.set_sub_cells_ids(d, low_b[d])
                b.set_sub_cells_ids(d, low_a[d])
        else:
            name, sel = OPS[op]
            topo[name].build_data() if sel is None else topo[name].build_data_on_pysical_tags(list(sel))
            chosen = [c for c in mesh.cells if c.dimension == dim and (sel is None or c.material_id in sel)]
            key = {(c.dimension, frozenset(map(int, c.node_tags))): int(c.id) for c in mesh.cells}
            state[name] = [sorted({key[(d, s)] for c in chosen for s in subs(c, d)}) for d in range(dim + 1)]
        key = {(c.dimension, frozenset(map(int, c.node_tags))): int(c.id) for c in mesh.cells}
        for co in range(1, dim + 1):
            graph = mesh.build_graph(dim, co)
            want = {((dim, int(c.id)), (dim - co, key[(dim - co, s)])) for c in mesh.cells if c.dimension == dim for s in subs(c, dim - co)}
            rep.expect(edges_of(graph) == want, "graph of the cells as they are now", lambda: f"{[OPS[o] for o in ops[: k + 1]]} {co}")
            # what a caller does to a graph is its own business
            graph.clear()
        for name, want in state.items():
            got = [sorted(map(int, topo[name].entities_by_dimension(d))) for d in range(dim + 1)]
            rep.expect(got == want, "entities of a topology built several times", lambda: f"{[OPS[o] for o in ops[: k + 1]]} {name} {got} {want}")
            low = [len(topo[name].entity_map_by_dimension(d).edges()) for d in range(dim)]
            rep.expect(low == [len(want[dim]) * (dim + 1, dim * (dim + 1) // 2, 4)[d] for d in range(dim)], "links of a topology built several times", lambda: f"{[OPS[o] for o in ops[: k + 1]]} {name} {low}")
    rep.outcome(f"history {dim} {sorted(state)}")


def run_case(space, case, rep):
    if space == "histories":
        return history(case, rep)
    if space == "larger":
        dim, pts, cells = larger.build(case)
        f = faces(cells, dim - 1)
        tags = [(1, 2, 2, 1, 2)[i % 5] for i in range(len(cells))]
        blocks = [(dim - 1, f[::2], [[1, 7][i % 2] for i in range(len(f[::2]))]), (dim, cells, tags)]
        return check(read_mesh(dim, pts, blocks), dim, rep, tags)
    dim, n, cells = case
    for tags in itertools.product((1, 2), repeat=len(cells)):
        for flip in (0, 1):
            cs = [tuple(c) if not flip else tuple(c[::-1]) for c in cells]
            for low in (0, 1):
                blocks = [(dim, cs, list(tags))]
                if low:
                    f = faces(cs, dim - 1)
                    blocks.insert(0, (dim - 1, f[::2], [[1, 7][i % 2] for i in range(len(f[::2]))]))
                mesh = read_mesh(dim, np.array(POINTS[:n]), blocks)
                check(mesh, dim, rep, tags)


def subs(cell, d):
    """node sets of the d-faces of a cell, from its nodes only."""
    return {frozenset(int(v) for v in c) for c in itertools.combinations(cell.node_tags, d + 1)}


def edges_of(graph):
    return set((tuple(map(int, a)), tuple(map(int, b))) for a, b in graph.edges())


def check(mesh, dim, rep, tags):
    key = {(c.dimension, frozenset(int(v) for v in c.node_tags)): int(c.id) for c in mesh.cells}

    def want(d, e, sel):
        out = set()
        for c in mesh.cells:
            if c.dimension == d and sel(c):
                for s in subs(c, e):
                    out.add(((d, int(c.id)), (e, key[(e, s)])))
        return out

    ctx = lambda: f"{[(list(map(int, c.node_tags)), c.material_id) for c in mesh.cells if c.dimension == dim]}"
    rep.state([[list(map(int, c.node_tags)), c.material_id] for c in mesh.cells])
    for d in range(dim + 1):
        for e in range(d + 1):
            co = d - e
            rep.step(4)
            rep.expect(edges_of(mesh.build_graph(d, co)) == want(d, e, lambda c: True), "incidence graph", lambda: f"{d},{co} {ctx()}")
            rep.expect(edges_of(mesh.build_graph_on_materials(d, co)) == want(d, e, lambda c: c.material_id is not None), "incidence graph on tagged cells", lambda: f"{d},{co} {ctx()}")
            for sel in ([1], [2], [1, 2], [7], [5], [None], [None, 1]):
                rep.step()
                rep.expect(edges_of(mesh.build_graph_on_physical_tags(sel, d, co)) == want(d, e, lambda c: c.material_id in sel), "incidence graph on tags", lambda: f"{sel} {d},{co} {ctx()}")
            ids = np.array([c.id for c in mesh.cells if c.dimension == d][::2])
            rep.expect(edges_of(mesh.build_graph_from_cell_ids(ids, d, co)) == want(d, e, lambda c: c.id in ids), "incidence graph from ids", lambda: f"{d},{co} {ctx()}")
    for td in range(dim + 1):
        topo = MeshTopology(mesh, td)
        for sel in (None, [1], [2], [1, 2], [7]):
            on = (lambda c: True) if sel is None else (lambda c: c.material_id in sel)
            topo.build_data() if sel is None else topo.build_data_on_pysical_tags(sel)
            rep.step()
            rep.outcome(f"topology {td} {sel}")
            for d in range(td + 1):
                w = want(td, d, on)
                got = [int(i) for i in topo.entities_by_dimension(d)]
                rep.expect(sorted(got) == sorted({b[1] for _, b in w}), "entities of a topology", lambda: f"{td} {sel} {d} {ctx()}")
                rep.expect(list(topo.entities_by_codimension(td - d)) == list(topo.entities_by_dimension(d)), "codimension accessor", ctx)
                rep.expect(edges_of(topo.entity_map_by_dimension(d)) == w and edges_of(topo.entity_map_by_codimension(td - d)) == w, "entity map", lambda: f"{td} {sel} {d} {ctx()}")
                for i in got:
                    c = mesh.cells[i]
                    nb = [tuple(map(int, x)) for x in find_higher_dimension_neighs(c, topo)]
                    rep.expect(sorted(nb) == sorted(a for a, b in w if b == (d, i)), "neighbours of an entity", lambda: f"{td} {sel} {d} {i} {nb} {ctx()}")
    for c in mesh.cells:
        for co in range(c.dimension + 1):
            s = sub_entity_by_co_dimension(c, co)
            rep.expect(sorted(map(int, s)) == sorted(key[(c.dimension - co, x)] for x in subs(c, c.dimension - co)), "sub-entities of a cell", ctx)
    for bad in range(dim + 1, 4):
        try:
            MeshTopology(mesh, bad)
            rep.fail("topology of a dimension above the mesh accepted", ctx())
        except ValueError:
            pass
