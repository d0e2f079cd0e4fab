"""M01: the cell complex built from a mesh file.

Every complex of the alphabet is written in every node order, with every listed
arrangement of lower-dimensional elements, read through Mesh and compared with the
set-theoretic closure of its cells.
"""
import itertools

import numpy as np

from mc import larger
from mc.complexes import POINTS, REF, cell_sets, closure, extras, orders
from mc.meshes import read_mesh

ID = "M01"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "1D: all sets of <=3 lines on <=4 nodes; 2D: all sets of <=3 triangles on <=4 nodes and of 2 triangles on 5 nodes; 3D: 1 tetrahedron, all pairs on 5 nodes; every node order of every cell; every listed arrangement of lower-dimensional elements (3D pairs: 3 arrangements); two numberings of the nodes; 13 larger meshes (rings, stars, fans, books, grids, wheels of tetrahedra, cubes; up to 48 cells) x 3 numberings x 3 orders, and ones with 300 and 544 cells",
    "thorough": "as quick, plus 2D sets of 3 triangles on 5 nodes, 4 triangles on 4 nodes, every arrangement in 3D, and a mesh of 1296 tetrahedra",
}
ASSUMPTIONS = ["meshes are read from gmsh 2.2 ascii files (the format the mesher writes)"]


def spaces(tier):
    t = tier == "thorough"
    yield "lines", [
        [1, n, list(map(list, s)), 0]
        for n, k in ((2, 1), (3, 2), (4, 2), (3, 3), (4, 3))
        for s in cell_sets(1, n, k)
    ]
    two = ((3, 1), (4, 2), (5, 2), (4, 3)) + (((5, 3), (4, 4)) if t else ())
    yield "triangles", [
        [2, n, list(map(list, s)), 0] for n, k in two for s in cell_sets(2, n, k)
    ]
    yield "tetrahedra", [
        [3, n, [list(c) for c in s], a]
        for n, k in ((4, 1), (5, 2))
        for s in cell_sets(3, n, k)
        for a in (range(8) if t or k == 1 else (0, 2, 7))
    ]
    yield "isolated", [[2, 4, [[0, 1, 3]], 0], [1, 4, [[0, 3]], 0], [2, 5, [[0, 1, 2], [1, 2, 4]], 0]]
    yield "larger", larger.keys(larger.MEDIUM) + larger.keys(["line 300", "squares 17x16"] + (["cubes 6x6x6"] if t else []), (1,))


def run_case(space, case, rep):
    if space == "larger":
        dim, pts, cells = larger.build(case)
        ex = list(extras(cells, dim))
        for name, before, after in ex if len(cells) < 40 else (ex[0], ex[2], ex[-1]):
            one(dim, len(pts), cells, name, before, after, rep, pts)
        return
    dim, n, cells, arr = case
    for perm in orders(dim + 1, len(cells)):
        cs = [tuple(c[i] for i in p) for c, p in zip(cells, perm)]
        ex = list(extras(cs, dim))
        if dim == 3:
            ex = [ex[arr]]
        for name, before, after in ex:
            one(dim, n, cs, name, before, after, rep)


def one(dim, n, cs, name, before, after, rep, pts=np.array(POINTS)):
    mat = [100 + i for i in range(len(cs))]
    blocks = before + [(dim, cs, mat)] + after
    pts = pts[:n]
    mesh = read_mesh(dim, pts, blocks)
    rep.step(len(mesh.cells))
    rep.state([cs, name])
    rep.outcome(name)
    ctx = lambda: f"cells={cs} arrangement={name}"
    check_complex(mesh, dim, pts, cs, blocks, rep, ctx)


def check_complex(mesh, dim, pts, cs, blocks, rep, ctx):
    n = len(pts)
    want = closure([c for _, cc, _ in blocks for c in cc])
    want[0] |= {frozenset([i]) for i in range(n)}
    cells = mesh.cells
    if not rep.expect(all(c is not None for c in cells), "missing cell", ctx):
        return
    got = {0: [], 1: [], 2: [], 3: []}
    for i, c in enumerate(cells):
        rep.expect(c.id == i, "cell id is not its position", ctx)
        got[c.dimension].append(frozenset(int(v) for v in c.node_tags))
    for d in range(4):
        rep.expect(
            sorted(map(sorted, got[d])) == sorted(map(sorted, want[d])),
            f"cells of dimension {d}",
            lambda: f"{sorted(map(sorted, got[d]))} != {sorted(map(sorted, want[d]))} {ctx()}",
        )
    dims = [c.dimension for c in cells]
    rep.expect(dims == sorted(dims), "numbering by dimension", ctx)
    tagged = {}
    for d, cc, tags in blocks:
        for c, t in zip(cc, tags):
            tagged[frozenset(c)] = t
    order = {frozenset(c): tuple(c) for c in cs}
    for c in cells:
        nodes = tuple(int(v) for v in c.node_tags)
        key = frozenset(nodes)
        rep.expect(
            c.material_id == tagged.get(key), "physical tag",
            lambda: f"{nodes}: {c.material_id} != {tagged.get(key)} {ctx()}",
        )
        if key in order:
            rep.expect(nodes == order[key], "node order of a cell", lambda: f"{nodes} {ctx()}")
        if c.dimension == 0:
            rep.expect(c.id == nodes[0], "vertex id is its node", ctx)
        rep.expect(len(c.sub_cells_ids) == c.dimension + 1, "number of sub-entity lists", ctx)
        for d in range(c.dimension + 1):
            ids = [int(i) for i in c.sub_cells_ids[d]]
            ref = REF[c.dimension][d]
            if not rep.expect(len(ids) == len(ref), f"number of {d}-sub-entities of a {c.dimension}-cell", lambda: f"{nodes}: {ids} {ctx()}"):
                continue
            for k, (i, loc) in enumerate(zip(ids, ref)):
                s = mesh.cells[i]
                ok = s.dimension == d and frozenset(int(v) for v in s.node_tags) == frozenset(nodes[j] for j in loc)
                rep.expect(ok, f"sub-entity of dimension {d} of a {c.dimension}-cell at its reference position", lambda: f"{nodes} position {k}: {list(s.node_tags)} {ctx()}")
                rep.expect(c.sub_cell_index(d, i) == k, "index of a sub-entity", ctx)
        for k, v in enumerate(nodes):
            rep.expect(c.node_tag_index(v) == k, "index of a node", ctx)
    rep.expect(np.array_equal(mesh.points, pts), "points", ctx)
