"""M05: colouring of the cells of a mesh."""
import numpy as np

from mc import larger
from mc.complexes import POINTS, cell_sets
from mc.meshes import read_mesh
from mesh.mesh_coloring import coloring_mesh_by_co_dimension

ID = "M05"
LEVEL = "model_checking"
CHUNK = 8
PTS = POINTS + [(3.0, -1.0, 0.5)]
BOUNDS = {
    "quick": "every set of <=4 lines on <=6 nodes, <=4 triangles on <=5 nodes, <=3 tetrahedra on <=6 nodes; every co-dimension; requested colours 1..8; paths and rings of <=12 lines, every triangulation of the strips of <=5 squares and of the 2x2 and 2x3 grids, with every stride of the cell order; 13 further meshes (up to 48 cells) in 3 numberings and 2 orders",
    "thorough": "every set of <=5 lines on <=6 nodes, <=5 triangles on <=6 nodes, <=4 tetrahedra on <=6 nodes; requested colours 1..14; paths and rings of <=24 lines, strips of <=8 squares, grids of 2x2 to 3x3 squares",
}


def grid_cells(nx, ny, diagonals):
    out = []
    for s, (i, j) in enumerate((i, j) for j in range(ny) for i in range(nx)):
        a, b = j * (nx + 1) + i, (j + 1) * (nx + 1) + i
        if diagonals >> s & 1:
            out += [[a, a + 1, b], [a + 1, b + 1, b]]
        else:
            out += [[a, a + 1, b + 1], [a, b + 1, b]]
    return out


def strides(cells):
    n = len(cells)
    for s in range(1, n):
        if np.gcd(s, n) == 1:
            yield [cells[i * s % n] for i in range(n)]


def large(t):
    out = []
    for n in range(2, 25 if t else 13):
        path = [[i, i + 1] for i in range(n)]
        for cells in (path,) + ((path[:-1] + [[n - 1, 0]],) if n > 2 else ()):
            out += [[1, n + 1, c, 6] for c in strides(cells)]
    for nx, ny in [(i, 1) for i in range(1, 9 if t else 6)] + [(2, 2), (2, 3)] + ([(3, 3)] if t else []):
        for d in range(2 ** (nx * ny)):
            for c in list(strides(grid_cells(nx, ny, d)))[:: 1 if nx * ny < 5 or t else 3]:
                out.append([2, (nx + 1) * (ny + 1), c, 8])
    return out


def spaces(tier):
    t = tier == "thorough"
    for name, dim, nn, kk in (
        ("lines", 1, 6, 5 if t else 4),
        ("triangles", 2, 6 if t else 5, 5 if t else 4),
        ("tetrahedra", 3, 6, 4 if t else 3),
    ):
        yield name, [
            [dim, n, list(map(list, s)), 14 if t else 8]
            for n in range(dim + 1, nn + 1)
            for k in range(1, kk + 1)
            for s in cell_sets(dim, n, k)
        ]
    yield "large", large(t)
    yield "larger", larger.keys(larger.MEDIUM, (0, 1))


def run_case(space, case, rep):
    if space == "larger":
        dim, pts, cells = larger.build(case)
        ncol = 8
    else:
        dim, n, cells, ncol = case
        pts = np.array((PTS + [(0.3 * i, 0.1 * i * i, 0.2) for i in range(len(PTS), n)])[:n])
    mesh = read_mesh(dim, pts, [(dim, cells, [1] * len(cells))])
    top = [c for c in mesh.cells if c.dimension == dim]
    rep.state(cells)
    for co in range(1, dim + 1):
        conflicts = [
            (a.id, b.id)
            for i, a in enumerate(top)
            for b in top[:i]
            if len(set(a.node_tags) & set(b.node_tags)) >= dim - co + 1
        ]
        most = max(sum(1 for p in conflicts if c.id in p) for c in top)
        for k in range(1, ncol + 1):
            color, groups = coloring_mesh_by_co_dimension(k, mesh, dim, co)
            rep.step()
            ctx = lambda: f"co={co} k={k} {color} {groups}"
            rep.outcome(f"{co}:{len(groups)} colours")
            rep.expect(sorted(color) == sorted(c.id for c in top), "every cell has one colour", ctx)
            rep.expect(all(color[a] != color[b] for a, b in conflicts), "cells sharing a sub-entity differ", ctx)
            rep.expect(sorted(groups) == list(range(len(groups))), "colours are numbered from zero", ctx)
            inv = {i: g for g, ids in groups.items() for i in ids}
            rep.expect(inv == dict(color) and sum(len(i) for i in groups.values()) == len(top), "both maps agree", ctx)
            if k > most:
                rep.expect(len(groups) <= k, "no more colours than requested", ctx)
