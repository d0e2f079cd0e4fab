"""W04: files with discrete solutions."""
import contextlib
import io
import itertools
import os

import meshio
import numpy as np

from mc.checks.s05 import GEO, PLACE, PRODUCTS, as_function, data, exact, fan, field_at, poly, sign, vector
from mc.fem import reference
from mc.meshes import TYPE, read_mesh
from postprocess.solution_post_processor import (
    write_fe_spaces_on_vtk_file_with_exact_solution,
    write_vtk_file,
    write_vtk_file_exact_solution,
    write_vtk_file_pointwise_l2_error,
    write_vtk_file_with_exact_solution,
)
from spaces.product_space import ProductSpace

ID = "W04"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "two cells that share a facet, in 1D, 2D and 3D, with every assignment of two materials; every numbering in 1D, one in 4 in 2D and one in 20 in 3D, the node orders of the cells rotating; products of 1 and 2 fields of Lagrange 0 to 3, RT, BDM, N1E 1 and 2 with 1 to 3 components, continuous or broken, on all cells or on the cells of one material; every choice of the fields written by cell; fields on the common facet alone, whose tag may have the number of a material; fans of 2 to 4 triangles around a node and of 2 to 4 tetrahedra around an edge; all five writers",
    "thorough": "as quick, with every numbering in 2D and one in 5 in 3D; fans of up to 5 cells and four times as many numberings of them",
}
EXTRA = {1: [[("Lagrange", 1, 2, 0)], [("Lagrange", 0, 3, 1), ("Lagrange", 1, 1, 0)]], 2: [[("Lagrange", 1, 3, 0)], [("Lagrange", 0, 1, 1), ("Lagrange", 1, 1, 0)]], 3: []}
LOWER = {2: [[("Lagrange", 2, 2, 0), ("Lagrange", 0, 1, 1)], [("RT", 1, 1, 0), ("Lagrange", 1, 1, 1)]], 3: [[("Lagrange", 2, 2, 0), ("Lagrange", 0, 3, 1)]]}
MATERIALS = [(1, 1), (1, 2), (2, 1)]


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        L = list(itertools.permutations(range(dim + 2)))[:: (1, 1 if t else 4, 5 if t else 20)[dim - 1]]
        P = list(itertools.permutations(range(dim + 1)))
        yield name, [
            [dim, list(l), list(P[i % len(P)]), list(P[(i // len(P) + 2 * i + m) % len(P)]), m, list(PLACE)[(i + m) % 3]]
            for i, l in enumerate(L) for m in range(len(MATERIALS))
        ]


    # cells around a node or an edge: (corners, cells, materials)
    yield "fans", [
        [dim, n, closed, list(l), r, m]
        for dim, n, closed in ((2, 3, 1), (2, 4, 1), (2, 3, 0), (2, 4, 0), (3, 3, 0), (3, 4, 1)) + (((2, 5, 1), (2, 5, 0), (3, 3, 1), (3, 4, 0)) if t else ())
        for r, l in enumerate(list(itertools.permutations(range(n + dim - 1)))[:: {4: 8, 5: 40, 6: 240}[n + dim - 1] // (4 if t else 1)])
        for m in range(3)
    ]


def fans(case, rep):
    dim, pts, cells, tags, h = fan(case)
    mesh = read_mesh(dim, pts, [(dim, cells, tags)])
    rep.state(case)
    same = len({sign([pts[v] for v in c]) for c in cells}) == 1
    every = [F for F in PRODUCTS[dim] + EXTRA[dim] if same or not any(f in ("RT", "BDM") and not d for f, _, _, d in F)]
    for n, fields in enumerate(every):
        written(mesh, dim, dim, [(fields, [1, 2])], h, n, rep)
        if case[-1]:
            written(mesh, dim, dim, [(fields, [1]), (every[n - 1], [2])], h, n, rep)


def read(fn):
    out = meshio.read(fn)
    os.remove(fn)
    return out


def run_case(space, case, rep):
    with contextlib.redirect_stderr(io.StringIO()):
        (fans if space == "fans" else patch)(case, rep)


def patch(case, rep):
    dim, labels, p, q, m, place = case
    h = PLACE[place]
    geo = [h * np.array(g) for g in GEO[dim]]
    c1, c2 = [labels[i] for i in p], [labels[i + 1] for i in q]
    pts = [None] * len(geo)
    for i, l in enumerate(labels):
        pts[l] = geo[i]
    same = sign([pts[i] for i in c1]) == sign([pts[i] for i in c2])
    blocks = [(dim, [c1, c2], list(MATERIALS[m]))]
    if dim > 1:
        # tags count per dimension: the facet may have the number of a material
        facet = (7, 1, 2)[m]
        blocks.insert(0, (dim - 1, [[v for v in c1 if v in c2]], [facet]))
    mesh = read_mesh(dim, np.array(pts), blocks)
    rep.state(case)
    every = [F for F in PRODUCTS[dim] + EXTRA[dim] if same or not any(f in ("RT", "BDM") and not d for f, _, _, d in F)]
    for n, fields in enumerate(every):
        written(mesh, dim, dim, [(fields, [1, 2])], h, n, rep)
        written(mesh, dim, dim, [(fields, [MATERIALS[m][n % 2]])], h, n, rep)
        if m:
            written(mesh, dim, dim, [(fields, [1]), (every[n - 1], [2])], h, n, rep)
    for n, fields in enumerate(LOWER.get(dim, [])):
        written(mesh, dim, dim - 1, [(fields, [facet])], h, n, rep)


def written(mesh, top, dim, parts, h, seed, rep):
    """parts: fields of one product space each, and the materials they live on."""
    W, info, shift = [], {}, 0
    free = iter("uvwz")
    for fields, tags in parts:
        names = [next(free) for _ in fields]
        w = ProductSpace({nm: (dim, c, f, k, mesh) for nm, (f, k, c, d) in zip(names, fields)})
        w.make_subspaces_discontinuous({nm: bool(d) for nm, (f, k, c, d) in zip(names, fields)})
        w.build_structures({nm: list(tags) for nm in names}, {})
        w.dof_shift = shift
        shift += w.n_dof
        W.append(w)
        cells = [c for c in mesh.cells if c.dimension == dim and c.material_id in tags]
        for nm, field in zip(names, fields):
            info[nm] = w, field, cells
    names = list(info)
    ctx = lambda: f"{parts} of dimension {dim}"
    alpha = np.cos(1.0 + np.arange(shift) * 1.7)
    F, P = {}, {}
    for a, (nm, (w, (f, k, c, d), cells)) in enumerate(info.items()):
        P[nm] = [[poly(top, 2, seed + 3 * a + 5 * i + j, h) for j in range(dim if vector(f, dim) else 1)] for i in range(c)]
        F[nm] = as_function(P[nm], vector(f, dim))
    tops = [c for c in mesh.cells if c.dimension == top and c.material_id is not None]

    def values(nm, c, local):
        """Field nm on the cell c, at reference points."""
        w, (f, k, n, d), _ = info[nm]
        V = w.discrete_spaces[nm]
        i = V.id_to_element[c.id]
        _, u, _ = field_at(V.elements[i], local, alpha[w.destination_indexes(i, nm)], n, vector(f, dim), dim)
        return u.transpose(1, 0, 2).reshape(len(local), -1)

    at_node, at_cell = {}, {}
    for nm, (w, field, cells) in info.items():
        acc = {}
        for c in cells:
            verts = mesh.points[c.node_tags]
            u = values(nm, c, reference(verts, verts))
            for v, row in zip(c.node_tags, u):
                acc.setdefault(int(v), []).append(row)
            at_cell[nm, c.id] = values(nm, c, reference(verts.mean(0)[None], verts))[0]
        at_node[nm] = {v: np.mean(rows, axis=0) for v, rows in acc.items()}

    def true(nm, x):
        return exact(P[nm], np.array([x]))[:, 0, :].ravel()

    def near(label, got, want, extra):
        got = np.atleast_2d(np.asarray(got, float).reshape(len(want), -1)) if len(want) else got
        want = np.array(want).reshape(len(want), -1)
        n = want.shape[1]
        ok = got.shape[1] >= n and np.allclose(got[:, :n], want, rtol=1e-8, atol=1e-9) and np.all(np.nan_to_num(got[:, n:]) == 0)
        rep.expect(ok, label, lambda: f"{extra} got {got.tolist()} want {want.tolist()} {ctx()}")

    def look(m, shown, kind, cell_wise, outside_nan):
        """Compare what a file says with the fields."""
        rep.step()
        rep.expect(np.allclose(m.points, mesh.points), "points of the file", ctx)
        got = sorted(tuple(map(int, r)) for r in m.get_cells_type(TYPE[shown[0].dimension]))
        want = sorted(tuple(map(int, c.node_tags)) for c in shown)
        if not rep.expect(got == want and len(m.cells) == 1, "cells of the file", lambda: f"{got} {want} {ctx()}"):
            return
        order = {tuple(map(int, r)): i for i, r in enumerate(m.get_cells_type(TYPE[shown[0].dimension]))}
        for nm, (_, _, cells) in info.items():
            for suffix in kind:
                where, what = (m.cell_data, f"{nm}{suffix}") if nm in cell_wise else (m.point_data, f"{nm}{suffix}")
                other = m.point_data if nm in cell_wise else m.cell_data
                if not rep.expect(what in where and what not in other, "names of the data", lambda: f"{what} {list(where)} {ctx()}"):
                    continue
                if nm in cell_wise:
                    D = np.asarray(where[what][0])
                    idx = [order[tuple(map(int, c.node_tags))] for c in cells]
                    E = [true(nm, mesh.points[c.node_tags].mean(0)) for c in cells]
                    U = [at_cell[nm, c.id] for c in cells]
                    rest = [i for i in range(len(D)) if i not in idx]
                else:
                    D = np.asarray(where[what])
                    idx = sorted(at_node[nm])
                    E = [true(nm, mesh.points[v]) for v in idx]
                    U = [at_node[nm][v] for v in idx]
                    rest = [v for v in range(len(D)) if v not in idx]
                want = {"_h": U, "_e": E, "_error": [[np.linalg.norm(e - u)] for e, u in zip(E, U)]}[suffix]
                near(f"values of {'cells' if nm in cell_wise else 'nodes'} {suffix}", D[idx], want, what)
                if outside_nan and rest:
                    rep.expect(np.all(np.isnan(D[rest].reshape(len(rest), -1)[:, : len(want[0])])), "no value outside of the field", lambda: f"{what} {D[rest]} {ctx()}")

    if len(W) > 1:
        for r in range(len(names) + 1):
            for cw in map(list, itertools.combinations(names, r)):
                rep.outcome(f"dimension {dim} of {top}, by cell {len(cw)}, two spaces")
                write_fe_spaces_on_vtk_file_with_exact_solution("w.vtk", mesh, W, F, alpha, cw)
                look(read("w.vtk"), tops, ["_h", "_e"], cw, True)
        return
    W, = W
    cells = info[names[0]][2]
    everywhere = len(cells) == len(tops) and dim == top
    for r in range(len(names) + 1):
        for cw in map(list, itertools.combinations(names, r)):
            rep.outcome(f"dimension {dim} of {top}, by cell {len(cw)}, everywhere {everywhere}")
            write_vtk_file_with_exact_solution("w.vtk", mesh, W, F, alpha, cw)
            look(read("w.vtk"), cells, ["_h", "_e"], cw, False)
            if dim == top:
                write_fe_spaces_on_vtk_file_with_exact_solution("w.vtk", mesh, [W], F, alpha, cw)
                look(read("w.vtk"), tops, ["_h", "_e"], cw, True)
            if dim == top or not cw:
                write_vtk_file("w.vtk", mesh, W, alpha, cw)
                look(read("w.vtk"), tops, ["_h"], cw, False)
                write_vtk_file_pointwise_l2_error("w.vtk", mesh, W, F, alpha, cw)
                look(read("w.vtk"), tops, ["_error"], cw, False)
    if everywhere:
        sizes = {nm: len(true(nm, mesh.points[0])) for nm in names}
        write_vtk_file_exact_solution("w.vtk", mesh, sizes, F)
        m = read("w.vtk")
        rep.step()
        for nm in names:
            near("exact values", m.point_data[nm + "_e"], [true(nm, x) for x in mesh.points], nm)
