"""G07: maps of cells, normals of facets and sizes of cells."""
import itertools

import numpy as np

from basis.element_family import family_by_name
from basis.finite_element import FiniteElement
from geometry.compute_normal import normal
from mc import larger
from mc.complexes import POINTS, REF, cell_sets, faces
from mc.exact import F, cross, dot, sub
from mc.geo import emb, grid
from mc.meshes import read_mesh
from mesh.mesh_metrics import cell_centroid, cell_diam, mesh_size

ID = "G07"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "every ordered pair, triple and quadruple of the 2x2x2 grid that spans a line, triangle or tetrahedron, under 4 placements (rotated, moved, tiny, stretched; one per tetrahedron, alternating), at every vertex, edge midpoint and two inner points; every facet of each; sizes of every set of 2 lines, triangles (5 nodes) and tetrahedra (5 nodes) with every assignment of two tags, and of 13 larger meshes (up to 48 cells)",
    "thorough": "as quick, on the 3x3x2 grid for lines and triangles, all placements for tetrahedra",
}
PLACE = {
    "rot": lambda p: emb("rot", p),
    "moved": lambda p: emb("shift", p),
    "tiny": lambda p: 1e-4 * emb("rot", p) + np.array([0.5, 0.25, -0.125]),
    "stretched": lambda p: np.array([3.0 * p[0], 0.02 * p[1], 7.0 * p[2]]),
}


def rank_ok(c):
    a = [sub(p, c[0]) for p in c[1:]]
    if len(a) == 1:
        return any(a[0])
    n = cross(a[0], a[1])
    return any(n) if len(a) == 2 else dot(n, a[2]) != 0


def spaces(tier):
    t = tier == "thorough"
    small = [tuple(p) for p in grid(2, 3)]
    big = list(itertools.product(range(3), range(3), range(2))) if t else small
    names = list(PLACE)
    for k, g, name in ((2, big, "lines"), (3, big, "triangles"), (4, small, "tetrahedra")):
        out = []
        for i, c in enumerate(itertools.permutations(g, k)):
            if rank_ok(c):
                for e in names if k < 4 or t else (names[i % 4],):
                    out.append([e, list(c)])
        yield name, out
    yield "sizes", [
        [d, n, list(map(list, s)), list(tags)]
        for d, n, k in ((1, 3, 2), (1, 4, 2), (2, 4, 2), (2, 5, 2), (3, 5, 2), (2, 5, 3))
        for s in cell_sets(d, n, k) for tags in itertools.product((1, 2), repeat=k)
    ]
    yield "larger", larger.keys(larger.MEDIUM, (1,))


def ref_points(d):
    v = np.vstack((np.zeros(d), np.eye(d)))
    mids = [(v[i] + v[j]) / 2 for i in range(d + 1) for j in range(i)]
    return np.vstack((v, mids, [np.full(d, 1.0 / (d + 1))], [np.arange(1, d + 1) / (d + 1.0) ** 2]))


def run_case(space, case, rep):
    rep.state(case)
    if space == "sizes":
        d, n, cells, tags = case
        return sizes(d, np.array(POINTS[:n]), cells, tags, rep)
    if space == "larger":
        d, pts, cells = larger.build(case)
        return sizes(d, pts, cells, [1 + (i > len(cells) // 2) for i in range(len(cells))], rep)
    e, c = case
    d = len(c) - 1
    P = np.array([PLACE[e](p) for p in c])
    mesh = read_mesh(d, P, [(d, [list(range(d + 1))], [1])])
    P = mesh.points
    cell = next(x for x in mesh.cells if x.dimension == d)
    ctx = lambda: f"{e} {c}"
    el = FiniteElement(cell.id, family_by_name("Lagrange"), 1, mesh)
    xi = ref_points(d)
    J = (P[1:] - P[0]).T
    G = J.T @ J
    vol = np.sqrt(np.linalg.det(G))
    inv = np.linalg.solve(G, J.T)
    for store in (False, True):
        x, jac, det, ij = el.evaluate_mapping(xi, storage=store)
        rep.step()
        scale = np.abs(J).max()
        rep.expect(np.allclose(x, P[0] + xi @ J.T, rtol=0, atol=1e-12 * (1 + scale)), "image of a point", ctx)
        rep.expect(jac.shape == (len(xi), 3, d) and np.allclose(jac, J, rtol=1e-9, atol=1e-14 * (1 + np.abs(P).max())), "Jacobian matrix", ctx)
        rep.expect(np.allclose(det, vol, rtol=1e-9, atol=0), "ratio of volumes", lambda: f"{det[0]} want {vol} {ctx()}")
        rep.expect(ij.shape == (len(xi), d, 3) and np.allclose(ij, inv, rtol=1e-8, atol=1e-9 * np.abs(inv).max()), "inverse of the map", ctx)
        if store:
            m = el.data.mapping
            rep.expect(np.array_equal(m.x, x) and np.array_equal(m.jac, jac) and np.array_equal(m.det_jac, det) and np.array_equal(m.inv_jac, ij), "stored map", ctx)
    xc = P.mean(axis=0)
    rep.expect(np.allclose(cell_centroid(cell, mesh), xc, atol=1e-12), "centroid", ctx)
    dia = max(np.linalg.norm(a - b) for a in P for b in P)
    rep.expect(abs(cell_diam(cell, mesh) - dia) <= 1e-10 * dia, "diameter", ctx)
    rep.outcome(f"dim {d} {e}")
    for f in mesh.cells:
        if f.dimension != d - 1:
            continue
        n = normal(mesh, cell, f)
        rep.step()
        Q = P[f.node_tags]
        other = P[[i for i in range(d + 1) if i not in f.node_tags][0]]
        rep.expect(np.shape(n) == (3,) and abs(np.linalg.norm(n) - 1) < 1e-12, "normal has length one", ctx)
        T = Q[1:] - Q[0]
        rep.expect(all(abs(n @ v) < 1e-9 * np.linalg.norm(v) for v in T), "normal is orthogonal to the facet", lambda: f"{n} {ctx()}")
        h = (Q[0] - other) - (0 if d == 1 else T.T @ np.linalg.lstsq(T.T, Q[0] - other, rcond=None)[0])
        rep.expect(np.allclose(n, h / np.linalg.norm(h), atol=1e-7), "normal points out of the cell, within its plane", lambda: f"{n} {h / np.linalg.norm(h)} {ctx()}")


def sizes(d, pts, cells, tags, rep):
    f = faces(cells, d - 1)
    mesh = read_mesh(d, pts, [(d - 1, f, [1 + i % 2 for i in range(len(f))]), (d, cells, tags)])
    P = mesh.points
    diam = lambda c: max(np.linalg.norm(P[a] - P[b]) for a in c.node_tags for b in c.node_tags)
    for q in [None] + list(range(1, d + 1)):
        for t in (None, 1, 2):
            sel = [diam(c) for c in mesh.cells if c.dimension == (d if q is None else q) and (t is None or c.material_id == t)]
            if not sel:
                continue
            got = mesh_size(mesh, q, t)
            rep.step()
            rep.outcome(f"{q} {t}")
            rep.expect(np.allclose(got, (min(sel), sum(sel) / len(sel), max(sel)), rtol=1e-12), "least, mean and largest diameter", lambda: f"{q} {t} {got} {sel}")
