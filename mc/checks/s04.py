"""S04: facets of cells - parametric maps, boundary indices and traces."""
import itertools

import numpy as np

from basis.parametric_transformation import transform_lower_to_higher
from mc import larger
from mc.complexes import REF
from mc.fem import local_blocks, sub_nodes
from mc.meshes import read_mesh
from spaces.discrete_space import DiscreteSpace
from spaces.product_space import ProductSpace

ID = "S04"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "one cell, and two cells that share a facet, of every dimension; every numbering of the nodes (pairs of tetrahedra: of the apexes) x every node order of the first cell (1D, 2D: of both); every facet as a listed boundary element, in both (3D: three) node orders; every facet x both its neighbours; Lagrange 1 to 4, RT, BDM, N1E 1 to 3; 1 and 2 components; every facet of 11 larger meshes (up to 48 cells) in 3 numberings",
    "thorough": "as quick, with every node order of both cells in 3D, every numbering of pairs of tetrahedra, and every node order of the facets",
}
GEO = {
    1: [(0.25, 0.5, 0.0), (1.0, 1.25, 0.5), (2.0, 2.25, 1.0)],
    2: [(0.0, 0.0, 0.0), (2.0, 0.5, 0.0), (0.5, 1.5, 0.0), (2.5, 2.0, 0.0)],
    3: [(0.0, 0.0, 0.0), (2.0, 0.5, 0.25), (0.5, 1.5, 0.0), (0.25, 0.5, 1.75), (2.0, 1.5, 1.25)],
}
FAM = {
    1: [("Lagrange", k) for k in (1, 2, 3, 4)] + [("RT", 1), ("BDM", 1), ("RT", 2)],
    2: [("Lagrange", k) for k in (1, 2, 3, 4)] + [(f, k) for f in ("RT", "BDM", "N1E") for k in (1, 2, 3)],
    3: [("Lagrange", k) for k in (1, 2, 3, 4)] + [(f, k) for f in ("RT", "BDM", "N1E") for k in (1, 2)],
}


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        out = []
        n = dim + 2
        if dim < 3 or t:
            labels = list(itertools.permutations(range(n)))
        else:
            labels = []
            for a, b in itertools.permutations(range(n), 2):
                labels.append((a,) + tuple(i for i in range(n) if i not in (a, b)) + (b,))
        P = list(itertools.permutations(range(dim + 1)))
        forders = list(itertools.permutations(range(dim)))
        if not t and dim == 3:
            forders = [forders[0], forders[3], forders[5]]
        if t and dim == 3:
            for i, l in enumerate(labels):
                for j, p in enumerate(P):
                    out.append([dim, list(l), list(p), list(P[(i + 5 * j) % 24]), list(forders[(i + j) % 6])])
            for i, l in enumerate(labels[::12]):
                for p in P:
                    for q in P:
                        out.append([dim, list(l), list(p), list(q), list(forders[i % 6])])
        else:
            for i, l in enumerate(labels):
                for j, p in enumerate(P):
                    for q in P if dim < 3 else (P[(i + 5 * j) % 24],):
                        for f in forders:
                            out.append([dim, list(l), list(p), list(q), list(f)])
        yield name, out
    yield "larger", larger.keys(larger.MANIFOLD, (0, 1, 2) if t else (1,))


def run_case(space, case, rep):
    if space == "larger":
        dim, pts, cells = larger.build(case)
        fs = sorted({frozenset(s) for c in cells for s in itertools.combinations(c, dim)}, key=sorted)
        P = list(itertools.permutations(range(dim)))
        fs = [[sorted(f)[j] for j in P[i % len(P)]] for i, f in enumerate(fs)]
        mesh = read_mesh(dim, pts, [(dim - 1, fs, [7] * len(fs)), (dim, cells, [1] * len(cells))])
        rep.state(case)
        for i, (fam, k) in enumerate(FAM[dim]):
            check(mesh, dim, fam, k, 1 + i % 3, rep)
        return
    dim, labels, p, q, forder = case
    geo = GEO[dim]
    c1 = [labels[i] for i in p]
    c2 = [labels[i + 1] for i in q]
    pts = [None] * len(geo)
    for i, l in enumerate(labels):
        pts[l] = geo[i]
    facets = sorted({frozenset(s) for c in (c1, c2) for s in itertools.combinations(c, dim)}, key=sorted)
    fs = [[sorted(f)[i] for i in forder] for f in facets]
    mesh = read_mesh(dim, np.array(pts, float), [(dim - 1, fs, [7] * len(fs)), (dim, [c1, c2], [1, 1])])
    rep.state(case)
    for i, (fam, k) in enumerate(FAM[dim]):
        check(mesh, dim, fam, k, 1 + i % 2, rep)


def facet_points(dim):
    if dim == 1:
        return np.array([1.0])
    if dim == 2:
        return np.array([[s] for s in (0.0, 0.15, 0.4, 0.55, 0.8, 1.0)])
    g = (0.05, 0.2, 0.45, 0.6, 0.85)
    return np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]] + [[s, r] for s in g for r in g if s + r <= 1])


def check(mesh, dim, fam, k, comps, rep):
    W = ProductSpace({"v": (dim, comps, fam, k, mesh)})
    W.build_structures({"v": [1]}, {"v": [7]})
    V = W.discrete_spaces["v"]
    xi = facet_points(dim)
    ctx0 = f"{fam}{k} dim {dim}"
    vec = fam != "Lagrange" and dim > 1
    for fi, bel in enumerate(V.bc_elements):
        f = bel.data.cell
        fnodes = frozenset(int(v) for v in f.node_tags)
        xf, fj, fd, finv = bel.evaluate_mapping(xi)
        fx = np.atleast_2d(xf)
        P = mesh.points[f.node_tags]
        if dim == 2:
            T = [P[1] - P[0]]
            nrm = np.array([-T[0][1], T[0][0], 0.0])
        elif dim == 3:
            T = [P[1] - P[0], P[2] - P[0]]
            nrm = np.cross(*T)
        bdest = np.array(W.bc_destination_indexes(fi))
        rep.step(2)
        ctx = lambda: f"{ctx0} facet {list(map(int, f.node_tags))} cells {[list(map(int, c.node_tags)) for c in mesh.cells if c.dimension == dim]} got {list(bdest)}"
        touching = set()
        seen = 0
        for el in V.elements:
            c = el.data.cell
            if f.id not in c.sub_cells_ids[dim - 1]:
                continue
            seen += 1
            X = transform_lower_to_higher(xi, bel.data, el.data)
            rep.step()
            ok = np.shape(X) == (len(xi), dim)
            x, jac, det, inv = el.evaluate_mapping(np.asarray(X))
            rep.expect(ok and np.allclose(x, fx, atol=1e-12), "points of the facet in the cell", lambda: f"{x} {fx} {ctx()}")
            phi = el.evaluate_basis(np.asarray(X), jac, det, inv)[0]
            dest = V.dof_map.destination_indices(c.id)
            if fam == "Lagrange" or dim == 1:
                tr = phi[:, :, 0:1]
            elif fam in ("RT", "BDM"):
                tr = (phi @ nrm)[:, :, None]
            else:
                tr = np.stack([phi @ t for t in T], -1)
            alive = np.abs(tr).max(axis=(0, 2)) > 1e-9
            for j in np.nonzero(alive)[0]:
                touching |= {int(dest[j * comps + m]) for m in range(comps)}
            # indices of the entities of the facet, in the order of the facet
            if fam == "Lagrange":
                b = bel.evaluate_basis(xi, fj, fd, finv)[0][:, :, 0]
                n = b.shape[1]
                pos = {int(d): j for j, d in enumerate(dest)}
                if rep.expect(len(bdest) == n * comps and set(map(int, bdest)) <= set(pos), "boundary indices belong to the cell", ctx):
                    for m in range(comps):
                        mine = tr[:, [pos[int(d)] // comps for d in bdest[m::comps]], 0]
                        rep.expect(all(pos[int(d)] % comps == m for d in bdest[m::comps]), "boundary indices keep the component", ctx)
                        rep.expect(np.allclose(mine, b, atol=1e-9), "boundary functions are traces of the functions of the cell", ctx)
        rep.expect(seen > 0, "neighbours of a facet", ctx)
        rep.outcome(f"{ctx0} neighbours {seen}")
        rep.expect(len(set(map(int, bdest))) == len(bdest) and set(map(int, bdest)) == touching, "boundary indices are those that act on the facet", lambda: f"want {sorted(touching)} {ctx()}")
