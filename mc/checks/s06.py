"""S06: traces of the functions of neighbouring cells on a facet."""
import itertools

import numpy as np

from basis.basis_trace import trace_product_space
from mc import larger
from mc.checks import s04
from mc.meshes import read_mesh
from spaces.product_space import ProductSpace

ID = "S06"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "one cell, and two cells that share a facet, of every dimension; every numbering of the nodes (pairs of tetrahedra: of the apexes) x every node order of the first cell (1D, 2D: of both) x two or three node orders of the facets; every facet x every neighbour x products of one third of all families, continuous and broken, x all functions or those of the facet; 11 larger meshes (up to 48 cells) in 3 numberings",
    "thorough": "as quick, with every node order of both cells in 3D, every numbering of pairs of tetrahedra, and every node order of the facets; larger meshes in all 3 node orders",
}
FIELDS = {
    1: {"a": ("Lagrange", 1, 1, 0), "b": ("Lagrange", 3, 2, 0), "c": ("Lagrange", 2, 1, 1), "d": ("RT", 2, 1, 0)},
    2: {
        "a": ("Lagrange", 2, 2, 0), "b": ("Lagrange", 4, 1, 0), "c": ("Lagrange", 1, 1, 1), "d": ("RT", 1, 2, 0), "e": ("RT", 3, 1, 0),
        "f": ("BDM", 2, 1, 0), "g": ("N1E", 1, 1, 0), "h": ("N1E", 2, 1, 0), "i": ("BDM", 1, 1, 1), "j": ("Lagrange", 0, 1, 1),
    },
    3: {
        "a": ("Lagrange", 1, 1, 0), "b": ("Lagrange", 4, 3, 0), "c": ("Lagrange", 2, 1, 1), "d": ("RT", 1, 1, 0), "e": ("RT", 2, 2, 0),
        "f": ("BDM", 1, 1, 0), "g": ("BDM", 2, 1, 0), "h": ("N1E", 1, 1, 0), "i": ("N1E", 2, 1, 0), "j": ("N1E", 2, 1, 1), "k": ("Lagrange", 0, 1, 1),
    },
}


def spaces(tier):
    for name, cases in s04.spaces(tier):
        if name == "larger":
            cases = larger.keys(larger.MANIFOLD, (0, 1, 2) if tier == "thorough" else (1,))
        yield name, cases


def run_case(space, case, rep):
    if space == "larger":
        dim, pts, cells = larger.build(case)
        fs = sorted({frozenset(s) for c in cells for s in itertools.combinations(c, dim)}, key=sorted)
        P = list(itertools.permutations(range(dim)))
        fs = [[sorted(f)[j] for j in P[i % len(P)]] for i, f in enumerate(fs)]
        names = list(FIELDS[dim])
        names = names[:: 2] if case[1] % 2 else names[1:: 2]
    else:
        dim, labels, p, q, forder = case
        geo = s04.GEO[dim]
        cells = [[labels[i] for i in p], [labels[i + 1] for i in q]]
        pts = [None] * len(geo)
        for i, l in enumerate(labels):
            pts[l] = geo[i]
        facets = sorted({frozenset(s) for c in cells for s in itertools.combinations(c, dim)}, key=sorted)
        fs = [[sorted(f)[i] for i in forder] for f in facets]
        names = list(FIELDS[dim])
        i = (labels[0] + p[0] + 2 * q[0]) % 3
        names = names if dim == 1 else names[i::3]
    mesh = read_mesh(dim, np.array(pts, float), [(dim - 1, fs, [7] * len(fs)), (dim, cells, [1] * len(cells))])
    rep.state(case)
    check(mesh, dim, names, rep)


def barycentric(mesh, cell, X):
    """Barycentric coordinates of points in a cell."""
    P = mesh.points[cell.node_tags]
    A = (P[1:] - P[0]).T
    return np.linalg.lstsq(A, (X - P[0]).T, rcond=None)[0].T


def acts(fam, dim, phi, P):
    """Of the values of functions at points of a facet, the part that is continuous."""
    if fam == "Lagrange" or dim == 1:
        return phi[:, :, 0:1]
    if dim == 2:
        t = [P[1] - P[0]]
        n = np.array([-t[0][1], t[0][0], 0.0])
    else:
        t = [P[1] - P[0], P[2] - P[0]]
        n = np.cross(*t)
    if fam in ("RT", "BDM"):
        return (phi @ n)[:, :, None]
    return np.stack([phi @ v for v in t], -1)


def own_functions(V, el, fam, dim):
    """For every facet of a cell: the functions of the cell that act on it and on no other."""
    c = el.data.cell
    X = facet_points(dim)
    w = np.hstack([1 - X.sum(1, keepdims=True), X]) if dim > 1 else np.ones((1, 1))
    sides = [list(s) for s in itertools.combinations([int(v) for v in c.node_tags], dim)]
    mesh = V.mesh_topology.mesh
    ref = barycentric(mesh, c, np.vstack([w @ mesh.points[s] for s in sides]))
    _, jac, det, inv = el.evaluate_mapping(ref)
    phi = el.evaluate_basis(ref, jac, det, inv)[0]
    phi = phi.reshape((len(sides), len(X)) + phi.shape[1:])
    alive = np.array([np.abs(acts(fam, dim, phi[k], mesh.points[s])).max(axis=(0, 2)) > 1e-9 for k, s in enumerate(sides)])
    return {frozenset(s): list(np.nonzero(alive[k] & (alive.sum(0) == 1))[0]) for k, s in enumerate(sides)}


def facet_points(dim):
    X = s04.facet_points(dim)
    return X if dim < 3 else np.vstack([X[:3], X[3:-1:3], X[-1:]])


def columns(O, phi):
    """The functions that make up a selection of them, None if there is none."""
    if O.shape[1] != phi.shape[1] or O.shape[3] != phi.shape[3]:
        return None
    tol = 1e-9 * (1 + np.abs(phi[0]).max())
    out = []
    for j in range(O.shape[2]):
        hits = [m for m in range(phi.shape[2]) if np.allclose(O[0, :, j], phi[0, :, m], atol=tol)]
        if len(hits) != 1:
            return None
        out += hits
    return out


def check(mesh, dim, names, rep):
    fields = {n: FIELDS[dim][n] for n in names}
    W = ProductSpace({n: (dim, comps, fam, k, mesh) for n, (fam, k, comps, _) in fields.items()})
    if any(d for *_, d in fields.values()):
        W.make_subspaces_discontinuous({n: bool(d) for n, (*_, d) in fields.items()})
    W.build_structures({n: [1] for n in names}, {n: [7] for n in names})
    top = {c.id: c for c in mesh.cells if c is not None and c.dimension == dim}
    # elements of the facets themselves come from a field that has them
    first = W.discrete_spaces[names[0]]
    memo = {}
    xi = facet_points(dim)
    w = np.hstack([1 - xi.sum(1, keepdims=True), xi]) if dim > 1 else np.ones((1, 1))
    for bel in first.bc_elements:
        f = bel.data.cell
        P = mesh.points[f.node_tags]
        at = w @ P
        want = sorted(i for i, c in top.items() if f.id in c.sub_cells_ids[dim - 1])
        got = {n: [] for n in names}
        ctx = lambda: f"dim {dim} facet {list(map(int, f.node_tags))} cells {[list(map(int, c.node_tags)) for c in top.values()]} fields {fields}"
        for k in range(len(want)):
            full = trace_product_space(names, W, xi, bel.data, True, k)
            own = trace_product_space([n for n in names if not fields[n][3]], W, xi, bel.data, False, k)
            if k == 0:
                again = trace_product_space(names, W, xi, bel.data, True)
                rep.expect(all(np.array_equal(again[n], full[n]) for n in names), "the first neighbour is chosen by default", ctx)
            rep.step(2)
            rep.expect(list(full) == names, "a trace for every field", ctx)
            rep.expect(list(own) == [n for n in names if not fields[n][3]], "a trace for every field", ctx)
            for n in names:
                fam, order, comps, broken = fields[n]
                V = W.discrete_spaces[n]
                same = []
                for i in want:
                    el = V.elements[V.id_to_element[i]]
                    X = barycentric(mesh, top[i], at)
                    _, jac, det, inv = el.evaluate_mapping(X)
                    phi = el.evaluate_basis(X, jac, det, inv)
                    T = np.asarray(full[n])
                    if T.shape[1:] == phi.shape[1:] and np.allclose(T[0], phi[0], atol=1e-9 * (1 + np.abs(phi[0]).max())):
                        same.append(i)
                        if not broken:
                            if (n, i) not in memo:
                                memo[n, i] = own_functions(V, el, fam, dim)
                            mine = memo[n, i][frozenset(int(v) for v in f.node_tags)]
                            O = np.asarray(own[n])
                            pick = columns(O, phi)
                            ok = rep.expect(
                                pick is not None and sorted(pick) == list(mine),
                                "functions of the facet", lambda: f"{fam}{order} neighbour {i} want {list(mine)} of {phi[0]} got {O} {ctx()}",
                            )
                            if ok and fam in ("RT", "BDM") and dim > 1:
                                dest = V.dof_map.destination_indices(i)
                                bdest = V.dof_map.bc_destination_indices(i, f.id)
                                rep.expect(
                                    [int(dest[comps * j]) for j in pick] == [int(d) for d in bdest[::comps]],
                                    "functions of the facet follow the boundary indices", lambda: f"{fam}{order} neighbour {i} {pick} {list(dest)} {list(bdest)} {ctx()}",
                                )
                rep.expect(same, "values of the functions of a neighbour", lambda: f"{fam}{order} neighbour {k} got {full[n]} {ctx()}")
                got[n].append(same)
                rep.outcome(f"{fam}{order} dim {dim} {'broken' if broken else 'continuous'} neighbours {len(want)}")
        for n in names:
            ways = any(list(p) == want or all(p[j] in got[n][j] for j in range(len(want))) for p in itertools.permutations(want))
            rep.expect(ways, "every neighbour can be chosen", lambda: f"{got[n]} {want} {ctx()}")
        # all fields follow the same neighbour
        rep.expect(
            any(all(p[j] in got[n][j] for n in names for j in range(len(want))) for p in itertools.permutations(want)),
            "fields choose the same neighbour", lambda: f"{got} {want} {ctx()}",
        )
