"""S02: conformity of the discrete spaces across an interior facet."""
import itertools

import numpy as np

from mc import larger
from mc.meshes import read_mesh
from spaces.discrete_space import DiscreteSpace

ID = "S02"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "two triangles: every numbering of the nodes x every node order of both x facet untagged, tagged, tagged reversed x 14 spaces; two tetrahedra: every numbering of the apexes x every node order of both x 13 spaces, the shared face tagged on every second case; every interior facet of 13 larger meshes (up to 48 cells) x 3 numberings x 3 orders",
    "thorough": "as quick, tetrahedra with the shared face untagged, tagged and tagged in reverse",
}

FAM1 = [("Lagrange", k) for k in (1, 2, 3, 4, 5)]
FAM2 = [("Lagrange", k) for k in (1, 2, 3, 4, 5)] + [("RT", k) for k in (1, 2, 3)] + [("BDM", k) for k in (1, 2, 3)] + [("N1E", k) for k in (1, 2, 3)]
FAM3 = [("Lagrange", k) for k in (1, 2, 3, 4, 5)] + [("RT", k) for k in (1, 2, 3)] + [("BDM", k) for k in (1, 2)] + [("N1E", k) for k in (1, 2, 3)]

TRI = [(0.0, 0.0, 0.0), (2.0, 0.5, 0.0), (0.5, 1.5, 0.0), (2.5, 2.0, 0.0)]  # facet 1,2
TET = [(0.0, 0.0, 0.0), (2.0, 0.5, 0.25), (0.5, 1.5, 0.0), (0.25, 0.5, 1.75), (2.0, 1.5, 1.25)]


def spaces(tier):
    out = []
    # labels: position -> node tag
    for labels in itertools.permutations(range(4)):
        for p in itertools.permutations(range(3)):
            for q in itertools.permutations(range(3)):
                for line in (0, 1, 2):
                    out.append([2, list(labels), list(p), list(q), line])
    yield "triangles", out
    out = []
    for a, b in itertools.permutations(range(5), 2):
        rest = [i for i in range(5) if i not in (a, b)]
        labels = [a] + rest + [b]
        for p in itertools.permutations(range(4)):
            for q in itertools.permutations(range(4)):
                lines = (len(out) % 2,) if tier == "quick" else (0, 1, 2)
                out += [[3, labels, list(p), list(q), s] for s in lines]
    yield "tetrahedra", out
    yield "larger", larger.keys(larger.MEDIUM)


def sign(P):
    P = np.array(P)
    if len(P) == 3:
        return np.sign(np.cross(P[1][:2] - P[0][:2], P[2][:2] - P[0][:2]))
    return np.sign(np.linalg.det(P[1:] - P[0]))


def bary(dim):
    g = (0.05, 0.23, 0.42, 0.61, 0.86)
    if dim == 2:
        return np.array([[1 - s, s] for s in (0.0, 0.17, 0.4, 0.71, 1.0)])
    if dim == 3:
        return np.array([[1 - s - r, s, r] for s in g for r in g if s + r <= 1])
    return np.array([[1.0]])


def run_case(space, case, rep):
    rep.state(case)
    if space == "larger":
        dim, pts, cells = larger.build(case)
        blocks = [(dim, cells, [1] * len(cells))]
        subs = {}
        for c in cells:
            for s in itertools.combinations(c, dim):
                subs.setdefault(frozenset(s), []).append(s)
        fs = [v[-1] for v in subs.values() if dim > 1][::3]
        blocks.insert(0, (dim - 1, fs, [7] * len(fs)))
        facets = [(v[0], "") for v in subs.values() if len(v) > 1]
    else:
        dim, labels, p, q, line = case
        geo = TRI if dim == 2 else TET
        cells = [[labels[i] for i in p], [labels[i + 1] for i in q]]
        pts = [None] * len(geo)
        for i, l in enumerate(labels):
            pts[l] = geo[i]
        blocks = [(dim, cells, [1, 1])]
        facet = labels[1 : dim + 1]
        if line:
            blocks.insert(0, (dim - 1, [facet if line == 1 else facet[::-1]], [7]))
        facets = [(facet, f"facet {line}")]
    pts = np.array(pts, float)
    mesh = read_mesh(dim, pts, [b for b in blocks if b[1]])
    flat = dim == 3 or not pts[:, 2].any()
    same = dim == 1 or flat and len({sign(pts[list(c)]) for c in cells}) == 1
    every = {1: FAM1, 2: FAM2, 3: FAM3}[dim]
    for fam, k in every:
        if fam not in ("RT", "BDM") or same:
            conforming(mesh, dim, fam, k, facets, "same" if same else "opposite", rep)


def conforming(mesh, dim, fam, k, facets, orientation, rep):
    V = DiscreteSpace(dim, 1, fam, k, mesh)
    V.build_structures([1])
    ref = np.vstack((np.zeros(dim), np.eye(dim)))
    by_node = {}
    for c in mesh.cells:
        if c.dimension == dim:
            for v in c.node_tags:
                by_node.setdefault(int(v), []).append(c)
    # points of the facet, barycentric coordinates w.r.t. facet nodes
    B = bary(dim)
    for facet, name in facets:
        fp = mesh.points[list(facet)]
        T = fp[1:] - fp[0]
        if dim == 2:
            nrm = np.array([-T[0][1], T[0][0], 0])
        elif dim == 3:
            nrm = np.cross(*T)
        first = None
        for c in by_node[facet[0]]:
            nodes = [int(v) for v in c.node_tags]
            if not set(facet) <= set(nodes):
                continue
            el = V.elements[V.id_to_element[c.id]]
            x = B @ ref[[nodes.index(f) for f in facet]]
            X, jac, det, inv = el.evaluate_mapping(x)
            phi = el.evaluate_basis(x, jac, det, inv)[0]
            rep.step()
            dest = [int(d) for d in V.dof_map.destination_indices(c.id)]
            if fam == "Lagrange" or dim == 1:
                tr = phi[:, :, 0]
            elif fam in ("RT", "BDM"):
                tr = phi @ nrm
            else:
                tr = np.stack([phi @ t for t in T], -1)
            tr = {d: tr[:, j] for j, d in enumerate(dest)}
            if first is None:
                first = tr
                continue
            e = max(np.abs(first.get(d, 0.0) - tr.get(d, 0.0)).max() for d in first | tr)
            rep.expect(e < 1e-9, f"{fam}{k} dim {dim}", lambda: f"jump {e} at {facet} {name}")
        rep.outcome(f"{fam}{k} orientation {orientation} {name}")
