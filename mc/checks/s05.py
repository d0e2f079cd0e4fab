"""S05: the L2 projection onto a product space."""
import itertools

import numpy as np

from mc import larger
from mc.complexes import REF
from mc.fem import exponents, simplex_rule, reference
from mc.meshes import read_mesh
from postprocess.projectors import l2_projector
from spaces.product_space import ProductSpace

ID = "S05"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "two cells that share a facet, in 1D, 2D and 3D; every numbering (3D: one in 12) x every node order of the first cell with 2 of the second (same orientation for divergence-conforming spaces), cells of sizes 1, 50, 1e-3 and 1e-5; products of 1 and 2 fields of Lagrange 1 to 3, RT, BDM, N1E 1 and 2, 1 to 3 components, continuous or broken; both solver modes; for each field a polynomial of the space and one outside of it; fields on facets that meet in an edge or node; 7 larger meshes (up to 18 cells) in 3 numberings and 2 orders",
    "thorough": "as quick, with every numbering of 2D patches and node order of both cells and one numbering in 3 in 3D; larger meshes of up to 40 cells in 3 orders",
}
GEO = {
    1: [(0.25, 0.0, 0.0), (1.0, 0.0, 0.0), (2.5, 0.0, 0.0)],
    2: [(0.0, 0.0, 0.0), (2.0, 0.5, 0.0), (0.5, 1.5, 0.0), (2.5, 2.0, 0.0)],
    3: [(0.0, 0.0, 0.0), (2.0, 0.5, 0.25), (0.5, 1.5, 0.0), (0.25, 0.5, 1.75), (2.0, 1.5, 1.25)],
}
PRODUCTS = {
    1: [[("Lagrange", 1, 1, 0)], [("Lagrange", 3, 1, 0), ("Lagrange", 2, 1, 1)], [("RT", 2, 1, 0), ("Lagrange", 1, 1, 1)]],
    2: [
        [("Lagrange", 1, 2, 0)], [("Lagrange", 3, 1, 0), ("Lagrange", 2, 2, 1)], [("RT", 1, 1, 0), ("Lagrange", 0, 1, 1)],
        [("BDM", 1, 2, 0), ("Lagrange", 2, 1, 0)], [("RT", 2, 2, 1)], [("BDM", 2, 1, 0)], [("N1E", 2, 1, 0), ("RT", 2, 1, 0)], [("N1E", 1, 2, 0)],
    ],
    3: [
        [("Lagrange", 1, 3, 0)], [("Lagrange", 2, 1, 0), ("Lagrange", 1, 2, 1)], [("RT", 1, 1, 0), ("Lagrange", 0, 1, 1)],
        [("BDM", 1, 2, 0), ("Lagrange", 2, 1, 1)], [("RT", 2, 1, 0)], [("N1E", 1, 1, 0)],
    ],
}
FACETS = [[("Lagrange", 1, 2, 0)], [("Lagrange", 3, 1, 0), ("Lagrange", 2, 3, 1)], [("Lagrange", 2, 3, 0), ("Lagrange", 0, 1, 1)]]
LARGER = ["line 12", "fan 6", "fan 5 open", "squares 3x3", "wheel 5", "cube", "cubes 2x1x1", "squares 5x4"]
SIZE = {"line 12": 12.0, "squares 3x3": 3.0, "squares 5x4": 5.0}
PLACE = {"unit": 1.0, "small": 1e-3, "large": 50.0, "tiny": 1e-5}


def sign(P):
    P = np.array(P)
    if len(P) == 2:
        return np.sign(P[1][0] - P[0][0])
    if len(P) == 3:
        return np.sign(np.cross(P[1] - P[0], P[2] - P[0])[2])
    return np.sign(np.linalg.det(P[1:] - P[0]))


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        n = dim + 2
        L = list(itertools.permutations(range(n)))[:: (1, 1 if t else 5, 3 if t else 12)[dim - 1]]
        P = list(itertools.permutations(range(dim + 1)))
        out = []
        for i, l in enumerate(L):
            for j, p in enumerate(P):
                for q in P if t and dim < 3 or dim == 1 else [P[(i + j) % len(P)], P[(i + 2 * j + 1) % len(P)]]:
                    out.append([dim, list(l), list(p), list(q), list(PLACE)[(i + j + len(out)) % 4]])
        yield name, out
    # fields on facets that meet in nodes or edges: (cells around a node or an edge, which facets)
    yield "facets", [
        [dim, n, closed, list(l), r, m]
        for dim, n, closed in ((2, 3, 1), (2, 4, 0), (3, 3, 1), (3, 3, 0)) + (((2, 4, 1), (2, 5, 0), (3, 4, 1)) if t else ())
        for r, l in enumerate(list(itertools.permutations(range(n + dim - 1)))[:: {4: 2, 5: 10, 6: 120}[n + dim - 1] // (2 if t else 1)])
        for m in range(3)
    ]
    yield "larger", [[*k, list(PLACE)[sum(k[1:]) % 4]] for k in larger.keys(LARGER if t else LARGER[:-1], (0, 1, 2) if t else (1, 2))]


def patch(case):
    """The mesh of a case, its products with their seeds, its dimension and its size."""
    if isinstance(case[0], str):
        dim, pts, cells = larger.build(case[:3])
        pts = PLACE[case[3]] * pts
        mesh = read_mesh(dim, pts, [(dim, cells, [1] * len(cells))])
        same = len({sign(pts[list(c)]) for c in cells}) == 1
        every = list(enumerate(PRODUCTS[dim]))
        if len(cells) > 20:
            every = every[case[1] :: 3]
        return mesh, [(n + case[2], fields) for n, fields in every if same or not oriented(fields)], dim, PLACE[case[3]] * SIZE.get(case[0], 1.0)
    dim, labels, p, q, place = case
    geo = [PLACE[place] * np.array(g) for g in GEO[dim]]
    c1 = [labels[i] for i in p]
    c2 = [labels[i + 1] for i in q]
    pts = [None] * len(geo)
    for i, l in enumerate(labels):
        pts[l] = geo[i]
    same = sign([pts[i] for i in c1]) == sign([pts[i] for i in c2])
    mesh = read_mesh(dim, np.array(pts), [(dim, [c1, c2], [1, 1])])
    return mesh, [(n + p[0], fields) for n, fields in enumerate(PRODUCTS[dim]) if same or not oriented(fields)], dim, PLACE[place]


def oriented(fields):
    return any(f in ("RT", "BDM") and not d for f, _, _, d in fields)


def fan(case):
    """Triangles around a node or tetrahedra around an edge."""
    dim, n, closed, labels, r, m = case
    h = list(PLACE.values())[(r + m) % 3]
    ring = [(2.0 * np.cos(0.3 + 2 * np.pi * k / n), (2.0 + 0.25 * k) * np.sin(0.3 + 2 * np.pi * k / n), 0.125 * k if dim == 3 else 0.0) for k in range(n)]
    axis = [(0.1, 0.2, -1.0), (0.0, -0.1, 1.5)] if dim == 3 else [(0.1, 0.2, 0.0)]
    geo = h * np.array(axis + ring)
    base = list(range(len(axis)))
    cells = [base + [len(axis) + k, len(axis) + (k + 1) % n] for k in range(n if closed else n - 1)]
    P = list(itertools.permutations(range(dim + 1)))
    cells = [[labels[c[j]] for j in P[(7 * i + 5 * r + m) % len(P)]] for i, c in enumerate(cells)]
    pts = [None] * len(geo)
    for i, l in enumerate(labels):
        pts[l] = geo[i]
    tags = [[1] * len(cells), [1 + i % 2 for i in range(len(cells))], [1 + (i == len(cells) - 1) for i in range(len(cells))]][m]
    return dim, np.array(pts), cells, tags, h


def facets(case):
    """The mesh of a case, its dimension and its size; the facets with tag 9 are those that
    meet in the node or the edge in the middle, those around it, or all of them."""
    dim, pts, cells, tags, h = fan(case)
    labels, r, m = case[3:]
    middle = set(labels[: dim - 1])
    every = sorted({tuple(sorted(f)) for c in cells for f in itertools.combinations(c, dim)})
    chosen = [f for f in every if m == 2 or (middle <= set(f)) == (m == 0)]
    P = list(itertools.permutations(range(dim)))
    chosen = [[f[j] for j in P[(i + r) % len(P)]] for i, f in enumerate(chosen)]
    return read_mesh(dim, pts, [(dim - 1, chosen, [9] * len(chosen)), (dim, cells, tags)]), dim, h


def run_case(space, case, rep):
    if space == "facets":
        mesh, dim, h = facets(case)
        rep.state(case)
        for seed, fields in enumerate(FACETS):
            run(mesh, dim - 1, h, fields, seed, rep, dim, 9)
        return
    mesh, products, dim, h = patch(case)
    rep.state(case)
    for seed, fields in products:
        run(mesh, dim, h, fields, seed, rep)


def vector(f, dim):
    return f in ("RT", "BDM", "N1E") and dim > 1


def poly(dim, deg, seed, h):
    """A polynomial of the given degree with all monomials, and its gradient."""
    E = exponents(dim, deg)
    co = [((3 * i + 5 * seed) % 7 - 3) * 0.5 + 0.125 for i in range(len(E))]

    def f(X):
        X = np.asarray(X, float)[..., :dim] / h
        return sum(c * np.prod([X[..., k] ** a for k, a in enumerate(e)], axis=0) for c, e in zip(co, E))

    def g(X):
        X = np.asarray(X, float)[..., :dim] / h
        out = []
        for m in range(dim):
            out.append(sum(
                c * e[m] * np.prod([X[..., k] ** (a - (k == m)) for k, a in enumerate(e)], axis=0)
                for c, e in zip(co, E) if e[m]
            ) / h + 0.0 * X[..., 0])
        return np.stack(out)

    return f, g


def inside_degree(f, k, dim):
    if dim == 1 or f in ("Lagrange", "BDM"):
        return k
    return k - 1


def product(mesh, dim, fields, tag=1):
    names = ["u", "v"][: len(fields)]
    W = ProductSpace({nm: (dim, c, f, k, mesh) for nm, (f, k, c, d) in zip(names, fields)})
    W.make_subspaces_discontinuous({nm: bool(d) for nm, (f, k, c, d) in zip(names, fields)})
    W.build_structures({nm: [tag] for nm in names}, {})
    return W, names


def data(dim, fields, names, outside, seed, h, top=None):
    F, P = {}, {}
    for m, (nm, (f, k, c, d)) in enumerate(zip(names, fields)):
        deg = inside_degree(f, k, dim) + outside
        P[nm] = [[poly(top or dim, deg, seed + 3 * m + 5 * a + b, h) for b in range(dim if vector(f, dim) else 1)] for a in range(c)]
        F[nm] = as_function(P[nm], vector(f, dim))
    return F, P


def run(mesh, dim, h, fields, seed, rep, top=None, tag=1):
    ctx = lambda: f"{fields} {h}"
    W, names = product(mesh, dim, fields, tag)
    W.dof_shift = 3
    for outside in (0, 1):
        F, P = data(dim, fields, names, outside, seed, h, top)
        for sym in (True, False):
            if sym and outside:
                continue
            alpha = np.array(l2_projector(W, F, symmetric_solver_q=sym))
            rep.step()
            rep.expect(W.dof_shift == 3, "the projection keeps the shift of the space", ctx)
            rep.expect(len(alpha) == W.n_dof and np.all(np.isfinite(alpha)), "projection", ctx)
            W.dof_shift = 0
            compare(W, mesh, dim, fields, names, P, alpha, outside, h, rep, lambda: f"{ctx()} symmetric {sym}")
            W.dof_shift = 3
            # the place of the space among others may be given as well
            again = np.array(l2_projector(W, F, -3, symmetric_solver_q=sym))
            rep.step()
            rep.expect(again.shape == alpha.shape and np.abs(again - alpha).max() <= 1e-9 * np.abs(alpha).max(), "the projection does not depend on the place of the space among others", ctx)


def as_function(polys, vec):
    def fun(x, y, z):
        X = np.stack([np.asarray(x, float), np.asarray(y, float), np.asarray(z, float)], -1)
        if vec:
            return np.array([[p[0](X) for p in row] for row in polys])
        return np.array([row[0][0](X) for row in polys])

    return fun


def field_at(el, xi, alpha, comps, vec, dim):
    x, jac, det, inv = el.evaluate_mapping(xi)
    phi = el.evaluate_basis(xi, jac, det, inv)[0]
    if vec:
        return x, np.stack([phi[:, :, :dim].transpose(0, 2, 1) @ alpha[a::comps] for a in range(comps)]), phi[:, :, :dim]
    return x, np.stack([phi[:, :, 0] @ alpha[a::comps] for a in range(comps)])[:, :, None], phi[:, :, 0:1]


def exact(polys, X):
    return np.stack([np.stack([p[0](X) for p in row], -1) for row in polys])


def compare(W, mesh, dim, fields, names, P, alpha, outside, h, rep, ctx):
    for nm, (f, k, c, d) in zip(names, fields):
        V = W.discrete_spaces[nm]
        vec = vector(f, dim)
        res = np.zeros(W.n_dof)
        size = 0.0
        for i, el in enumerate(V.elements):
            verts = mesh.points[el.data.cell.node_tags]
            X, w = simplex_rule(verts, 2 * k + 4)
            xi = reference(X, verts)
            dest = W.destination_indexes(i, nm)
            x, uh, phi = field_at(el, xi, alpha[dest], c, vec, dim)
            u = exact(P[nm], X)
            if not outside:
                e = np.abs(u - uh).max()
                rep.expect(e < 1e-7 * (1 + np.abs(u).max()), "a function of the space is its own projection", lambda: f"{nm} error {e} {ctx()}")
            for a in range(c):
                r = np.einsum("p,pd,pid->i", w, u[a] - uh[a], phi)
                res[dest[a::c]] += r
                size += np.sum(w[:, None] * np.abs(u[a])) * np.abs(phi).max()
        rep.expect(np.abs(res).max() < 1e-7 * size, "the error of the projection is orthogonal to the space", lambda: f"{nm} {np.abs(res).max()} {size} {ctx()}")
        rep.outcome(f"{f}{k} outside={outside}")
