"""S03: layout of product spaces - fields, shift, boundary indices, quadrature."""
import itertools

import numpy as np

from basis.element_family import family_by_name
from mc import larger
from mc.complexes import POINTS, cell_sets, faces
from mc.fem import exponents, monomial_integral, n_local
from mc.meshes import read_mesh
from spaces.product_space import ProductSpace

ID = "S03"
LEVEL = "model_checking"
CHUNK = 4
FIELDS = {
    1: [(1, "Lagrange", 1, 0), (1, "Lagrange", 2, 0), (2, "Lagrange", 1, 0), (1, "Lagrange", 0, 1), (1, "RT", 1, 0), (1, "Lagrange", 1, 1)],
    2: [(1, "Lagrange", 2, 0), (2, "Lagrange", 1, 0), (1, "RT", 1, 0), (2, "BDM", 1, 0), (1, "Lagrange", 0, 1), (1, "N1E", 2, 0), (2, "Lagrange", 1, 1), (1, "RT", 2, 1)],
    3: [(1, "Lagrange", 2, 0), (3, "Lagrange", 1, 0), (1, "RT", 1, 0), (3, "BDM", 1, 0), (1, "Lagrange", 0, 1), (1, "N1E", 1, 0), (3, "Lagrange", 1, 1)],
}
BOUNDS = {
    "quick": "every set of 2 lines, 2 triangles (4 and 5 nodes), 2 tetrahedra (5 nodes); every ordered set of <=2 fields of an alphabet of 6 (1D), 8 (2D), 7 (3D) spaces; cells of tag 1, or of tags 1 and 2; one in 2 of the ordered sets of 3 fields on one mesh of each dimension; one in 2 of the sequences of 2 builds of the same product with other tags; shifts 0, 7 and a numpy integer, refused shifts; quadratures of every degree up to 2k+1, k <= 5, for fields of one dimension and of up to 3 dimensions in every order; 9 larger meshes (up to 18 cells) in 3 numberings with one in 3 of the pairs of fields",
    "thorough": "as quick, ordered sets of <=3 fields, every sequence of 3 builds, and sets of 3 lines and triangles",
}
BUILDS = [([1], [7]), ([1, 2], [7, 8]), ([2, 1], []), ([2], [8])]
MESHES = {1: [(3, 2), (4, 3)], 2: [(4, 2), (5, 2), (4, 3)], 3: [(5, 2)]}


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        out = []
        for n, k in MESHES[dim] if t else MESHES[dim][: (1, 2, 1)[dim - 1]]:
            for s in list(cell_sets(dim, n, k))[:: 1 if t else (1, 3, 3)[dim - 1]]:
                for m in (1, 2, 3) if t else (1, 2):
                    for ids in itertools.permutations(range(len(FIELDS[dim])), m):
                        if m == 3 and sum(ids) % 3:
                            continue
                        out.append([dim, n, list(map(list, s)), list(ids)])
        yield name, out
    yield "larger", [
        [*k, list(ids)]
        for k in larger.keys([x for x in larger.MANIFOLD if t or x not in ("squares 5x4", "cubes 2x2x2")], (1,))
        for n, ids in enumerate(itertools.permutations(range(len(FIELDS[larger.SHAPES[k[0]]()[0]])), 2))
        if t or n % 3 == k[1]
    ]
    yield "three fields", [
        [dim, n, list(map(list, s)), list(ids)]
        for dim in (1, 2, 3) for n, k in MESHES[dim][:1] for s in list(cell_sets(dim, n, k))[:1]
        for i, ids in enumerate(itertools.permutations(range(len(FIELDS[dim])), 3)) if t or i % 2
    ]
    yield "several builds", [
        [dim, n, list(map(list, s)), list(ids), list(seq)]
        for dim in (1, 2, 3) for n, k in MESHES[dim][:1] for s in list(cell_sets(dim, n, k))[:1]
        for i, ids in enumerate(itertools.permutations(range(len(FIELDS[dim])), 2))
        for seq in itertools.product(range(len(BUILDS)), repeat=3 if t else 2) if t or (i + sum(seq)) % 2
    ]
    yield "quadrature", [[d, list(k)] for d in (1, 2, 3) for m in (1, 2) for k in itertools.product(range(6), repeat=m)]
    yield "fields of several dimensions", [
        [list(d), list(k)]
        for m in (2, 3) for d in itertools.product((1, 2, 3), repeat=m) if len(set(d)) > 1
        for k in itertools.product(range(6) if m == 2 or t else (0, 2, 3), repeat=m)
    ]


def run_case(space, case, rep):
    rep.state(case)
    if space in ("quadrature", "fields of several dimensions"):
        return quadrature(case, rep)
    if space == "larger":
        dim, pts, cells = larger.build(case[:3])
        ids = case[3]
        tags = [(1, 2, 2, 1, 2)[i % 5] for i in range(len(cells))]
    else:
        dim, n, cells, ids = case[:4]
        pts = np.array(POINTS[:n])
        tags = [1 + (i == len(cells) - 1) for i in range(len(cells))]
    f = faces(cells, dim - 1)
    mesh = read_mesh(dim, pts, [(dim - 1, f, [7 + i % 2 for i in range(len(f))]), (dim, cells, tags)])
    names = [f"{'zyxwvutsr'[i]}" for i in ids]
    spec = [FIELDS[dim][i] for i in ids]
    W = None
    for sel, btags in [BUILDS[i] for i in case[4]] if space == "several builds" else BUILDS[:3]:
        if W is not None and space == "several builds":
            # the same product is built again
            W.build_structures({nm: sel for nm in names}, {nm: btags for nm, (c, fam, k, d) in zip(names, spec) if not d})
            layout(W, mesh, dim, names, spec, sel, btags, rep)
            continue
        W = ProductSpace({nm: (dim, c, fam, k, mesh) for nm, (c, fam, k, _) in zip(names, spec)})
        W.make_subspaces_discontinuous({nm: True for nm, s in zip(names, spec) if s[3]})
        rep.expect(W.dof_shift == 0, "initial shift")
        W.build_structures({nm: sel for nm in names}, {nm: btags for nm, (c, fam, k, d) in zip(names, spec) if not d})
        layout(W, mesh, dim, names, spec, sel, btags, rep)


def ints(a):
    return [int(x) for x in a]


def layout(W, mesh, dim, names, spec, sel, btags, rep):
    ctx = lambda: f"{dict(zip(names, spec))} tags {sel} {btags}"
    chosen = [c for c in mesh.cells if c.dimension == dim and c.material_id in sel]
    S = W.discrete_spaces
    rep.step()
    rep.expect(list(W.names) == names == list(S), "order of the fields", ctx)
    rep.expect(W.dimension() == dim, "dimension of the product", ctx)
    sizes = [S[nm].n_dof for nm in names]
    rep.expect(W.n_dof == sum(sizes) and [W.discrete_spaces_dofs[nm] for nm in names] == sizes, "number of degrees of freedom", ctx)
    for nm, (c, fam, k, disc) in zip(names, spec):
        V = S[nm]
        rep.expect(V.discontinuous == bool(disc) and (V.n_comp, V.k_order) == (c, k), "data of a field", ctx)
        if disc:
            rep.expect(sizes[names.index(nm)] == len(chosen) * c * n_local(fam, k, dim), "size of a broken field", ctx)
    shifts = (0, 7, np.int64(5))
    for sh in shifts:
        W.dof_shift = sh
        rep.expect(W.dof_shift == int(sh), "shift", ctx)
        covered = set()
        for i, cid in enumerate(S[names[0]].element_ids):
            rep.step(2 + len(names))
            parts = W.discrete_spaces_destination_indexes(i)
            rep.expect(list(parts) == names, "one entry per field", ctx)
            at = int(sh)
            flat = []
            for nm, size in zip(names, sizes):
                V = S[nm]
                own = ints(V.dof_map.destination_indices(V.elements[i].data.cell.id))
                want = [at + x for x in own]
                rep.expect(V.elements[i].data.cell.id == cid, "fields see the same cell", ctx)
                rep.expect(ints(parts[nm]) == want and ints(W.destination_indexes(i, nm)) == want, "indices of a field", lambda: f"{nm} {ints(parts[nm])} want {want} {ctx()}")
                flat += want
                at += int(size)
            rep.expect(ints(W.destination_indexes(i)) == flat, "indices of all fields", ctx)
            rep.expect(len(set(flat)) == len(flat), "fields do not overlap", ctx)
            covered |= set(flat)
        rep.expect(covered == set(range(int(sh), int(sh) + W.n_dof)), "indices are consecutive", ctx)
        # boundary
        withbc = [nm for nm in names if len(S[nm].bc_elements)]
        want_bc = [nm for nm, s in zip(names, spec) if btags and not s[3]]
        on = [c.id for c in mesh.cells if c.dimension == dim - 1 and c.material_id in btags and any(c.id in x.sub_cells_ids[dim - 1] for x in chosen)]
        rep.expect(withbc == (want_bc if on else []), "fields with boundary elements", ctx)
        if withbc and not any(s[1] == "N1E" for s in spec):
            for i in range(len(on)):
                parts = W.discrete_spaces_bc_destination_indexes(i)
                rep.step(2)
                rep.expect(list(parts) == withbc, "one boundary entry per field", ctx)
                at, flat = int(sh), []
                for nm, size in zip(names, sizes):
                    if nm in withbc:
                        V = S[nm]
                        fc = V.bc_elements[i].data.cell
                        nb = [x for x in chosen if fc.id in x.sub_cells_ids[dim - 1]]
                        alone = [ints(V.dof_map.bc_destination_indices(x.id, fc.id)) for x in nb]
                        per_nb = [set(p) for p in alone]
                        got = ints(parts[nm])
                        rep.expect(all(set(got) == {at + x for x in p} for p in per_nb) and len(set(got)) == len(got), "boundary indices of a field", lambda: f"{nm} {got} {per_nb} {ctx()}")
                        rep.expect(any(got == [at + x for x in p] for p in alone), "boundary indices of a field are those it has alone", lambda: f"{nm} {got} {alone} {ctx()}")
                        rep.expect(all(set(got) <= {at + int(y) for y in V.dof_map.destination_indices(x.id)} for x in nb), "boundary indices are indices of the neighbours", ctx)
                        rep.expect(ints(W.bc_destination_indexes(i, nm)) == got, "boundary indices by name", ctx)
                        flat += got
                    at += int(size)
                rep.expect(ints(W.bc_destination_indexes(i)) == flat, "boundary indices of all fields", ctx)
        rep.outcome(f"dim {dim} fields {len(names)} boundary {bool(withbc)} shift {int(sh)}")
    for bad, err in ((-1, ValueError), (1.5, TypeError), ("3", TypeError), (None, TypeError)):
        try:
            W.dof_shift = bad
            rep.fail("invalid shift accepted", f"{bad!r} {ctx()}")
        except err:
            pass
        rep.expect(W.dof_shift == int(shifts[-1]), "a refused shift changes nothing", ctx)


def quadrature(case, rep):
    dims, ks = case
    if not isinstance(dims, list):
        dims = [dims] * len(ks)
    dim = max(dims)
    n = dim + 1
    mesh = read_mesh(dim, np.array(POINTS[:n]), [(dim, [list(range(n))], [1])])
    W = ProductSpace({f"f{i}": (dims[i], 1, "Lagrange", k, mesh) for i, k in enumerate(ks)})
    deg = 2 * max(ks) + 1
    rep.expect(W.dimension() == dim, "dimension of the product")
    rep.outcome(f"degree {deg} dimensions {sorted(set(dims))}")
    for d in range(dim + 1):
        rules = [("cells", W.quadrature[d])] + ([("boundary", W.bc_quadrature[d])] if d + 1 in dims else [])
        for name, (p, w) in rules:
            rep.step()
            if d == 0:
                rep.expect(np.allclose(w, [1.0]) and len(p) == 1, "rule on a point", lambda: f"{p} {w}")
                continue
            bad = [e for e in exponents(d, deg) if abs(np.sum(w * np.prod([p[:, i] ** a for i, a in enumerate(e)], axis=0)) - monomial_integral(e)) > 1e-12]
            rep.expect(not bad, f"rule on {name} integrates polynomials of twice the degree plus one", lambda: f"dim {d} degree {deg}: {bad[:3]}")
