"""S01: numbering of the degrees of freedom of a discrete space."""
import itertools

import numpy as np

from mc import larger
from mc.complexes import POINTS, cell_sets, faces
from mc.fem import local_blocks, n_local, per_entity, sub_nodes
from mc.meshes import read_mesh
from spaces.discrete_space import DiscreteSpace

ID = "S01"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "every set of <=3 lines on <=4 nodes, <=3 triangles on <=4 nodes, 2 triangles on 5 nodes, 1 tetrahedron and every pair on 5 nodes; every assignment of the physical tags {1,4} to the cells x selections {1}, {4}, {1,4}; facets tagged 7, 8, 11 or not at all, five sets of tags asked for; spaces of the dimension of the mesh and of the tagged facets; 4 Lagrange degrees (0 to 3, discontinuous ones too), RT, BDM and N1E of degree 1 to 3 (2 in 3D); 1 to 4 components; 13 larger meshes (up to 48 cells) in 3 numberings",
    "thorough": "as quick, with sets of 3 triangles on 5 nodes, 4 triangles on 4 nodes, 4 lines on 5 nodes, two node orders, and Lagrange of degree 4",
}


def families(dim, t):
    out = [("Lagrange", k, d) for k in (1, 2, 3) + ((4,) if t else ()) for d in (0, 1)] + [("Lagrange", 0, 1)]
    if dim == 1:
        return out + [("RT", 1, 0), ("BDM", 2, 0), ("N1E", 1, 0)]
    if dim > 1:
        ks = (1, 2, 3) if dim == 2 or t else (1, 2)
        out += [(f, k, 0) for f in ("RT", "BDM", "N1E") for k in ks] + [("RT", 1, 1), ("BDM", 1, 1), ("N1E", 2, 1)]
    return out


def spaces(tier):
    t = tier == "thorough"
    one = ((2, 1), (3, 2), (4, 2), (3, 3), (4, 3)) + (((5, 4),) if t else ())
    two = ((3, 1), (4, 2), (5, 2), (4, 3)) + (((5, 3), (4, 4)) if t else ())
    three = ((4, 1), (5, 2))
    for dim, name, ns in ((1, "lines", one), (2, "triangles", two), (3, "tetrahedra", three)):
        yield name, [
            [dim, n, list(map(list, s)), list(tags), int(t)]
            for n, k in ns
            for s in cell_sets(dim, n, k)
            for tags in itertools.product((1, 4), repeat=k)
        ]
    yield "larger", [k + [int(t)] for k in larger.keys(larger.MEDIUM, (0, 1) if t else (1,))]


def run_case(space, case, rep):
    if space == "larger":
        t = case[-1]
        dim, points, cs = larger.build(case[:3])
        tags = [(1, 4, 4, 1, 4)[i % 5] for i in range(len(cs))]
        variants = [cs]
    else:
        dim, n, cells, tags, t = case
        points = np.array(POINTS[:n])
        variants = [
            [tuple(c) if not (flip and i % 2) else tuple(c[1:] + c[:1]) for i, c in enumerate(cells)]
            for flip in ((0, 1) if t else (sum(tags) // 3 % 2,))
        ]
    for cs in variants:
        f = faces(cs, dim - 1)
        blocks = [(dim - 1, f[::2], [(7, 8, 11)[i % 3] for i in range(len(f[::2]))]), (dim, cs, tags)]
        mesh = read_mesh(dim, points, blocks)
        rep.state([cs, tags])
        for sd in (dim, dim - 1):
            for i, (fam, k, disc) in enumerate(families(sd, t)):
                if sd == 0 and (fam, k, disc) != ("Lagrange", 0, 1):
                    continue
                for comps in (1, 2, 3, 4) if k == 1 else (1, 2, 3) if k < 3 else (1 + i % 3,):
                    for sel in ([1], [4], [1, 4], [4, 1]) if sd == dim else ([7], [11, 7]):
                        check(mesh, sd, fam, k, disc, comps, sel, rep)


def check(mesh, dim, fam, k, disc, comps, sel, rep):
    chosen = [c for c in mesh.cells if c.dimension == dim and c.material_id in sel]
    if not chosen:
        return
    V = DiscreteSpace(dim, comps, fam, k, mesh)
    if disc:
        V.make_discontinuous()
    V.build_structures(sel)
    rep.step()
    rep.outcome(f"{fam}{k} {'broken ' if disc else ''}dim {dim}")
    ctx = lambda: f"{fam}{k} dim {dim} comps {comps} disc {disc} tags {sel} cells {[(list(map(int, c.node_tags)), c.material_id) for c in chosen]}"
    rep.expect(sorted(map(int, V.element_ids)) == sorted(int(c.id) for c in chosen), "cells of the space", ctx)
    rep.expect(len(V.elements) == len(chosen), "one element per cell", ctx)
    blocks = local_blocks(fam, k, dim, disc)
    per = per_entity(fam, k, dim)
    owner, taken = {}, set()
    used = set()
    for i, cid in enumerate(V.element_ids):
        c = mesh.cells[cid]
        el = V.elements[i]
        rep.expect(V.id_to_element[cid] == i and el.data.cell is c, "element of a cell", ctx)
        rep.expect(el.data.dof.n_dof == n_local(fam, k, dim), "functions on a cell", lambda: f"{el.data.dof.n_dof} {ctx()}")
        dest = [int(j) for j in V.dof_map.destination_indices(cid)]
        rep.step()
        if not rep.expect(len(dest) == n_local(fam, k, dim) * comps and len(set(dest)) == len(dest), "indices of a cell are distinct", lambda: f"{dest} {ctx()}"):
            continue
        used |= set(dest)
        for d, j, pos in blocks:
            if not pos:
                continue
            mine = tuple(dest[p * comps + q] for p in pos for q in range(comps))
            key = (d, sub_nodes(c, d, j))
            if key in owner:
                rep.expect(owner[key] == mine, "an entity has the same indices in all its cells", lambda: f"{key} {owner[key]} {mine} {ctx()}")
            else:
                rep.expect(not taken & set(mine), "entities do not share indices", lambda: f"{key} {mine} {ctx()}")
                owner[key] = mine
                taken |= set(mine)
    if disc:
        want = len(chosen) * n_local(fam, k, dim) * comps
    else:
        ents = {(d, sub_nodes(c, d, j)) for c in chosen for d, j, _ in blocks}
        want = sum(per[d] for d, _ in ents) * comps
    rep.expect(int(V.n_dof) == want and int(V.dof_map.dof_number()) == want, "number of degrees of freedom", lambda: f"{V.n_dof} want {want} {ctx()}")
    rep.expect(used == set(range(want)), "indices are consecutive from zero", lambda: f"{sorted(used)} {ctx()}")
    before = [V.dof_map.destination_indices(c) for c in V.element_ids]
    V.dof_map.build_entity_maps(n_components=comps, n_dof_shift=11)
    rep.step()
    ok = V.dof_map.dof_number() == want and all(np.array_equal(V.dof_map.destination_indices(c), b + 11) for c, b in zip(V.element_ids, before))
    rep.expect(ok, "a shifted numbering", ctx)
    if dim == mesh.dimension:
        for asked in ([7, 9], [8, 7], [8], [7, 11], [30, 11, 7]):
            V.build_boundary_structures(asked)
            rep.step()
            want = sorted(int(c.id) for c in mesh.cells if c.dimension == dim - 1 and c.material_id in asked and any(c.id in x.sub_cells_ids[dim - 1] for x in chosen))
            got = sorted(map(int, V.bc_element_ids))
            rep.expect(got == want == sorted(int(e.data.cell.id) for e in V.bc_elements), "boundary elements", lambda: f"asked {asked} got {got} want {want} {ctx()}")
            rep.expect(all(V.bc_elements[V.id_to_bc_element[i]].data.cell.id == i for i in want), "boundary element of a cell", ctx)
