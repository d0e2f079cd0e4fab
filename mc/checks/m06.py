"""M06: what the mesh exports describes the mesh."""
import glob
import itertools
import os

import meshio
import numpy as np

from mc import larger
from mc.complexes import POINTS, cell_sets, extras
from mc.meshes import read_mesh

ID = "M06"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "every set of <=3 lines, triangles and tetrahedra on <=6 nodes, every arrangement of tagged lower-dimensional elements, one or two node orders, with and without colours, with every cell tagged and with every second one left without a tag; 13 larger meshes (up to 48 cells) in 3 numberings",
    "thorough": "as quick, both node orders, and sets of 4 lines and triangles",
}
NAME = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        yield name, [
            [dim, n, list(map(list, s)), f]
            for k in range(1, 5 if t and dim < 3 else 4)
            for n in range(dim + 1, 7)
            for i, s in enumerate(cell_sets(dim, n, k))
            for f in (0, 1)
            if t and k < 4 or k < 3 or f == i % 2
        ]
    yield "larger", larger.keys(larger.MEDIUM, (1,))


def run_case(space, case, rep):
    if space == "larger":
        dim, pts, cs = larger.build(case)
    else:
        dim, n, cells, flip = case
        pts = np.array(POINTS[:n])
        cs = [tuple(c[::-1]) if flip else tuple(c) for c in cells]
    for name, before, after in extras(cs, dim):
        mesh = read_mesh(dim, pts, before + [(dim, cs, [100 + i for i in range(len(cs))])] + after)
        rep.state([cs, name])
        if dim == 2:
            given = [(d, c, t) for d, cells, tags in before + [(dim, cs, [100 + i for i in range(len(cs))])] + after for c, t in zip(cells, tags)]
            check_file_cells(mesh, pts, given, rep, lambda: f"{cs} {name}")
        exports(mesh, dim, rep, lambda: f"{cs} {name}")
        if len(cs) > 1:
            # a part of the cells is left without a tag
            for d in range(dim + 1):
                for c in [c for c in mesh.cells if c.dimension == d and c.material_id is not None][(d + len(cs)) % 2 :: 2]:
                    c.material_id = None
            exports(mesh, dim, rep, lambda: f"{cs} {name} untagged")


def exports(mesh, dim, rep, ctx):
    for color in (False, True):
        for f in glob.glob("out*"):
            os.remove(f)
        mesh.write_vtk("out", color)
        rep.step()
        check_vtk(mesh, dim, color, rep, lambda: f"{ctx()} color={color}")
    if os.path.exists("out.txt"):
        os.remove("out.txt")
    mesh.write_data("out.txt")
    rep.step()
    check_text(mesh, rep, ctx)


def check_vtk(mesh, dim, color, rep, ctx):
    for d in range(4):
        cells = [c for c in mesh.cells if c.dimension == d and c.material_id is not None]
        fn = f"out_{d}d.vtk"
        rep.outcome(f"{d}d file {os.path.exists(fn)}")
        if not rep.expect(os.path.exists(fn) == bool(cells), "file written iff there are cells", lambda: f"{fn} {ctx()}"):
            continue
        if not cells:
            continue
        m = meshio.read(fn)
        got = [
            (tuple(map(int, nodes)), int(t), int(e))
            for nodes, t, e in zip(
                m.get_cells_type(NAME[d]),
                np.concatenate(m.cell_data["physical_tag"]).ravel(),
                np.concatenate(m.cell_data["entity_tag"]).ravel(),
            )
        ]
        want = [(tuple(map(int, c.node_tags)), int(c.material_id), int(c.id)) for c in cells]
        rep.expect(got == want, "exported cells", lambda: f"{got} != {want} {ctx()}")
        rep.expect(np.allclose(m.points, mesh.points), "exported points", ctx)
        if color and d > 0:
            for co in range(1, d + 1):
                if not rep.expect(f"c{co}_colors" in m.cell_data, "exported colours", ctx):
                    continue
                col = np.concatenate(m.cell_data[f"c{co}_colors"]).ravel()
                for i, j in itertools.combinations(range(len(cells)), 2):
                    if len(set(cells[i].node_tags) & set(cells[j].node_tags)) >= d - co + 1:
                        rep.expect(col[i] != col[j], "exported colours of neighbours", ctx)


def check_file_cells(mesh, pts, given, rep, ctx):
    """The export of the elements of the mesh file, as they were given."""
    for f in glob.glob("conf_geometric_mesh*"):
        os.remove(f)
    mesh.conformal_mesh_write_vtk()
    rep.step()
    for d in range(3):
        want = sorted((tuple(c), t) for e, c, t in given if e == d)
        fn = f"conf_geometric_mesh_{d}d.vtk"
        if not rep.expect(os.path.exists(fn) == bool(want), "file of the elements written iff there are some", lambda: f"{d} {ctx()}") or not want:
            continue
        m = meshio.read(fn)
        got = sorted((tuple(map(int, c)), int(t)) for c, t in zip(m.get_cells_type(NAME[d]), np.concatenate(m.cell_data["physical_tag"]).ravel()))
        rep.expect(got == want and np.allclose(m.points, pts), "exported elements of the file", lambda: f"{got} {want} {ctx()}")


def check_text(mesh, rep, ctx):
    points, cells, cur = [], [], None
    head = {}
    for line in open("out.txt"):
        w = line.split()
        if not w:
            continue
        if w[0] == "tag:":
            points.append([float(x) for x in w[2:]])
        elif w[0] == "Entity_type:":
            cur = {"type": w[1], "sub": {}}
            cells.append(cur)
        elif w[0] in ("Dimension:", "Tag:"):
            cur[w[0][:-1]] = int(w[1])
        elif w[0] == "Physical_tag:":
            cur["phys"] = None if w[1] == "None" else int(w[1])
        elif w[0] == "Physical_name:":
            cur["name"] = w[1]
        elif w[0] == "Node_tags:":
            cur["nodes"] = tuple(map(int, w[1:]))
        elif w[0] == "Entities":
            cur["sub"][int(w[3])] = tuple(map(int, w[5:]))
        elif ":" in line:
            k, v = line.split(":")
            head[k.strip()] = int(v)
    want = [
        {
            "type": f"{c.dimension}d-cell",
            "Dimension": c.dimension,
            "Tag": int(c.id),
            "phys": None if c.material_id is None else int(c.material_id),
            "name": c.physical_name,
            "nodes": tuple(map(int, c.node_tags)),
            "sub": {d: tuple(map(int, s)) for d, s in enumerate(c.sub_cells_ids)},
        }
        for c in mesh.cells
    ]
    rep.expect(cells == want, "text listing of the cells", ctx)
    rep.expect(np.array_equal(np.array(points), mesh.points), "text listing of the points", ctx)
    dims = [c.dimension for c in mesh.cells]
    tag = [c.dimension for c in mesh.cells if c.material_id is not None]
    rep.expect(
        head == {
            "Min entity dimension": min(dims), "Max entity dimension": max(dims),
            "Min entity dimension with physical tag": min(tag),
            "Max entity dimension with physical tag": max(tag),
            "Number_of_points": len(mesh.points), "Number_of_cells": len(mesh.cells),
        },
        "text header", lambda: f"{head} {ctx()}",
    )
