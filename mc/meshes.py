"""Small conforming simplicial meshes written as gmsh files and read back by Mesh."""
import os

import meshio
import numpy as np

TYPE = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
_n = [0]


def write_msh(points, blocks, path=None):
    """blocks: list of (dim, cells, tags); one gmsh element per cell, in order."""
    if path is None:
        _n[0] += 1
        path = f"m{os.getpid()}_{_n[0] % 4}.msh"
    code = {0: 15, 1: 1, 2: 2, 3: 4}
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$Nodes", str(len(points))]
    for i, p in enumerate(points):
        out.append(f"{i + 1} {float(p[0])!r} {float(p[1])!r} {float(p[2])!r}")
    out += ["$EndNodes", "$Elements"]
    el = []
    for dim, cells, tags in blocks:
        for c, t in zip(cells, tags):
            el.append(
                f"{len(el) + 1} {code[dim]} 2 {int(t)} {int(t)} "
                + " ".join(str(int(v) + 1) for v in c)
            )
    out += [str(len(el))] + el + ["$EndElements", ""]
    with open(path, "w") as f:
        f.write("\n".join(out))
    return path


def read_mesh(dim, points, blocks):
    from mesh.mesh import Mesh

    m = Mesh(dimension=dim, file_name=write_msh(points, blocks))
    m.build_conformal_mesh()
    return m
