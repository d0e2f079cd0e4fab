"""M02: from a domain to a mesh that fills it and follows its pieces."""
import itertools

import gmsh
import numpy as np

from geometry.fracture_network import FractureNetwork
from geometry.geometry_builder import GeometryBuilder
from mc.checks.t02 import SEGS
from mc.checks import t03
from mc.checks.t03 import ALPHA, BOX, FT, POLYGONS, PT, SHARED, expected, onbd, overlap, sides_of
from mc.exact import F, add, dot, mul, on_segment, segment_segment, sub
from mc.geo import SCALE, emb
from mesh.conformal_mesher import ConformalMesher
from mesh.discrete_domain import DiscreteDomain
from mesh.mesh import Mesh
from topology.domain_market import build_box_1D, build_box_2D, build_box_3D, create_md_box_2D
from topology.edge import Edge
from topology.domain import Domain
from topology.face import Face
from topology.operations.domain_operations import create_domain, domain_difference, domain_union
from topology.shell import Shell
from topology.solid import Solid
from topology.vertex import Vertex
from topology.wire import Wire

ID = "M02"
LEVEL = "model_checking"
CHUNK = 2
BOUNDS = {
    "quick": "every ordered pair and every set of 3 (one order) of the 17 fractures of T03 in a box, alternating placements and mesh settings (coarse, fine, refined, with a given number of points on the fractures); every set of <=2 of 9 edges as a line network with its intersections; every ordered pair and set of 3 of 8 fractures of a fracture network in a square; every set of <=2 fractures in 5 polygons whose sides and lines share tags; boxes of dimension 1 to 3 and polygons with 3 to 6 corners x 5 placements (far from the origin, 1000 times larger) x 4 mesh settings x permutations of the tags, with every mesher; every set of <=3 of 6 planes, some sharing edges, embedded in a box, with both meshers; 2 or 3 faces side by side and 2 cubes with a shared face, each with one of 5 choices of vertices, edges and planes immersed in it, with both meshers; every side of a cube and each of 6 planes in it with one of 6 choices of vertices and edges on it, alone or beside another plane with pieces of its own; every set of <=3 of 3 to 11 vertices and edges immersed in a segment, a square (and its sides and edges) or a cube",
    "thorough": "every ordered set of <=3 fractures, line networks of <=3 edges, fracture networks of every ordered set of <=3 and set of 4; every case with every mesh setting",
}
PLACES = ("id", "rot", "small", "far", "huge")
# mesh size relative to the domain, refinements, points on a fracture
SETTINGS = [(1.0, 0, 2), (0.5, 0, None), (1.0, 1, 3), (0.4, 0, 4)]
NET = [
    ((1, 1, 0), (3, 3, 0)), ((1, 3, 0), (3, 1, 0)), ((1, 2, 0), (3, 2, 0)), ((2, 1, 0), (2, 3, 0)),
    ((3, 1, 0), (3, 3, 0)), ((1, 1, 0), (3, 2, 0)), ((2, 2, 0), (3, 3, 0)), ((1, 3, 0), (2, 3, 0)),
]
POLY = {
    "triangle": [(0, 0, 0), (4, 0, 0), (1, 3, 0)],
    "square": BOX,
    "trapezoid": [(0, 0, 0), (4, 0, 0), (3, 2, 0), (1, 2, 0)],
    "clockwise": [(0, 0, 0), (0, 4, 0), (4, 4, 0), (4, 0, 0)],
    "corner": [(0, 0, 0), (4, 0, 0), (4, 2, 0), (2, 2, 0), (2, 4, 0), (0, 4, 0)],
    "house": [(0, 0, 0), (4, 0, 0), (4, 2, 0), (2, 4, 0), (0, 2, 0)],
}
HEX = {
    "cube": [(x, y, z) for z in (0, 4) for x, y in ((0, 0), (4, 0), (4, 4), (0, 4))],
    "slanted": [(x + z // 4, y, z) for z in (0, 4) for x, y in ((0, 0), (4, 0), (4, 2), (0, 2))],
}
SIDES3 = [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]]
GEO3 = [[0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7], [0, 1, 2, 3], [4, 5, 6, 7]]


def spaces(tier):
    t = tier == "thorough"
    out = []
    for k in (1, 2, 3):
        every = itertools.permutations if k < 3 or t else itertools.combinations
        for n, c in enumerate(every(range(len(ALPHA)), k)):
            if any(overlap(ALPHA[i], ALPHA[j]) for i, j in itertools.combinations(c, 2)):
                continue
            c = c if t else c[n % k:] + c[:n % k]
            for s in range(4) if t and k < 3 else ((n + sum(c)) % 4,):
                out.append([PLACES[(n // 3) % 5], s, list(c)])
    yield "fractured boxes", out
    out = []
    for q, box in enumerate([BOX, *POLYGONS]):
        for k in (0, 1, 2):
            for n, c in enumerate(itertools.combinations(range(len(ALPHA)), k)):
                segs = [ALPHA[i] for i in c]
                if any(overlap(a, b) for a, b in itertools.combinations(segs, 2)) or any(overlap(a, b) for a in segs for b in sides_of(box)):
                    continue
                for s in (0, 1, 2) if t or k == 0 else (sum(c) % 3,):
                    if t or k < 2 or (n + q) % 5 == 0:
                        v = n + s + q
                        out.append([("skew", "rot", "small", "id", "large")[v % 5], s, list(c), v % (2 * len(box)), 3 + v // 2 % len(SHARED) if q == 0 or v % 2 else 0, q - 1 if q else None])
    yield "polygons and shared tags", out
    yield "line networks", [
        [e, s, list(c)]
        for k in (1, 2, 3)[: 3 if t else 2]
        for c in itertools.combinations(range(len(SEGS)), k)
        for e in PLACES
        for s in (range(4) if t else (sum(c) % 4,))
    ]
    out = []
    for k in (1, 2, 3, 4)[: 4 if t else 3]:
        every = itertools.permutations if k < (4 if t else 3) else itertools.combinations
        for n, c in enumerate(every(range(len(NET)), k)):
            if not any(overlap(NET[i], NET[j]) for i, j in itertools.combinations(c, 2)):
                out.append([PLACES[n % 5], n // 5 % 2, list(c)])
    yield "fracture networks", out
    yield "planes in boxes", [
        [how, PLACES[(sum(c) + s) % 5], s, list(c)]
        for how in ("domain", "mesher of domains")
        for k in (1, 2, 3)
        for c in itertools.combinations(range(len(PLANES)), k)
        for s in ((0, 1, 3) if t or k < 3 else (sum(c) % 2,))
    ]
    yield "boxes", [
        [how, dim, shape, e, s, p]
        for how in ("domain", "mesher of domains", "geometry")
        for dim, shapes in ((1, ("line",)), (2, POLY), (3, HEX))
        for shape in shapes
        for i, e in enumerate(PLACES)
        for s in (0, 1, 2)
        for p in ((0, 1, 2) if t or dim < 3 else ((i + s) % 3,))
    ]
    yield "several faces", [
        [how, kind, PLACES[(n + s) % 5], s, list(c)]
        for how in ("domain", "mesher of domains")
        for kind in FACES
        for n, c in enumerate(itertools.product(range(len(INSIDE)), repeat=len(FACES[kind])))
        for s in ((0, 1, 2) if t or len(c) < 3 else (sum(c) % 3,))
        if t or len(c) < 3 or n % 3 == 0
    ]
    yield "several solids", [
        [how, PLACES[(n + s) % 5], s, list(c)]
        for how in ("domain", "mesher of domains")
        for n, c in enumerate(itertools.product(range(len(WITHIN)), repeat=2))
        for s in ((0, 1) if t else (n % 2,))
    ] + [["domain", e, 0, list(c), 1] for e in PLACES for c in ((0, 0), (1, 2), (3, 0))]
    yield "pieces on faces of solids", [
        [how, PLACES[(n + s) % 5], s, list(c)]
        for how in ("domain", "mesher of domains")
        for n, c in enumerate((i, j, k) for i in range(12) for j in range(len(INSIDE) + 1) for k in range(-1, len(INSIDE), 1 if t else 2))
        for s in ((0, 1) if t else (n // 2 % 2,))
        if how == "domain" or c[1] < len(INSIDE)
    ]
    yield "points and edges", [
        [how, dim, PLACES[(sum(c) + s + dim) % 5], s, list(c)]
        for how in ("domain", "mesher of domains")
        for dim in (1, 2, 3)
        for k in (1, 2, 3)
        for c in itertools.combinations(range(len(FEATURES[dim])), k)
        for s in ((0, 1, 2) if t or k < 3 else (sum(c) % 2,))
        if how == "domain" or dim > 1 and max(c) < 6
    ]


# vertices and edges immersed in a box
FEATURES = {
    1: [[(1, 0, 0)], [(2.5, 0, 0)], [(3, 0, 0)]],
    2: [
        [(1, 1, 0)], [(2, 3, 0)], [(3, 2, 0)], [(1, 1, 0), (2, 1, 0)], [(1, 2, 0), (2, 3, 0)], [(3, 1, 0), (3, 2, 0)],
        # vertices on sides, in any order, and on an immersed edge
        [0, (1, 0, 0)], [2, (3, 4, 0), (1, 4, 0)], [3, (0, 1, 0)], [1, (4, 1, 0), (4, 3, 0)], [(3, 3, 0), (1, 3, 0), (2, 3, 0)],
    ],
    3: [[(1, 1, 1)], [(2, 3, 1)], [(3, 2, 3)], [(1, 1, 1), (2, 1, 2)], [(1, 2, 3), (2, 3, 1)], [(3, 1, 2), (3, 2, 3)]],
}
# faces side by side: squares of side 4, given by their lower left corners; a triangle on top
FACES = {
    "row": [[(0, 0), (4, 0), (4, 4), (0, 4)], [(4, 0), (8, 0), (8, 4), (4, 4)]],
    "house": [[(0, 0), (4, 0), (4, 4), (0, 4)], [(0, 4), (2, 8), (4, 4)]],
    "corner": [[(0, 0), (4, 0), (4, 4), (0, 4)], [(4, 4), (4, 0), (8, 0), (8, 4)], [(4, 4), (8, 4), (8, 8), (4, 8)]],
}
# what is immersed in a face, relative to its first corner and its first and last side
INSIDE = [
    [],
    [[(0.375, 0.25)]],
    [[(0.25, 0.25), (0.375, 0.375)]],
    [[(0.25, 0.25)], [(0.5, 0.125), (0.125, 0.5)]],
    [[(0.25, 0.125), (0.375, 0.375)], [(0.375, 0.375), (0.125, 0.5)]],
]
# what is immersed in a cube, relative to its lowest corner
WITHIN = [[], [(1, 1, 1)], [(1, 2, 1), (2, 1, 3)], [(1, 1, 2), (3, 1, 2), (3, 3, 2), (1, 3, 2)], [(1, 1, 1), (3, 2, 2), (1, 3, 3)]]
PLANES = [
    [(1, 1, 2), (3, 1, 2), (3, 3, 2), (1, 3, 2)],
    [(3, 1, 2), (3, 3, 2), (3, 3, 3), (3, 1, 3)],
    [(1, 1, 1), (1, 3, 1), (2, 3, 1), (2, 1, 1)],
    [(2, 1, 1), (2, 3, 1), (3, 3, 2), (3, 1, 2)],
    [(1, 2, 3.5), (2, 1, 3.5), (2, 3, 3.5)],
    [(1, 1, 2), (1, 1, 3), (1, 3, 3), (1, 3, 2)],
]


class Gmsh:
    """gmsh keeps one session per process; close what a failed case left open."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if gmsh.isInitialized():
            gmsh.finalize()


def run_case(space, case, rep):
    with Gmsh():
        {"fractured boxes": fractured, "polygons and shared tags": fractured, "line networks": network, "fracture networks": fracture_network, "boxes": boxes, "planes in boxes": planes, "several faces": several_faces, "several solids": several_solids, "pieces on faces of solids": faces_of_solids, "points and edges": immersed}[space](case, rep)


def load(dim, rep):
    m = Mesh(dimension=dim, file_name="m02.msh")
    m.build_conformal_mesh()
    rep.step(2)
    rep.outcome(f"dim {dim}: {len(m.cells) // 50 * 50}+ cells")
    return m


def measure(P):
    P = np.asarray(P, float)
    if len(P) == 1:
        return 1.0
    v = P[1:] - P[0]
    return float(np.sqrt(max(np.linalg.det(v @ v.T), 0.0))) / (1, 1, 2, 6)[len(v)]


def in_hull(x, P, tol):
    """x in the convex hull of P: a segment or a convex planar polygon in order."""
    P = np.asarray(P, float)
    if len(P) == 1:
        return np.linalg.norm(x - P[0]) < tol
    if len(P) == 2:
        d = P[1] - P[0]
        s = (x - P[0]) @ d / (d @ d)
        return -tol < s < 1 + tol and np.linalg.norm(x - P[0] - s * d) < tol
    n = np.cross(P[1] - P[0], P[2] - P[0])
    n /= np.linalg.norm(n)
    if abs((x - P[0]) @ n) > tol:
        return False
    return all(np.cross(q - p, x - p) @ n > -tol for p, q in zip(P, np.roll(P, -1, axis=0)))


def pieces_ok(m, rep, dim, pieces, scale, ctx, counts=None, more_tags=()):
    """pieces: (tag, points).  The cells of a tag tile exactly the pieces of that tag."""
    tol = 1e-7 * scale
    tags = {t for t, _ in pieces} | set(more_tags)
    cells = {}
    for c in m.cells:
        if c.dimension == dim and c.material_id is not None:
            cells.setdefault(int(c.material_id), []).append(m.points[c.node_tags])
    rep.expect(set(cells) == tags, f"tags of dimension {dim}", lambda: f"{sorted(cells)} want {sorted(tags)} {ctx()}")
    for tag in tags - set(more_tags):
        rest = list(cells.get(tag, []))
        for _, P in [p for p in pieces if p[0] == tag]:
            mine = [c for c in rest if all(in_hull(x, P, tol) for x in c)]
            rest = [c for c in rest if not any(c is d for d in mine)]
            want = measure(P) if len(P) < 3 else sum(measure([P[0], P[i], P[i + 1]]) for i in range(1, len(P) - 1))
            got = sum(measure(c) for c in mine)
            rep.expect(abs(got - want) < 1e-6 * want and all(measure(c) > 0 for c in mine), f"a piece of dimension {dim} is covered", lambda: f"tag {tag} {np.round(P, 4).tolist()} covered {got} of {want} {ctx()}")
            if counts:
                rep.expect(len(mine) == counts, "number of cells on a fracture", lambda: f"{len(mine)} want {counts} {ctx()}")
        rep.expect(not rest, f"a cell of dimension {dim} off the pieces of its tag", lambda: f"tag {tag} {np.round(rest[:2], 4).tolist()} {ctx()}")


def fills(m, rep, dim, tag, volume, boundary, scale, ctx):
    """The cells of the mesh tile the domain: total size, and facets used once exactly on its boundary."""
    top = [c for c in m.cells if c.dimension == dim]
    rep.expect(all(c.material_id == tag for c in top), "tag of the cells", lambda: f"{[c.material_id for c in top][:5]} {ctx()}")
    sizes = [measure(m.points[c.node_tags]) for c in top]
    rep.expect(abs(sum(sizes) - volume) < 1e-6 * volume and min(sizes) > 0, "the mesh fills the domain", lambda: f"{sum(sizes)} want {volume} {ctx()}")
    used = {}
    for c in top:
        for f in itertools.combinations(sorted(map(int, c.node_tags)), dim):
            used[f] = used.get(f, 0) + 1
    rep.expect(max(used.values()) <= 2, "facets are shared by two cells at most", ctx)
    tol = 1e-7 * scale
    for f, n in used.items():
        if n == 1:
            ok = any(all(in_hull(m.points[v], P, tol) for v in f) for P in boundary)
            if not rep.expect(ok, "open facets lie on the boundary", lambda: f"{m.points[list(f)].tolist()} {ctx()}"):
                return
    total = sum(measure(m.points[list(f)]) for f, n in used.items() if n == 1)
    want = sum(measure(P) if len(P) < 3 else sum(measure([P[0], P[i], P[i + 1]]) for i in range(1, len(P) - 1)) for P in boundary)
    rep.expect(abs(total - want) < 1e-6 * want, "the boundary of the mesh is that of the domain", lambda: f"{total} want {want} {ctx()}")


def points_ok(m, rep, points, scale, ctx, loose=False):
    """points: (point, allowed tags); one node there, with one of the tags."""
    tol = 1e-7 * scale
    r = np.round(m.points / (scale * 1e-6))
    rep.expect(len(np.unique(r, axis=0)) == len(r), "nodes are distinct", ctx)
    seen = set()
    for p, tags in points:
        at = [c for c in m.cells if c.dimension == 0 and np.linalg.norm(m.points[c.node_tags[0]] - p) < tol]
        seen |= {c.id for c in at}
        ok = len(at) == 1 and (None if at[0].material_id is None else int(at[0].material_id)) in tags
        rep.expect(ok, "node and tag of a vertex", lambda: f"{np.round(p, 4)} {[c.material_id for c in at]} want {tags} {ctx()}")
    rest = [c for c in m.cells if c.dimension == 0 and c.material_id is not None and c.id not in seen]
    rep.expect(not rest, "tagged nodes away from the vertices", lambda: f"{[(c.material_id, m.points[c.node_tags[0]].tolist()) for c in rest]} {ctx()}")


def fractured(case, rep):
    e, s, ids, corner, tags, shape = (case + [0, 0, None])[:6]
    rel, nref, npts = SETTINGS[s]
    scale = 4 * SCALE.get(e, 1.0)
    D, segs, ring, side, inner, point = t03.build([e, ids, corner, tags, shape])
    h = DiscreteDomain(dimension=2)
    h.domain = D
    line = side[100]
    alone = [t for t in side if side[t] == line] == [100]
    args = {"lc": rel * scale, "n_refinements": nref}
    if npts and alone:
        args["curves_refinement"] = ([line], {"n_points": npts, "meshType": "Bump", "coef": 1.0})
    h.generate_mesh(args)
    h.write_mesh("m02.msh")
    m = load(2, rep)
    rep.state(case)
    ctx = lambda: f"fractures {segs} setting {SETTINGS[s]} {e} {ring}"
    exp = expected(segs, ring)
    at = lambda p: np.array(t03.place(e, p))
    lines = [(side[t], [at(p), at(q)]) for t, p, q in exp]
    outer = [P for (t, _, _), (_, P) in zip(exp, lines) if t < 100]
    corners = [at(p) for p in ring]
    area = np.linalg.norm(sum(np.cross(corners[i] - corners[0], corners[i + 1] - corners[0]) for i in range(1, len(corners) - 1))) / 2
    fills(m, rep, 2, PT["area"], area, outer, scale, ctx)
    here = {t for t, _ in lines} - {None}
    pieces_ok(m, rep, 1, [p for p in lines if p[0] is not None], scale, ctx)
    if alone:
        pieces_ok(m, rep, 1, [p for p in lines if p[0] == line], scale, ctx, npts and (npts - 1) * 2**nref, here - {line})
    pts = []
    for p in {p for _, a, b in exp for p in (a, b)}:
        b = onbd(p, ring)
        n = sum(1 for x in segs if on_segment(p, *x))
        pts.append((at(p), {side[2 + b[0]]} if len(b) == 1 else {None, side[2 + b[0]], side[2 + b[1]]} if b else {point} if n > 1 else {inner}))
    points_ok(m, rep, pts, scale, ctx)


def network(case, rep):
    e, s, ids = case
    rel, nref, _ = SETTINGS[s]
    segs = [SEGS[i] for i in ids]
    scale = 4 * SCALE.get(e, 1.0)
    cut = sorted({tuple(map(F, p)) for x, y in itertools.combinations(segs, 2) if not overlap(x, y) for p in segment_segment(*x, *y)})
    if any(overlap(x, y) for x, y in itertools.combinations(segs, 2)):
        return
    vs, es = [], []
    for i, x in enumerate(segs):
        ends = []
        for p in x:
            v = Vertex(len(vs), np.array(emb(e, p)))
            v.physical_tag = 2
            vs.append(v)
            ends.append(v)
        d = Edge(i, np.array(ends))
        d.physical_tag = 10 + i
        es.append(d)
    dom = create_domain(1, np.array(vs + es))
    if cut:
        tools = []
        for p in cut:
            v = Vertex(len(vs) + len(tools), np.array(emb(e, p)))
            v.physical_tag = 50
            tools.append(v)
        c1 = create_domain(1, np.array(tools))
        tag = max(dom.max_tag(), c1.max_tag()) + 1
        dom = domain_union(domain_difference(dom, c1, tag), c1)
    h = DiscreteDomain(dimension=1)
    h.domain = dom
    h.generate_mesh({"lc": rel * scale, "n_refinements": nref})
    h.write_mesh("m02.msh")
    m = load(1, rep)
    rep.state(case)
    ctx = lambda: f"edges {segs} setting {SETTINGS[s]} {e}"
    at = lambda p: np.array(emb(e, p))
    lines, ends = [], set()
    for i, (a, b) in enumerate(segs):
        d = sub(b, a)
        on = sorted({dot(sub(p, a), d) for p in cut if on_segment(p, a, b)} | {0, dot(d, d)})
        q = [add(a, mul(F(x) / dot(d, d), d)) for x in on]
        ends |= {tuple(map(F, x)) for x in q}
        lines += [(10 + i, [at(x), at(y)]) for x, y in zip(q, q[1:])]
    pieces_ok(m, rep, 1, lines, scale, ctx)
    points_ok(m, rep, [(at(p), {50} if p in cut else {2}) for p in ends], scale, ctx)
    # the pieces are joined exactly at the cut points
    deg = {}
    for c in m.cells:
        if c.dimension == 1:
            for v in c.node_tags:
                deg[int(v)] = deg.get(int(v), 0) + 1
    for p in ends:
        n = [i for i, x in enumerate(m.points) if np.linalg.norm(x - at(p)) < 1e-7 * scale]
        want = sum(1 for _, P in lines for x in P if np.linalg.norm(x - at(p)) < 1e-7 * scale)
        rep.expect(len(n) == 1 and deg.get(n[0]) == want, "pieces meet at one node", lambda: f"{p} {[(i, deg.get(i)) for i in n]} want {want} {ctx()}")


def fracture_network(case, rep):
    e, s, ids = case
    segs = [NET[i] for i in ids]
    scale = 4 * SCALE.get(e, 1.0)
    g = GeometryBuilder(dimension=2)
    g.build_box_2D(np.array([emb(e, p) for p in BOX]))
    net = FractureNetwork(dimension=2, physical_tag_shift=10)
    net.intersect_1D_fractures([np.array([emb(e, p) for p in x]) for x in segs])
    net.build_grahp(all_fixed_d_cells_q=True)
    c = ConformalMesher(dimension=2)
    c.set_geometry_builder(g)
    c.set_fracture_network(net)
    c.set_points()
    c.generate(scale * (1.0, 0.3)[s])
    c.write_mesh("m02.msh")
    m = load(2, rep)
    rep.state(case)
    ctx = lambda: f"fractures {segs} {e} {s}"
    at = lambda p: np.array(emb(e, p))
    cuts = {}
    for (i, x), (j, y) in itertools.combinations(enumerate(segs), 2):
        for p in segment_segment(*x, *y):
            cuts.setdefault(tuple(map(F, p)), set()).add(net.pair_intergers(10 + i, 10 + j))
    lines = []
    pts = dict(cuts)
    for i, (a, b) in enumerate(segs):
        d = sub(b, a)
        on = sorted({dot(sub(p, a), d) for p in cuts if on_segment(p, a, b)} | {0, dot(d, d)})
        q = [tuple(map(F, add(a, mul(F(x) / dot(d, d), d)))) for x in on]
        lines += [(10 + i, [at(x), at(y)]) for x, y in zip(q, q[1:])]
        for p in q:
            if p not in cuts or p in (tuple(map(F, a)), tuple(map(F, b))):
                pts.setdefault(p, set()).add(10 + i)
    sides = [(2 + i, [at(BOX[i]), at(BOX[(i + 1) % 4])]) for i in range(4)]
    fills(m, rep, 2, 1, scale**2, [P for _, P in sides], scale, ctx)
    pieces_ok(m, rep, 1, lines + sides, scale, ctx)
    points_ok(m, rep, [(at(p), t) for p, t in pts.items()], scale, ctx)


def boxes(case, rep):
    how, dim, shape, e, s, p = case
    rel, nref, _ = SETTINGS[s]
    scale = 4 * SCALE.get(e, 1.0)
    corners = {1: [(0, 0, 0), (4, 0, 0)], 2: POLY.get(shape), 3: HEX.get(shape)}[dim]
    X = np.array([emb(e, q) for q in corners])
    n = {1: 2, 2: len(X), 3: 6}[dim]
    name = ("line", "area", "solid")[dim - 1]
    tags = None
    if p or dim == 2 and n > 4:
        order = list(range(2, 2 + n))
        order = order[p:] + order[:p] if p < 2 else order[::-1]
        tags = {name: 9, **{f"bc_{i}": t for i, t in enumerate(order)}}
        if how == "geometry" and dim == 3:
            tags["volume"] = 9
        if how == "domain" and p == 2:
            tags["bc_1"] = tags["bc_0"]
    want = tags or {name: 1, **{f"bc_{i}": 2 + i for i in range(n)}}
    if how == "geometry":
        g = GeometryBuilder(dimension=dim)
        if tags:
            g.set_physical_tags(tags)
        (g.build_box_1D, g.build_box_2D, g.build_box)[dim - 1](X)
        c = ConformalMesher(dimension=dim)
        c.set_geometry_builder(g)
        c.set_points()
        c.generate(rel * scale, nref)
    else:
        D = (build_box_1D, build_box_2D, build_box_3D)[dim - 1](X, tags)
        if how == "domain":
            c = DiscreteDomain(dimension=dim)
            c.domain = D
            c.generate_mesh({"lc": rel * scale, "n_refinements": nref})
        else:
            c = ConformalMesher(dimension=dim)
            c.domain = D
            c.generate_from_domain(rel * scale, nref)
    c.write_mesh("m02.msh")
    m = load(dim, rep)
    rep.state(case)
    ctx = lambda: f"{case} {want}"
    if dim == 1:
        sides = [[X[0]], [X[1]]]
        volume = np.linalg.norm(X[1] - X[0])
    elif dim == 2:
        sides = [[X[i], X[(i + 1) % n]] for i in range(n)]
        volume = np.linalg.norm(sum(np.cross(X[i] - X[0], X[(i + 1) % n] - X[0]) for i in range(n))) / 2
    else:
        sides = [X[i] for i in (GEO3 if how == "geometry" else SIDES3)]
        volume = abs(np.linalg.det(np.array([X[1] - X[0], X[3] - X[0], X[4] - X[0]])))
    fills(m, rep, dim, want[name], volume, sides, scale, ctx)
    pieces_ok(m, rep, dim - 1, [(want[f"bc_{i}"], sides[i]) for i in range(n)], scale, ctx)
    r = np.round(m.points / (scale * 1e-6))
    rep.expect(len(np.unique(r, axis=0)) == len(r), "nodes are distinct", ctx)
    for x in X:
        rep.expect(np.min(np.linalg.norm(m.points - x, axis=1)) < 1e-7 * scale, "corners are nodes", ctx)


def planes(case, rep):
    how, e, s, ids = case
    rel = SETTINGS[s][0]
    scale = 4 * SCALE.get(e, 1.0)
    D = build_box_3D(np.array([emb(e, q) for q in HEX["cube"]]))
    tag = D.max_tag() + 1
    vs, es, faces = {}, {}, []
    for i in ids:
        P = PLANES[i]
        for p in P:
            if p not in vs:
                vs[p] = Vertex(tag, np.array(emb(e, p)))
                tag += 1
        mine = []
        for p, q in zip(P, P[1:] + P[:1]):
            k = tuple(sorted((p, q)))
            if k not in es:
                es[k] = Edge(tag, np.array([vs[p], vs[q]]))
                tag += 1
            mine.append(es[k])
        w = Wire(tag, np.array(mine), np.array([vs[P[0]]]))
        f = Face(tag + 1, np.array([w]))
        f.physical_tag = 50 + i
        tag += 2
        faces.append(f)
        D.append_shapes(np.array([w]))
    for x in (list(vs.values()), list(es.values()), faces):
        D.append_shapes(np.array(x))
    D.shapes[3][0].immersed_shapes = np.array(faces)
    if how == "domain":
        c = DiscreteDomain(dimension=3)
        c.domain = D
        c.generate_mesh({"lc": rel * scale})
    else:
        c = ConformalMesher(dimension=3)
        c.domain = D
        c.generate_from_domain(rel * scale)
    c.write_mesh("m02.msh")
    m = load(3, rep)
    rep.state(case)
    ctx = lambda: f"{case}"
    at = lambda P: [np.array(emb(e, p)) for p in P]
    sides = [at([HEX["cube"][i] for i in x]) for x in SIDES3]
    fills(m, rep, 3, 1, scale**3, sides, scale, ctx)
    pieces_ok(m, rep, 2, [(2 + i, x) for i, x in enumerate(sides)] + [(50 + i, at(PLANES[i])) for i in ids], scale, ctx)


def immersed(case, rep):
    how, dim, e, s, ids = case
    rel, nref, _ = SETTINGS[s]
    scale = 4 * SCALE.get(e, 1.0)
    corners = {1: [(0, 0, 0), (4, 0, 0)], 2: POLY["square"], 3: HEX["cube"]}[dim]
    X = np.array([emb(e, q) for q in corners])
    D = (build_box_1D, build_box_2D, build_box_3D)[dim - 1](X)
    tag = D.max_tag() + 1
    vs, inside, edges = {}, [], []
    for i in ids:
        F_ = FEATURES[dim][i]
        on = F_[0] if isinstance(F_[0], int) else None
        for p in F_[on is not None :]:
            if p not in vs:
                vs[p] = Vertex(tag, np.array(emb(e, p)))
                # the mesher of domains takes one vertex per tag
                vs[p].physical_tag = 30 + len(vs) * (how != "domain")
                tag += 1
        if on is not None:
            D.shapes[1][on].immersed_shapes = np.array([vs[p] for p in F_[1:]])
        elif len(F_) == 1:
            inside.append(vs[FEATURES[dim][i][0]])
            inside[-1].physical_tag = 40 + i * (how != "domain")
        else:
            d = Edge(tag, np.array([vs[p] for p in F_[:2]]))
            if F_[2:]:
                d.immersed_shapes = np.array([vs[p] for p in F_[2:]])
            d.physical_tag = 50 + i
            tag += 1
            inside.append(d)
            edges.append(d)
    D.append_shapes(np.array(list(vs.values())))
    if edges:
        D.append_shapes(np.array(edges))
    if inside:
        D.shapes[dim][0].immersed_shapes = np.array(inside)
    if how == "domain":
        c = DiscreteDomain(dimension=dim)
        c.domain = D
        c.generate_mesh({"lc": rel * scale, "n_refinements": nref})
    else:
        c = ConformalMesher(dimension=dim)
        c.domain = D
        c.generate_from_domain(rel * scale, nref)
    c.write_mesh("m02.msh")
    m = load(dim, rep)
    rep.state(case)
    ctx = lambda: f"{case}"
    at = lambda P: [np.array(emb(e, p)) for p in P]
    for p, v in vs.items():
        n = [i for i, x in enumerate(m.points) if np.linalg.norm(x - at([p])[0]) < 1e-7 * scale]
        node = [x for x in m.cells if x.dimension == 0 and list(x.node_tags) == n]
        rep.expect(len(n) == 1 and len(node) == 1 and node[0].material_id == v.physical_tag, "an immersed vertex is a node", lambda: f"{p} {n} {ctx()}")
        rep.expect(any(n[0] in x.node_tags for x in m.cells if x.dimension == dim) if n else False, "an immersed vertex is a node of cells", lambda: f"{p} {n} {ctx()}")
    if dim == 1:
        fills(m, rep, 1, 1, scale, [[x] for x in X], scale, ctx)
        return
    if dim == 2:
        sides = [(2 + i, [X[i], X[(i + 1) % 4]]) for i in range(4)]
    else:
        sides = [(2 + i, [X[j] for j in x]) for i, x in enumerate(SIDES3)]
    fills(m, rep, dim, 1, scale**dim, [P for _, P in sides], scale, ctx)
    lines = [(50 + i, at(FEATURES[dim][i][:2])) for i in ids if len(FEATURES[dim][i]) > 1 and not isinstance(FEATURES[dim][i][0], int)]
    if dim == 2:
        pieces_ok(m, rep, 1, sides + lines, scale, ctx)
    else:
        pieces_ok(m, rep, 2, sides, scale, ctx)
        if how == "domain":
            pieces_ok(m, rep, 1, lines, scale, ctx)
        for _, P in lines:
            # the mesher of domains gives no tag to edges in a solid
            mine = [m.points[x.node_tags] for x in m.cells if x.dimension == 1]
            mine = [x for x in mine if all(in_hull(y, P, 1e-7 * scale) for y in x)]
            rep.expect(abs(sum(map(measure, mine)) - measure(P)) < 1e-6 * scale, "an immersed edge is covered by edges of cells", lambda: f"{len(mine)} {ctx()}")


class Parts:
    """Vertices and edges of a domain made by hand, shared by the shapes that meet there."""

    def __init__(self, e):
        self.e, self.tag, self.vs, self.es, self.shapes = e, 0, {}, {}, {0: [], 1: [], 2: [], 3: []}

    def add(self, dim, shape):
        self.tag += 1
        self.shapes[dim].append(shape)
        return shape

    def vertex(self, p):
        if p not in self.vs:
            self.vs[p] = self.add(0, Vertex(self.tag, np.array(emb(self.e, p))))
        return self.vs[p]

    def edge(self, p, q):
        k = frozenset((p, q))
        if k not in self.es:
            self.es[k] = self.add(1, Edge(self.tag, np.array([self.vertex(p), self.vertex(q)])))
        return self.es[k]

    def face(self, P):
        w = Wire(self.tag, np.array([self.edge(p, q) for p, q in zip(P, P[1:] + P[:1])]), np.array([self.vertex(P[0])]))
        self.add(1, w)
        return self.add(2, Face(self.tag, np.array([w])))

    def domain(self, dim):
        D = Domain(dimension=dim)
        for d in range(dim + 1):
            D.append_shapes(np.array(self.shapes[d]))
        return D


def meshed(how, D, dim, h, nref, rep):
    if how == "domain":
        c = DiscreteDomain(dimension=dim)
        c.domain = D
        c.generate_mesh({"lc": h, "n_refinements": nref})
    else:
        c = ConformalMesher(dimension=dim)
        c.domain = D
        c.generate_from_domain(h, nref)
    c.write_mesh("m02.msh")
    return load(dim, rep)


def followed(m, rep, dim, P, tag, scale, ctx):
    """An immersed vertex, edge or plane is made of nodes, edges or faces of the cells."""
    mine = [c for c in m.cells if c.dimension == min(len(P), 3) - 1 and all(in_hull(x, P, 1e-7 * scale) for x in m.points[c.node_tags])]
    size = 1.0 if len(P) == 1 else measure(P) if len(P) == 2 else sum(measure([P[0], P[i], P[i + 1]]) for i in range(1, len(P) - 1))
    got = sum(measure(m.points[c.node_tags]) for c in mine)
    rep.expect(abs(got - size) < 1e-6 * size and all(tag is None or c.material_id == tag for c in mine), "what is immersed is covered", lambda: f"{np.round(P, 3).tolist()} {got} of {size} tags {[c.material_id for c in mine]} want {tag} {ctx()}")
    top = [set(map(int, c.node_tags)) for c in m.cells if c.dimension == dim]
    ok = all(sum(set(map(int, c.node_tags)) <= t for t in top) >= (1, 2)[c.dimension == dim - 1] for c in mine)
    rep.expect(ok, "what is immersed is part of the cells", lambda: f"{np.round(P, 3).tolist()} {ctx()}")


def several_faces(case, rep):
    how, kind, e, s, ids = case
    rel, nref, _ = SETTINGS[s]
    scale = 4 * SCALE.get(e, 1.0)
    D, inner = Parts(e), []
    up = lambda p: (*p, 0)
    for i, (P, k) in enumerate(zip(FACES[kind], ids)):
        f = D.face([up(p) for p in P])
        f.physical_tag = 1 + i
        o, a, b = (np.array(P[j], float) for j in (0, 1, -1))
        mine = []
        for x in INSIDE[k]:
            Q = [up(tuple((o + u * (a - o) + v * (b - o)).tolist())) for u, v in x]
            mine.append(D.vertex(Q[0]) if len(Q) == 1 else D.edge(*Q))
            mine[-1].physical_tag = 50 + len(inner)
            inner.append((i, Q, 50 + len(inner)))
        f.immersed_shapes = np.array(mine)
    sides = {}
    for P in FACES[kind]:
        for p, q in zip(P, P[1:] + P[:1]):
            sides[frozenset((p, q))] = sides.get(frozenset((p, q)), 0) + 1
    outer = []
    for n, (k, times) in enumerate(sorted(sides.items(), key=lambda x: sorted(x[0]))):
        D.edge(*map(up, k)).physical_tag = 10 + n
        outer.append((10 + n, tuple(map(up, k)), times))
    m = meshed(how, D.domain(2), 2, rel * scale, nref, rep)
    rep.state(case)
    ctx = lambda: f"{case}"
    at = lambda P: [np.array(emb(e, p)) for p in P]
    faces_ok(m, rep, 2, [(1 + i, at([up(p) for p in P])) for i, P in enumerate(FACES[kind])], [at(P) for _, P, n in outer if n == 1], scale, ctx)
    pieces_ok(m, rep, 1, [(t, at(P)) for t, P, _ in outer] + [(t, at(P)) for _, P, t in inner if len(P) == 2], scale, ctx)
    for i, P, t in inner:
        followed(m, rep, 2, at(P), t, scale, ctx)
    r = np.round(m.points / (scale * 1e-6))
    rep.expect(len(np.unique(r, axis=0)) == len(r), "nodes are distinct", ctx)


def faces_ok(m, rep, dim, pieces, boundary, scale, ctx):
    """The cells of each tag tile the piece of that tag, and together they form one mesh."""
    pieces_ok(m, rep, dim, pieces, scale, ctx)
    used = {}
    for c in m.cells:
        if c.dimension == dim:
            for f in itertools.combinations(sorted(map(int, c.node_tags)), dim):
                used[f] = used.get(f, 0) + 1
    rep.expect(max(used.values()) <= 2, "facets are shared by two cells at most", ctx)
    once = [f for f, n in used.items() if n == 1]
    ok = all(any(all(in_hull(m.points[v], P, 1e-7 * scale) for v in f) for P in boundary) for f in once)
    rep.expect(ok, "open facets lie on the boundary", ctx)


def several_solids(case, rep):
    how, e, s, ids = case[:4]
    one_tag = len(case) > 4  # the solids share a tag
    rel, nref, _ = SETTINGS[s]
    nref = 0
    scale = 4 * SCALE.get(e, 1.0)
    D, inner, made, planes = Parts(e), [], {}, []
    cubes = [[(x + o, y, z) for x, y, z in HEX["cube"]] for o in (0, 4)]
    solids = []
    for i, (P, k) in enumerate(zip(cubes, ids)):
        mine = []
        for side in SIDES3:
            Q = [P[j] for j in side]
            if frozenset(Q) not in made:
                made[frozenset(Q)] = D.face(Q), Q
                made[frozenset(Q)][0].physical_tag = 10 + len(made)
            mine.append(made[frozenset(Q)][0])
        Q = [(x + 4 * i, y, z) for x, y, z in WITHIN[k]]
        inside = []
        if Q:
            inside = [D.vertex(Q[0]) if len(Q) == 1 else D.edge(*Q) if len(Q) == 2 else D.face(Q)]
            inside[0].physical_tag = 50 + i
            inner.append((i, Q, 50 + i))
        solids.append((mine, inside))
    for i, (mine, inside) in enumerate(solids):
        shell = D.add(2, Shell(D.tag, np.array(mine), np.array([f.boundary_shapes[0] for f in mine])))
        v = D.add(3, Solid(D.tag, np.array([shell])))
        v.physical_tag = 1 if one_tag else 1 + i
        v.immersed_shapes = np.array(inside)
    m = meshed(how, D.domain(3), 3, rel * scale, nref, rep)
    rep.state(case)
    ctx = lambda: f"{case}"
    at = lambda P: [np.array(emb(e, p)) for p in P]
    for i, P in enumerate(cubes):
        cells = [m.points[c.node_tags] for c in m.cells if c.dimension == 3 and c.material_id == (1 if one_tag else 1 + i)]
        if one_tag:
            cells = [x for x in cells if np.linalg.solve(np.array([np.array(emb(e, P[j])) - np.array(emb(e, P[0])) for j in (1, 3, 4)]).T, x.mean(axis=0) - emb(e, P[0]))[0] * (1, -1)[i] < (1, 0)[i]]
        lo, hi = np.array(P[0]), np.array(P[6])
        A = np.array([np.array(emb(e, P[j])) - np.array(emb(e, P[0])) for j in (1, 3, 4)]).T
        ok = all(np.all((y := np.linalg.solve(A, (x - emb(e, P[0])).T)) > -1e-7) and np.all(y < 1 + 1e-7) for x in cells)
        rep.expect(ok and abs(sum(map(measure, cells)) - scale**3) < 1e-6 * scale**3, "the cells of a tag tile its solid", lambda: f"{i} {sum(map(measure, cells))} {ctx()}")
    used = {}
    for c in m.cells:
        if c.dimension == 3:
            for f in itertools.combinations(sorted(map(int, c.node_tags)), 3):
                used[f] = used.get(f, 0) + 1
    rep.expect(max(used.values()) <= 2, "facets are shared by two cells at most", ctx)
    outer = [at(Q) for k, (f, Q) in made.items() if any(p[0] != 4 for p in Q)]
    ok = all(any(all(in_hull(m.points[v], P, 1e-7 * scale) for v in f) for P in outer) for f, n in used.items() if n == 1)
    rep.expect(ok, "open facets lie on the boundary", ctx)
    pieces_ok(m, rep, 2, [(f.physical_tag, at(Q)) for f, Q in made.values()] + [(t, at(P)) for _, P, t in inner if len(P) > 2], scale, ctx)
    for i, P, t in inner:
        followed(m, rep, 3, at(P), t if how == "domain" or len(P) != 2 else None, scale, ctx)


def faces_of_solids(case, rep):
    """A side of a cube, or a plane in it, that carries vertices and edges of its own, and another plane."""
    how, e, s, (i, j, k) = case
    h = SETTINGS[s][0]
    scale = 4 * SCALE.get(e, 1.0)
    D, inner, faces, planes = Parts(e), [], [], []
    for n, side in enumerate(SIDES3):
        Q = [HEX["cube"][x] for x in side]
        faces.append((D.face(Q), Q))
        faces[-1][0].physical_tag = 10 + n
    if i >= 6:
        planes.append((D.face(PLANES[i - 6]), PLANES[i - 6]))
        planes[-1][0].physical_tag = 50
    bearer, P = (faces + planes)[min(i, 6)]
    o, a, b = (np.array(P[x], float) for x in (0, 1, -1))
    if j == len(INSIDE):  # a vertex on an edge of the face
        v = D.vertex(tuple((0.375 * o + 0.625 * a).tolist()))
        v.physical_tag = 60
        D.edge(P[0], P[1]).immersed_shapes = np.array([v])
        inner.append(([tuple((0.375 * o + 0.625 * a).tolist())], 60))
    else:
        mine = []
        for x in INSIDE[j]:
            Q = [tuple((o + u * (a - o) + v * (b - o)).tolist()) for u, v in x]
            mine.append(D.vertex(Q[0]) if len(Q) == 1 else D.edge(*Q))
            mine[-1].physical_tag = 60 + len(inner)
            inner.append((Q, 60 + len(inner)))
        bearer.immersed_shapes = np.array(mine)
    if k >= 0:  # another plane, away from the others, that carries pieces as well
        Q = [(0.5, 0.5, 3.75), (1.5, 0.5, 3.75), (1.5, 0.5, 3.25), (0.5, 0.5, 3.25)]
        planes.append((D.face(Q), Q))
        planes[-1][0].physical_tag = 51
        o, a, b = (np.array(Q[x], float) for x in (0, 1, -1))
        mine = []
        for x in INSIDE[k]:
            R = [tuple((o + u * (a - o) + v * (b - o)).tolist()) for u, v in x]
            mine.append(D.vertex(R[0]) if len(R) == 1 else D.edge(*R))
            mine[-1].physical_tag = 70 + len(inner)
            inner.append((R, 70 + len(inner)))
        planes[-1][0].immersed_shapes = np.array(mine)
    shell = D.add(2, Shell(D.tag, np.array([f for f, _ in faces]), np.array([f.boundary_shapes[0] for f, _ in faces])))
    v = D.add(3, Solid(D.tag, np.array([shell])))
    v.physical_tag = 1
    v.immersed_shapes = np.array([f for f, _ in planes])
    m = meshed(how, D.domain(3), 3, h * scale, 0, rep)
    rep.state(case)
    ctx = lambda: f"{case}"
    at = lambda P: [np.array(emb(e, p)) for p in P]
    fills(m, rep, 3, 1, scale**3, [at(Q) for _, Q in faces], scale, ctx)
    pieces_ok(m, rep, 2, [(f.physical_tag, at(Q)) for f, Q in faces + planes], scale, ctx)
    for f, Q in planes:
        followed(m, rep, 3, at(Q), f.physical_tag, scale, ctx)
    for P, t in inner:
        # the mesher of domains gives no tag to edges of a solid
        followed(m, rep, 3, at(P), t if how == "domain" or len(P) != 2 else None, scale, ctx)
