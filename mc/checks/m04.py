"""M04: cutting the conformity of a 2D mesh along fracture lines."""
import itertools
from types import SimpleNamespace

import numpy as np

from geometry.fracture_network import FractureNetwork
from geometry.geometry_builder import GeometryBuilder
from mc.checks.m02 import NET, Gmsh
from mc.checks.t03 import ALPHA, BOX, FT, PT
from mc.exact import F, dot, on_segment, segment_segment, sub

from mc.meshes import read_mesh
from mesh.conformal_mesher import ConformalMesher
from mesh.discrete_domain import DiscreteDomain
from mesh.mesh import Mesh
from topology.domain_market import build_box_2D, create_md_box_2D
from topology.edge import Edge
from topology.vertex import Vertex
from mesh.mesh_operations import cut_conformity_along_c1_lines

ID = "M04"
LEVEL = "model_checking"
CHUNK = 2
BOUNDS = {
    "quick": "64-triangle structured mesh of the square; every ordered set of <=2 admissible lines (disjoint or crossing at an inner point) of an alphabet of 12 (6 inner ones for the network and embedded cuts) x three placements of the mesh x three element orders, for each of the three cut operations; and meshes generated for a box with fractures (every ordered set of <=2 and every set of 3 lines), for a fracture network and for embedded edges with crossings in pieces (ordered sets of <=2); the two cuts with an opening compared with the same cuts without",
    "thorough": "ordered sets of <=4 lines (one element order from 3 lines on); generated meshes for every ordered set of <=3 lines, three mesh sizes",
}
TAGS = {"line": 10, "internal_bc": 20, "point": 30, "line_clones": 50, "point_clones": 70}
N = 4
LINES = [
    ((1, 2), (3, 2)),
    ((0, 2), (4, 2)),
    ((0, 2), (3, 2)),
    ((2, 1), (2, 3)),
    ((2, 0), (2, 4)),
    ((2, 4), (2, 1)),
    ((1, 1), (1, 3)),
    ((3, 3), (3, 1)),
    ((1, 1), (3, 3)),
    ((3, 1), (1, 3)),
    ((0, 0), (4, 4)),
    ((1, 1), (3, 1)),
]
ROT = {
    # far from the origin
    "id": lambda x, y: (float(x) + 1e5, float(y) - 2e5, 0.0),
    "rot": lambda x, y: ((3 * x - 4 * y) / 5.0, (4 * x + 3 * y) / 5.0, 0.0),
    "slant": lambda x, y: (0.3 + 0.1 * (12 * x - 5 * y) / 13.0, -0.7 + 0.1 * (5 * x + 12 * y) / 13.0, 0.0),
}


def l3(s):
    return tuple(tuple(p) + (0,) for p in s)


def admissible(lines):
    """Pairwise disjoint, or crossing at an interior point of both."""
    for s, t in itertools.combinations(lines, 2):
        x = segment_segment(*l3(s), *l3(t))
        if len(x) == 2:
            return False
        if len(x) == 1 and any(tuple(map(int, p)) + (0,) == tuple(x[0]) for p in s + t):
            return False
    return True


INNER = [
    i for i, s in enumerate(LINES) if all(0 < x < N for p in s for x in p)
]


def spaces(tier):
    t = tier == "thorough"
    for name, pool, emb in (
        ("line cuts", range(len(LINES)), ("id", "rot", "slant")),
        ("network cuts", INNER, ("id", "rot", "slant")),
        ("embedded cuts", INNER, ("id", "rot", "slant")),
    ):
        out = []
        for k in (1, 2, 3, 4)[: 4 if t else 2]:
            for ids in itertools.permutations(pool, k):
                if not admissible([LINES[i] for i in ids]):
                    continue
                for e in emb:
                    for o in (0, 1, 2):
                        if k < 3 or o == 0:
                            out.append([e, o, list(ids)])
        yield name, out
    out = []
    for k in (1, 2, 3)[: 3 if t else 2]:
        for ids in itertools.permutations(range(len(LINES)), k):
            if any(segment_segment(*l3(LINES[i]), *l3(LINES[j])) for i, j in itertools.combinations(ids, 2)):
                continue
            for how in ("line", "network")[: 2 if set(ids) <= set(INNER) else 1]:
                out += [[how, e, o, list(ids)] for e in ("id", "rot", "slant") for o in ((0, 1, 2) if k == 1 or t else (0,))]
    yield "opened cuts", out
    out = []
    for how, pool in (("domain", ALPHA), ("network", NET), ("embedded", NET)):
        for k in (1, 2, 3)[: 3 if t or how == "domain" else 2]:
            every = itertools.permutations if k < 3 or t else itertools.combinations
            for n, ids in enumerate(every(range(len(pool)), k)):
                segs = [clipped(pool[i]) for i in ids]
                if not inside(segs):
                    continue
                for s in (0, 1, 2) if k == 1 or t else (sum(ids) % 2,):
                    out.append([how, tuple(ROT)[(n + s) % 3], s, list(ids)])
    yield "generated meshes", out


def base_mesh():
    """Squares [0,4]^2, each split in four triangles through its centre; doubled coordinates."""
    pts = {}
    for x in range(0, 2 * N + 1):
        for y in range(0, 2 * N + 1):
            if x % 2 == y % 2:
                pts[(x, y)] = len(pts)
    tris = []
    for x in range(0, 2 * N, 2):
        for y in range(0, 2 * N, 2):
            c = (x + 1, y + 1)
            q = [(x, y), (x + 2, y), (x + 2, y + 2), (x, y + 2)]
            for i in range(4):
                tris.append((pts[q[i]], pts[q[(i + 1) % 4]], pts[c]))
    return pts, tris


def setup(lines, e, o, per_fracture):
    """The mesh with the edges of the fractures tagged.

    per_fracture: fracture k and its end points carry the tag 10 + k (as the meshers
    write it); otherwise all edges carry one tag and end points another.
    """
    pts, tris = base_mesh()
    inv = {i: p for p, i in pts.items()}
    edges = {frozenset(p) for t in tris for p in itertools.combinations(t, 2)}
    on = {}
    for f in edges:
        a, b = [inv[i] for i in f]
        for k, s in enumerate(lines):
            s2 = tuple((2 * p[0], 2 * p[1], 0) for p in s)
            if on_segment(a + (0,), *s2) and on_segment(b + (0,), *s2):
                on[f] = k
    coords = [ROT[e](inv[i][0] / 2, inv[i][1] / 2) for i in range(len(inv))]
    if o:
        tris = [t[o:] + t[:o] for t in tris]
    cut = sorted(on, key=sorted)
    blocks = []
    ends, cross = {}, set()
    for k, s in enumerate(lines):
        for p in s:
            if 0 < p[0] < N and 0 < p[1] < N:
                ends[pts[(2 * p[0], 2 * p[1])]] = 10 + k if per_fracture else 20
    for s, t in itertools.combinations(lines, 2):
        for x in segment_segment(*l3(s), *l3(t)):
            cross.add(pts[(int(2 * x[0]), int(2 * x[1]))])
    cross = sorted(cross)
    blocks.append((0, [[i] for i in ends] + [[i] for i in cross], list(ends.values()) + [30] * len(cross)))
    f = [tuple(sorted(x)) if o != 2 else tuple(sorted(x))[::-1] for x in cut]
    blocks.append((1, f, [10 + on[x] if per_fracture else 10 for x in cut]))
    blocks.append((2, tris, [1] * len(tris)))
    mesh = read_mesh(2, np.array(coords), blocks)
    return mesh, pts, inv, tris, set(cut), ends, on


def run_case(space, case, rep):
    if space == "generated meshes":
        with Gmsh():
            return generated(case, rep)
    if space == "opened cuts":
        return opened(case, rep)
    e, o, ids = case
    lines = [LINES[i] for i in ids]
    mesh, pts, inv, tris, cut, ends, on = setup(lines, e, o, space != "line cuts")
    ncells = len(mesh.cells)
    xlines = np.array([[ROT[e](*p) for p in s] for s in lines])
    org_edges = {}
    for c in mesh.cells:
        if c.dimension == 1 and c.material_id is not None:
            org_edges[int(c.id)] = frozenset(int(v) for v in c.node_tags)
    rep.step(len(lines))
    rep.state(case)
    if space == "line cuts":
        interfaces = cut_conformity_along_c1_lines(xlines, TAGS, mesh)
        pairs = {}
        for itf in interfaces:
            for x, p, q in zip(*itf["c1"]):
                pairs[int(x.id)] = (int(p.id), int(q.id))
        tag = lambda k: (50, 50)
    elif space == "network cuts":
        net = FractureNetwork(dimension=2, physical_tag_shift=10)
        net.intersect_1D_fractures(list(xlines))
        net.build_grahp(all_fixed_d_cells_q=True)
        mesh.conformal_mesher = SimpleNamespace(fracture_network=net)
        pairs = mesh.cut_conformity_on_fractures_mds_ec()
        tag = lambda k: (10 * (10 + k) + 1, 10 * (10 + k) - 1)
        skin = mesh.circulate_internal_bc()
        rep.expect(skin[0], "the skin of the first fracture closes")
    else:
        es = []
        for k, s in enumerate(xlines):
            v = [Vertex(3 * k + i, p) for i, p in enumerate(s)]
            x = Edge(3 * k + 2, np.array(v))
            x.physical_tag = 10 + k
            es.append(x)
        face = SimpleNamespace(immersed_shapes=np.array(es))
        mesh.conformal_mesher = SimpleNamespace(
            domain=SimpleNamespace(shapes=[[], [], [face], []], dimension=2)
        )
        pairs = mesh.cut_conformity_on_embed_shapes()
        tag = lambda k: (1000 * (10 + k) + 1, 1000 * (10 + k) - 1)
        skin = mesh.circulate_internal_bc_from_domain()
        rep.expect(skin[0], "the skin of the first fracture closes")
    X = {v: np.array(ROT[e](p[0] / 2, p[1] / 2)) for v, p in inv.items()}
    verify(mesh, X, tris, cut, on, rep, pairs, org_edges, ncells, xlines, tag)


def opened(case, rep):
    """Cuts that are opened for display: the same mesh, with the copies moved apart."""
    how, e, o, ids = case
    lines = [LINES[i] for i in ids]
    xlines = np.array([[ROT[e](*p) for p in s] for s in lines])
    out = []
    for opening in (0, 1):
        mesh, pts, inv, tris, cut, ends, on = setup(lines, e, o, how == "network")
        old = mesh.points.copy()
        if how == "line":
            itf = cut_conformity_along_c1_lines(xlines, TAGS, mesh, visual_frac_q=bool(opening))
            pairs = {int(x.id): (int(p.id), int(q.id)) for i in itf for x, p, q in zip(*i["c1"])}
        else:
            net = FractureNetwork(dimension=2, physical_tag_shift=10)
            net.intersect_1D_fractures(list(xlines))
            net.build_grahp(all_fixed_d_cells_q=True)
            mesh.conformal_mesher = SimpleNamespace(fracture_network=net)
            pairs = mesh.cut_conformity_on_fractures_mds_ec()
            if opening:
                mesh.apply_visual_opening(pairs)
        rep.step(len(lines))
        data = [
            (c.dimension, c.id, c.material_id, list(map(int, c.node_tags)), [list(map(int, x)) for x in c.sub_cells_ids])
            for c in mesh.cells
        ]
        out.append((data, pairs, mesh.points.copy()))
    rep.state(case)
    (d0, p0, x0), (d1, p1, x1) = out
    rep.expect(d0 == d1 and p0 == p1 and x0.shape == x1.shape, "opening changes no cell")
    # which copies belong to which side
    side = {}
    for i, (p, q) in p0.items():
        f = frozenset(d0[i][3])
        for s, j in ((1, p), (-1, q)):
            for v in d0[j][3]:
                side.setdefault(v, set()).add((s, on.get(f)))
    tips = {tuple(np.round(ROT[e](*p), 9)) for s in lines for p in s if 0 < p[0] < N and 0 < p[1] < N}
    n = 0
    for v in range(len(x0)):
        m = x1[v] - x0[v]
        if len(side.get(v, ())) != 1 or tuple(np.round(x0[v], 9)) in tips:
            rep.expect(np.allclose(m, 0, atol=1e-12), "only the copies inside a fracture move", lambda: f"{x0[v]} {m}")
            continue
        ((s, k),) = side[v]
        a, b = xlines[k]
        t = (b - a) / np.linalg.norm(b - a)
        w = np.array([-t[1], t[0], 0.0])
        at_end = min(np.linalg.norm(x0[v] - a), np.linalg.norm(x0[v] - b)) < 1e-9
        rep.expect(abs(m @ t) < 1e-9 and abs(m[2]) < 1e-9, "copies move across the fracture", lambda: f"{x0[v]} {m}")
        rep.expect(s * (m @ w) > (-1e-9 if at_end else 1e-6), "copies move to their own side", lambda: f"{x0[v]} {m} side {s}")
        n += 1
    rep.outcome(f"{how}: {min(n, 6)} copies moved")


def clipped(s):
    """Fracture i of T03 inside its box."""
    pts = {tuple(map(F, p)) for p in s if 0 <= p[0] <= 4 and 0 <= p[1] <= 4}
    for i in range(4):
        pts |= {tuple(map(F, p)) for p in segment_segment(*s, BOX[i], BOX[(i + 1) % 4])}
    pts = sorted(pts)
    return pts[0], pts[-1]


def inside(segs):
    """Admissible, with crossings away from the boundary of the box."""
    for s, t in itertools.combinations(segs, 2):
        x = segment_segment(*s, *t)
        if len(x) == 2:
            return False
        for p in x:
            p = tuple(map(F, p))
            if p in s + t or not (0 < p[0] < 4 and 0 < p[1] < 4):
                return False
    return True


def generated(case, rep):
    """Cut the mesh that the mesher writes for a box with fractures."""
    how, e, s, ids = case
    emb = lambda e, p: ROT[e](*p[:2])
    scale = 0.4 if e == "slant" else 4.0
    segs = [clipped((ALPHA if how == "domain" else NET)[i]) for i in ids]
    box = np.array([emb(e, p) for p in BOX])
    xlines = np.array([[emb(e, p) for p in ((ALPHA if how == "domain" else NET)[i])] for i in ids])
    tags = [10 + k for k in range(len(ids))]
    rel = (1.0, 0.4, 0.2)[s]
    if how == "domain":
        D = create_md_box_2D(box, PT, xlines, FT)
        h = DiscreteDomain(dimension=2)
        h.domain = D
        h.generate_mesh({"lc": rel * scale})
        tags = [FT["line"]]
    else:
        h = ConformalMesher(dimension=2)
        if how == "network":
            g = GeometryBuilder(dimension=2)
            g.build_box_2D(box)
            net = FractureNetwork(dimension=2, physical_tag_shift=10)
            net.intersect_1D_fractures(list(xlines))
            net.build_grahp(all_fixed_d_cells_q=True)
            h.set_geometry_builder(g)
            h.set_fracture_network(net)
            h.set_points()
            h.generate(rel * scale)
        else:
            h.domain = embedded(box, segs, lambda p: emb(e, p))
            h.generate_from_domain(rel * scale)
    h.write_mesh("m04.msh")
    mesh = Mesh(dimension=2, file_name="m04.msh")
    mesh.set_conformal_mesher(h)
    mesh.build_conformal_mesh()
    rep.step(len(ids))
    rep.state(case)
    P = mesh.points.copy()
    X = dict(enumerate(P))
    tris = [tuple(map(int, c.node_tags)) for c in mesh.cells if c.dimension == 2]
    ncells = len(mesh.cells)
    on, org_edges = {}, {}
    ends = [[np.array(emb(e, p)) for p in q] for q in segs]
    for c in mesh.cells:
        if c.dimension == 1 and c.material_id in tags:
            x = P[c.node_tags].mean(axis=0)
            near = [k for k, (a, b) in enumerate(ends) if np.linalg.norm(a - x) + np.linalg.norm(b - x) - np.linalg.norm(b - a) < 1e-9 * scale]
            if not rep.expect(len(near) == 1, "a tagged edge lies on one fracture", lambda: f"{x} {near}"):
                return
            f = frozenset(map(int, c.node_tags))
            on[f] = near[0]
            org_edges[int(c.id)] = f
    for k, (a, b) in enumerate(ends):
        size = sum(np.linalg.norm(np.subtract(*P[sorted(f)])) for f in on if on[f] == k)
        rep.expect(abs(size - np.linalg.norm(b - a)) < 1e-7 * scale, "the edges cover the fracture")
        rep.outcome(f"{how}: {min(4, sum(on[f] == k for f in on))} edges on a fracture")
    if how == "domain":
        pairs = {}
        ft = {**FT, "line_clones": 500, "point_clones": 700}
        for itf in cut_conformity_along_c1_lines(xlines, ft, mesh):
            for x, p, q in zip(*itf["c1"]):
                pairs[int(x.id)] = (int(p.id), int(q.id))
        tag = lambda k: (500, 500)
    elif how == "network":
        pairs = mesh.cut_conformity_on_fractures_mds_ec()
        tag = lambda k: (10 * (10 + k) + 1, 10 * (10 + k) - 1)
        rep.expect(mesh.circulate_internal_bc()[0], "the skin of the first fracture closes")
    else:
        pairs = mesh.cut_conformity_on_embed_shapes()
        tag = lambda k: (1000 * (10 + k) + 1, 1000 * (10 + k) - 1)
        rep.expect(mesh.circulate_internal_bc_from_domain()[0], "the skin of the first fracture closes")
    verify(mesh, X, tris, set(on), on, rep, pairs, org_edges, ncells, xlines, tag)


def embedded(box, segs, at):
    """The box with one embedded edge per fracture, in pieces where another one crosses it.

    Fracture k carries the tag 10 + k, the even crossings a tag of their own.
    """
    D = build_box_2D(box)
    tag = itertools.count(D.max_tag() + 1)
    vs, es, top = {}, [], []
    cross = sorted({tuple(p) for x, y in itertools.combinations(segs, 2) for p in segment_segment(*x, *y)})
    for p in cross + [p for x in segs for p in x]:
        vs[p] = Vertex(next(tag), np.array(at(p)))
    for n, p in enumerate(cross):
        if n % 2 == 0:
            vs[p].physical_tag = 200 + n
    for k, (a, b) in enumerate(segs):
        d = sub(b, a)
        q = [a] + sorted((p for p in cross if on_segment(p, a, b)), key=lambda p: dot(sub(p, a), d)) + [b]
        x = Edge(next(tag), np.array([vs[a], vs[b]]))
        x.physical_tag = 10 + k
        if len(q) > 2:
            x.immersed_shapes = np.array([Edge(next(tag), np.array([vs[r], vs[t]])) for r, t in zip(q, q[1:])])
            es += list(x.immersed_shapes)
        es.append(x)
        top.append(x)
    D.append_shapes(np.array(list(vs.values())))
    D.append_shapes(np.array(es))
    D.shapes[2][0].immersed_shapes = np.array(top)
    return D


def fans(tris, cut):
    """For each vertex: classes of its triangles joined through uncut edges."""
    by_edge = {}
    for i, t in enumerate(tris):
        for p in itertools.combinations(t, 2):
            by_edge.setdefault(frozenset(p), []).append(i)
    cls = {}
    for v in {v for t in tris for v in t}:
        own = [i for i, t in enumerate(tris) if v in t]
        par = {i: i for i in own}

        def find(i):
            while par[i] != i:
                i = par[i]
            return i

        for f, ts in by_edge.items():
            if v in f and len(ts) == 2 and f not in cut:
                par[find(ts[0])] = find(ts[1])
        for i in own:
            cls[(v, i)] = find(i)
    return by_edge, cls


def verify(mesh, X, tris, cut, on, rep, pairs, org_edges, ncells, xlines, tag):
    by_edge, cls = fans(tris, cut)
    cells = mesh.cells
    for i, c in enumerate(cells):
        rep.expect(c.id == i, "cell ids are positions")
    T = [c for c in cells[:ncells] if c.dimension == 2]
    rep.expect(sum(c.dimension == 2 for c in cells) == len(tris), "number of triangles")
    loc = [(1, 2), (0, 2), (0, 1)]
    for c, t in zip(T, tris):
        ok = np.allclose(mesh.points[c.node_tags], [X[v] for v in t], atol=1e-12)
        rep.expect(ok, "a triangle keeps its corners")
        for k in range(3):
            v = cells[c.sub_cells_ids[0][k]]
            rep.expect(v.dimension == 0 and v.node_tags[0] == c.node_tags[k], "vertices of a triangle carry its nodes")
            f = cells[c.sub_cells_ids[1][k]]
            want = [int(c.node_tags[j]) for j in loc[k]]
            rep.expect(f.dimension == 1 and sorted(map(int, f.node_tags)) == sorted(want), "edges of a triangle carry its nodes", lambda: f"{t} edge {k}: {f.node_tags} {want}")
            fv = [int(cells[j].node_tags[0]) for j in f.sub_cells_ids[0]]
            rep.expect(sorted(fv) == sorted(want), "vertices of an edge carry its nodes", lambda: f"{t} edge {k}: {fv} {want}")
    # sharing of edges
    eid = {}
    for i, (c, t) in enumerate(zip(T, tris)):
        for k in range(3):
            eid[(frozenset(t[j] for j in loc[k]), i)] = int(c.sub_cells_ids[1][k])
    for f, ts in by_edge.items():
        if len(ts) == 2:
            same = eid[(f, ts[0])] == eid[(f, ts[1])]
            rep.expect(same == (f not in cut), "sharing of edges", lambda: f"{sorted(f)}")
    for v in {v for t in tris for v in t}:
        own = [i for i, t in enumerate(tris) if v in t]
        vid = {i: int(T[i].sub_cells_ids[0][tris[i].index(v)]) for i in own}
        for a, b in itertools.combinations(own, 2):
            rep.expect((vid[a] == vid[b]) == (cls[(v, a)] == cls[(v, b)]), "sharing of vertices", lambda: f"{X[v]} {vid}")
        n = len(set(cls[(v, i)] for i in own))
        rep.outcome(f"vertex with {n} copies")
    crossings = {tuple(np.round(X[v], 9)) for v in X if len({j for f, j in on.items() if v in f}) > 1}
    # each edge of a fracture has one copy per side, at the same place
    rep.expect(sorted(map(int, pairs)) == sorted(org_edges), "the pairs cover the fractures", lambda: f"{pairs} {org_edges}")
    at = {}
    for i, (p, q) in pairs.items():
        k = on[org_edges[int(i)]]
        a, b = xlines[k]
        n = np.array([-(b - a)[1], (b - a)[0], 0.0])
        P = [np.array(sorted(map(tuple, np.round(mesh.points[cells[int(j)].node_tags], 9)))) for j in (i, p, q)]
        rep.expect(np.allclose(P[0], P[1]) and np.allclose(P[0], P[2]), "copies of an edge lie on it")
        rep.expect((cells[p].material_id, cells[q].material_id) == tag(k), "tags of the copies", lambda: f"{cells[p].material_id} {cells[q].material_id} {tag(k)}")
        for side, j in ((1, p), (-1, q)):
            own = [c for c in T if j in c.sub_cells_ids[1]]
            if rep.expect(len(own) == 1, "a copy bounds one triangle", lambda: f"{k} {len(own)}"):
                x = np.mean(mesh.points[own[0].node_tags], axis=0) - a
                rep.expect(side * np.dot(x, n) > 0, "a copy bounds the triangle of its side", lambda: f"{k} {side}")
        for v in cells[int(i)].node_tags:
            at.setdefault((k, tuple(np.round(mesh.points[v], 9))), []).append(int(v))
    # a fracture stays connected, but where it crosses another one
    for (k, p), vs in at.items():
        if p not in crossings:
            rep.expect(len(set(vs)) == 1, "the fracture stays connected", lambda: f"{k} {p} {vs}")
