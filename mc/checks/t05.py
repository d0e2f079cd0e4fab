"""T05: intersections of vertices and edges as topological shapes."""
import itertools

import numpy as np

from mc.exact import on_segment, segment_segment
from mc.geo import emb, grid, lift
from globals import geometry_point_line_incidence_tol as TOLERANCE
from topology.edge import Edge
from topology.operations.domain_operations import create_domain, domain_intersection
from topology.operations.edge_operations import collapse_edge, edge_edge_boundary_intersection, edge_edge_intersection
from topology.operations.vertex_operations import (
    collapse_vertex,
    vertex_edge_boundary_intersection,
    vertex_edge_intersection,
    vertex_vertex_intersection,
    vertices_edge_intersection,
    vertices_edges_intersection,
)
from topology.vertex import Vertex

ID = "T05"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "vertices: every pair of a 2x2x1 grid with equal and different tags; vertex-edge: every ordered pair of the 3x3 grid as an edge x every half-grid point, as a fresh vertex and as an end vertex of the edge; edge-edge: every pair of edges of the 3x3 grid with shared and separate end vertices; edges that touch at each of their ends, for two requested tags; vertex lists: every ordered set of <=3 of 8 points x every ordered pair of 6 edges; the listed vertices also with tool vertices that are ends of the edges; 3 motions (one 50 times smaller)",
    "thorough": "as quick with 6 motions (scales 0.02 to 12), edge-edge on the 4x3 grid, every ordered set of <=4 points and every ordered set of <=3 edges",
}
G = [lift(p) for p in grid(3, 2)]
PTS = [(0, 0, 0), (2, 2, 0), (1, 1, 0), (2, 0, 0), (0, 2, 0), (1, 0, 0), (2, 1, 0), (1, 2, 1)]
EDGES = [((0, 0, 0), (2, 2, 0)), ((2, 0, 0), (0, 2, 0)), ((0, 0, 0), (2, 0, 0)), ((0, 1, 0), (2, 1, 0)), ((2, 2, 0), (2, 0, 0)), ((0, 1, 0), (0, 2, 0))]


TOUCH = {
    "first end inside": ((1, 1, 0), (2, 2, 1)),
    "second end inside": ((2, 2, 1), (1, 1, 0)),
    "first end at an end": ((0, 0, 0), (1, 0, 1)),
    "second end at an end": ((1, 0, 1), (2, 2, 0)),
}


def spaces(tier):
    t = tier == "thorough"
    es = ("id", "rot", "shift", "big", "small", "large", "far", "half", "huge", "tiny") if t else ("far", "huge", "half", "tiny")
    yield "vertices", [[e] for e in es]
    pairs = [(a, b) for a in G for b in G if a != b]
    yield "vertex and edge", [[e, a, b] for e in es for a, b in pairs]
    big = [(x, y, 0) for x in range(4) for y in range(3)] if t else G
    yield "edges", [[e, a, b, share, t] for e in es for a in big for b in big if a != b for share in (0, 1)]
    yield "edges that touch", [[e, k] for e in ("shift", *es) for k in TOUCH if e not in ("far", "half", "huge", "tiny")]
    ne = (1, 2, 3) if t else (1, 2)
    yield "vertices and edges", [
        [e, list(c), k] for i, e in enumerate(es) for m in ne for c in itertools.permutations(range(6), m)
        for k in range(1, 5 if t and m < 3 else 4)
    ]


def run_case(space, case, rep):
    rep.state(case)
    {"vertices": vertices, "vertex and edge": vertex_edge, "edges": edges, "edges that touch": touch, "vertices and edges": lists}[space](case, rep)


def at(v, e, p):
    return v is not None and v.dimension == 0 and np.shape(v.point) == (3,) and np.allclose(v.point, emb(e, p), rtol=1e-12, atol=1e-9)


def vertices(case, rep):
    (e,) = case
    pts = [(x, y, 0) for x in range(2) for y in range(2)]
    for p, q in itertools.product(pts, repeat=2):
        for s, t in itertools.product((0, 1), repeat=2):
            mk = lambda: (Vertex(s, emb(e, p)), Vertex(t, emb(e, q)))
            a, b = mk()
            a.physical_tag, b.physical_tag = 5, 6
            out = vertex_vertex_intersection(a, b, 77)
            rep.step(2)
            ctx = lambda: f"{p}#{s} {q}#{t}: {out}"
            rep.outcome(f"{p == q} {s == t}")
            if p != q:
                rep.expect(out is None, "disjoint vertices", ctx)
            elif s == t:
                rep.expect(out is b, "equal vertices", ctx)
            else:
                rep.expect(at(out, e, p) and out.tag == 77, "coincident vertices", ctx)
            rep.expect((a.tag, b.tag) == (s, t), "an intersection changes no tag", ctx)
            out = collapse_vertex(a, b)
            if p != q:
                rep.expect(out is None and b.tag == t and b.physical_tag == 6, "collapse of disjoint vertices", ctx)
            else:
                want = (t, 6) if s == t else (s, 5)
                rep.expect(out is b and (b.tag, b.physical_tag) == want and at(b, e, q), "collapse of coincident vertices", ctx)


def edge_of(e, a, b, tag0, etag, known=None):
    vs = []
    for i, p in enumerate((a, b)):
        if known is not None and p in known:
            vs.append(known[p])
        else:
            vs.append(Vertex(tag0 + i, emb(e, p)))
    return Edge(etag, np.array(vs))


def vertex_edge(case, rep):
    e, a, b = case
    a, b = tuple(a), tuple(b)
    ed = edge_of(e, a, b, 0, 2)
    for x, y, z in [(x / 2, y / 2, 0) for x in range(-1, 6) for y in range(-1, 6)] + [(1, 1, 1), (*a[:2], 1)]:
        p = (x, y, z)
        for f, name in ((vertex_edge_intersection, "edge"), (vertex_edge_boundary_intersection, "end points")):
            for own in (0, 1):
                if own:
                    hit = [v for v in ed.boundary_shapes if at(v, e, p)]
                    if not hit:
                        continue
                    v = Vertex(hit[0].tag, emb(e, p))
                else:
                    v = Vertex(50, emb(e, p))
                out = f(v, ed, 77)
                rep.step()
                on = on_segment(p, a, b) if name == "edge" else p in (a, b)
                ctx = lambda: f"{p} on {a, b}: {out}"
                rep.outcome(f"{name} {on} {own}")
                if not on:
                    rep.expect(out is None, f"vertex off the {name}", ctx)
                elif own:
                    rep.expect(out is hit[0], f"end vertex on the {name}", ctx)
                else:
                    rep.expect(at(out, e, p) and out.tag == 77, f"vertex on the {name}", ctx)
                rep.expect([w.tag for w in ed.boundary_shapes] == [0, 1], "the edge is not changed", ctx)


def edges(case, rep):
    e, a, b, share, big = case
    a, b = tuple(a), tuple(b)
    grid_ = [(x, y, 0) for x in range(4) for y in range(3)] if big else G
    for c, d in [(c, d) for c in grid_ for d in grid_ if c != d] + [((1, 1, -1), (1, 1, 1)), ((1, 1, 0), (1, 1, 1)), (a, (1, 1, 2))]:
        if c == d:
            continue
        tool = edge_of(e, a, b, 0, 10)
        known = {a: tool.boundary_shapes[0], b: tool.boundary_shapes[1]} if share else None
        obj = edge_of(e, c, d, 20, 30, known)
        want = segment_segment(a, b, c, d)
        out = edge_edge_intersection(tool, obj, 77)
        bd = edge_edge_boundary_intersection(tool, obj, 77)
        rep.step(2)
        ctx = lambda: f"{a, b} x {c, d}: {None if out is None else out.point} want {[tuple(map(float, p)) for p in want]}"
        rep.outcome(f"{len(want)} share={share}")
        if not want:
            rep.expect(out is None and bd is None, "disjoint edges", ctx)
            continue
        ends = [p for p in (a, b) if on_segment(p, c, d)]
        rep.expect((bd is not None) == bool(ends), "end points of the tool on the object", ctx)
        if bd is not None:
            rep.expect(any(at(bd, e, p) for p in ends), "vertex at an end point of the tool", ctx)
            if not any(bd is v for v in obj.boundary_shapes):
                rep.expect(bd.tag == 77, "tag of a new vertex at an end point of the tool", ctx)
            if share and len(want) == 1 and ends[0] in (c, d):
                rep.expect(bd in list(obj.boundary_shapes), "a shared vertex is the intersection", ctx)
        if len(want) == 1:
            ok = at(out, e, want[0])
            rep.expect(ok, "edges with one common point", ctx)
            if ok and not ends:
                rep.expect(out.tag == 77, "tag of a crossing", ctx)
        elif rep.expect(out is not None and np.shape(out.point) == (3,), "overlapping edges", ctx):
            lo, hi = emb(e, want[0]), emb(e, want[1])
            x = out.point
            rep.expect(abs(np.linalg.norm(x - lo) + np.linalg.norm(x - hi) - np.linalg.norm(hi - lo)) < 1e-9, "vertex on the overlap", ctx)
    # collapse
    tool, obj = edge_of(e, a, b, 0, 10), edge_of(e, a, b, 20 if not share else 0, 10 + share)
    tool.physical_tag = 4
    out = collapse_edge(tool, obj)
    rep.expect(out is obj and obj.tag == 10 and obj == tool and obj.physical_tag == 4, "collapse of edges at the same place")
    other = edge_of(e, a, (5, 5, 0), 20, 30)
    rep.expect(collapse_edge(tool, other) is None and other.tag == 30, "collapse of different edges")


def touch(case, rep):
    """the requested tag when an end of the tool lies on the object"""
    e, k = case
    a, b = TOUCH[k]
    for tag in (77, 1000):
        out = edge_edge_intersection(edge_of(e, a, b, 0, 10), edge_of(e, (0, 0, 0), (2, 2, 0), 20, 30), tag)
        rep.step()
        p = a if k.startswith("first") else b
        if not rep.expect(at(out, e, p), "place of the common point"):
            continue
        lost = out.tag == TOLERANCE
        rep.expect(not lost, "the requested tag is replaced by the tolerance", k)
        rep.expect(lost or out.tag == tag, "requested tag of edges that touch", lambda: f"{k}: {out.tag}")


def lists(case, rep):
    e, ids, k = case
    es = [edge_of(e, *EDGES[i], 2 * n, 100 + n) for n, i in enumerate(ids)]
    ends = {p: 2 * n + j for n, i in enumerate(ids) for j, p in enumerate(EDGES[i])}
    for sel, own in itertools.product(itertools.permutations(range(8), k), (0, 1)):
        # own: a tool at an end of an edge is equal to the vertex there
        tag = {i: ends.get(tuple(PTS[i]), 200 + i) if own else 200 + i for i in sel}
        if own and all(x >= 200 for x in tag.values()):
            continue
        tools = [Vertex(tag[i], emb(e, PTS[i])) for i in sel]
        want = [[i for i in sel if on_segment(PTS[i], *EDGES[j])] for j in ids]
        ctx = lambda: f"edges {ids} points {sel}"
        if len(ids) == 1:
            intx, tl = vertices_edge_intersection(np.array(tools), es[0], 500)
            rep.step()
            ok = [v.tag for v in intx] == list(range(500, 500 + len(want[0]))) and all(at(v, e, PTS[i]) for v, i in zip(intx, want[0]))
            rep.expect(ok, "vertices on an edge, in order, with consecutive tags", ctx)
            rep.expect([v.tag for v in tl] == [tag[i] for i in want[0]], "the tools that hit the edge", ctx)
        out = vertices_edges_intersection(np.array(tools), np.array(es), 500)
        rep.step()
        rep.expect([o[0] for o in out] == es, "one entry per edge", ctx)
        tags = [v.tag for o in out for v in o[1]]
        rep.expect(tags == list(range(500, 500 + len(tags))), "tags are consecutive over the edges", lambda: f"{tags} {ctx()}")
        for o, w in zip(out, want):
            ok = len(o[1]) == len(w) and all(at(v, e, PTS[i]) for v, i in zip(o[1], w)) and [v.tag for v in o[2]] == [tag[i] for i in w]
            rep.expect(ok, "vertices on each edge", ctx)
        if len(ids) > 1 and not own:
            c0 = create_domain(1, np.array([v for x in es for v in x.boundary_shapes] + es))
            c1 = create_domain(1, np.array(tools))
            dom = domain_intersection(c1, c0, 500)
            rep.step()
            n = sum(map(len, want))
            rep.outcome(f"{n} incidences")
            if n == 0:
                rep.expect(dom is None or not any(len(x) for x in dom.shapes), "empty intersection of domains", ctx)
            elif rep.expect(dom is not None and dom.dimension == 1 and len(dom.shapes[1]) == 0, "intersection of domains", ctx):
                got = sorted(tuple(np.round(v.point, 7) + 0.0) for v in dom.shapes[0])
                ref = sorted(tuple(np.round(emb(e, PTS[i]), 7) + 0.0) for w in want for i in w)
                rep.expect(np.allclose(got, ref, rtol=1e-12, atol=1e-6) if len(got) == len(ref) else False, "vertices of the intersection of domains", lambda: f"{got} {ref} {ctx()}")
        # nothing that was given is changed
        rep.expect([v.tag for v in tools] == [tag[i] for i in sel] and all([v.tag for v in x.boundary_shapes] == [2 * n, 2 * n + 1] for n, x in enumerate(es)), "the given shapes are not changed", ctx)
