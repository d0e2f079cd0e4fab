"""T02: cutting a line network at vertices and gluing it back (1D md domains)."""
import itertools

import networkx as nx
import numpy as np

from mc.exact import F, add, dot, mul, on_segment, segment_segment, sub
from mc.geo import emb
from topology.edge import Edge
from topology.operations.domain_operations import (
    create_domain,
    domain_difference,
    domain_union,
)
from topology.vertex import Vertex

ID = "T02"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "every set of <=2 edges of an alphabet of 9, with shared and with duplicated end vertices, x four motions (one far from the origin, one 1000 times larger, one with integer places), x every set of candidate vertices (intersections, end points, points off the edges), pairs in both orders",
    "thorough": "sets of <=3 edges",
}

# end points of the segment alphabet, on the integer grid [0,4]^2
SEGS = [
    ((0, 2, 0), (4, 2, 0)),
    ((2, 0, 0), (2, 4, 0)),
    ((0, 0, 0), (4, 4, 0)),
    ((4, 0, 0), (0, 4, 0)),
    ((0, 0, 0), (4, 2, 0)),
    ((2, 2, 0), (4, 2, 0)),
    ((0, 0, 0), (0, 4, 0)),
    ((2, 2, -2), (2, 2, 2)),
    ((3, 1, 0), (0, 0, 0)),
]
EXTRA = [(1, 3, 0), (1, 2, 0)]


def spaces(tier):
    out = []
    ks = (1, 2) if tier == "quick" else (1, 2, 3)
    for k in ks:
        for c in itertools.combinations(range(len(SEGS)), k):
            for e in ("far", "huge", "tiny", "half"):
              for share in (0, 1):
                out.append([e, share, list(c)])
    yield "networks", out


def run_case(space, case, rep):
    e, share, ids = case
    segs = [SEGS[i] for i in ids]
    if share and len({p for s in segs for p in s}) == 2*len(segs):
        return
    cand = set(p for s in segs for p in s) | set(EXTRA)
    for s, t in itertools.combinations(segs, 2):
        for p in segment_segment(*s, *t):
            cand.add(tuple(p))
    cand = sorted(cand)
    for k in range(1, len(cand) + 1):
        for tools in itertools.permutations(cand, k) if k<=2 else itertools.combinations(cand, k):
            one(e, share, segs, tools, rep)


def one(e, share, segs, tools, rep):
    verts, edges, tag = [], [], 0
    bypoint = {}
    for s in segs:
        vs = []
        for p in s:
            if share and p in bypoint:
                vs.append(bypoint[p])
                continue
            v = Vertex(tag, emb(e, p))
            v.physical_tag = 2
            bypoint[p] = v
            tag += 1
            vs.append(v)
            verts.append(v)
        edges.append(vs)
    E = []
    for i, vs in enumerate(edges):
        x = Edge(tag, np.array(vs))
        x.physical_tag = 10 + i
        tag += 1
        E.append(x)
    dom = create_domain(1, np.array(verts + E))
    tv = []
    for p in tools:
        v = Vertex(tag, emb(e, p))
        v.physical_tag = 20
        tag += 1
        tv.append(v)
    c1 = create_domain(1, np.array(tv))
    rep.step()
    rep.state([segs, [tuple(map(str,t)) for t in tools], share])
    c0 = domain_difference(dom, c1, tag)
    md = domain_union(c0, c1)
    rep.step(2)
    ctx = lambda: f"tools={[tuple(map(float,t)) for t in tools]}"
    # oracle
    expected = []
    for i, (a, b) in enumerate(segs):
        ts = sorted({dot(sub(p, a), sub(b, a)) for p in tools if on_segment(p, a, b)} | {0, dot(sub(b, a), sub(b, a))})
        d = dot(sub(b,a),sub(b,a))
        pts = [add(a, mul(F(t) / d, sub(b, a))) for t in ts]
        for p, q in zip(pts, pts[1:]):
            expected.append((i, p, q))
    for name, D in (("difference", c0), ("union", md)):
        tags0 = [v.tag for v in D.shapes[0]]
        tags1 = [v.tag for v in D.shapes[1]]
        rep.expect(len(set(tags0)) == len(tags0) and len(set(tags1)) == len(tags1), f"{name} tags unique", ctx)
        rep.expect(len(D.shapes[1]) == len(expected), f"{name} number of edges", lambda: f"{len(D.shapes[1])} vs {len(expected)} {ctx()}")
        rest = list(D.shapes[1])
        for i, p, q in expected:
            P, Q = emb(e, p), emb(e, q)
            hit = [x for x in rest if x.physical_tag == 10 + i and len(x.boundary_shapes)==2 and any(np.allclose(x.boundary_points(), np.array(o), rtol=1e-12) for o in ((P, Q), (Q, P)))]
            if rep.expect(len(hit) >= 1, f"{name} piece", lambda: f"{i,p,q} {len(hit)} {[ (x.physical_tag, x.boundary_points().tolist()) for x in rest]}{ctx()}"):
                rest = [x for x in rest if x is not hit[0]]
        # every boundary vertex is a vertex of the domain
        for x in D.shapes[1]:
            for v in x.boundary_shapes:
                rep.expect(any(v.tag == w.tag and np.allclose(v.point, w.point, rtol=1e-12) for w in D.shapes[0]), f"{name} boundary in domain", ctx)
    # end vertices away from the tools stay as they are
    for i, (a, b) in enumerate(segs):
        for p, v in zip((a, b), edges[i]):
            if p in tools:
                continue
            for name, D in (("difference", c0), ("union", md)):
                same = [w for w in D.shapes[0] if w.tag == v.tag]
                ok = len(same) == 1 and same[0].physical_tag == 2 and np.array_equal(same[0].point, v.point)
                rep.expect(ok, f"{name} keeps the other end vertices", lambda: f"{p} {v.tag} {[(w.tag, w.physical_tag) for w in D.shapes[0]]} {ctx()}")
                got = sorted(x.physical_tag for x in D.shapes[1] if any(w.tag == v.tag for w in x.boundary_shapes))
                want = sorted(10 + j for j, vs in enumerate(edges) for w in vs if w is v)
                rep.expect(got == want, f"{name} edges at the other end vertices", lambda: f"{p} {got} {want} {ctx()}")
    for v, p in zip(tv, tools):
        inc = [s for s in segs if on_segment(p, *s)]
        at = [w for w in md.shapes[0] if np.allclose(w.point, v.point, rtol=1e-12)]
        if inc:
            rep.expect(len(at) == 1 and at[0].tag == v.tag and at[0].physical_tag == 20, "union one vertex per tool", lambda: f"{p} {[w.tag for w in at]} {ctx()}")
            n = sum(1 for x in md.shapes[1] if any(w.tag == v.tag for w in x.boundary_shapes))
            want = sum(1 for i, a, b in expected if a == tuple(p) or b == tuple(p))
            rep.expect(n == want, "union incidence", lambda: f"{p} {n} {want} {ctx()}")
