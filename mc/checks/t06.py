"""T06: lines embedded in a rectangle, crossings of edges, vertices embedded in an edge."""
import itertools
import os
import tempfile
from collections import Counter
from fractions import Fraction as F

import numpy as np

from mc.exact import on_segment, segment_segment
from mc.geo import EMB, emb, grid
from topology.domain_market import build_box_2D_with_lines
from topology.edge import Edge
from topology.shape_manipulation import embed_vertex_in_edge, intersect_edges
from topology.vertex import Vertex

ID = "T06"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "lines: the rectangle [0,6]x[0,4] and every line between points of the odd grid {-1,1,3,5,7}x{-1,1,3,5} in both directions, every pair in general position of 24 lines, every triple of 9 lines; crossings: every set of <=3 of 10 segments in the three coordinate planes; vertices: every ordered list of <=3 of 9 points (on, at the ends, behind, beyond, off) in both directions of the edge, with and without a shift of tags; 2 motions (far from the origin, 1000 times larger)",
    "thorough": "as quick with every pair in general position of all lines, every triple of 22 lines and every set of 4 of 10, every ordered list of <=4 points, 4 motions",
}
W, H = 6, 4
BOX = [(0, 0, 0), (W, 0, 0), (W, H, 0), (0, H, 0)]
SIDES = [(BOX[i], BOX[(i + 1) % 4]) for i in range(4)]
P = [(x, y, 0) for x in (-1, 1, 3, 5, 7) for y in (-1, 1, 3, 5)]
LINES = [(a, b) for a in P for b in P if a < b]
# segments whose crossings are inside both, or which do not meet; several meet in one point
CROSS = [((0, 0), (4, 4)), ((0, 4), (4, 0)), ((2, -1), (2, 5)), ((-1, 1), (5, 1)), ((-1, 2), (5, 2)), ((1, -1), (1, 5)), ((5, 5), (7, 5)), ((-1, 3), (5, 2)), ((3, 5), (0, -1)), ((-2, -1), (7, 4))]
E0, E1 = (0, 0, 0), (4, 2, 2)
PTS = [(2, 1, 1), (1, F(1, 2), F(1, 2)), (3, F(3, 2), F(3, 2)), (0, 0, 0), (4, 2, 2), (-2, -1, -1), (6, 3, 3), (2, 1, 2), (-1, 0, 1)]


def meet(s, t):
    """0 apart, 1 one point inside both, 2 anything else"""
    x = segment_segment(*s, *t)
    if not x:
        return 0
    return 1 if len(x) == 1 and not any(tuple(x[0]) == tuple(e) for e in (*s, *t)) else 2


def general(lines):
    segs = SIDES + list(lines)
    return all(meet(s, t) < 2 for s, t in itertools.combinations(segs, 2) if s not in SIDES or t not in SIDES)


def spaces(tier):
    t = tier == "thorough"
    es = ("id", "far", "shift", "quarter", "big", "hugeflat") if t else ("far", "hugeflat")
    ok = [i for i, s in enumerate(LINES) if general([s])]
    yield "one line", [[e, [i], o] for e in es for i in ok for o in (0, 1)]
    two = ok if t else ok[:: max(1, len(ok) // 24)]
    pairs = [c for c in itertools.combinations(two, 2) if general([LINES[i] for i in c])]
    yield "two lines", [[e, list(c), n % 4] for e in es[:2] for n, c in enumerate(pairs)]
    step = max(1, len(ok) // (22 if t else 9))
    three = [c for m in ((3, 4) if t else (3,)) for c in itertools.combinations(ok[::step] if m == 3 else ok[:: max(1, len(ok) // 10)], m) if general([LINES[i] for i in c])]
    yield "more lines", [[e, list(c), n % 8] for e in es[:2] for n, c in enumerate(three)]
    sets = [c for m in ((1, 2, 3, 4) if t else (1, 2, 3)) for c in itertools.combinations(range(len(CROSS)), m)]
    yield "crossings", [[e, axis, list(c)] for e in es for axis in range(3) for c in sets]
    yield "vertices in an edge", [[e, d, k, s] for e in (*es, "rot", "large") for d in (0, 1) for k in range(1, 5 if t else 4) for s in (0, 40)]


def run_case(space, case, rep):
    rep.state(case)
    {"crossings": crossings, "vertices in an edge": vertices}.get(space, lines)(case, rep)


def pieces(segs):
    """the arrangement: per segment, its pieces in order"""
    out = []
    for i, s in enumerate(segs):
        pts = {tuple(map(F, p)) for p in s}
        for j, t in enumerate(segs):
            if i != j:
                pts |= {tuple(map(F, p)) for p in segment_segment(*s, *t)}
        pts = sorted(pts, key=lambda p: sum((u - v) ** 2 for u, v in zip(p, s[0])))
        out.append(list(zip(pts, pts[1:])))
    return out


def key(p, scale=1.0):
    return tuple(np.round(np.asarray(p, float) / scale, 7) + 0.0)


def compare(edges, want, place, rep, ctx):
    """edges (shapes) are the wanted pieces; one vertex per place"""
    got = Counter(frozenset(key(v.point) for v in e.boundary_shapes) for e in edges)
    ref = Counter(frozenset((place(a), place(b))) for a, b in want)
    rep.expect(got == ref, "the pieces between crossings", lambda: f"{sum((got - ref).values())} unexpected, {sum((ref - got).values())} missing; {ctx()}")
    at = {}
    for e in edges:
        for v in e.boundary_shapes:
            at.setdefault(key(v.point), set()).add(id(v))
    rep.expect(all(len(x) == 1 for x in at.values()), "pieces that meet share their vertex", ctx)
    return at


def lines(case, rep):
    e, ids, flip = case
    sel = [LINES[i][::-1] if flip >> n & 1 else LINES[i] for n, i in enumerate(ids)]
    ctx = lambda: f"lines {sel}"
    f, name = tempfile.mkstemp(suffix=".csv")
    try:
        with os.fdopen(f, "w") as h:
            for s in sel:
                h.write(",".join(repr(float(x)) for p in s for x in emb(e, p)) + "\n")
        dom = build_box_2D_with_lines(np.array([emb(e, p) for p in BOX]), name)
    finally:
        os.remove(name)
    rep.step()
    segs = SIDES + sel
    want = pieces(segs)
    rep.outcome(f"{len(sel)} lines, {sum(map(len, want)) - len(segs)} cuts")
    edges = [s for s in dom.shapes[1] if not s.composite]
    leaf = [s for s in edges if not any(x.dimension for x in s.immersed_shapes)]
    place = lambda p: key(emb(e, tuple(map(float, p))))
    at = compare(leaf, [x for w in want for x in w], place, rep, ctx)
    listed = [key(v.point) for v in dom.shapes[0]]
    rep.expect(Counter(listed) == Counter(set(at)), "one listed vertex per end of a piece", lambda: f"{len(listed)} for {len(at)}; {ctx()}")
    rep.expect({id(v) for v in dom.shapes[0]} == set().union(*at.values()), "the listed vertices are those of the pieces", ctx)
    for d in (0, 1, 2):
        tags = [s.tag for s in dom.shapes[d]]
        rep.expect(len(set(tags)) == len(tags), f"dimension {d}: one tag each", lambda: f"{tags} {ctx()}")
    # the segments that were given: still there, with their pieces in order
    phys = {}
    for s, w in zip(segs, want):
        ends = frozenset((place(s[0]), place(s[1])))
        own = [x for x in edges if frozenset(key(v.point) for v in x.boundary_shapes) == ends]
        if not rep.expect(len(own) == 1, "every side and line is listed once", lambda: f"{len(own)} {s} {ctx()}"):
            continue
        phys[s] = own[0].physical_tag
        imm = [x for x in own[0].immersed_shapes if x.dimension]
        got = [frozenset(key(v.point) for v in x.boundary_shapes) for x in imm]
        ref = [frozenset((place(a), place(b))) for a, b in w] if len(w) > 1 else []
        rep.expect(got in (ref, ref[::-1]), "pieces of a side or line", lambda: f"{s} {ctx()}")
        rep.expect(all(x in dom.shapes[1] for x in imm), "the pieces are listed", ctx)
    if len(phys) == len(segs):
        rep.expect([phys[s] for s in SIDES] == [2, 3, 4, 5], "physical tags of the sides", ctx)
        rest = [phys[s] for s in sel]
        rep.expect(len(set(rest)) == len(rest) and min(rest) > 5, "every line has a physical tag of its own", lambda: f"{rest}")
    # the face: bounded by the pieces of the sides
    face = dom.shapes[2]
    if rep.expect(len(face) == 1 and len(face[0].boundary_shapes) == 1, "one face with one wire", ctx):
        wire = face[0].boundary_shapes[0]
        got = Counter(frozenset(key(v.point) for v in x.boundary_shapes) for x in wire.immersed_shapes)
        ref = Counter(frozenset((place(a), place(b))) for w in want[:4] for a, b in w)
        rep.expect(got == ref, "the wire runs along the pieces of the sides", ctx)
        inner = [x for x in face[0].immersed_shapes if x.dimension == 1]
        rep.expect(len(inner) == len(sel), "the lines are immersed in the face", ctx)


PLANE = {2: lambda p: (p[0], p[1], 0), 1: lambda p: (p[0], 0, p[1]), 0: lambda p: (0, p[0], p[1])}


def crossings(case, rep):
    e, axis, ids = case
    segs = [tuple(PLANE[axis](p) for p in CROSS[i]) for i in ids]
    if any(meet(s, t) == 2 for s, t in itertools.combinations(segs, 2)):
        return
    want = pieces(segs)
    places = {p for w in want for x, y in w for p in (x, y)} - {tuple(map(F, p)) for s in segs for p in s}
    place = lambda p: key(emb(e, tuple(map(float, p))))
    for perm in itertools.permutations(range(len(segs))):
        for vs, es, ps in ((100, 500, 30), (8, 9, 0)):
            obj = np.array([Edge(i, np.array([Vertex(2 * i + j, emb(e, segs[k][j])) for j in (0, 1)])) for i, k in enumerate(perm)])
            out, verts = intersect_edges(obj, obj, axis=axis, e_tag_shift=es, v_tag_shift=vs, p_tag_shift=ps)
            rep.step()
            ctx = lambda: f"axis {axis} {[segs[k] for k in perm]}"
            rep.outcome(f"{len(segs)} segments, {len(places)} places")
            rep.expect(sorted(key(v.point) for v in verts) == sorted(map(place, places)), "one vertex per crossing", ctx)
            rep.expect(sorted(v.tag for v in verts) == list(range(vs, vs + len(places))), "tags of the new vertices", ctx)
            pt = [v.physical_tag for v in verts]
            rep.expect(len(set(pt)) == len(pt) and all(x > ps for x in pt), "physical tags of the new vertices", lambda: f"{pt}")
            cut = [x for k in perm for x in want[k] if len(want[k]) > 1]
            tags = [x.tag for x in out]
            rep.expect(tags == list(range(es, es + len(cut))), "tags of the new pieces", lambda: f"{tags} {ctx()}")
            at = compare(out, cut, place, rep, ctx)
            new = {id(v) for v in verts}
            rep.expect(all(at.get(place(p), set()) <= new for p in places), "the pieces end at the new vertices", ctx)
            for x, k in zip(obj, perm):
                got = [frozenset(key(v.point) for v in y.boundary_shapes) for y in x.immersed_shapes]
                ref = [frozenset((place(a), place(b))) for a, b in want[k]] if len(want[k]) > 1 else []
                rep.expect(got == ref, "pieces of an edge, from its first to its second end", ctx)
                rep.expect([key(v.point) for v in x.boundary_shapes] == [place(p) for p in segs[k]], "the edges keep their ends", ctx)


def vertices(case, rep):
    e, d, k, shift = case
    ends = (E1, E0) if d else (E0, E1)
    pt = lambda p: emb(e, tuple(map(float, p)))
    for sel in itertools.permutations(range(len(PTS)), k):
        ed = Edge(2, np.array([Vertex(j, pt(p)) for j, p in enumerate(ends)]))
        own = list(ed.boundary_shapes)
        vs = [Vertex(10 + i, pt(PTS[i])) for i in sel]
        out = embed_vertex_in_edge(np.array(vs), ed, tag_shift=shift)
        rep.step()
        ctx = lambda: f"points {[tuple(map(float, PTS[i])) for i in sel]} on {ends}"
        tol = 1e-9 * (1 + np.abs(pt(E1)).max())
        inside = [v for v, i in zip(vs, sel) if on_segment(PTS[i], E0, E1) and PTS[i] not in (E0, E1)]
        rep.outcome(f"{len(inside)} of {k}")
        rep.expect({id(v) for v in out} == {id(v) for v in inside} and len(out) == len(inside), "the vertices inside the edge", lambda: f"{[v.tag for v in out]} {ctx()}")
        rep.expect(all(np.allclose(v.point, pt(PTS[i]), atol=tol, rtol=0) for v, i in zip(vs, sel)), "no vertex is moved", ctx)
        for j, p in enumerate(ends):
            rep.expect(np.allclose(ed.boundary_shapes[j].point, pt(p), atol=tol, rtol=0), "the ends of the edge stay", ctx)
            given = [v for v, i in zip(vs, sel) if PTS[i] == p]
            rep.expect(ed.boundary_shapes[j] is (given[0] if given else own[j]), "a vertex given at an end replaces it", ctx)
        order = sorted(inside, key=lambda v: np.linalg.norm(v.point - pt(ends[0])))
        chain = [ed.boundary_shapes[0], *order, ed.boundary_shapes[1]] if inside else []
        imm = list(ed.immersed_shapes)
        if rep.expect(len(imm) == max(0, len(chain) - 1), "number of pieces", lambda: f"{len(imm)} {ctx()}"):
            rep.expect([x.tag for x in imm] == list(range(shift, shift + len(imm))), "tags of the pieces", ctx)
            rep.expect(all({id(v) for v in x.boundary_shapes} == {id(a), id(b)} for x, a, b in zip(imm, chain, chain[1:])), "the pieces run from the first to the second end", ctx)
