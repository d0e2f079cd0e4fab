"""T03: polygonal domain with line fractures."""
import itertools

import numpy as np

from mc.exact import F, add, dot, in_polygon, mul, on_segment, segment_segment, sub
from mc.geo import emb
from topology.domain_market import create_md_box_2D

ID = "T03"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "every ordered set of <=2 fractures of an alphabet of 17 (inside, crossing, touching, leaving the box, through corners) that do not overlap, and every set of 3 in an alternating order; nine placements (far from the origin, rotated, scaled by 0.02 and 12), alternating; every set of <=2 in a rectangle or parallelogram given from any corner, both ways, with default tags, one tag per side, and tags that sides and lines share; the same in a triangle, a pentagon and two polygons that are not convex",
    "thorough": "every ordered set of <=3 and every set of 4, alternating placements; sets of <=3 in parallelograms",
}
BOX = [(0, 0, 0), (4, 0, 0), (4, 4, 0), (0, 4, 0)]
INTERIOR = [
    ((1, 1, 0), (3, 3, 0)),
    ((1, 3, 0), (3, 1, 0)),
    ((1, 2, 0), (3, 2, 0)),
    ((2, 1, 0), (2, 3, 0)),
    ((3, 1, 0), (3, 3, 0)),
    ((1, 1, 0), (3, 2, 0)),
    ((2, 2, 0), (3, 3, 0)),
]
BOUND = [
    ((0, 2, 0), (4, 2, 0)),
    ((2, 0, 0), (2, 2, 0)),
    ((0, 1, 0), (3, 3, 0)),
    ((2, 4, 0), (0, 2, 0)),
]
OUT = [
    ((-1, 1, 0), (5, 1, 0)),
    ((1, -1, 0), (1, 3, 0)),
    ((-1, 3, 0), (3, 5, 0)),
    ((3, 2, 0), (5, 3, 0)),
]
CORNER = [((0, 0, 0), (4, 4, 0)), ((4, 0, 0), (2, 1, 0))]

ALPHA = INTERIOR + BOUND + OUT + CORNER
PT = {"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5}
POLYGONS = [
    [(0, 0, 0), (4, 0, 0), (1, 4, 0)],
    [(0, 0, 0), (4, 0, 0), (5, 2, 0), (3, 4, 0), (0, 3, 0)],
    [(0, 0, 0), (4, 0, 0), (3, 2, 0), (4, 4, 0), (0, 4, 0)],
    [(0, 0, 0), (4, 0, 0), (4, 2, 0), (1, 2, 0), (1, 4, 0), (0, 4, 0)],
]
# tags of the four sides, of lines, of inner end points, and of crossings
SHARED = [(2, 2, 2, 2, 100, 200, 300), (2, 3, 2, 3, 100, 200, 300), (2, 3, None, None, 3, 3, 3), (None, None, None, None, 2, 2, 2), (7, 7, 6, 6, 7, 7, 7)]
FT = {"line": 100, "internal_bc": 200, "point": 300}


def overlap(s, t):
    return len(segment_segment(*s, *t)) == 2


def spaces(tier):
    out = []
    for k in (1, 2, 3, 4)[: 3 if tier == "quick" else 4]:
        for n, c in enumerate(itertools.permutations(range(len(ALPHA)), k) if k < 4 - (tier == "quick") else itertools.combinations(range(len(ALPHA)), k)):
            if any(overlap(ALPHA[i], ALPHA[j]) for i, j in itertools.combinations(c, 2)):
                continue
            if k == 3 and tier == "quick":
                c = c[n % 3:] + c[:n % 3]
            out.append([("id", "rot", "small", "shift", "large", "far", "half", "huge", "tiny")[(n + sum(c)) % 9], list(c)])
    yield "fractures", out
    # other rectangles and parallelograms, and default physical tags
    out = []
    K = 2 if tier == "quick" else 3
    sets = [()] + [c for k in range(1, K + 1) for c in itertools.combinations(range(len(ALPHA)), k) if not any(overlap(ALPHA[i], ALPHA[j]) for i, j in itertools.combinations(c, 2))]
    for n, c in enumerate(sets):
        for m in range(8) if len(c) < 2 else ((n % 8, (n + 3) % 8) if tier == "thorough" or len(c) < 2 else (n % 8,)):
            out.append([("skew", "rot", "small", "id", "flat")[(n + m) % 5], list(c), m, (n + m // 2) % 3 if m % 2 else 3 + (n + m // 2) % 5])
    yield "rectangles", out
    out = []
    for q, box in enumerate(POLYGONS):
        for n, c in enumerate(sets):
            if any(overlap(ALPHA[i], s) for i in c for s in sides_of(box)):
                continue
            for m in range(2 * len(box)) if len(c) < 2 and tier == "thorough" else ((n + q) % (2 * len(box)),):
                out.append([("skew", "rot", "small", "id", "flat")[(n + m) % 5], list(c), m, (0, 3, 4, 0, 7)[(n + q) % 5], q])
    yield "polygons", out


def onbd(p, box=BOX):
    return [i for i in range(len(box)) if on_segment(p, box[i], box[(i + 1) % len(box)])]


def corners(m, box=BOX):
    """The corners in order from one of them on, one way or the other."""
    k = m % len(box)
    out = box[k:] + box[:k]
    return out if m < len(box) else out[::-1]


def place(e, p):
    if e == "skew":
        return emb("rot", (F(p[0]) + F(p[1]) / 4, p[1], p[2]))
    if e == "flat":
        return emb("shift", (3 * p[0], F(p[1]) / 2, p[2]))
    return emb(e, p)


def sides_of(box):
    return [(box[i], box[(i + 1) % len(box)]) for i in range(len(box))]


def expected(segs, box=BOX):
    sides = sides_of(box)
    pieces = []
    allsegs = [(2 + i, s) for i, s in enumerate(sides)] + [(100, s) for s in segs]
    pts = {}
    for k, (t, s) in enumerate(allsegs):
        cut = {tuple(map(F, s[0])), tuple(map(F, s[1]))}
        for l, (t2, s2) in enumerate(allsegs):
            if l != k:
                if t < 100 and t2 < 100: continue
                for x in segment_segment(*s, *s2):
                    cut.add(tuple(map(F, x)))
        d = sub(s[1], s[0])
        cut = sorted(cut, key=lambda x: dot(sub(x, s[0]), d))
        for p, q in zip(cut, cut[1:]):
            m = mul(F(1, 2), add(p, q))
            if in_polygon(m, box):
                pieces.append((t, p, q))
    return pieces


def build(case):
    """The domain, its fractures, its corners, the tags of pieces, of inner end points and of crossings."""
    e, ids, m, tags, shape = (case + [0, 0, None])[:5]
    emb = place
    segs = [ALPHA[i] for i in ids]
    ring = corners(m, POLYGONS[shape] if shape is not None else BOX)
    box = np.array([emb(e, p) for p in ring])
    lines = np.array([[emb(e, p) for p in s] for s in segs]) if segs else None
    n = len(ring)
    side = {2 + i: SHARED[tags - 3][i % 4] if tags > 2 else 2 + i for i in range(n)}
    line, inner, point = SHARED[tags - 3][4:] if tags > 2 else (100, 200, 300)
    side[100] = line
    if tags > 2 or n != 4:
        D = create_md_box_2D(box, {"area": 1, **{f"bc_{i}": side[2 + i] for i in range(n) if side[2 + i] is not None}}, lines, {"line": line, "internal_bc": inner, "point": point})
    elif tags == 0:
        D = create_md_box_2D(box, dict(PT), lines, dict(FT))
    elif tags == 1:
        D = create_md_box_2D(box, None, lines)
    elif segs:
        D = create_md_box_2D(box_points=box, domain_physical_tags=None, lines=lines, fracture_physical_tags=dict(FT))
    else:
        D = create_md_box_2D(box, dict(PT))
    return D, segs, ring, side, inner, point


def run_case(space, case, rep):
    e, ids, m, tags, shape = (case + [0, 0, None])[:5]
    emb = place
    D, segs, ring, side, inner, point = build(case)
    rep.step()
    rep.state([sorted(ids), m])
    exp = expected(segs, ring)
    edges = [x for x in D.shapes[1] if not x.composite]
    rep.expect(len(edges) == len(exp), "n edges", lambda: f"{len(edges)} {len(exp)}")
    for t, p, q in exp:
        P, Q = emb(e, p), emb(e, q)
        hit = [x for x in edges if x.physical_tag == side[t] and any(np.allclose(x.boundary_points(), np.array(o), rtol=1e-12) for o in ((P, Q), (Q, P)))]
        rep.expect(len(hit) == 1, "piece", lambda: f"{t} {p} {q} {len(hit)}")
    pts = {p for t, p, q in exp} | {q for t, p, q in exp}
    rep.expect(len(D.shapes[0]) == len(pts), "n vertices", lambda: f"{len(D.shapes[0])} {len(pts)}")
    for p in pts:
        at = [v for v in D.shapes[0] if np.allclose(v.point, emb(e, p), rtol=1e-12)]
        rep.expect(len(at) == 1, "vertex", lambda: f"{p} {[(v.tag, v.physical_tag) for v in at]}")
        deg = sum(1 for x in edges for v in x.boundary_shapes if any(v.tag==w.tag for w in at))
        want = sum((p == a) + (p == b) for t, a, b in exp)
        rep.expect(deg == want, "incidence", lambda: f"{p} {deg} {want}")
        b = onbd(p, ring)
        nf = sum(1 for s in segs if on_segment(p, *s))
        if b and len(b)==1: want = {side[2 + b[0]]}
        elif b: want = {None, side[2 + b[0]], side[2 + b[1]]}
        elif nf > 1: want = {point}
        else: want = {inner}
        if len(at)==1:
            if not segs:
                want = want | {None}
            rep.expect(at[0].physical_tag in want, "vertex tag", lambda: f"{p} {at[0].physical_tag} {want}")
    for d in (0, 1):
        tg = [x.tag for x in D.shapes[d]]
        rep.expect(len(set(tg)) == len(tg), f"tags dim {d}", lambda: f"{sorted(tg)}")
    w = [x for x in D.shapes[1] if x.composite]
    rep.expect(len(w) == 1, "wire")
    w = w[0]
    # closed loop
    s = 0; 
    cur = None
    ok = True
    vs = []
    for ed, o in zip(w.immersed_shapes, w.orientation):
        a, b = ed.boundary_shapes
        if o < 0: a, b = b, a
        if cur is not None and cur.tag != a.tag: ok = False
        cur = b
        if not vs: vs.append(a)
        vs.append(b)
    rep.expect(ok and vs[0].tag == vs[-1].tag, "closed wire", lambda: f"{[v.tag for v in vs]}")
    rep.expect(len(w.immersed_shapes) == sum(1 for x in exp if x[0] < 100), "wire edges")
    faces = list(D.shapes[2])
    if rep.expect(len(faces) == 1 and D.dimension == 2, "one face", lambda: f"{len(faces)}"):
        f = faces[0]
        rep.expect(f.physical_tag == 1 and len(f.boundary_shapes) == 1 and f.boundary_shapes[0] is w, "face inside of the loop", lambda: f"{f.physical_tag}")
        loop = {x.tag for x in w.immersed_shapes}
        mine = {x.tag for x in f.immersed_shapes if not x.composite} - loop
        rep.expect(mine == {x.tag for x in edges} - loop, "fractures lie in the face", lambda: f"{mine}")
