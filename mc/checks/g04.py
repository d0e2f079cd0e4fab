"""G04: segments against triangles and polygons, in exact rational arithmetic.

A segment that is not in the plane of the polygon has at most one point in common
with it, and the query reports exactly that. For a segment in the plane of the
polygon the query reports a subset of the common points: their extremes when both
end points of the segment are outside of the polygon.
"""
import itertools

import numpy as np

from geometry.operations.line_geometry_operations import (
    line_polygon_intersection,
    line_triangle_intersection,
    lines_polygon_intersection,
    lines_triangle_intersection,
)
from mc.checks.g03 import polys
from mc.exact import F, add, in_polygon, is_convex_strict, mul, segment_polygon_params, sub
from mc.geo import emb, grid, lift

ID = "G04"
LEVEL = "model_checking"
CHUNK = 2
BOUNDS = {
    "quick": "one simple triangle and one simple quadrilateral per symmetry class of the 3x3 grid, alternating orientation and motion (far from the origin, rotation, 1000 times smaller, 1000 times larger, stretched 20 times and sheared); segments between every two points of the grids at heights -1, 0 and 1 (not both 0) and every pair (triangles: ordered pair) of the points {-1..3}^2 in its plane; batches of all of them",
    "thorough": "as quick, with every simple triangle and quadrilateral, one pentagon in 4 and one hexagon in 60 (of the lexicographic list), under 7 motions (scales 0.02 to 12; stretched and sheared)",
}


def canonical(p):
    """First of the images of the polygon under the symmetries of the grid."""
    imgs = []
    for f in (lambda x, y: (x, y), lambda x, y: (y, x)):
        for a in (0, 1):
            for b in (0, 1):
                q = [f(*v) for v in p]
                q = [(2 - x if a else x, 2 - y if b else y) for x, y in q]
                k = q.index(min(q))
                q = q[k:] + q[:k]
                imgs.append(q)
    return list(map(tuple, p)) == min(imgs)


def spaces(tier):
    t = tier == "thorough"
    es = ("shift", "rot", "id", "yz", "small", "large", "slim", "far", "half", "huge", "tiny") if t else ("far", "huge", "tiny")
    for m in (3, 4, 5, 6) if t else (3, 4):
        P = list(polys(3, m))
        if not t:
            # one polygon per symmetry class, every other one reversed
            P = [p[:1] + p[:0:-1] if i % 2 else p for i, p in enumerate(filter(canonical, P))]
            yield f"polygons of {m} vertices", [[("far", "tiny", "huge", "slim", "rot")[i % 5], int(m == 3), [list(lift(x)) for x in p]] for i, p in enumerate(P)]
            continue
        P = P[:: {5: 4, 6: 60}.get(m, 1)]
        yield f"polygons of {m} vertices", [[e, 1, [list(lift(x)) for x in p]] for e in es for p in P]


def segments(both):
    g = [(x, y) for x in range(3) for y in range(3)]
    for za, zb in ((-1, 1), (1, -1), (0, 1), (-1, 0), (1, 1)):
        for a in g if za else [(F(x, 2), F(y, 2)) for x in range(-1, 6) for y in range(-1, 6)]:
            for b in g if zb else [(F(x, 2), F(y, 2)) for x in range(-1, 6) for y in range(-1, 6)]:
                if (za, zb) == (1, 1) and (a == b or a > b or (a[0] + a[1]) % 2):
                    continue
                if not za and (b[0] + b[1]) % 2 or not zb and (a[0] + a[1]) % 2:
                    continue
                yield a + (za,), b + (zb,)
    g = [(x, y, 0) for x in range(-1, 4) for y in range(-1, 4)]
    for i, (a, b) in enumerate(itertools.combinations(g, 2)):
        yield (b, a) if (i // 2) % 2 else (a, b)
        if both:
            yield (a, b) if (i // 2) % 2 else (b, a)


LISTS = [list(segments(0)), list(segments(1))]


def points_of(out):
    return np.asarray(out, float).reshape(-1, 3)


def run_case(space, case, rep):
    e, both, poly = case
    SEGMENTS = LISTS[both]
    poly = [tuple(p) for p in poly]
    P = np.array([emb(e, p) for p in poly])
    queries = [("polygon", line_polygon_intersection, lines_polygon_intersection, (P,))]
    if len(poly) == 3:
        queries.append(("triangle", line_triangle_intersection, lines_triangle_intersection, tuple(P)))
    inside = {}

    def isin(p):
        if p not in inside:
            inside[p] = in_polygon(p, poly)
        return inside[p]

    wants = [segment_polygon_params(a, b, poly) for a, b in SEGMENTS]
    lines = np.array([[emb(e, a), emb(e, b)] for a, b in SEGMENTS])
    for name, one, many, args in queries:
        outs = []
        for (a, b), L, want in zip(SEGMENTS, lines, wants):
            out = one(L, *args)
            outs.append(out)
            rep.step()
            check(name, e, a, b, L, want, out, isin, rep)
        rep.state([e, poly, name])
        # the batch reports what the single queries report, in their order
        for k, batch in enumerate((slice(0, None, 7), slice(3, None, 11), slice(1, 300, 5))):
            got, mask = many(lines[batch], *args)
            rep.step()
            ref = outs[batch]
            ok = list(map(bool, mask)) == [o is not None for o in ref]
            ref = [o for o in ref if o is not None]
            ok = ok and len(got) == len(ref) and all(np.array_equal(points_of(x), points_of(y)) for x, y in zip(got, ref))
            rep.expect(ok, f"{name}: batch differs from the single queries", lambda: f"batch {k}")


def check(name, e, a, b, L, want, out, isin, rep):
    flat = a[2] == b[2] == 0
    at = lambda t: emb(e, add(a, mul(t, sub(b, a))))
    ctx = lambda: f"segment {[float(x) for x in a]}-{[float(x) for x in b]} got {out} want {[tuple(map(float, w)) for w in want]}"
    if not want:
        rep.outcome(f"{name} none")
        rep.expect(out is None, f"{name}: reports an intersection that does not exist", ctx)
        return
    if not rep.expect(isinstance(out, np.ndarray), f"{name}: misses an intersection", ctx):
        return
    pts = points_of(out)
    if not flat:
        rep.outcome(f"{name} point")
        rep.expect(len(pts) == 1 and np.allclose(pts[0], at(want[0][0]), rtol=1e-12, atol=1e-9), f"{name}: wrong point", ctx)
        return
    lo, hi = at(want[0][0]), at(want[-1][1])
    if isin(a) or isin(b):
        rep.outcome(f"{name} in its plane, end point inside")
        d = lambda p: min(
            np.linalg.norm(p - at(max(u, min(v, t)))) for u, v in want
            for t in [np.dot(p - L[0], L[1] - L[0]) / np.dot(L[1] - L[0], L[1] - L[0])]
        )
        rep.expect(all(d(p) < 1e-9 for p in pts), f"{name}: reports a point that is not common", ctx)
        return
    rep.outcome(f"{name} in its plane, {'touching' if want[0][0] == want[-1][1] else 'crossing'}")
    pts = pts[np.argsort([np.dot(p - L[0], L[1] - L[0]) for p in pts])]
    rep.expect(np.allclose(pts[0], lo, rtol=1e-12, atol=1e-9) and np.allclose(pts[-1], hi, rtol=1e-12, atol=1e-9), f"{name}: wrong extremes", ctx)
