"""G03: simple planar polygons against exact rational arithmetic."""
import itertools

import numpy as np

from geometry.operations.point_geometry_operations import (
    point_polygon_intersection,
    points_polygon_intersection,
)
from geometry.operations.polygon_geometry_operations import (
    convex_q,
    polygon_normal,
    triangulate_polygon,
    winding_number,
)
from mc.exact import F, area2, has_collinear, in_polygon, is_convex_strict, is_simple, on_segment
from mc.geo import SCALE, emb, grid, lift

ID = "G03"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "every simple polygon with 3 to 5 vertices of the 3x3 grid from its first vertex on (both orientations), every second one with 6; one of 7 motions per polygon (scales 0.001 to 1000; far from the origin; stretched 20 times and sheared); every half-grid point around the polygon, and points off its plane",
    "thorough": "every simple polygon with 3 to 7 vertices of the 3x3 grid, 2 motions each",
}
MOTIONS = ("id", "rot", "far", "zx", "small", "large", "slim", "half", "shift", "huge", "tiny")


def polys(n, m):
    g = [tuple(p) for p in grid(n, 2)]
    for c in itertools.permutations(g, m):
        if c[0] == min(c) and is_simple(c):
            yield c


def spaces(tier):
    t = tier == "thorough"
    for m in (3, 4, 5, 6, 7) if t else (3, 4, 5, 6):
        P = list(polys(3, m))
        if m == 6 and not t:
            P = P[::2]
        yield f"polygons of {m} vertices", [
            [MOTIONS[(i + j) % 7], [lift(x) for x in p]] for i, p in enumerate(P) for j in range(2 if t else 1)
        ]


def run_case(space, case, rep):
    e, poly = case
    poly = [tuple(p) for p in poly]
    m = len(poly)
    P = np.array([emb(e, p) for p in poly])
    up = emb(e, (0, 0, 1)) - emb(e, (0, 0, 0))
    p2 = [p[:2] for p in poly]
    col = has_collinear(p2)
    kind = ("convex" if is_convex_strict(p2) else "not convex") + (", collinear vertices" if col else "")
    rep.outcome(kind)
    ctx = lambda: f"{kind} {e} {p2}"
    rep.step(3)
    if not col:
        rep.expect(convex_q(P) == is_convex_strict(p2), "convexity", ctx)
    nn = polygon_normal(P)
    rep.expect(abs(np.linalg.norm(nn) - 1) < 1e-9 and np.linalg.norm(np.cross(nn, up)) < 1e-9, "normal", lambda: f"{ctx()} {nn}")
    T = triangulate_polygon(P)
    ar = sum(np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) for t in T)
    rep.expect(abs(ar - SCALE.get(e, 1.0) ** 2 * abs(area2(p2))) < 1e-9 * max(1.0, ar), "area of the triangulation", lambda: f"{ctx()} {ar}")
    points = [(F(x - 1, 2), F(y - 1, 2), 0) for x, y in grid(7, 2)]
    points += [(F(x, 2), F(y, 2), z) for x, y in grid(5, 2) for z in (1,)][:: 3]
    X = np.array([emb(e, q) for q in points])
    want = [in_polygon(q, poly) for q in points]
    orient = 1 if area2(p2) > 0 else -1
    for q, x, w in zip(points, X, want):
        got = point_polygon_intersection(x, P)
        rep.step()
        rep.state([poly, q])
        ok = (got is not None) == w and (got is None or np.allclose(got, x, rtol=1e-12, atol=1e-9))
        rep.expect(ok, "point of a polygon", lambda: f"{ctx()} q={tuple(map(float, q))} got {got} want {w}")
        # the winding number is planar: it reads the first two coordinates
        if e in ("id", "shift", "far") and q[2] == 0 and not any(on_segment(q, poly[i], poly[(i + 1) % m]) for i in range(m)):
            k = winding_number(x, P)
            rep.step()
            rep.expect(k == (orient if w else 0), "winding number", lambda: f"{ctx()} q={tuple(map(float, q))} got {k}")
    out, mask = points_polygon_intersection(X[::7], P)
    sel = np.array(want[::7])
    rep.step()
    rep.expect(list(map(bool, mask)) == list(sel), "mask of a batch", ctx)
    rep.expect(len(out) == sel.sum() and (not sel.any() or np.allclose(out, X[::7][sel], rtol=1e-12, atol=1e-9)), "points of a batch", ctx)
