"""G01: points against segments and triangles, singly, in batches and in order."""
import itertools

import numpy as np

from geometry.operations.point_geometry_operations import (
    point_line_incidence,
    point_line_intersection,
    point_triangle_intersection,
    points_line_argsort,
    points_line_intersection,
    points_triangle_intersection,
)
from mc.exact import F, cross, dot, in_triangle, on_line, on_segment, sub, zero
from mc.geo import emb, grid

ID = "G01"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "every ordered pair of the 3x3x3 grid as a segment x every point of the half grid around one of 5 motions (rotated, far from the origin, 1000 times smaller in general position, 1000 times larger, and stretched 20 times and sheared); every ordered triple of the 2x2x2 grid as a triangle x every point of its half grid and of one layer around it; batches with their masks; every order of the collinear points of a line for the sorting",
    "thorough": "7 motions (one 12 times larger); triangles on the 3x3x3 grid (every set, 2 orders)",
}


def half(n, pad):
    return [tuple(F(x, 2) for x in p) for p in itertools.product(range(-pad, 2 * n - 1 + pad), repeat=3)]


def spaces(tier):
    t = tier == "thorough"
    es = ("shift", "rot", "id", "big", "small", "large", "slim", "far", "half", "huge", "tiny") if t else ("far", "rot", "tiny", "slim", "huge")
    g = [tuple(p) for p in grid(3, 3)]
    yield "segments", [[e, a, b] for e in es for a in g for b in g if a != b]
    g2 = [tuple(p) for p in grid(2, 3)]
    yield "triangles", [
        [e, 2, list(c)] for e in es for c in itertools.permutations(g2, 3)
        if not zero(cross(sub(c[1], c[0]), sub(c[2], c[0])))
    ]
    if t:
        yield "large triangles", [
            [e, 3, list(c)] for e in ("rot",)
            for s in itertools.combinations(g, 3) for c in (s, (s[2], s[0], s[1]))
            if not zero(cross(sub(c[1], c[0]), sub(c[2], c[0])))
        ]
    yield "sorting", [[e, list(a), list(b)] for e in es for a in g2 for b in g2 if a != b]


def run_case(space, case, rep):
    if space == "segments":
        e, a, b = case
        a, b = tuple(a), tuple(b)
        pts = half(3, 0)
        args = (emb(e, a), emb(e, b))
        inside = [on_segment(p, a, b) for p in pts]
        single, many = point_line_intersection, points_line_intersection
        for p in pts:
            rep.expect(bool(point_line_incidence(emb(e, p), *args)) == on_line(p, a, b), "point on the line of a segment", lambda: f"{p}")
    elif space == "sorting":
        return sorting(case, rep)
    else:
        e, n, c = case
        c = [tuple(p) for p in c]
        pts = half(n, 1 if n == 2 else 0)
        args = tuple(emb(e, p) for p in c)
        inside = [in_triangle(p, *c) for p in pts]
        single, many = point_triangle_intersection, points_triangle_intersection
    X = np.array([emb(e, p) for p in pts])
    for p, x, i in zip(pts, X, inside):
        out = single(x, *args)
        rep.step()
        rep.outcome("in" if i else "out")
        ctx = lambda: f"point {tuple(map(float, p))}: {out}"
        if i:
            rep.expect(out is not None and np.allclose(out, x, rtol=1e-12, atol=1e-9), "incident point", ctx)
        else:
            rep.expect(out is None, "point that is not incident", ctx)
    rep.state(case)
    for sel in (slice(None), slice(0, None, 5), slice(None, None, -3)):
        out, mask = many(X[sel], *args)
        rep.step()
        rep.expect(list(map(bool, mask)) == inside[sel], "mask of a batch")
        want = X[sel][np.array(inside[sel])]
        rep.expect(len(out) == len(want) and (len(want) == 0 or np.allclose(out, want, rtol=1e-12, atol=1e-9)), "points of a batch")


def sorting(case, rep):
    e, a, b = case
    a, b = tuple(a), tuple(b)
    A, B = emb(e, a), emb(e, b)
    ts = (0.0, 0.125, 0.5, 0.75, 1.0)
    rep.state(case)
    for k in (1, 2, 3, 5):
        for s in itertools.permutations(ts, k):
            x = np.array([A + t * (B - A) for t in s])
            for rev in (False, True):
                idx = points_line_argsort(x, A, B, rev)
                rep.step()
                got = [s[i] for i in idx]
                rep.expect(got == sorted(s, reverse=rev), "order along a segment", lambda: f"{s} {rev} {got}")
