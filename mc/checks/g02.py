"""G02: segment-segment intersection against exact rational arithmetic."""
import numpy as np

from geometry.operations.line_geometry_operations import (
    line_line_intersection,
    lines_line_intersection,
    lines_lines_intersection,
)
from mc.exact import segment_segment
from mc.geo import emb, grid, lift

ID = "G02"
LEVEL = "model_checking"
CHUNK = 8
BOUNDS = {
    "quick": "every ordered pair of segments of the 4x4 planar grid and of the 2x2x2 grid, 3 motions (alternating in the plane; one far from the origin; one 1000 times smaller, one 1000 times larger); every batch of all segments of the 2x2x2 (3x3) grid against every segment; every pair of batches of 2 and 2 segments of an alphabet of 8; every ordered pair of segments between 10 points with lengths from 1 to 80",
    "thorough": "as quick with 6 motions each (one 12 times larger), and every ordered pair of segments of the 3x3x3 grid",
}
ALPHA = [
    ((0, 0, 0), (2, 2, 0)), ((0, 2, 0), (2, 0, 0)), ((0, 1, 0), (2, 1, 0)), ((1, 0, 0), (1, 2, 0)),
    ((0, 0, 0), (0, 2, 0)), ((1, 1, -1), (1, 1, 1)), ((2, 1, 1), (2, 1, -1)), ((0, 2, 0), (0, 0, 0)),
]


# long and short segments, and small angles
SLIM = [(-40, 0, 0), (40, 0, 0), (40, 1, 0), (-40, 1, 0), (1, 0, 0), (1, 1, 0), (1, -1, 0), (0, 0, 0), (0, 1, 1), (-39, 1, -1)]


def segs(n, dim):
    if n == "slim":
        return [(a, b) for a in SLIM for b in SLIM if a != b]
    g = [lift(p) for p in grid(n, dim)]
    return [(a, b) for a in g for b in g if a != b]


def spaces(tier):
    t = tier == "thorough"
    es = ("id", "rot", "shift", "big", "small", "large", "far", "half", "huge", "tiny") if t else ("far", "huge", "tiny", "half")
    yield "plane", [[e, 4, 2, a, b] for i, (a, b) in enumerate(segs(4, 2)) for e in (es if t else (es[i % 2],))]
    yield "space", [[e, 2, 3, a, b] for e in es for a, b in segs(2, 3)]
    yield "slim", [[e, "slim", dim, a, b] for i, (a, b) in enumerate(segs("slim", 3)) for e in (es if t else (es[i % 3],)) for dim in (3,)]
    if t:
        yield "large space", [["rot", 3, 3, a, b] for a, b in segs(3, 3)]
    yield "batches", [[e, n, dim, a, b] for e in es for n, dim in ((3, 2), (2, 3)) for a, b in segs(n, dim)]
    pairs = [[i, j] for i in range(8) for j in range(8) if i != j]
    yield "pairs of batches", [[e, p, q] for e in es for p in pairs for q in pairs if p[0] < p[1]]


def points_of(out):
    """Normalise the result: list of points, or None."""
    if out is None:
        return None
    if isinstance(out, tuple):
        out = out[0]
    return np.asarray(out, float).reshape(-1, 3)


def within(p, lo, hi):
    return abs(np.linalg.norm(p - lo) + np.linalg.norm(p - hi) - np.linalg.norm(hi - lo)) < 1e-9


def run_case(space, case, rep):
    if space == "batches":
        return batch(case, rep)
    if space == "pairs of batches":
        return batches(case, rep)
    e, n, dim, a, b = case
    a, b = tuple(a), tuple(b)
    A, B = emb(e, a), emb(e, b)
    for c, d in segs(n, dim):
        C, D = emb(e, c), emb(e, d)
        out = points_of(line_line_intersection(A, B, C, D))
        ex = segment_segment(a, b, c, d)
        rep.step()
        rep.state([a, b, c, d])
        kind = ["none", "point", "overlap"][len(ex)]
        rep.outcome(kind)
        ctx = lambda: f"{a, b} x {c, d}: got {out}, want {[tuple(map(str, p)) for p in ex]}"
        if kind == "none":
            rep.expect(out is None, "reports an intersection of disjoint segments", ctx)
        elif kind == "point":
            ok = out is not None and len(out) == 1 and np.allclose(out, emb(e, ex[0]), rtol=1e-12, atol=1e-9)
            rep.expect(ok, "misses the common point", ctx)
        elif rep.expect(out is not None and len(out) > 0, "misses an overlap", ctx):
            lo, hi = emb(e, ex[0]), emb(e, ex[1])
            rep.expect(all(within(p, lo, hi) for p in out), "reports a point outside of the overlap", ctx)


def batch(case, rep):
    e, n, dim, a, b = case
    a, b = tuple(a), tuple(b)
    all_ = segs(n, dim)
    exact = [segment_segment(c, d, a, b) for c, d in all_]
    rep.state(case)
    for sel in (slice(None), slice(0, None, 4), slice(None, None, -5)):
        ss = [(s, x) for s, x in zip(all_[sel], exact[sel]) if len(x) < 2]
        lines = np.array([[emb(e, c), emb(e, d)] for (c, d), _ in ss])
        out = points_of(lines_line_intersection(lines, emb(e, a), emb(e, b)))
        rep.step()
        want = np.array([emb(e, x[0]) for _, x in ss if x]).reshape(-1, 3)
        rep.expect(out.shape == want.shape and np.allclose(out, want, rtol=1e-12, atol=1e-9), "points of a batch", lambda: f"{out.tolist()} {want.tolist()}")


def batches(case, rep):
    e, p, q = case
    tools = [ALPHA[i] for i in p]
    objs = [ALPHA[i] for i in q]
    ar = lambda ss: np.array([[emb(e, c), emb(e, d)] for c, d in ss])
    rep.state(case)
    per, overlap = [], False
    for o in objs:
        pts = []
        for t in tools:
            if t != o:  # a segment is not intersected with itself
                x = segment_segment(*t, *o)
                overlap |= len(x) == 2
                pts += [emb(e, y) for y in x]
        per.append(np.array(pts).reshape(-1, 3))
    out = lines_lines_intersection(ar(tools), ar(objs))
    rep.step()
    ok = len(out) == len(objs)
    if not overlap:
        ok = ok and all(points_of(g).shape == w.shape and np.allclose(points_of(g), w, rtol=1e-12, atol=1e-9) for g, w in zip(out, per))
    rep.expect(ok, "points per object", lambda: f"{out} {per}")
    out = lines_lines_intersection(ar(tools), ar(objs), deduplicate_points_q=True)
    rep.step()
    uniq = lambda X: sorted({tuple(np.round(x, 7) + 0.0) for x in X})
    got = uniq(out)
    rep.outcome(f"{len(got)} points")
    if not overlap:
        rep.expect(len(out) == len(got) and np.allclose(np.array(got).reshape(-1, 3), np.array(uniq(np.concatenate(per))).reshape(-1, 3), rtol=1e-12, atol=1e-6), "distinct points", lambda: f"{out} {per}")
