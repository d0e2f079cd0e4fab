"""Exact (integer / rational) geometry: the oracle side. Uses nothing of /repo."""
from fractions import Fraction as F


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(s, a):
    return tuple(s * x for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    )


def zero(a):
    return all(x == 0 for x in a)


def on_line(p, a, b):
    return zero(cross(sub(b, a), sub(p, a)))


def on_segment(p, a, b):
    """p on the closed segment ab (a != b)."""
    return on_line(p, a, b) and dot(sub(p, a), sub(p, b)) <= 0


def segment_segment(a, b, c, d):
    """Exact intersection set of two closed non-degenerate segments in R^3.

    Returns () | (p,) | (p, q): empty, one point, or the end points of the
    common sub-segment.
    """
    u, v, w = sub(b, a), sub(d, c), sub(c, a)
    n = cross(u, v)
    if zero(n):  # parallel
        if not zero(cross(u, w)):
            return ()
        uu = dot(u, u)
        t0, t1 = F(dot(w, u), uu), F(dot(sub(d, a), u), uu)
        lo, hi = max(F(0), min(t0, t1)), min(F(1), max(t0, t1))
        if lo > hi:
            return ()
        p = add(a, mul(lo, u))
        if lo == hi:
            return (p,)
        return (p, add(a, mul(hi, u)))
    if dot(w, n) != 0:
        return ()
    nn = dot(n, n)
    t = F(dot(cross(w, v), n), nn)
    s = F(dot(cross(w, u), n), nn)
    if 0 <= t <= 1 and 0 <= s <= 1:
        return (add(a, mul(t, u)),)
    return ()


def coplanar(p, a, b, c):
    return dot(cross(sub(b, a), sub(c, a)), sub(p, a)) == 0


def in_triangle(p, a, b, c):
    """p in the closed non-degenerate triangle abc of R^3."""
    n = cross(sub(b, a), sub(c, a))
    if dot(n, sub(p, a)) != 0:
        return False
    return all(
        dot(n, cross(sub(y, x), sub(p, x))) >= 0 for x, y in ((a, b), (b, c), (c, a))
    )


def orient2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def area2(poly):
    """Twice the signed area of a planar polygon given in 2D."""
    n = len(poly)
    return sum(
        poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1]
        for i in range(n)
    )


def vector_area2(poly):
    """Twice the vector area of a planar polygon of R^3 (normal direction)."""
    s = (0, 0, 0)
    for i in range(1, len(poly) - 1):
        s = add(s, cross(sub(poly[i], poly[0]), sub(poly[i + 1], poly[0])))
    return s


def in_polygon(p, poly):
    """p in the closed simple planar polygon of R^3. Exact crossing number."""
    n = vector_area2(poly)
    if dot(n, sub(p, poly[0])) != 0:
        return False
    m = len(poly)
    for i in range(m):
        if on_segment(p, poly[i], poly[(i + 1) % m]):
            return True
    k = max(range(3), key=lambda i: abs(n[i]))
    ax = [i for i in range(3) if i != k]
    q = (p[ax[0]], p[ax[1]])
    r = [(v[ax[0]], v[ax[1]]) for v in poly]
    inside = False
    for i in range(m):
        (x0, y0), (x1, y1) = r[i], r[(i + 1) % m]
        if (y0 > q[1]) != (y1 > q[1]):
            # exact abscissa of the edge at height q[1]
            x = F(x1 - x0) * F(q[1] - y0) / F(y1 - y0) + x0
            if x > q[0]:
                inside = not inside
    return inside


def is_simple(poly2):
    """Simple polygon in 2D: no repeated vertex, edges meet only at shared ends."""
    m = len(poly2)
    P = [(x, y, 0) for x, y in poly2]
    if len(set(P)) != m:
        return False
    for i in range(m):
        a, b = P[i], P[(i + 1) % m]
        for j in range(i + 1, m):
            c, d = P[j], P[(j + 1) % m]
            s = segment_segment(a, b, c, d)
            if j == i + 1 or (i == 0 and j == m - 1):
                shared = b if j == i + 1 else a
                if m == 3:
                    continue
                if s != (shared,) and not (len(s) == 1 and tuple(s[0]) == shared):
                    return False
            elif s:
                return False
    return area2(poly2) != 0


def is_convex_strict(poly2):
    m = len(poly2)
    s = {
        (lambda v: (v > 0) - (v < 0))(
            orient2(poly2[i], poly2[(i + 1) % m], poly2[(i + 2) % m])
        )
        for i in range(m)
    }
    return s == {1} or s == {-1}


def has_collinear(poly2):
    m = len(poly2)
    return any(
        orient2(poly2[i], poly2[(i + 1) % m], poly2[(i + 2) % m]) == 0
        for i in range(m)
    )


def segment_polygon_params(p, q, poly):
    """Exact set of t in [0,1] with p+t(q-p) in the closed simple polygon.

    Returned as a sorted list of closed intervals [(t0,t1),...] (t0==t1: point).
    """
    n = vector_area2(poly)
    d = sub(q, p)
    a0, a1 = dot(n, sub(p, poly[0])), dot(n, sub(q, poly[0]))
    if a0 != 0 or a1 != 0:
        if a0 == a1 or a0 * a1 > 0:
            return []
        t = F(a0, a0 - a1)
        return [(t, t)] if in_polygon(add(p, mul(t, d)), poly) else []
    # coplanar: cut at the polygon's boundary, test the midpoints
    ts = {F(0), F(1)}
    m = len(poly)
    dd = dot(d, d)
    for i in range(m):
        for x in segment_segment(p, q, poly[i], poly[(i + 1) % m]):
            ts.add(F(dot(sub(x, p), d)) / dd)
    ts = sorted(ts)
    out = []
    for i, t in enumerate(ts):
        if in_polygon(add(p, mul(t, d)), poly):
            out.append([t, t])
    res = []
    for t0, t1 in zip(ts, ts[1:]):
        if in_polygon(add(p, mul((t0 + t1) / 2, d)), poly):
            res.append([t0, t1])
    ivs = sorted([tuple(x) for x in out + res])
    merged = []
    for iv in ivs:
        if merged and iv[0] <= merged[-1][1]:
            merged[-1] = (merged[-1][0], max(iv[1], merged[-1][1]))
        else:
            merged.append(iv)
    return merged
