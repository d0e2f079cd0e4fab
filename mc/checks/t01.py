"""T01: identity, membership, assignment and orientation of shapes.

The reference model of a shape is a nested tuple; every pair of shapes of a bounded
universe is compared, and every wire that can be made of a few edges is walked.
"""
import itertools

import numpy as np

from topology.composite_solid import CompositeSolid
from topology.edge import Edge
from topology.face import Face
from topology.shape import Shape
from topology.shell import Shell
from topology.solid import Solid
from topology.vertex import Vertex
from topology.wire import Wire

ID = "T01"
LEVEL = "model_checking"
CHUNK = 16
BOUNDS = {
    "quick": "every pair of a universe of 60 shapes of all dimensions (tags {0,1,2}, two points, every small set of boundary and immersed shapes): equality, membership, assignment; every sequence of 2 assignments; wires: every chain and closed loop of <=4 edges x every numbering of its vertices x every order of the end vertices of each edge, passed in both directions (loops of 4: numberings from 0 on)",
    "thorough": "as quick, every sequence of 3 assignments of a class, chains and loops of 5 edges",
}
# two places that are apart, however far from the origin
PTS = [np.array([1e5, -2e5, 5e4]), np.array([1e5 + 0.5, -2e5 + 0.25, 5e4 + 0.125])]
ADMISSIBLE = {"V": [0], "E": [0, 1], "W": [0, 1], "F": [0, 1, 2], "S": [0, 1, 2], "B": [0, 1, 2, 3], "C": [0, 1, 2, 3]}
DIM = {"V": 0, "E": 1, "W": 1, "F": 2, "S": 2, "B": 3, "C": 3}
COMPOSITE = {"W", "S", "C"}


def universe():
    """Reference shapes: (kind, tag, point or None, boundary, immersed)."""
    V = [("V", t, p, (), ()) for t in (0, 1, 2) for p in (0, 1)]
    v = {(x[1], x[2]): x for x in V}
    E = [
        ("E", t, None, b, ())
        for t in (0, 1)
        for b in ((v[0, 0], v[1, 1]), (v[0, 1], v[1, 1]), (v[0, 0], v[2, 1]), (v[1, 0], v[2, 1]))
    ]
    E += [("E", 0, None, (v[0, 0], v[1, 1]), (v[2, 0],)), ("E", 0, None, (v[0, 0], v[1, 1]), (v[2, 1],))]
    e = E
    W = [
        ("W", t, None, (b,), im)
        for t in (0, 5)
        for b, im in ((v[0, 0], (e[0], e[2])), (v[0, 0], (e[0],)), (v[1, 0], (e[0], e[2])), (v[0, 0], (e[2], e[0])))
    ]
    F = [
        ("F", t, None, b, im)
        for t in (0, 1)
        for b, im in (((W[0],), ()), ((W[1],), ()), ((W[0],), (e[0],)), ((W[0],), (v[0, 1], e[0])), ((v[2, 0], W[4]), (e[1],)))
    ]
    S = [("S", t, None, (W[0],), im) for t in (0, 1) for im in ((F[0],), (F[0], F[6]), (F[5],))]
    B = [("B", t, None, b, im) for t in (0, 1) for b, im in (((S[0],), ()), ((S[1],), (F[0],)), ((S[0],), (v[0, 0],)))]
    C = [("C", t, None, (), im) for t in (0, 1) for im in ((B[0],), (B[0], B[4]))]
    return V + E + W + F + S + B + C


U = universe()


def build(m):
    kind, tag, p, bnd, imm = m
    b = np.array([build(x) for x in bnd] + [None], dtype=object)[:-1]
    i = np.array([build(x) for x in imm] + [None], dtype=object)[:-1]
    if kind == "V":
        s = Vertex(tag, PTS[p].copy())
    elif kind == "E":
        s = Edge(tag, b)
        s.immersed_shapes = i
    elif kind == "W":
        s = Wire(tag, i, b)
    elif kind == "F":
        s = Face(tag, b)
        s.immersed_shapes = i
    elif kind == "S":
        s = Shell(tag, i, b)
    elif kind == "B":
        s = Solid(tag, b)
        s.immersed_shapes = i
    else:
        s = CompositeSolid(tag, i, b)
    s.physical_tag = 10 * tag + len(bnd)
    return s


def flat(m):
    """What a wire lists: the edges it is made of, or what they were cut into."""
    return m[4]


def eq(a, b):
    """Reference equality: dimension, tag, point, and boundary and immersed shapes."""
    if (DIM[a[0]], a[1]) != (DIM[b[0]], b[1]):
        return False
    if a[0] == "V":
        return a[2] == b[2]
    key = lambda m: sorted(m[3], key=lambda x: x[1])
    return all(
        len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        for x, y in ((key(a), key(b)), (wired(a), wired(b)))
    )


def wired(m):
    if m[0] != "W":
        return list(m[4])
    out = []
    for e in m[4]:
        # vertices in an edge do not divide it
        out += [x for x in e[4] if x[0] != "V"] or [e]
    return out


def member(a, b):
    return any(eq(b, x) for x in list(a[3]) + wired(a))


def spaces(tier):
    t = tier == "thorough"
    yield "pairs", [[i] for i in range(len(U))]
    yield "assignments", [[i, j] for i in range(len(U)) for j in range(len(U))]
    if t:
        yield "three assignments", [
            [i, j, k] for i, j, k in itertools.product(range(len(U)), repeat=3)
            if DIM[U[i][0]] == DIM[U[j][0]] == DIM[U[k][0]]
        ]
    yield "wires", [
        [n, closed, list(p)]
        for n in ((1, 2, 3, 4, 5) if t else (1, 2, 3, 4))
        for closed in (0, 1)
        if not (closed and n < 3)
        for p in itertools.permutations(range(n if closed else n + 1))
    ]
    yield "setters", [[i, j] for i in range(len(U)) for j in range(len(U))]


def same(s, m):
    """The real shape is the reference shape, seen through its accessors."""
    if (s.dimension, s.tag) != (DIM[m[0]], m[1]):
        return False
    if m[0] == "V":
        return np.array_equal(s.point, PTS[m[2]])
    b = sorted(m[3], key=lambda x: x[1])
    w = wired(m)
    return (
        len(s.boundary_shapes) == len(b)
        and len(s.immersed_shapes) == len(w)
        and all(same(x, y) for x, y in zip(s.boundary_shapes, b))
        and all(same(x, y) for x, y in zip(s.immersed_shapes, w))
    )


def run_case(space, case, rep):
    if space == "wires":
        return wires(case, rep)
    rep.state(case)
    if space == "pairs":
        a = build(U[case[0]])
        rep.expect(same(a, U[case[0]]), "construction", lambda: f"{U[case[0]]}")
        for m in U:
            b = build(m)
            rep.step(3)
            w = eq(U[case[0]], m)
            rep.outcome(f"equal {w}")
            rep.expect(bool(a == b) == w and bool(b == a) == w, "equality", lambda: f"{U[case[0]]} {m} {a == b}")
            rep.expect(bool(a != b) == (not w), "inequality", lambda: f"{U[case[0]]} {m}")
            w = member(U[case[0]], m)
            rep.outcome(f"member {w}")
            rep.expect((b in a) == w, "membership", lambda: f"{m} in {U[case[0]]}: {b in a}")
            if a.boundary_shapes.size or a.immersed_shapes.size:
                rep.expect((a.hash() == b.hash()) == ((a.dimension, a.tag) == (b.dimension, b.tag)), "hash is that of dimension and tag")
            rep.expect(a.index() == (3 - a.dimension, a.tag) and a.index(max_dimension=2) == (2 - a.dimension, a.tag), "index")
        return
    if space == "setters":
        return setters(case, rep)
    m = [U[i] for i in case]
    s = build(m[0])
    cur = m[0]
    for x in m[1:]:
        o = build(x)
        rep.step()
        bad = DIM[cur[0]] != DIM[x[0]] or (cur[0] in COMPOSITE) != (x[0] in COMPOSITE)
        try:
            s.shape_assignment(o)
            ok = True
        except ValueError:
            ok = False
        rep.outcome(f"assignment {'accepted' if ok else 'refused'}")
        rep.expect(ok == (not bad), "assignment between kinds", lambda: f"{cur} <- {x}: accepted {ok}")
        if ok:
            cur = x
            rep.expect(s == o and s.physical_tag == o.physical_tag and s.active == o.active, "assignment copies the shape", lambda: f"{x}")
        rep.expect(same(s, cur), "state after an assignment", lambda: f"{cur}")


def setters(case, rep):
    """A shape refuses boundary or immersed shapes of a dimension it cannot have."""
    m, x = (U[i] for i in case)
    for name in ("boundary_shapes", "immersed_shapes"):
        s = build(m)
        new = np.array([build(x), None], dtype=object)[:1]
        ok = DIM[x[0]] in ADMISSIBLE[m[0]]
        before = list(getattr(s, name))
        rep.step()
        try:
            setattr(s, name, new)
            took = True
        except ValueError:
            took = False
        rep.outcome(f"{m[0]} {name} {took}")
        rep.expect(took == ok, "admissible dimensions", lambda: f"{m[0]}.{name} <- {x[0]}: {took}")
        after = list(getattr(s, name))
        if not took:
            rep.expect(len(before) == len(after) and all(p is q for p, q in zip(before, after)), "a refused value changes nothing")
        elif not (m[0] == "W" and x[4]):
            rep.expect(len(after) == 1 and after[0] is new[0], "an accepted value is kept", lambda: f"{m[0]}.{name} <- {x}")


def wires(case, rep):
    n, closed, perm = case
    rep.state(case)
    if closed:
        chain = [(perm[i], perm[(i + 1) % n]) for i in range(n)]
    else:
        chain = [(perm[i], perm[i + 1]) for i in range(n)]
    for flip in itertools.product((0, 1), repeat=n):
        v = [Vertex(t, np.array([t * 1.0, t * t * 1.0, 0.0])) for t in range(max(perm) + 1)]
        tags = list(range(10, 10 + n))[:: -1 if sum(flip) % 2 else 1]
        edges = np.array([Edge(t, np.array([v[a], v[b]] if not f else [v[b], v[a]])) for (a, b), f, t in zip(chain, flip, tags)])
        for i in range(sum(flip) % 2, n, 2):
            # vertices in an edge do not divide it
            edges[i].immersed_shapes = np.array([Vertex(70 + i, np.array([0.5, 1.0, 2.0])), Vertex(80 + i, np.array([0.5, 1.0, 3.0]))])
        ends = [v[perm[0]]] if closed else [v[perm[0]], v[perm[-1]]]
        w = Wire(99, edges, np.array(ends))
        rep.step()
        ctx = lambda: f"edges {chain} orientation {list(w.orientation)}"
        path = [list(e.boundary_shapes)[:: int(o)] for e, o in zip(edges, w.orientation)]
        got = [[x.tag for x in p] for p in path]
        ok = len(got) == n and all(p[1] == q[0] for p, q in zip(got, got[1:])) and all({*p} == {*c} for p, c in zip(got, chain))
        rep.expect(ok, "the oriented edges form a path", ctx)
        if n > 1:
            rep.expect(got == [list(c) for c in chain], "the path follows the order of the edges", ctx)
        if closed:
            rep.expect(got[-1][1] == got[0][0], "a closed wire ends where it starts", ctx)
            rep.expect(v[perm[0]] in w, "a closed wire has its vertex", ctx)
        vs = [x.tag for x in w.orient_immersed_vertices()]
        rep.expect(vs == [p[0] for p in got], "vertices along the path", lambda: f"{vs} {ctx()}")
        bp = w.boundary_points()
        rep.expect(np.array_equal(bp, np.array([v[got[0][0]].point, v[got[-1][1]].point])), "end points of the path", lambda: f"{bp} {ctx()}")
        rep.expect(all(e in w for e in edges), "a wire has its edges", ctx)
        rep.outcome(f"{n} edges closed={closed}")
        # renumbering the vertices and refreshing the orientation keeps the path
        for t, x in enumerate(v[::-1]):
            x.tag = t
        w.orient_immersed_edges()
        path = [list(e.boundary_shapes)[:: int(o)] for e, o in zip(edges, w.orientation)]
        ok = all(p[1] is q[0] for p, q in zip(path, path[1:]))
        rep.expect(ok, "the path after renumbering", ctx)
        # the same edges, passed in the other direction
        w.immersed_shapes = edges[::-1]
        w.orient_immersed_edges()
        path = [list(e.boundary_shapes)[:: int(o)] for e, o in zip(edges[::-1], w.orientation)]
        ok = len(w.orientation) == n and all(p[1] is q[0] for p, q in zip(path, path[1:]))
        rep.expect(ok, "the path in the other direction", ctx)
        if n > 1:
            got, bp = w.orient_immersed_vertices(), w.boundary_points()
            rep.expect(len(got) == n and all(a is p[0] for a, p in zip(got, path)), "vertices in the other direction", ctx)
            rep.expect(np.array_equal(bp, np.array([path[0][0].point, path[-1][1].point])), "end points in the other direction", lambda: f"{bp} {ctx()}")
