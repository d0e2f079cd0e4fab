"""T04: domains: their lists, tags, lookups, incidence graphs, and the boxes."""
import itertools
import os

import numpy as np

from mc.geo import emb
from topology.domain import Domain
from topology.domain_market import build_box_1D, build_box_2D, build_box_3D, read_fractures_file
from topology.edge import Edge
from topology.face import Face
from topology.vertex import Vertex
from topology.wire import Wire

ID = "T04"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": "domains made of a square face and every subset of 6 features (a second face that shares a side, an immersed edge, an immersed vertex, a side split in two, a free vertex, a free edge) x 3 numberings x every sequence of at most 3 of 10 operations (renumber all or one dimension, build the graph of a dimension, drop unused vertices, reorient wires, append shapes); 2 to 4 vertices and edges with every choice of 3 tags and of physical tags, appended in every two parts; boxes: segments, every polygon on 3 to 5 of 6 points in order, the cube and a skewed one, x motions x choices of physical tags",
    "thorough": "sequences of at most 4 operations, one numbering for each set of features",
}
PTS = {
    "a": (0, 0, 0), "b": (4, 0, 0), "c": (4, 4, 0), "d": (0, 4, 0), "e": (8, 0, 0), "g": (8, 4, 0), "p": (1, 1, 0), "q": (3, 2, 0),
    "r": (2, 3, 0), "s": (2, 0, 0), "z": (9, 9, 0), "y": (0, 7, 0), "Y": (3, 7, 0), "x": (5, 7, 1),
}
OPS = ["R", "R0", "R1", "R2", "G", "G1", "G0", "M", "O", "A"]


def spaces(tier):
    F = [f for k in range(7) for f in itertools.combinations(range(6), k)]
    yield "histories", [[list(f), s, 4 if tier == "thorough" and i % 3 == s else 3] for i, f in enumerate(F) for s in range(3)]
    yield "shared tags", [[k, list(t), list(p)] for k in (2, 3, 4) for t in itertools.product((0, 1, 7), repeat=k) for p in itertools.product((None, 0, 1), repeat=k)]
    yield "boxes", [[e, t] for e in ("id", "rot", "small", "far", "half", "huge") for t in range(3)]


def spec(features):
    """Shapes of the domain: name -> (dimension, boundary, immersed); in the order they are listed."""
    V, E, W, F = list("abcd"), ["ab", "bc", "cd", "da"], {"w": (["ab", "bc", "cd", "da"], "a")}, {"f": (["w"], [])}
    imm = {}
    if 0 in features:
        V += ["e", "g"]
        E += ["be", "eg", "gc"]
        W["u"] = (["be", "eg", "gc", "bc"], "b")
        F["h"] = (["u"], [])
    if 1 in features:
        V += ["p", "q"]
        E += ["pq"]
        F["f"][1].append("pq")
    if 2 in features:
        V += ["r"]
        F["f"][1].append("r")
    if 3 in features:
        V += ["s"]
        E[:0] = ["as", "sb"]
        imm["ab"] = ["as", "sb"]
    if 4 in features:
        V += ["z"]
    if 5 in features:
        V += ["y", "Y"]
        E += ["yY"]
    S = {v: (0, [], []) for v in V}
    S.update({e: (1, list(e), imm.get(e, [])) for e in E})
    S.update({w: (1, [v], es) for w, (es, v) in W.items()})
    S.update({f: (2, ws, im) for f, (ws, im) in F.items()})
    return S


def arr(shapes):
    out = np.empty(len(shapes), dtype=object)
    out[:] = shapes
    return out


class World:
    def __init__(self, features, scheme):
        self.spec, self.scheme = spec(features), scheme
        self.phys, self.obj = {}, {}
        for d in range(3):
            names = [n for n, s in self.spec.items() if s[0] == d]
            k = len(names)
            for i, n in enumerate(names):
                tag = [i, 3 * (k - i), 5 + (i * 7) % 29][scheme]
                self.make(n, tag, [None, 1, 2, 5][(i + d) % 4])
        self.dom = Domain(dimension=2)
        self.listed = [[], [], []]
        for d in range(3):
            self.append([n for n, s in self.spec.items() if s[0] == d])
        self.graph = None
        self.fresh = False

    def at(self, n):
        return np.array(emb("far" if self.scheme == 2 else "id", PTS[n]), float)

    def make(self, n, tag, phys):
        d, b, im = self.spec[n]
        B, I = arr([self.obj[x] for x in b]), arr([self.obj[x] for x in im])
        if d == 0:
            s = Vertex(tag, self.at(n))
        elif d == 1 and len(n) == 2:
            s = Edge(tag, B)
            if im:
                s.immersed_shapes = I
        elif d == 1:
            s = Wire(tag, I, B)
        else:
            s = Face(tag, B)
            if im:
                s.immersed_shapes = I
        s.physical_tag = phys
        self.phys[n] = phys
        self.obj[n] = s

    def append(self, names):
        if names:
            self.dom.append_shapes(arr([self.obj[n] for n in names]))
            self.listed[self.spec[names[0]][0]] += names

    def reach(self, d):
        """Incidences below the listed shapes of dimension d."""
        out, todo = set(), list(self.listed[d])
        while todo:
            n = todo.pop()
            for m in self.spec[n][1] + self.subs(n):
                out.add((n, m))
                todo.append(m)
        return out

    def subs(self, n):
        d, b, im = self.spec[n]
        if d == 1 and len(n) == 1:
            # a wire stands for its edges; an edge with immersed shapes for those
            return [x for e in im for x in (self.spec[e][2] or [e])]
        return im

    def apply(self, op, rep):
        dom = self.dom
        if op == "R":
            dom.retag_shapes()
        elif op[0] == "R":
            dom.retag_shapes_with_dimension(int(op[1]))
        elif op == "G":
            dom.build_grahp()
        elif op[0] == "G":
            dom.build_grahp(int(op[1]))
        elif op == "M":
            dom.remove_vertex()
            self.listed[0] = [v for v in self.listed[0] if v in self.graph_nodes]
        elif op == "O":
            dom.refresh_wires()
        elif op == "A":
            for n, s in (("x", (0, [], [])), ("ax", (1, ["a", "x"], []))):
                self.spec[n] = s
                self.make(n, int(max(self.obj[m].tag for m in self.obj if self.spec[m][0] == s[0])) + 2, 9)
                self.append([n])
        if op[0] == "G":
            d = int(op[1]) if len(op) > 1 else 2
            self.graph = self.reach(d)
            self.graph_nodes = {x for e in self.graph for x in e} or set(self.listed[0])
            self.fresh = True
        elif op in ("R", "R0", "R1", "R2"):
            self.fresh = False

    def index(self, n):
        return (2 - self.spec[n][0], self.obj[n].tag)

    def compare(self, rep, ctx, moved):
        dom = self.dom
        for d in range(3):
            rep.expect([id(s) for s in dom.shapes[d]] == [id(self.obj[n]) for n in self.listed[d]], "listed shapes", lambda: f"dimension {d} {ctx()}")
        names = [n for l in self.listed for n in l]
        known = [n for n in self.obj if n in names or any(n == m for d in range(3) for _, m in self.reach(d))]
        for d in range(3):
            tags = [self.obj[n].tag for n in names if self.spec[n][0] == d]
            rep.expect(len(set(tags)) == len(tags), "tags are unique per dimension", lambda: f"dimension {d} {tags} {ctx()}")
        rep.expect(all(self.obj[n].physical_tag == self.phys[n] for n in known), "physical tags are kept", ctx)
        for n in known:
            s, (d, b, im) = self.obj[n], self.spec[n]
            ok = {id(x) for x in s.boundary_shapes} == {id(self.obj[x]) for x in b} and [id(x) for x in s.immersed_shapes] == [id(self.obj[x]) for x in self.subs(n)]
            rep.expect(ok, "structure of shapes is kept", lambda: f"{n} {ctx()}")
        rep.expect(dom.max_tag() == max(self.obj[n].tag for n in names), "largest tag", ctx)
        pt = [self.phys[n] for n in names if self.phys[n] is not None]
        rep.expect(dom.max_physical_tag() == max(pt), "largest physical tag", ctx)
        for t in (None, 1, 2, 5, 9, 77):
            got = [id(s) for s in dom.shapes_with_physical_tag(t)]
            rep.expect(got == [id(self.obj[n]) for n in names if self.phys[n] == t], "shapes with a physical tag", lambda: f"{t} {ctx()}")
        for n in PTS if moved else ():
            got = dom.lookup_vertex(self.at(n))
            want = self.obj[n] if n in self.listed[0] else None
            rep.expect(got is want, "vertex at a point", lambda: f"{n} {ctx()}")
            for j in range(6 if moved > 1 else 0):
                at = self.at(n)
                at[j % 3] += (1e-3, -1e-3)[j // 3]
                rep.expect(dom.lookup_vertex(at) is None, "no vertex beside a point", lambda: f"{at} {ctx()}")
                at = self.at(n)
                at[j % 3] += (1e-9, -1e-9)[j // 3]
                rep.expect(dom.lookup_vertex(at) is want, "vertex at a rounded point", lambda: f"{at} {ctx()}")
        if self.graph is not None and self.fresh:
            got = set(dom.graph.edges())
            want = {(self.index(a), self.index(b)) for a, b in self.graph}
            rep.expect(got == want, "incidence graph", lambda: f"{sorted(got)} {sorted(want)} {ctx()}")
            rep.expect(set(dom.graph.nodes()) == {self.index(n) for n in self.graph_nodes}, "nodes of the incidence graph", ctx)

    def wires(self, rep, ctx):
        for w in ("w", "u"):
            if w in self.obj:
                es = [self.obj[e] for e in self.subs(w)]
                o = self.obj[w].orientation
                ends = [(e.boundary_shapes[0], e.boundary_shapes[1])[:: int(k)] for e, k in zip(es, o)]
                ok = len(o) == len(es) and all(ends[i][1] is ends[(i + 1) % len(ends)][0] for i in range(len(ends)))
                rep.expect(ok, "wires follow their edges", lambda: f"{w} {o} {ctx()}")


def shared(case, rep):
    """Vertices and edges appended one by one with any tags: all are listed, and renumbering separates them."""
    k, tags, phys = case
    rep.state(case)
    for cut in range(k + 1):
        dom = Domain(dimension=1)
        vs = [Vertex(t, np.array([i, i * i, 0.0])) for i, t in enumerate(tags)]
        es = [Edge(t, arr([vs[i], vs[(i + 1) % k]])) for i, t in enumerate(tags)]
        for s, p in zip(vs + es[::-1], phys + phys):
            s.physical_tag = p
        for shapes in (vs, es):
            for part in (shapes[:cut], shapes[cut:]):
                if part:
                    dom.append_shapes(arr(part))
        rep.step()
        for d, shapes in enumerate((vs, es)):
            rep.expect([id(s) for s in dom.shapes[d]] == [id(s) for s in shapes], "appended shapes are listed", lambda: f"dimension {d} cut {cut}")
        for p in (None, 0, 1, 7):
            want = [id(s) for s in vs + es if s.physical_tag == p]
            rep.expect([id(s) for s in dom.shapes_with_physical_tag(p)] == want, "shapes with a physical tag", lambda: f"{p} cut {cut}")
        rep.expect(dom.max_tag() == max(tags), "largest tag", lambda: f"{dom.max_tag()} cut {cut}")
        used = [p for p in phys if p is not None]
        if used:
            rep.expect(dom.max_physical_tag() == max(used), "largest physical tag", lambda: f"{dom.max_physical_tag()} cut {cut}")
        (dom.retag_shapes, lambda: [dom.retag_shapes_with_dimension(d) for d in (0, 1)])[cut % 2]()
        for shapes in (vs, es):
            rep.expect(len({s.tag for s in shapes}) == k, "tags are unique per dimension", lambda: f"{[s.tag for s in shapes]} cut {cut}")
        dom.build_grahp()
        want = {((0, e.tag), (1, v.tag)) for e in es for v in e.boundary_shapes}
        rep.expect(set(dom.graph.edges()) == want, "incidence graph", lambda: f"{set(dom.graph.edges())} {want}")
        rep.outcome(f"{k} shapes in {1 + (0 < cut < k)} parts")


def run_case(space, case, rep):
    if space == "shared tags":
        return shared(case, rep)
    if space == "boxes":
        return boxes(*case, rep)
    features, scheme, n = case
    for k in range(n + 1):
        for ops in itertools.product(OPS, repeat=k):
            if admissible(ops):
                w = World(features, scheme)
                ctx = lambda: f"{ops}"
                for i, op in enumerate(ops):
                    w.apply(op, rep)
                    rep.step()
                rep.state([features, scheme, ops])
                w.compare(rep, ctx, 2 if not ops else ops[-1] in "MA")
                if not ops or ops[-1] in ("O", "G", "A") and "O" not in ops and not any(o[0] == "R" for o in ops) or ops[-1] == "O":
                    w.wires(rep, ctx)
                rep.outcome(ops[-1] if ops else "built")


def admissible(ops):
    """Unused vertices are dropped only right after the whole graph was built; shapes are appended once."""
    fresh = False
    for o in ops:
        if o[0] == "G":
            fresh = o == "G"
        elif o[0] in "RA":
            fresh = False
        elif o == "M" and not fresh:
            return False
    return ops.count("A") <= 1 and ("M" not in ops or "A" not in ops)


# ---------------------------------------------------------------- boxes
POLY = [(0, 0, 0), (3, -1, 0), (5, 1, 0), (5, 4, 0), (2, 5, 0), (-1, 3, 0)]
SIDES = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]


def graph_of(dom):
    """Names of the shapes reached from the top shapes, through the graph only."""
    top = [n for n in dom.graph.nodes() if dom.graph.in_degree(n) == 0]
    return top, set(dom.graph.nodes())


def boxes(e, t, rep):
    def check(dom, dim, n_by_dim, ctx):
        rep.step()
        rep.expect([len(s) for s in dom.shapes] == n_by_dim, "number of shapes", lambda: f"{[len(s) for s in dom.shapes]} {ctx}")
        for d in range(dim + 1):
            tags = [s.tag for s in dom.shapes[d]]
            rep.expect(len(set(tags)) == len(tags), "tags are unique per dimension", lambda: f"{tags} {ctx}")
        top, nodes = graph_of(dom)
        rep.expect(nodes == {(dim - s.dimension, s.tag) for l in dom.shapes for s in l}, "the graph reaches every shape", ctx)
        rep.expect(top == [(0, dom.shapes[dim][-1].tag)], "the whole box bounds everything", lambda: f"{top} {ctx}")

    every = {"line": 11, "area": 12, "solid": 13, **{f"bc_{i}": 20 + i for i in range(6)}}
    tags = [None, every, {k: v for k, v in every.items() if k in ("area", "bc_1", "bc_4")}][t]
    look = lambda key, default: default if tags is None else tags.get(key)
    for a, b in itertools.permutations(POLY, 2):
        pts = np.array([emb(e, a), emb(e, b)])
        dom = build_box_1D(pts, tags)
        rep.state(["1D", a, b, e, t])
        check(dom, 1, [2, 1], "segment")
        rep.expect(np.allclose([v.point for v in dom.shapes[0]], pts, rtol=1e-12), "places of the corners", "segment")
        edge = dom.shapes[1][0]
        rep.expect([id(v) for v in edge.boundary_shapes] == [id(v) for v in dom.shapes[0]], "ends of the segment", "segment")
        got = [edge.physical_tag] + [v.physical_tag for v in dom.shapes[0]]
        rep.expect(got == [look("line", 1), look("bc_0", 2), look("bc_1", 3)], "physical tags", lambda: f"segment {got}")
    for n in (3, 4, 5):
        for sel in itertools.combinations(range(6), n):
            for turn in (1, -1):
                corners = [POLY[i] for i in sel][::turn]
                pts = np.array([emb(e, p) for p in corners])
                dom = build_box_2D(pts, tags)
                ctx = f"polygon {corners}"
                rep.state(["2D", corners, e, t])
                check(dom, 2, [n, n + 1, 1], ctx)
                rep.expect(np.allclose([v.point for v in dom.shapes[0]], pts, rtol=1e-12), "places of the corners", ctx)
                for i in range(n):
                    ends = {id(v) for v in dom.shapes[1][i].boundary_shapes}
                    rep.expect(ends == {id(dom.shapes[0][i]), id(dom.shapes[0][(i + 1) % n])}, "sides join consecutive corners", ctx)
                    want = look(f"bc_{i}", 2 + i if i < 4 else None)
                    rep.expect(dom.shapes[1][i].physical_tag == want, "physical tags", lambda: f"side {i} {ctx}")
                wire, face = dom.shapes[1][n], dom.shapes[2][0]
                rep.expect(wire.composite and [id(s) for s in wire.immersed_shapes] == [id(s) for s in dom.shapes[1][:n]], "the boundary is the loop of the sides", ctx)
                rep.expect([id(s) for s in face.boundary_shapes] == [id(wire)] and face.physical_tag == look("area", 1), "the face is bounded by the loop", ctx)
                loop = wire.orient_immersed_vertices()
                rep.expect(len({id(v) for v in loop}) == n, "the loop passes every corner", ctx)
    for skew in (0, 1):
        base = [(0, 0, 0), (4, 0, 0), (4 + skew, 3, 0), (0, 3, skew), (0, 0, 2), (4, skew, 2), (4 + skew, 3, 2), (0, 3, 2 + skew)]
        pts = np.array([emb(e, p) for p in base])
        dom = build_box_3D(pts, tags)
        ctx = f"box {skew}"
        rep.state(["3D", skew, e, t])
        check(dom, 3, [8, 18, 7, 1], ctx)
        rep.expect(np.allclose([v.point for v in dom.shapes[0]], pts, rtol=1e-12), "places of the corners", ctx)
        V = {id(v): i for i, v in enumerate(dom.shapes[0])}
        use = {}
        for i, side in enumerate(SIDES):
            face = dom.shapes[2][i]
            rep.expect(face.physical_tag == look(f"bc_{i}", 2 + i), "physical tags", lambda: f"side {i} {ctx}")
            edges = [x for w in face.boundary_shapes for x in w.immersed_shapes]
            got = {frozenset(V[id(v)] for v in x.boundary_shapes) for x in edges}
            want = {frozenset((side[j], side[(j + 1) % 4])) for j in range(4)}
            rep.expect(got == want and len(edges) == 4, "a side is bounded by its four edges", lambda: f"{i} {got} {ctx}")
            walk = [V[id(v)] for v in face.boundary_shapes[0].orient_immersed_vertices()]
            rep.expect(sorted(walk) == sorted(side), "the loop passes every corner", lambda: f"{walk} {ctx}")
            for x in edges:
                use[id(x)] = use.get(id(x), 0) + 1
        rep.expect(len(use) == 12 and set(use.values()) == {2}, "every edge bounds two sides", ctx)
        shell, solid = dom.shapes[2][6], dom.shapes[3][0]
        rep.expect({id(f) for f in shell.immersed_shapes} == {id(f) for f in dom.shapes[2][:6]}, "the shell is made of the sides", ctx)
        rep.expect([id(s) for s in solid.boundary_shapes] == [id(shell)] and solid.physical_tag == look("solid", 1), "the solid is bounded by the shell", ctx)
    for n_points in (2, 4):
        for k in range(4):
            rows = [[emb(e, POLY[(i + j) % 6]) for j in range(n_points)] for i in range(k)]
            with open("f.csv", "w") as f:
                for row in rows:
                    f.write(",".join(repr(float(c)) for p in row for c in p) + "\n")
            got = read_fractures_file(n_points, "f.csv")
            os.remove("f.csv")
            rep.step()
            rep.expect(got.shape == (k, n_points, 3) and (k == 0 or np.array_equal(got, np.array(rows))), "fractures of a file", lambda: f"{got} {rows}")
    rep.outcome(f"boxes {e} {t}")
