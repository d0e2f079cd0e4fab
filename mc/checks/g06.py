"""G06: networks of line fractures in the plane."""
import itertools

import numpy as np

from geometry.fracture_network import FractureNetwork
from mc.exact import F, add, dot, mul, on_segment, segment_segment, sub
from mc.geo import emb, grid

ID = "G06"
LEVEL = "model_checking"
CHUNK = 32
BOUNDS = {
    "quick": "every ordered pair of segments of the 3x3 grid under two motions (one far from the origin); every ordered triple of an alphabet of 8 segments under three motions (one 1000 times larger); the pairing key on all pairs of naturals below 40 and around 10^2, 10^5, 10^8",
    "thorough": "as quick, every ordered quadruple of the alphabet, and the pairing key on all pairs below 120",
}

SEG = [(a + [0], b + [0]) for a in grid(3, 2) for b in grid(3, 2) if a != b]
TRI = [
    ((0, 0, 0), (4, 4, 0)), ((0, 4, 0), (4, 0, 0)), ((0, 2, 0), (4, 2, 0)), ((2, 0, 0), (2, 4, 0)),
    ((0, 1, 0), (4, 3, 0)), ((0, 0, 0), (3, 1, 0)), ((1, 3, 0), (1, 0, 0)), ((4, 1, 0), (1, 1, 0)),
]


def spaces(tier):
    yield "pairs", [[e, [s, t]] for e in ("half", "far") for s in SEG for t in SEG]
    yield "triples", [
        [e, [TRI[i] for i in c]]
        for e in ("tiny", "quarter", "huge")
        for c in itertools.permutations(range(len(TRI)), 3)
    ]
    if tier == "thorough":
        yield "quadruples", [["id", [TRI[i] for i in c]] for c in itertools.permutations(range(len(TRI)), 4)]
    n = 40 if tier == "quick" else 120
    yield "pairing", [[x, n] for x in range(n)] + [[x, 10**k] for k in (2, 5, 8) for x in (0, 1, 10**k // 2)]


def run_case(space, case, rep):
    if space == "pairing":
        return pairing(case, rep)
    e, segs = case
    segs = [tuple(map(tuple, s)) for s in segs]
    if any(len(segment_segment(*s, *t)) == 2 for s, t in itertools.combinations(segs, 2)):
        return
    fr = [np.array([emb(e, p) for p in s]) for s in segs]
    net = FractureNetwork(dimension=2, physical_tag_shift=10)
    net.intersect_1D_fractures(fr)
    net.build_grahp(all_fixed_d_cells_q=True)
    rep.step()
    rep.state(case)
    rep.expect(net.fracture_tags == [10 + i for i in range(len(segs))], "fracture tags")
    for i, c in enumerate(net.cells):
        rep.expect(c.id == i, "cell ids")
    own = [c for c in net.cells if c.dimension == 1][: len(segs)]
    frs = []
    for k, c in enumerate(net.cells):
        if c.dimension == 1 and len(frs) < len(segs) and c.physical_tag == 10 + len(frs):
            frs.append(c)
    used = {}
    for i, (s, c) in enumerate(zip(segs, frs)):
        cut = {tuple(map(F, p)) for p in s}
        for j, t in enumerate(segs):
            if j != i:
                cut |= {tuple(map(F, p)) for p in segment_segment(*s, *t)}
        d = sub(s[1], s[0])
        cut = sorted(cut, key=lambda x: dot(sub(x, s[0]), d))
        want = [(emb(e, p), emb(e, q)) for p, q in zip(cut, cut[1:])]
        pieces = list(c.immersed_cells) if len(c.immersed_cells) else [c]
        got = [tuple(net.points[b.point_id] for b in x.boundary_cells) for x in pieces]
        ok = len(got) == len(want) and all(np.allclose(g, w, rtol=1e-12, atol=1e-9) for g, w in zip(got, want))
        rep.expect(ok, "pieces of a fracture", lambda: f"{i}: {[[list(q) for q in g] for g in got]} want {[[list(q) for q in w] for w in want]}")
        rep.outcome(f"{len(want)} pieces")
        for x in pieces:
            rep.expect(x.physical_tag == 10 + i, "tag of a piece")
            rep.expect(all(net.graph.has_edge(x.id, b.id) for b in x.boundary_cells), "graph of the network")
        for p, q in zip(pieces, pieces[1:]):
            rep.expect(p.boundary_cells[1] is q.boundary_cells[0], "consecutive pieces share their vertex")
        for x in pieces:
            for b in x.boundary_cells:
                used.setdefault(tuple(np.round(net.points[b.point_id], 7)), set()).add(b.id)
    if ok:
        for p, ids in used.items():
            rep.expect(len(ids) == 1, "one vertex per intersection", lambda: f"{p} {ids}")


def pairing(case, rep):
    x, n = case
    net = FractureNetwork(2)
    lo = 0 if n < 1000 else n - 5
    rep.state(case)
    for y in range(lo, n if n < 1000 else n + 5):
        z = net.pair_intergers(x, y)
        rep.step()
        m = max(x, y)
        rep.expect(m * m <= z < (m + 1) ** 2, "pairing range", lambda: f"{x, y} {z}")
        back = net.unpair_intergers(z)
        rep.expect([int(v) for v in back] == [x, y] and all(v == int(v) for v in back), "unpairing", lambda: f"{x, y} {z} {back}")
