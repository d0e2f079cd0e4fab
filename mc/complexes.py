"""Enumeration of small simplicial complexes, as gmsh element blocks."""
import itertools

# sub-entities of the reference simplices, in the order every table of the code
# (and basix) uses: position -> local vertices
REF = {
    0: {0: [(0,)]},
    1: {0: [(0,), (1,)], 1: [(0, 1)]},
    2: {0: [(0,), (1,), (2,)], 1: [(1, 2), (0, 2), (0, 1)], 2: [(0, 1, 2)]},
    3: {
        0: [(0,), (1,), (2,), (3,)],
        1: [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
        2: [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
        3: [(0, 1, 2, 3)],
    },
}

POINTS = [
    (0.0, 0.0, 0.0),
    (1.0, 0.0, 0.0),
    (0.0, 1.0, 0.25),
    (1.0, 1.0, 1.0),
    (0.25, 0.5, -1.0),
    (2.0, 0.5, 0.5),
]


def orders(n, k):
    """All node orders of k cells of n nodes."""
    return itertools.product(itertools.permutations(range(n)), repeat=k)


def closure(cells):
    """{dim: set of frozensets} of all faces of the given node tuples."""
    out = {0: set(), 1: set(), 2: set(), 3: set()}
    for c in cells:
        for k in range(1, len(c) + 1):
            for s in itertools.combinations(c, k):
                out[k - 1].add(frozenset(s))
    return out


def faces(cells, d):
    return sorted(tuple(sorted(s)) for s in closure(cells)[d])


def cell_sets(dim, n_nodes, k):
    """All sets of k distinct dim-simplices on n_nodes nodes, every node used."""
    for s in itertools.combinations(itertools.combinations(range(n_nodes), dim + 1), k):
        if len({v for c in s for v in c}) == n_nodes:
            yield s


# what else the file holds: name -> function(cells, dim) -> list of blocks of
# lower dimension, and whether they come before the blocks of the cells
def extras(cells, dim):
    """Yield (name, blocks before, blocks after)."""
    yield "plain", [], []
    tag = itertools.count(11)
    low = {d: faces(cells, d) for d in range(dim)}
    if dim >= 1:
        v = [(0, [c], [next(tag)]) for c in low[0]]
        f = low[dim - 1]
        fac = lambda s: [(dim - 1, [c if s == 0 else c[::-1] for c in f], [30 + i for i in range(len(f))])]
        if dim == 1:
            yield "points first", [(0, low[0], list(range(11, 11 + len(low[0]))))], []
            yield "points last", [], [(0, low[0], list(range(11, 11 + len(low[0]))))]
            return
        yield "facets first", fac(0), []
        yield "facets reversed", fac(1), []
        yield "facets last", [], fac(0)
        yield "facets reversed last", [], fac(1)
        yield "one facet and one point", [(0, [low[0][-1]], [9]), (dim - 1, [f[len(f) // 2][::-1]], [8])], []
        if dim == 3:
            e = low[1]
            yield "edges first", [(1, [c[::-1] for c in e[::2]], [50 + i for i in range(len(e[::2]))])], []
            yield "edges last", [], [(1, [c for c in e], [50 + i for i in range(len(e))])]
