"""Meshes with more cells than the exhaustive alphabets hold.

A mesh is named by [shape, stride, scheme]: the nodes are numbered along a stride that is
coprime to their number, the cells are listed along a stride as well, and scheme 0 keeps
the node orders, 1 turns them through all permutations, 2 through the even ones.
"""
import itertools
from math import gcd

import numpy as np



def even(p):
    return sum(p[i] > p[j] for i, j in itertools.combinations(range(len(p)), 2)) % 2 == 0


def line(n, closed=False):
    if closed:
        pts = [(np.cos(2 * np.pi * i / n), np.sin(2 * np.pi * i / n), 0.1 * i) for i in range(n)]
    else:
        pts = [(i + 0.03 * (i * i % 7), 0.0, 0.0) for i in range(n + 1)]
    return 1, pts, [(i, (i + 1) % len(pts)) for i in range(n)]


def star(n):
    return 1, [(0.0, 0.0, 0.0)] + [(np.cos(i), np.sin(i), 0.2 * i) for i in range(n)], [(0, i + 1) for i in range(n)]


def fan(n, closed=True):
    pts = [(0.1, 0.2, 0.0)] + [((2 + 0.1 * i) * np.cos(0.3 + 2 * np.pi * i / n), (2 + 0.05 * i) * np.sin(0.3 + 2 * np.pi * i / n), 0.0) for i in range(n)]
    return 2, pts, [(0, i + 1, (i + 1) % n + 1) for i in range(n if closed else n - 1)]


def squares(nx, ny):
    pts = [(x + 0.05 * (y % 3), y + 0.04 * (x * x % 3), 0.0) for y in range(ny + 1) for x in range(nx + 1)]
    cells = []
    for y, x in itertools.product(range(ny), range(nx)):
        a, b = y * (nx + 1) + x, (y + 1) * (nx + 1) + x
        cells += [(a, a + 1, b), (a + 1, b + 1, b)] if (x * y + x) % 3 else [(a, a + 1, b + 1), (a, b + 1, b)]
    return 2, pts, cells


def book(n):
    """n triangles on one edge."""
    pts = [(0.0, 0.0, 0.0), (0.0, 0.0, 1.0)] + [(np.cos(i), np.sin(i), 0.3 * i) for i in range(n)]
    return 2, pts, [(0, 1, i + 2) for i in range(n)]


def wheel(n, closed=True):
    """n tetrahedra around one edge."""
    pts = [(0.1, 0.2, -1.0), (0.0, -0.1, 1.5)] + [(2 * np.cos(0.3 + 2 * np.pi * i / n), (2 + 0.1 * i) * np.sin(0.3 + 2 * np.pi * i / n), 0.1 * i) for i in range(n)]
    return 3, pts, [(0, 1, i + 2, (i + 1) % n + 2) for i in range(n if closed else n - 1)]


def cubes(nx, ny, nz):
    """Six tetrahedra per cube."""
    at = lambda x, y, z: (z * (ny + 1) + y) * (nx + 1) + x
    pts = [(x + 0.05 * (y * z % 3), y + 0.04 * (x * x % 3), z + 0.03 * (x * y % 2)) for z in range(nz + 1) for y in range(ny + 1) for x in range(nx + 1)]
    cells = []
    for z, y, x in itertools.product(range(nz), range(ny), range(nx)):
        for p in itertools.permutations(range(3)):
            c, at_ = [at(x, y, z)], [x, y, z]
            for a in p:
                at_[a] += 1
                c.append(at(*at_))
            cells.append(tuple(c) if even(p) else (c[1], c[0], c[2], c[3]))
    return 3, pts, cells


SHAPES = {
    "line 12": lambda: line(12),
    "ring 7": lambda: line(7, True),
    "star 5": lambda: star(5),
    "line 300": lambda: line(300),
    "fan 6": lambda: fan(6),
    "fan 5 open": lambda: fan(5, False),
    "book 4": lambda: book(4),
    "squares 3x3": lambda: squares(3, 3),
    "squares 5x4": lambda: squares(5, 4),
    "squares 17x16": lambda: squares(17, 16),
    "wheel 5": lambda: wheel(5),
    "wheel 4 open": lambda: wheel(4, False),
    "cube": lambda: cubes(1, 1, 1),
    "cubes 2x1x1": lambda: cubes(2, 1, 1),
    "cubes 2x2x2": lambda: cubes(2, 2, 2),
    "cubes 6x6x6": lambda: cubes(6, 6, 6),
}
MANIFOLD = [s for s in SHAPES if s not in ("star 5", "book 4", "line 300", "squares 17x16", "cubes 6x6x6", "ring 7")]
MEDIUM = [s for s in SHAPES if s not in ("line 300", "squares 17x16", "cubes 6x6x6")]


def strides(n):
    """1, one that mixes, and the reverse order."""
    mix = next(s for s in range(2 * n // 5 + 1, 2 * n) if gcd(s, n) == 1)
    return [1, mix, n - 1]


def build(key):
    """dim, points, cells."""
    shape, stride, scheme = key
    dim, pts, cells = SHAPES[shape]()
    n, m = len(pts), len(cells)
    s, c = strides(n)[stride], strides(m)[stride] if m > 2 else 1
    label = [(i * s + stride) % n for i in range(n)]
    out = [None] * n
    for i, p in enumerate(pts):
        out[label[i]] = p
    cells = [tuple(label[v] for v in cells[i * c % m]) for i in range(m)]
    P = list(itertools.permutations(range(dim + 1)))
    if scheme == 2:
        P = [p for p in P if even(p)]
    if scheme:
        cells = [tuple(x[j] for j in P[(5 * i + i // 3) % len(P)]) for i, x in enumerate(cells)]
    return dim, np.array(out, float), cells


def keys(shapes, schemes=(0, 1, 2)):
    return [[s, k, o] for s in shapes for k in range(3) for o in schemes]
