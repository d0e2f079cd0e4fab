"""Grids, exact-to-float embeddings and small shared helpers."""
import itertools

import numpy as np


def grid(n, dim):
    return [list(p) for p in itertools.product(range(n), repeat=dim)]


def _rot345(p):
    x, y, z = p
    return ((3 * x - 4 * y) / 5.0, (4 * x + 3 * y) / 5.0, z)


# name -> function from exact integer/rational coordinates (R^3) to floats.
# All but the last are similarities, so every predicate of the exact configuration is kept.
EMB = {
    "id": lambda p: (float(p[0]), float(p[1]), float(p[2])),
    "shift": lambda p: (float(p[0]) + 0.3, float(p[1]) - 7.1, float(p[2]) + 2.7),
    "quarter": lambda p: (0.25 * float(p[0]), 0.25 * float(p[1]), 0.25 * float(p[2])),
    "big": lambda p: (10.0 * float(p[0]), 10.0 * float(p[1]), 10.0 * float(p[2])),
    # a rotation about z by the 3-4-5 angle, then about x by the 5-12-13 angle
    "rot": lambda p: _rotx(_rot345((float(p[0]), float(p[1]), float(p[2])))),
    "yz": lambda p: (float(p[2]), float(p[0]), float(p[1])),
    "zx": lambda p: (float(p[1]), float(p[2]), float(p[0])),
    # small and large copies in general position
    "small": lambda p: tuple(0.02 * x + s for x, s in zip(EMB["rot"](p), (0.5, -0.25, 0.125))),
    "large": lambda p: tuple(12.0 * x + s for x, s in zip(EMB["rot"](p), (-30.0, 20.0, 10.0))),
    # far from the origin, as in geographic coordinates
    "far": lambda p: (float(p[0]) + 100000.0, float(p[1]) - 200000.0, float(p[2]) + 50000.0),
    # millimetres given in metres
    "tiny": lambda p: tuple(0.001 * x + s for x, s in zip(EMB["rot"](p), (0.5, -0.25, 0.125))),
    # kilometres given in metres
    "huge": lambda p: tuple(1000.0 * x for x in EMB["rot"](p)),
    "hugeflat": lambda p: tuple(1000.0 * x for x in _rot345(tuple(float(x) for x in p))),
    # on the half grid; places on the grid are arrays of integers
    "half": lambda p: (0.5 * float(p[0]) + 0.5, 0.5 * float(p[1]) + 0.5, 0.5 * float(p[2])),
    # stretched and sheared in the plane: not a similarity, but places and order on lines are kept
    "slim": lambda p: EMB["rot"]((20.0 * float(p[0]) + float(p[1]), float(p[1]), float(p[2]))),
}
SCALE = {"tiny": 0.001, "huge": 1000.0, "hugeflat": 1000.0, "slim": 20.0**0.5, "quarter": 0.25, "half": 0.5, "big": 10.0, "small": 0.02, "large": 12.0}


def _rotx(p):
    x, y, z = p
    return (x, (5 * y - 12 * z) / 13.0, (12 * y + 5 * z) / 13.0)


def emb(name, p):
    out = np.array(EMB[name](p), dtype=float)
    return out.astype(int) if name == "half" and np.array_equal(out, np.round(out)) else out


def lift(p):
    p = tuple(p)
    return p if len(p) == 3 else p + (0,)


def close(x, y, tol=1e-8):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol * (1 + np.abs(y))))
