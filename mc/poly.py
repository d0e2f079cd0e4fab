"""Polynomials in x, y, z, and tensors of them as object arrays."""
import itertools

import numpy as np


class Poly:
    def __init__(self, c=None):
        self.c = {e: v for e, v in (c or {}).items() if v}

    def __add__(self, o):
        o = as_poly(o)
        out = dict(self.c)
        for e, v in o.c.items():
            out[e] = out.get(e, 0.0) + v
        return Poly(out)

    def __mul__(self, o):
        o = as_poly(o)
        out = {}
        for (a, v), (b, w) in itertools.product(self.c.items(), o.c.items()):
            e = tuple(i + j for i, j in zip(a, b))
            out[e] = out.get(e, 0.0) + v * w
        return Poly(out)

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + -as_poly(o)

    def __rsub__(self, o):
        return as_poly(o) + -self

    def d(self, b):
        out = {}
        for e, v in self.c.items():
            if e[b]:
                f = tuple(i - (j == b) for j, i in enumerate(e))
                out[f] = v * e[b]
        return Poly(out)

    def __call__(self, x, y, z):
        out = 0.0 * (x + y + z)
        for e, v in self.c.items():
            out = out + v * x ** e[0] * y ** e[1] * z ** e[2]
        return out


def as_poly(v):
    return v if isinstance(v, Poly) else Poly({(0, 0, 0): float(v)})


def full(dim, degree, salt):
    """A polynomial with all monomials up to a degree."""
    es = [e + (0,) * (3 - dim) for e in itertools.product(range(degree + 1), repeat=dim) if sum(e) <= degree]
    return Poly({e: ((7 * i * i + 3 * i + 5 * salt + salt * salt * 2) % 11 - 4.5) / 4 for i, e in enumerate(es)})


def tensor(shape, dim, degree, salt):
    out = np.empty(shape, dtype=object)
    for i, idx in enumerate(np.ndindex(*shape)):
        out[idx] = full(dim, degree, salt + i)
    return out


def zeros(shape):
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = Poly()
    return out


def grad(t, dim):
    """Derivatives along a new last axis."""
    t = np.asarray(t, dtype=object)
    out = zeros(t.shape + (dim,))
    for idx in np.ndindex(*t.shape):
        for b in range(dim):
            out[idx + (b,)] = t[idx].d(b)
    return out


def trace(t):
    return sum((t[i, i] for i in range(1, len(t))), t[0, 0])


def div(t):
    """Divergence over the last axis."""
    out = zeros(t.shape[:-1])
    for idx in np.ndindex(*t.shape[:-1]):
        for b in range(t.shape[-1]):
            out[idx] = out[idx] + t[idx + (b,)].d(b)
    return out


def function(t):
    """A function of x, y, z: values first, points last (as the forms take them)."""
    t = np.asarray(t, dtype=object)
    if t.shape == ():
        p = t.item()
        return lambda x, y, z: p(x, y, z)

    def f(x, y, z):
        return np.array([t[idx](x, y, z) for idx in np.ndindex(*t.shape)]).reshape(t.shape + np.shape(x))

    return f
