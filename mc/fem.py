"""References for finite element spaces: dimensions, patches, polynomials, integrals."""
import itertools
from math import comb, factorial

import numpy as np

from mc.complexes import REF


def per_entity(family, k, dim):
    """Degrees of freedom that belong to one entity of each dimension 0..dim."""
    P = lambda n, q: comb(n + q, n) if q >= 0 else 0  # dim of P_q in n variables
    if dim == 0:
        return [1]
    if dim == 1 and family in ("RT", "BDM", "N1E", "N2E"):
        family = "Lagrange"
    out = [0] * (dim + 1)
    if family == "Lagrange":
        if k == 0:
            out[dim] = 1
        else:
            for d in range(dim + 1):
                out[d] = comb(k - 1, d)
    elif family == "RT":
        out[dim - 1] = P(dim - 1, k - 1)
        out[dim] = dim * P(dim, k - 2)
    elif family == "BDM":
        out[dim - 1] = P(dim - 1, k)
        # N1E of degree k - 1
        q = k - 1
        out[dim] = 0 if q == 0 else (q * (q + 2) if dim == 2 else q * (q + 2) * (q + 3) // 2)
    else:  # N1E
        out[1] = k
        out[2] = k * (k - 1)
        if dim == 3:
            out[3] = k * (k - 1) * (k - 2) // 2
    return out


def local_blocks(family, k, dim, discontinuous=False):
    """[(entity dimension, local entity, list of local positions)]."""
    per = per_entity(family, k, dim)
    out, at = [], 0
    if discontinuous:
        n = sum(per[d] * len(REF[dim][d]) for d in range(dim + 1))
        return [(dim, 0, list(range(n)))]
    for d in range(dim + 1):
        for i in range(len(REF[dim][d])):
            out.append((d, i, list(range(at, at + per[d]))))
            at += per[d]
    return out


def n_local(family, k, dim):
    return sum(len(b) for _, _, b in local_blocks(family, k, dim))


def sub_nodes(cell, d, i):
    t = [int(v) for v in cell.node_tags]
    return frozenset(t[v] for v in REF[cell.dimension][d][i])


# ---------------------------------------------------------------- integrals
def gauss(dim, n):
    """Collapsed tensor Gauss rule on the reference simplex, exact to degree 2n-1-dim."""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    pts, wts = [], []
    for c in itertools.product(range(n), repeat=dim):
        u = [x[i] for i in c]
        ww = np.prod([w[i] for i in c]) if dim else 1.0
        p, rest = [], 1.0
        for j, v in enumerate(u):
            p.append(rest * v)
            ww *= rest if j else 1.0
            rest *= 1 - v
        pts.append(p)
        wts.append(ww)
    # the Jacobian of the collapse: product of the remaining lengths
    return np.array(pts).reshape(len(wts), dim), np.array(wts)


def monomial_integral(e):
    """Integral of x^e over the reference simplex."""
    n = 1
    for a in e:
        n *= factorial(a)
    return n / factorial(sum(e) + len(e))


def simplex_rule(verts, degree):
    """Points and weights on the simplex with the given vertices."""
    verts = np.asarray(verts, float)
    dim = len(verts) - 1
    if dim == 0:
        return verts[:1], np.array([1.0])
    p, w = gauss(dim, (degree + dim) // 2 + 1)
    J = (verts[1:] - verts[0]).T
    vol = np.sqrt(np.linalg.det(J.T @ J))
    return verts[0] + p @ J.T, w * vol


def exponents(n, k):
    return [e for e in itertools.product(range(k + 1), repeat=n) if sum(e) <= k]


def monomial(e):
    """x^e as a function of arrays of coordinates."""
    return lambda X: np.prod([np.asarray(X)[..., i] ** a for i, a in enumerate(e)], axis=0) + 0.0 * np.asarray(X)[..., 0]


def reference(X, verts):
    """Reference coordinates of the points X (in the plane of the simplex)."""
    verts = np.asarray(verts, float)
    J = (verts[1:] - verts[0]).T
    return (np.linalg.pinv(J) @ (np.asarray(X) - verts[0]).T).T
