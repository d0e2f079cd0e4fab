"""References for local forms: polynomial fields, their coefficients, and the integrals of the forms."""
import numpy as np

from mc.fem import exponents


class Fields:
    """All fields of one variable on one element: values, gradients or divergences at points."""

    def __init__(self, V, el, verts, family, k, comps, dim, X):
        self.comps, self.dim = comps, dim
        self.vector = family in ("RT", "BDM", "N1E") and dim > 1
        self.centre = verts.mean(axis=0)
        self.h = np.linalg.norm(verts[1] - verts[0])
        self.polys = spanning(family, k, dim)
        x0 = sample(dim, k + 2)
        S = verts[0] + x0 @ (verts[1:] - verts[0])
        x, jac, det, inv = el.evaluate_mapping(x0)
        phi = el.evaluate_basis(x0, jac, det, inv)[0][:, :, : dim if self.vector else 1]
        self.n_phi = phi.shape[1]
        M = phi.transpose(0, 2, 1).reshape(-1, self.n_phi)
        val = self.values(S)[0]  # (fields, points, D)
        rhs = val.reshape(len(val), -1).T
        co, _, rank, _ = np.linalg.lstsq(M, rhs, rcond=None)
        self.complete = rank == self.n_phi == len(val) and np.abs(M @ co - rhs).max() < 1e-9
        self.co = co.T  # (fields, n_phi)
        self.n = len(val) * comps

    def coefficients(self):
        """(fields x components, n_phi x components)"""
        return np.kron(self.co, np.eye(self.comps))

    def values(self, X):
        """Values (fields, points, D) and gradients (fields, points, D, dim)."""
        dim = self.dim
        x = (np.asarray(X)[:, :dim] - self.centre[:dim]) / self.h
        mono = lambda e: np.prod([x[:, b] ** a for b, a in enumerate(e)], axis=0)
        out, grad = [], []
        for p in self.polys:  # list of {exponent: coefficient} per direction
            v = np.zeros((len(x), len(p)))
            g = np.zeros((len(x), len(p), dim))
            for d, q in enumerate(p):
                for e, c in q.items():
                    v[:, d] += c * mono(e)
                    for b in range(dim):
                        if e[b]:
                            f = list(e)
                            f[b] -= 1
                            g[:, d, b] += c * e[b] * mono(f) / self.h
            out.append(v)
            grad.append(g)
        return np.array(out), np.array(grad)


def sample(dim, n):
    """Points of a lattice in the interior of the reference simplex."""
    E = np.array(exponents(dim, n), float)
    return (E + 0.3) / (n + 0.3 * (dim + 2))


def spanning(family, k, dim):
    """Polynomials that span the local space, one dictionary per direction."""
    if dim == 1 or family == "Lagrange":
        return [[{e: 1.0}] for e in exponents(dim, k)]
    zero = [{} for _ in range(dim)]

    def unit(d, e):
        out = [dict(z) for z in zero]
        out[d] = {e: 1.0}
        return out

    if family == "BDM":
        return [unit(d, e) for d in range(dim) for e in exponents(dim, k)]
    assert family == "RT"
    out = [unit(d, e) for d in range(dim) for e in exponents(dim, k - 1)]
    for e in exponents(dim, k - 1):
        if sum(e) == k - 1:
            out.append([{tuple(a + (b == d) for b, a in enumerate(e)): 1.0} for d in range(dim)])
    return out


class Jet:
    """Values and derivatives of every field of the product at points: zero outside its variable.

    val[name]: (N, points, comps[, dim]); grad[name]: (N, points, comps, dim); div[name]: (N, points, comps).
    """

    def __init__(self, fields, X):
        self.N = sum(f.n for f in fields.values())
        self.val, self.grad, self.div = {}, {}, {}
        P, at = len(X), 0
        for name, f in fields.items():
            v, g = f.values(X)
            D = v.shape[2]
            C = f.comps
            val = np.zeros((self.N, P, C, D))
            grad = np.zeros((self.N, P, C, D, f.dim))
            for j in range(len(v)):
                for c in range(C):
                    val[at + j * C + c, :, c] = v[j]
                    grad[at + j * C + c, :, c] = g[j]
            at += f.n
            self.div[name] = np.trace(grad, axis1=3, axis2=4) if D == f.dim else None
            if f.vector:
                self.val[name], self.grad[name] = val, grad
            else:
                self.val[name], self.grad[name] = val[:, :, :, 0], grad[:, :, :, 0]


def block(fields):
    """Coefficients of all fields: (N, local dofs)."""
    mats = [f.coefficients() for f in fields.values()]
    out = np.zeros((sum(m.shape[0] for m in mats), sum(m.shape[1] for m in mats)))
    i = j = 0
    for m in mats:
        out[i : i + m.shape[0], j : j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return out


def spin(t, dim):
    """Skew matrices of rotations (..., 1 or 3)."""
    out = np.zeros(t.shape[:-1] + (dim, dim))
    if dim == 2:
        out[..., 0, 1], out[..., 1, 0] = -t[..., 0], t[..., 0]
    else:
        out[..., 0, 1], out[..., 0, 2], out[..., 1, 2] = -t[..., 2], t[..., 1], -t[..., 0]
        out[..., 1, 0], out[..., 2, 0], out[..., 2, 1] = t[..., 2], -t[..., 1], t[..., 0]
    return out


def axial(s, dim):
    """The moment of a stress (..., dim, dim)."""
    if dim == 2:
        return (s[..., 1, 0] - s[..., 0, 1])[..., None]
    return np.stack([s[..., 2, 1] - s[..., 1, 2], s[..., 0, 2] - s[..., 2, 0], s[..., 1, 0] - s[..., 0, 1]], -1)


def sym(s):
    return 0.5 * (s + np.swapaxes(s, -1, -2))


def skew(s):
    return 0.5 * (s - np.swapaxes(s, -1, -2))


def tr(s):
    return np.trace(s, axis1=-2, axis2=-1)
