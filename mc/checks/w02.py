"""W02: evaluators of errors and norms of discrete fields."""
import itertools

import numpy as np

from mc.checks import s05
from mc.checks.s05 import FACETS, data, exact, facets, field_at, patch, product, vector
from mc.fem import exponents, reference, simplex_rule
from postprocess.l2_error_post_processor import div_error, div_scaled_error, grad_error, l2_error, l2_error_projected
from postprocess.solution_norms_post_processor import div_norm, l2_norm

ID = "W02"
LEVEL = "model_checking"
CHUNK = 4
BOUNDS = {
    "quick": s05.BOUNDS["quick"].split("; both solver")[0] + "; fields on facets that meet in an edge or node; a coefficient vector without structure against polynomial fields of the degree of each space; 7 larger meshes (up to 18 cells) in 3 numberings and 2 orders",
    "thorough": s05.BOUNDS["thorough"],
}
spaces = s05.spaces


def run_case(space, case, rep):
    if space == "facets":
        mesh, dim, h = facets(case)
        rep.state(case)
        for seed, fields in enumerate(FACETS):
            W, names = product(mesh, dim - 1, fields, 9)
            F, P = data(dim - 1, fields, names, 0, seed, h, dim)
            evaluators(W, mesh, dim - 1, fields, names, P, F, h, rep, lambda: f"{fields} {h}", dim)
        return
    mesh, products, dim, h = patch(case)
    rep.state(case)
    for seed, fields in products:
        W, names = product(mesh, dim, fields)
        F, P = data(dim, fields, names, 0, seed, h)
        evaluators(W, mesh, dim, fields, names, P, F, h, rep, lambda: f"{fields} {h}")


def evaluators(W, mesh, dim, fields, names, P, F, h, rep, ctx, top=None):
    """l2_error, l2_error_projected, l2_norm, div_error and div_norm of a coefficient vector.

    With top given the fields live on facets of a mesh of that dimension.
    """
    alpha = np.cos(1.0 + np.arange(W.n_dof) * 1.7)
    G = {}
    for nm, (f, k, c, d) in zip(names, fields):
        def dv(x, y, z, nm=nm, f=f):
            X = np.array([x, y, z], float)
            if dim == 1:
                return np.array([row[0][1](X)[0] for row in P[nm]])
            return np.array([sum(p[1](X)[b] for b, p in enumerate(row)) for row in P[nm]])

        G["div_" + nm] = dv
        if not vector(f, dim):
            G["grad_" + nm] = lambda x, y, z, nm=nm: np.stack([row[0][1](np.array([x, y, z], float)) for row in P[nm]])
    fn = dict(F)
    fn.update(G)
    slope = np.array([0.5, -0.25, 1.5])[:dim] / h
    # the scale is quadratic where the rule of the product still integrates it exactly
    best = max(k for _, k, _, _ in fields)
    bend = 0.5 / h**2 * all(k < best for f, k, _, _ in fields if vector(f, dim))

    def scale(x, y, z):
        X = np.stack([x, y, z], -1)[..., :dim]
        return 2.0 + X @ slope + bend * X[..., 0] * X[..., -1]

    def grad_scale(x, y, z):
        X = np.stack([x, y, z], -1)[..., :dim]
        g = 0.0 * X + slope
        g[..., 0] += bend * X[..., -1]
        g[..., -1] += bend * X[..., 0]
        return g.T

    fn["l"], fn["grad_l"] = scale, grad_scale
    want = {"grad": [], "error": [], "size": [], "norm": [], "div": [], "scaled": [], "divnorm": []}
    for nm, (f, k, c, d) in zip(names, fields):
        V = W.discrete_spaces[nm]
        vec = vector(f, dim)
        e2 = s2 = n2 = d2 = c2 = dn2 = g2 = 0.0
        for i, el in enumerate(V.elements):
            verts = mesh.points[el.data.cell.node_tags]
            X, w = simplex_rule(verts, 2 * k + 6)
            dest = W.destination_indexes(i, nm)
            x, uh, _ = field_at(el, reference(X, verts), alpha[dest], c, vec, dim)
            u = exact(P[nm], X)
            e2 += np.einsum("p,apd->", w, (u - uh) ** 2)
            s2 += np.einsum("p,apd->", w, uh**2)
            n2 += np.einsum("p,apd->", w, u**2)
            if not vec and not top:
                ref = reference(X, verts)
                E = exponents(dim, k)
                M = np.stack([np.prod([ref[:, b] ** a for b, a in enumerate(e)], axis=0) for e in E], -1)
                D = np.stack([np.stack([e[b] * np.prod([ref[:, j] ** max(a - (j == b), 0) for j, a in enumerate(e)], axis=0) for e in E], -1) for b in range(dim)])
                T = np.linalg.pinv((verts[1:] - verts[0]).T)[:, :dim]
                for a in range(c):
                    gh = np.einsum("rx,rpe,e->xp", T, D, np.linalg.lstsq(M, uh[a][:, 0], rcond=None)[0])
                    gu = P[nm][a][0][1](X)
                    g2 += np.sum(w * (gu - gh) ** 2)
            if f in ("RT", "BDM"):
                # divergence of the discrete field: fit its components by polynomials
                E = exponents(dim, k + 1)
                xs = (X[:, :dim] - verts[0][:dim]) / h
                M = np.stack([np.prod([xs[:, b] ** a for b, a in enumerate(e)], axis=0) for e in E], -1)
                dh = 0.0
                for b in range(dim if vec else 1):
                    D = np.stack([e[b] * np.prod([xs[:, j] ** max(a - (j == b), 0) for j, a in enumerate(e)], axis=0) for e in E], -1) / h
                    dh = dh + np.stack([D @ np.linalg.lstsq(M, uh[a][:, b], rcond=None)[0] for a in range(c)])
                du = np.stack([G["div_" + nm](*y) for y in X], -1)
                d2 += np.einsum("p,ap->", w, (du - dh) ** 2)
                dn2 += np.einsum("p,ap->", w, du**2)
                if vec:
                    sh = fn["l"](*X.T) * dh + np.einsum("dp,apd->ap", fn["grad_l"](*X.T), uh)
                    c2 += np.einsum("p,ap->", w, (du - sh) ** 2)
        want["error"].append(np.sqrt(e2))
        want["grad"].append(np.sqrt(g2))
        want["size"].append(np.sqrt(s2))
        want["norm"].append(np.sqrt(n2))
        if f in ("RT", "BDM"):
            want["div"].append(np.sqrt(d2))
        if vec and f != "N1E":
            want["scaled"].append(np.sqrt(c2))
            want["divnorm"].append(np.sqrt(dn2))
        rep.outcome(f"{f}{k} bend={bend != 0}")

    def same(label, got, ref):
        rep.step()
        ok = len(got) == len(ref) and np.allclose(got, ref, rtol=1e-7, atol=1e-9 * h)
        rep.expect(ok, label, lambda: f"{np.array(got)} want {np.array(ref)} {ctx()}")

    same("error of a discrete function", l2_error(dim, W, fn, alpha), want["error"])
    same("size of a discrete function", l2_error_projected(dim, W, alpha), want["size"])
    same("norm of a function", l2_norm(dim, W, fn), want["norm"])
    if top:
        W.dof_shift = 4
        same("size of a discrete function of a space among others", l2_error_projected(dim, W, alpha, dof_shift=-4), want["size"])
        same("error of a discrete function of a space among others", l2_error(dim, W, fn, np.concatenate([[np.nan] * 4, alpha])), want["error"])
        return
    scalar = [nm for nm, (f, k, c, d) in zip(names, fields) if f == "Lagrange"]
    same("error of the divergence", div_error(dim, W, fn, alpha, scalar), want["div"])
    if dim > 1:
        same("error of the gradient", grad_error(dim, W, fn, alpha), want["grad"])
        same("error of the divergence of a scaled field", div_scaled_error(dim, W, fn, alpha), want["scaled"])
        same("norm of the divergence", div_norm(dim, W, fn), want["divnorm"])
    if len(names) > 1:
        hdiv = [nm for nm, (f, k, c, d) in zip(names, fields) if f in ("RT", "BDM")]
        vecs = [nm for nm, (f, k, c, d) in zip(names, fields) if vector(f, dim) and f != "N1E"]
        for skip in ([n for n, on in zip(names, bits) if on] for bits in itertools.product((0, 1), repeat=len(names)) if any(bits)):
            left = lambda key, which: [v for n, v in zip(which, want[key]) if n not in skip]
            same("error without skipped fields", l2_error(dim, W, fn, alpha, skip), left("error", names))
            same("size without skipped fields", l2_error_projected(dim, W, alpha, skip), left("size", names))
            same("norm without skipped fields", l2_norm(dim, W, fn, skip), left("norm", names))
            same("error of the divergence without skipped fields", div_error(dim, W, fn, alpha, skip + scalar), left("div", hdiv))
            if dim > 1:
                same("error of the divergence of a scaled field without skipped fields", div_scaled_error(dim, W, fn, alpha, skip), left("scaled", vecs))
                same("norm of the divergence without skipped fields", div_norm(dim, W, fn, skip), left("divnorm", vecs))
