"""W03: the local forms of the boundary conditions are the integrals that define them."""
import itertools

import numpy as np

import mc.ad_shim
from mc.checks.s05 import GEO, PLACE, sign
from mc.checks.w01 import coefficient, load, pair, several, exact_rule
from mc.forms import Fields, Jet, block
from mc.meshes import read_mesh
from spaces.product_space import ProductSpace
from weak_forms.degenerate_elliptic_weak_form import DegenerateEllipticWeakFormBCDirichlet
from weak_forms.laplace_dual_weak_form import LaplaceDualWeakFormBCDirichlet
from weak_forms.laplace_primal_weak_form import LaplacePrimalWeakFormBCDirichlet
from weak_forms.lce_dual_weak_form import LCEDualWeakFormBCDirichlet, LCEDualWeakFormBCNeumann
from weak_forms.lce_primal_weak_form import LCEPrimalWeakFormBCDirichlet
from weak_forms.lce_scaled_dual_weak_form import LCEDualWeakFormBCNeumann as ScaledNeumann
from weak_forms.lce_scaled_dual_weak_form import LCEScaledDualWeakFormBCDirichlet
from weak_forms.le_dual_weak_form import LCEDualWeakFormBCNeumann as StressNeumann
from weak_forms.le_dual_weak_form import LEDualWeakFormBCDirichlet
from weak_forms.le_primal_weak_form import (
    LEPrimalWeakFormBCDirichlet, LEPrimalWeakFormBCNeumann, LEPrimalWeakFormBCNormalDirichlet,
)
from weak_forms.le_taylor_hood_weak_form import LETaylorHoodWeakFormBCDirichlet
from weak_forms.unscaled_elliptic_weak_form import UnscaledEllipticWeakFormBCDirichlet

ID = "W03"
LEVEL = "model_checking"
CHUNK = 2
BETA = 1e12

NODAL = {
    "pressure": (LaplacePrimalWeakFormBCDirichlet, "scalar"),
    "displacement": (LEPrimalWeakFormBCDirichlet, "vector"),
    "traction": (LEPrimalWeakFormBCNeumann, "vector"),
    "normal displacement": (LEPrimalWeakFormBCNormalDirichlet, "vector"),
    "taylor-hood": (LETaylorHoodWeakFormBCDirichlet, "vector"),
    "cosserat": (LCEPrimalWeakFormBCDirichlet, "both"),
}
FLUX = {
    "darcy": (LaplaceDualWeakFormBCDirichlet, "u", "p"),
    "degenerate": (DegenerateEllipticWeakFormBCDirichlet, "v", "q"),
    "unscaled": (UnscaledEllipticWeakFormBCDirichlet, "u", "p"),
}
STRESS = {
    "stress": (LEDualWeakFormBCDirichlet, StressNeumann),
    "couple": (LCEDualWeakFormBCDirichlet, LCEDualWeakFormBCNeumann),
    "scaled couple": (LCEScaledDualWeakFormBCDirichlet, ScaledNeumann),
}
BOUNDS = {
    "quick": "two cells that share a facet in 1D, 2D and 3D with their whole boundary as facets: every node order of the first cell (3D: one in 3), varying node orders of the facets, a small, a unit and a large placement; 15 boundary conditions x Lagrange 1 to 4 (1 to 3 and, for the pressure, 5 in 3D) or RT and BDM 1 to 2, couple stress also of another family or order; data that vary in space (degree 2 of the fluxes: one constant integer array); every pair of polynomials of the local space and every facet",
    "thorough": "as quick, with every node order and placement, every rotation of the facet nodes, degree 5 and degree 3 of RT and BDM in 2D",
}


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        P = list(itertools.permutations(range(dim + 1)))
        models = []
        for m in NODAL:
            if dim == 1 and m != "pressure" or dim == 3 and m == "taylor-hood":
                continue
            models += [[m, k, ""] for k in ((2, 3) if m == "taylor-hood" else (1, 2, 3)) + (4,) * (dim < 3 or t) + (5,) * (t or dim == 3 and m == "pressure")]
        for m in FLUX:
            models += [[m, k, f] for f in (("RT",) if dim == 1 else ("RT", "BDM")) for k in ((1, 2, 3) if dim == 1 or t and dim == 2 else (1, 2))]
        if dim > 1:
            for m in STRESS:
                models += [[f"{m} {kind}", k, f] for kind in ("natural", "essential") for f in ("RT", "BDM") for k in ((1, 2, 3) if t and dim == 2 else (1, 2))]
            # stress and couple stress of different families and orders
            models += [[f"{m} {kind}", 1, f] for m in STRESS if m != "stress" for kind in ("natural", "essential") for f in ("BDM RT 0", "BDM RT 1", "RT BDM 1")]
        out = []
        for m in models:
            for i, p in enumerate(P):
                if dim == 3 and not t and i % 3 != len(out) % 3:
                    continue
                for place in PLACE if t and dim < 3 else [list(PLACE)[(len(out) + i) % 3]]:
                    for turn in range(max(1, (1, 2, 6)[dim - 1] if t else 1)):
                        out.append([dim, list(p), place, (turn + i) if not t else turn] + m)
        yield name, out


def run_case(space, case, rep):
    dim, p, place, turn, name, k, fam = case
    h = PLACE[place]
    geo = [h * np.array(g) for g in GEO[dim]]
    c1 = list(p)
    c2 = [i + 1 for i in range(dim + 1)]
    if sign([geo[i] for i in c1]) != sign([geo[i] for i in c2]):
        c2[-1], c2[-2] = c2[-2], c2[-1]
    facets = []
    for c in (c1, c2):
        for f in itertools.combinations(sorted(c), dim):
            if set(f) <= set(c1) and set(f) <= set(c2):
                continue
            orders = list(itertools.permutations(f))
            facets.append(list(orders[(turn + len(facets)) % len(orders)]))
    mesh = read_mesh(dim, np.array(geo), [(dim - 1, facets, [7] * len(facets)), (dim, [c1, c2], [1, 1])])
    rep.state(case)
    r = 1 if dim == 2 else 3
    c = lambda i: coefficient(i, h)
    if name in NODAL:
        cls, kind = NODAL[name]
        if kind == "scalar":
            fields, F = [("p", "Lagrange", k, 1, 0)], {"p": several(1, 1, h)}
        else:
            fields, F = [("u", "Lagrange", k, dim, 0)], {"u": several(dim, 1, h), "t": several(r, 4, h)}
            if name == "traction":
                F = {"t": several(dim, 1, h)}
            if name == "taylor-hood":
                fields.append(("p", "Lagrange", k - 1, 1, 0))
            if kind == "both":
                fields.append(("t", "Lagrange", max(k - 1, 1), r, 0))
        on = [n for n, *_ in fields if n != "p" or kind == "scalar"]
    elif name in FLUX:
        cls, a, b = FLUX[name]
        fields = [(a, fam, k, 1, 0), (b, "Lagrange", k - 1, 1, 1)]
        whole = np.array([3])  # the same array at every call
        F = {b: several(1, 1, h) if k != 2 else (lambda x, y, z: whole), "d_phi": c(2), "porosity": c(1)}
        on = [a]
    else:
        base, kind = name.rsplit(" ", 1)
        cls = STRESS[base][kind == "essential"]
        fam, fam2, more = fam.split() if " " in fam else (fam, fam, 0)
        fields = [("s", fam, k, dim, 0)]
        if base != "stress":
            fields.append(("m", fam2, k + int(more), r, 0))
        on = [n for n, *_ in fields]
        fields += [("u", "Lagrange", k - 1, dim, 1), ("t", "Lagrange", k - 1, r, 1)]
        F = {"u": several(dim, 1, h), "t": several(r, 3, h)} if kind == "natural" else {"s": several(dim, 1, h), "m": several(r, 3, h)}
        F["l"], F["grad_l"] = c(6), several(3, 0, h)
    W = ProductSpace({n: (dim, comps, f, kk, mesh) for n, f, kk, comps, d in fields})
    W.make_subspaces_discontinuous({n: bool(d) for n, f, kk, comps, d in fields})
    W.build_structures({n: [1] for n, *_ in fields}, {n: [7] for n in on})
    exact_rule(W, dim, rep)
    form = cls(W)
    form.functions = F
    n_facets = len(W.discrete_spaces[on[0]].bc_elements)
    rep.expect(n_facets == len(facets), "every facet has an element", lambda: f"{n_facets} of {len(facets)}")
    for i in range(n_facets):
        facet(W, form, name, fields, on, F, i, mesh, dim, h, rep)


def facet(W, form, name, fields, on, F, i, mesh, dim, h, rep):
    cell = W.discrete_spaces[on[0]].bc_elements[i].data.cell
    nodes = [int(v) for v in np.atleast_1d(cell.node_tags)]
    first = W.discrete_spaces[on[0]]
    e = next(j for j, el in enumerate(first.elements) if set(nodes) <= {int(v) for v in el.data.cell.node_tags})
    verts = mesh.points[first.elements[e].data.cell.node_tags]
    fv = mesh.points[nodes]
    pts, wts = W.bc_quadrature[dim - 1]
    if dim == 1:
        X, w = fv, np.array([1.0])
    else:
        J = (fv[1:] - fv[0]).T
        X = fv[0] + np.asarray(pts).reshape(-1, dim - 1) @ J.T
        w = np.asarray(wts) * np.sqrt(np.linalg.det(J.T @ J))
    out = fv.mean(axis=0) - verts.mean(axis=0)
    n = out.copy()
    for _ in range(2):  # remove the directions of the facet
        for q in (np.linalg.qr((fv[1:] - fv[0]).T)[0].T if dim > 1 else []):
            n = n - (n @ q) * q
    n = (n / np.linalg.norm(n))[:dim]
    ctx = lambda: f"{name} {fields} facet {nodes} of cell {e}"
    spaces_ = {nm: Fields(W.discrete_spaces[nm], W.discrete_spaces[nm].elements[e], verts, f, k, c, dim, X) for nm, f, k, c, d in fields}
    if not rep.expect(all(f.complete for f in spaces_.values()), "the basis spans the polynomials of its element", ctx):
        return
    jet = Jet(spaces_, X)
    C = np.zeros((jet.N, W.n_dof))
    C[:, W.destination_indexes(e)] = block(spaces_)
    dest = W.bc_destination_indexes(i)
    a = np.sin(1.0 + np.arange(len(dest)))
    r, K = form.evaluate_form(i, a)
    r, K = np.array(r).ravel(), np.array(K)
    rep.step()
    if not rep.expect(len(r) == len(dest) and K.shape == (len(dest), len(dest)), "a row for each function of the facet", lambda: f"{len(r)} {K.shape} {len(dest)} {ctx()}"):
        return
    G = C[:, dest]
    at = {m: np.asarray(f(X[:, 0], X[:, 1], X[:, 2])) for m, f in F.items()}
    A = np.zeros((jet.N, jet.N))
    b = np.zeros(jet.N)
    if name in NODAL:
        for m in on:
            v = jet.val[m]
            if name == "traction":
                b += load(v, at["t"].T, w)
            elif name == "normal displacement":
                vn = v @ n
                A += BETA * pair(vn, vn, w)
                b -= BETA * load(vn, (at["u"].T @ n), w)
            else:
                A += BETA * pair(v, v, w)
                b -= BETA * load(v, at[m].T, w)
    else:
        for m in on:
            v = jet.val[m]
            vn = np.einsum("ipcd,d->ipc", v, n) if v.ndim == 4 else v * n[0]
            if name in FLUX:
                data = np.broadcast_to(at[FLUX[name][2]].T, (len(X), 1))
                if name == "degenerate":
                    data = data * (at["d_phi"] / np.sqrt(at["porosity"]))[:, None]
                b += load(vn, data, w)
            elif name.endswith("natural"):
                data = at[{"s": "u", "m": "t"}[m]].T
                if name.startswith("scaled") and m == "m":
                    data = data * at["l"][:, None]
                b -= load(vn, data, w)
            else:
                A += BETA * pair(vn, vn, w)
                b -= BETA * load(vn, at[m].T, w)
    size = np.abs(G) @ np.abs(K) @ np.abs(G).T + np.abs(A).max() * 1e-3 + 1e-300
    err = np.abs(G @ K @ G.T - A) / size
    rep.expect(err.max() < 1e-9, "tangent", lambda: f"{ctx()} {err.max()} at {np.unravel_index(err.argmax(), err.shape)}")
    scale = np.abs(b).max() + (np.abs(G) @ np.abs(r)).max()
    rep.expect(np.abs(G @ r - b).max() < 1e-9 * scale + 1e-300, "residual", lambda: f"{ctx()} {np.abs(G @ r - b).max()} of {scale}")
    rep.outcome(f"{name} {dim}D")
