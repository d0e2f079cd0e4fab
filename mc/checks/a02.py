"""A02: solving a model problem returns its exact solution."""
import itertools

import numpy as np

import mc.ad_shim
from assembly.SequentialAssembler import SequentialAssembler
from mc import larger
from mc.checks.s05 import GEO, sign
from mc.checks.m02 import HEX, POLY, Gmsh
from mc.checks.m04 import ROT, clipped, inside
from mc.checks.t03 import ALPHA, BOX, FT, PT
from mc.checks.w03 import FLUX, NODAL, STRESS
from mc.meshes import read_mesh
from mc.poly import Poly, as_poly, div, full, function, grad, tensor, trace, zeros
from mesh.conformal_mesher import ConformalMesher
from mesh.discrete_domain import DiscreteDomain
from mesh.mesh import Mesh
from mesh.mesh_operations import cut_conformity_along_c1_lines
from petsc4py import PETSc
from postprocess.l2_error_post_processor import l2_error
from spaces.product_space import ProductSpace
from topology.domain_market import build_box_1D, build_box_2D, build_box_3D, create_md_box_2D
from weak_forms.degenerate_elliptic_weak_form import DegenerateEllipticWeakForm
from weak_forms.laplace_dual_weak_form import LaplaceDualWeakForm
from weak_forms.laplace_primal_weak_form import LaplacePrimalWeakForm
from weak_forms.lce_dual_weak_form import LCEDualWeakForm
from weak_forms.lce_primal_weak_form import LCEPrimalWeakForm
from weak_forms.lce_scaled_dual_weak_form import LCEScaledDualWeakForm
from weak_forms.le_dual_weak_form import LEDualWeakForm
from weak_forms.le_primal_weak_form import LEPrimalWeakForm
from weak_forms.le_taylor_hood_weak_form import LETaylorHoodWeakForm
from weak_forms.unscaled_elliptic_weak_form import UnscaledEllipticWeakForm

ID = "A02"
LEVEL = "model_checking"
CHUNK = 2
BOUNDS = {
    "quick": "two cells that share a facet in 1D, 2D and 3D: node orders of the first cell x assignments of natural and essential conditions to the facets of the boundary (2D one pair in 4, 3D one in 40) x 11 models of degrees 1 to 3 and their families; 6 larger meshes (up to 18 cells) in 3 numberings; boxes of dimension 1 to 3 and polygons meshed by both meshers with 2 sizes; boxes with every set of <=2 of 17 fractures (one model in 6 or 36), cut along them, in 3 placements and sizes, the parts they leave with solutions of their own, and a flow along the fracture in the same system; polynomial solutions of full degree, coefficients that vary where the solution stays in the space",
    "thorough": "as quick, with every pair of node order and assignment in 2D and one in 8 in 3D, larger meshes of up to 40 cells, sets of <=3 fractures and every model on the boxes",
}
LARGER = ["line 12", "fan 6", "fan 5 open", "squares 3x3", "wheel 5", "cube"]


def models(dim, t):
    out = [["pressure", k, "Lagrange"] for k in (1, 2, 3)]
    if dim > 1:
        ks = (1, 2, 3) if dim == 2 else (1, 2)
        out += [[m, k, "Lagrange"] for m in ("displacement", "normal displacement", "cosserat") for k in ks]
    if dim == 2:
        out += [["taylor-hood", k, "Lagrange"] for k in (2, 3)]
    for f in ("RT", "BDM") if dim > 1 else ("RT",):
        out += [[m, k, f] for m in FLUX for k in ((1, 2, 3) if dim < 3 else (1, 2))]
    if dim > 1:
        for m in STRESS:
            out += [[m, k, f] for k in ((1, 2) if dim == 2 or t else (1,)) for f in (("BDM",) if m == "stress" else ("BDM BDM 0", "BDM RT 0", "BDM RT 1"))]
    return out


def masks(dim, name):
    """Assignments of essential (bit set) or natural conditions to the facets."""
    n = 2 * dim
    if name in ("displacement", "normal displacement", "taylor-hood"):
        return list(range(1, 2**n))
    if name in STRESS:
        return list(range(2**n - 1))
    return [0]


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        P = list(itertools.permutations(range(dim + 1)))
        out = []
        for i, m in enumerate(models(dim, t)):
            pairs = list(itertools.product(P, masks(dim, m[0])))
            every = 1 if dim < 2 else (1, 8)[dim - 2] if t else (4, 40)[dim - 2]
            if len(pairs) == len(P):
                every = 1 if dim < 3 or t else 3
            for j, (p, b) in enumerate(pairs):
                if (j + i) % every == 0:
                    out.append([dim, list(p), b] + m)
        yield name, out
    out = []
    for s, k, o in larger.keys(LARGER + (["cubes 2x1x1", "squares 5x4"] if t else []), (0, 2)):
        dim = larger.SHAPES[s]()[0]
        for i, m in enumerate(models(dim, t)):
            if t or (i + k + o // 2) % (2 if dim < 3 else 4) == 0:
                out.append([[s, k, o]] + m)
    yield "larger", out
    out = []
    ms = models(2, t)
    for n in (0, 1, 2, 3)[: 4 if t else 3]:
        for c, ids in enumerate(itertools.combinations(range(len(ALPHA)), n)):
            if not inside([clipped(ALPHA[i]) for i in ids]):
                continue
            for i, m in enumerate(ms):
                if (i + c + n) % ((1, 3, 12, 12) if t else (1, 6, 36))[n] == 0:
                    out.append([tuple(ROT)[(c // 2 + i) % 3 if n != 1 or ids[0] not in ALONG or m[0] != "darcy" else 0], (4.0, 2.5, 1.5)[(c + i) % (3 if m[1] < 3 else 2)], list(ids)] + m)
    yield "fractured boxes", out
    out = []
    shapes = [(1, "line")] + [(2, s) for s in POLY] + [(3, s) for s in HEX]
    for c, (how, (dim, shape), lc) in enumerate(itertools.product(("domain", "mesher of domains"), shapes, (2.0, 1.0))):
        for i, m in enumerate(models(dim, t)):
            if t and (dim < 3 or lc > 1) or (i + c) % (1, 6, 8 if lc > 1 else 24)[dim - 1] == 0:
                out.append([how, dim, shape, lc] + m)
    yield "boxes", out


def fractured(case, rep):
    """A box with fractures, meshed and cut along them."""
    e, lc, ids, name, k, fam = case
    box = np.array([ROT[e](*p[:2]) for p in BOX])
    lines = np.array([[ROT[e](*p[:2]) for p in ALPHA[i]] for i in ids]).reshape(-1, 2, 3)
    with Gmsh():
        h = DiscreteDomain(dimension=2)
        h.domain = create_md_box_2D(box, PT, lines, FT) if len(ids) else build_box_2D(box, PT)
        h.generate_mesh({"lc": lc * (0.1 if e == "slant" else 1.0)})
        h.write_mesh("a02.msh")
    mesh = Mesh(dimension=2, file_name="a02.msh")
    mesh.build_conformal_mesh()
    if ids:
        cut_conformity_along_c1_lines(lines, {**FT, "line_clones": 500, "point_clones": 700}, mesh)
    rep.step(2)
    rep.state(case)
    bc = [PT[f"bc_{i}"] for i in range(4)] + [500]
    outer = [[int(v) for v in c.node_tags] for c in mesh.cells if c.id is not None and c.dimension == 1 and c.material_id in bc]
    line = None
    if len(ids) == 1 and e == "id" and ids[0] in ALONG:
        line = [k, [FT["line"]], [FT["internal_bc"]] + bc[:4]]
    solve(mesh, 2, name, k, fam, outer, None, rep, ([PT["area"]], bc), line)


def box(case, rep):
    """A box of any dimension, meshed by one of the meshers."""
    how, dim, shape, lc, name, k, fam = case
    X = np.array({1: [(0.5, 0, 0), (3, 0, 0)], 2: POLY.get(shape), 3: HEX.get(shape)}[dim], float) * (1.0 if dim == 1 else 0.5)
    n = {1: 2, 2: len(X), 3: 6}[dim]
    tags = {("line", "area", "solid")[dim - 1]: 9, **{f"bc_{i}": 20 + i for i in range(n)}}
    with Gmsh():
        D = (build_box_1D, build_box_2D, build_box_3D)[dim - 1](X, tags)
        if how == "domain":
            h = DiscreteDomain(dimension=dim)
            h.domain = D
            h.generate_mesh({"lc": lc})
        else:
            h = ConformalMesher(dimension=dim)
            h.domain = D
            h.generate_from_domain(lc, 0)
        h.write_mesh("a02.msh")
    mesh = Mesh(dimension=dim, file_name="a02.msh")
    mesh.build_conformal_mesh()
    rep.step(2)
    rep.state(case)
    bc = [20 + i for i in range(n)]
    outer = [[int(v) for v in np.atleast_1d(c.node_tags)] for c in mesh.cells if c.dimension == dim - 1 and c.material_id in bc]
    solve(mesh, dim, name, k, fam, outer, None, rep, ([9], bc))


# fractures along x
ALONG = [i for i, (a, b) in enumerate(ALPHA) if a[1] == b[1]]


def run_case(space, case, rep):
    if space == "fractured boxes":
        return fractured(case, rep)
    if space == "boxes":
        return box(case, rep)
    if space == "larger":
        dim, pts, cells = larger.build(case[0])
        name, k, fam = case[1:]
        size = np.abs(pts).max()
        pts = pts / size * 2.5
        mask = None
    else:
        dim, p, mask, name, k, fam = case
        pts = [np.array(g) for g in GEO[dim]]
        c1 = list(p)
        c2 = [i + 1 for i in range(dim + 1)]
        if sign([pts[i] for i in c1]) != sign([pts[i] for i in c2]):
            c2[-1], c2[-2] = c2[-2], c2[-1]
        cells = [c1, c2]
    facets = {}
    for c in cells:
        for f in itertools.combinations(c, dim):
            facets.setdefault(frozenset(f), []).append(c)
    outer = sorted((sorted(f) for f, cs in facets.items() if len(cs) == 1))
    outer = [list(itertools.permutations(f))[i % (1, 2, 6)[dim - 1]] for i, f in enumerate(outer)]
    tags = [7 + i % 2 for i in range(len(outer))]
    mesh = read_mesh(dim, np.array(pts, float), [(dim - 1, outer, tags), (dim, cells, [1 + i % 2 for i in range(len(cells))])])
    rep.state(case)
    solve(mesh, dim, name, k, fam, outer, mask, rep)


def problem(name, dim, k, fam, salt=0):
    """fields, exact solution, data of the form, what holds on the boundary."""
    r = 1 if dim == 2 else 3
    T, I = lambda s, deg, i: tensor(s, dim, deg, i + salt), np.eye(dim)
    lin = Poly({(0, 0, 0): 4.0, (1, 0, 0): 0.25, (0, 1, 0): 0.125 * (dim > 1), (0, 0, 1): -0.25 * (dim > 2)})
    mu, lam, kap = as_poly(1.5), as_poly(2.0), as_poly(0.75)
    if name == "pressure":
        p = T((1,), k, 1)
        kappa = lin
        rhs = -div(grad(p, dim) * kappa)
        return [("p", fam, k, 1, 0)], {"p": p}, {"kappa": kappa, "rhs": rhs}, None
    if name in ("displacement", "normal displacement", "taylor-hood"):
        u = T((dim,), k, 2)
        if name != "taylor-hood":
            mu, lam = lin, lin * 0.5 + 1.0
        g = grad(u, dim)
        s = (g + g.T) * mu + I * (trace(g) * lam)
        sol, fields = {"u": u}, [("u", fam, k, dim, 0)]
        if name == "taylor-hood":
            sol["p"] = np.array([trace(g) * (lam + mu)], dtype=object)
            fields.append(("p", fam, k - 1, 1, 0))
        return fields, sol, {"mu": mu, "lambda": lam, "rhs": div(s)}, s
    if name == "cosserat":
        low = max(k - 1, 1)
        u, t = T((dim,), k, 3), T((r,), low, 4)
        e = grad(u, dim) + spin_(t, dim)
        mu, kap, gam = lin, lin * 0.5, lin * 0.25
        s = (e + e.T) * mu + (e - e.T) * kap + I * (trace(e) * lam)
        f = div(s)
        g = div(grad(t, dim) * gam) - axial_((e - e.T) * kap, dim)
        return [("u", fam, k, dim, 0), ("t", fam, low, r, 0)], {"u": u, "t": t}, {"mu": mu, "lambda": lam, "kappa": kap, "gamma": gam, "rhs": np.concatenate([f, g])}, None
    if name == "darcy":
        p = T((1,), k - 1, 5)
        u = -grad(p, dim) * (lin if k > 1 and fam == "BDM" else as_poly(0.5))
        return [("u", fam, k, 1, 0), ("p", "Lagrange", k - 1, 1, 1)], {"u": u, "p": p}, {"kappa": lin if k > 1 and fam == "BDM" else as_poly(0.5), "rhs": div(u)}, None
    if name == "degenerate":
        # porosity: the square of a linear function that divides the unknown
        root = lin if k > 1 else as_poly(1.5)
        P = T((1,), max(k - 2, 0), 6)
        q = P * root
        d = lin * 0.5
        v = -grad(P, dim) * d
        # the divergence of the flux is a multiple of the root, for the right-hand side
        D = div(v * d)
        dd = grad(np.array(d, dtype=object), dim)
        F = {
            "porosity": root * root, "d_phi": d, "grad_d_phi": np.concatenate([dd, zeros((3 - dim,))]),
            "rhs": lambda x, y, z: np.array([D[0](x, y, z) / root(x, y, z) + q[0](x, y, z)]),
        }
        return [("v", fam, k, 1, 0), ("q", "Lagrange", k - 1, 1, 1)], {"v": v, "q": q}, F, None
    if name == "unscaled":
        p = T((1,), k - 1, 5)
        d, phi = as_poly(1.25), as_poly(0.25)
        u = -grad(p, dim) * (d * d)
        rhs = (div(u) + p * phi) * 2.0
        dd = zeros((3,))
        return [("u", fam, k, 1, 0), ("p", "Lagrange", k - 1, 1, 1)], {"u": u, "p": p}, {"porosity": phi, "d_phi": d, "grad_d_phi": dd, "rhs": rhs}, None
    fam, fam2, more = fam.split() if " " in fam else (fam, fam, 0)
    more = int(more)
    u, t = T((dim,), k - 1, 7), T((r,), k - 1, 8)
    if name == "stress":
        kap = mu
    e = grad(u, dim) + spin_(t, dim)
    s = (e + e.T) * mu + (e - e.T) * kap + I * (trace(e) * lam)
    f, g = div(s), -axial_(s, dim)
    fields = [("s", fam, k, dim, 0), ("u", "Lagrange", k - 1, dim, 1), ("t", "Lagrange", k - 1 + more, r, 1)]
    if name == "stress":
        return fields, {"s": s, "u": u, "t": t}, {"mu": mu, "lambda": lam, "rhs": np.concatenate([f, g])}, {"s": s}
    fields.insert(1, ("m", fam2, k + more, r, 0))
    mo, lo, ko = as_poly(1.25), as_poly(0.5), as_poly(2.0)
    vary = k > 1 and (more or fam2 == "BDM")
    l = lin * 0.25 if vary else as_poly(1.5)
    c = grad(t, dim)
    if dim == 2:
        m = c * (mo + ko)
    else:
        m = (c + c.T) * mo + (c - c.T) * ko + np.eye(3) * (trace(c) * lo)
    m = m * l
    F = {"lambda_s": lam, "mu_s": mu, "kappa_s": kap, "lambda_o": lo, "mu_o": mo, "kappa_o": ko, "l": l}
    if name == "scaled couple":
        F["grad_l"] = np.concatenate([grad(np.array(l, dtype=object), dim), zeros((3 - dim,))])
        g = g + div(m * l)
    else:
        g = g + div(m)
    F["rhs"] = np.concatenate([f, g])
    return fields, {"s": s, "m": m, "u": u, "t": t}, F, {"s": s, "m": m}


def spin_(t, dim):
    out = zeros((dim, dim))
    if dim == 2:
        out[0, 1], out[1, 0] = -t[0], t[0]
    else:
        out[0, 1], out[0, 2], out[1, 2] = -t[2], t[1], -t[0]
        out[1, 0], out[2, 0], out[2, 1] = t[2], -t[1], t[0]
    return out


def axial_(s, dim):
    if dim == 2:
        return np.array([s[1, 0] - s[0, 1]], dtype=object)
    return np.array([s[2, 1] - s[1, 2], s[0, 2] - s[2, 0], s[1, 0] - s[0, 1]], dtype=object)


FORMS = {
    "pressure": LaplacePrimalWeakForm, "displacement": LEPrimalWeakForm, "normal displacement": LEPrimalWeakForm,
    "taylor-hood": LETaylorHoodWeakForm, "cosserat": LCEPrimalWeakForm, "darcy": LaplaceDualWeakForm,
    "degenerate": DegenerateEllipticWeakForm, "unscaled": UnscaledEllipticWeakForm, "stress": LEDualWeakForm,
    "couple": LCEDualWeakForm, "scaled couple": LCEScaledDualWeakForm,
}


class Vectorized:
    def __init__(self, form):
        self.space, self.evaluate_form = form.space, form.evaluate_form_vectorized


def outward(mesh, nodes, cells, dim):
    """The outward unit normal of a facet, from the vertex of its cell that is not on it."""
    P = mesh.points
    cell = next(c for c in cells if set(nodes) <= set(c))
    Q = P[list(nodes)]
    h = Q[0] - P[next(v for v in cell if v not in nodes)]
    if dim > 1:
        T = (Q[1:] - Q[0]).T
        h = h - T @ np.linalg.lstsq(T, h, rcond=None)[0]
    return (h / np.linalg.norm(h))[:dim]


def solve(mesh, dim, name, k, fam, outer, mask, rep, tags=([1, 2], [7, 8]), line=None):
    """Assemble and solve; each part of the domain has a solution of its own.

    line: [degree, tags of the cells, tags of the ends] of a problem on the lines along x.
    """
    fields = problem(name, dim, k, fam)[0]
    W = ProductSpace({n: (dim, c, f, kk, mesh) for n, f, kk, c, d in fields})
    W.make_subspaces_discontinuous({n: bool(d) for n, *_, d in fields})
    if name in NODAL:
        on = ["u", "t"] if name == "cosserat" else ["p"] if name == "pressure" else ["u"]
    else:
        on = ["s", "m"] if "couple" in name else ["s"] if name == "stress" else [fields[0][0]]
    W.build_structures({n: tags[0] for n, *_ in fields}, {n: tags[1] for n in on})
    first = W.discrete_spaces[fields[0][0]]
    order = [[int(v) for v in el.data.cell.node_tags] for el in first.elements]
    part = parts(order, dim)
    jobs, truth = {}, {}
    for c in sorted(set(part)):
        _, exact, F, flux = problem(name, dim, k, fam, 11 * c)
        form = FORMS[name](W)
        form.functions = {n: f if callable(f) and not isinstance(f, Poly) else function(f) for n, f in F.items()}
        truth[c] = exact, {n: function(v) for n, v in exact.items()}, flux, form
        ids = [i for i, p in enumerate(part) if p == c]
        jobs[f"cells {c}"] = ["form", ids, form]
    count = len(W.discrete_spaces[on[0]].bc_elements)
    rep.expect(count == len(outer), "every facet of the boundary has an element", lambda: f"{count} {outer}")
    held = {}
    for i in range(count):
        facet = W.discrete_spaces[on[0]].bc_elements[i].data.cell
        nodes = [int(v) for v in np.atleast_1d(facet.node_tags)]
        at = next(e for e, el in enumerate(first.elements) if facet.id in el.data.cell.sub_cells_ids[dim - 1])
        rep.expect(set(nodes) <= set(order[at]), "a facet belongs to its cell", lambda: f"{nodes} {order[at]}")
        exact, data, flux, form = truth[part[at]]
        n = outward(mesh, nodes, [order[at]], dim)
        j = [sorted(f) for f in outer].index(sorted(nodes))
        c = part[at]
        # the first facet of a part holds it
        lead = c not in held if name in NODAL else True
        essential = (mask >> j) & 1 if mask is not None else (lead or j % 3 == 0) if name in NODAL else c in held and j % 3 == 1
        if essential or name not in NODAL:
            held[c] = True
        if name in FLUX:
            add(jobs, f"flux {c}", FLUX[name][0], W, dict(form.functions, **data), i)
        elif name in ("pressure", "cosserat"):
            add(jobs, f"essential {c}", NODAL[name][0], W, data, i)
        elif name in NODAL:
            whole = name != "normal displacement" or lead
            if not essential or not whole:
                pull = -np.array([dots(flux[a], n) for a in range(dim)], dtype=object)
                add(jobs, f"traction {i}", NODAL["traction"][0], W, {"t": function(pull)}, i)
            if essential:
                kind = name if not whole or name == "taylor-hood" else "displacement"
                add(jobs, f"essential {c} {whole}", NODAL[kind][0], W, data, i)
        elif essential:
            sn = {m: np.array([dots(flux[m][a], n) for a in range(len(flux[m]))], dtype=object) for m in flux}
            add(jobs, f"essential {i}", STRESS[name][1], W, {m: function(v) for m, v in sn.items()}, i)
        else:
            add(jobs, f"natural {c}", STRESS[name][0], W, dict(form.functions, **data), i)
    N = W.n_dof
    ctx = lambda: f"{name} {k} {fam} dim {dim} cells {order} parts {part} facets {outer} conditions {mask} line {line}"
    both = [(W, part, {c: v[:2] for c, v in truth.items()}, fields, dim)]
    if line:
        both.append(on_line(mesh, line, N, jobs))
        N += both[-1][0].n_dof
    ways = []
    if not (name == "stress" and dim == 3):
        ways.append(lambda f: f)
    if name in STRESS:
        ways.append(Vectorized)
    for way in ways:
        J = PETSc.Mat()
        J.createAIJ([N, N])
        J.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
        R = np.zeros(N)
        start = np.zeros(N)
        for V in {id(j[2].space): j[2].space for j in jobs.values()}.values():
            asm = SequentialAssembler(V, J, R)
            asm.form_to_input_list = {
                label: [kind, ids, way(f) if kind == "form" and V is W else f, start] for label, (kind, ids, f) in jobs.items() if f.space is V
            }
            asm.scatter_forms()
        J.assemble()
        A = J.getValues(range(N), range(N))
        J.destroy()
        rep.step(len(jobs))
        scale = 1 / np.sqrt(np.maximum(np.abs(A).max(axis=1), 1e-300))
        B = scale[:, None] * A * scale
        cond = np.linalg.cond(B)
        if not rep.expect(cond < 1e13 or name == "normal displacement", "the problem has one solution", lambda: f"{cond} {ctx()}"):
            return
        alpha = -scale * np.linalg.solve(B, scale * R)
        for args in both:
            judge(*args, mesh, alpha, name, ctx, rep)
    rep.outcome(f"{name} {k} {fam} {dim}D")
    if len(truth) > 1 or line:
        rep.outcome(f"{len(truth)} parts" + (" and a line" if line else ""))


def dots(row, n):
    return sum((row[b] * n[b] for b in range(1, len(n))), row[0] * n[0])


def parts(cells, dim):
    """Number of the part of each cell; parts are connected through facets."""
    part = list(range(len(cells)))
    sides = {}
    for i, c in enumerate(cells):
        for f in itertools.combinations(sorted(c), dim):
            if f in sides:
                a, b = part[i], part[sides[f]]
                part = [b if p == a else p for p in part]
            sides[f] = i
    names = sorted(set(part))
    return [names.index(p) for p in part]


def on_line(mesh, line, shift, jobs):
    """The problem of a flow along lines of a mesh of triangles, behind the other unknowns."""
    k, cells, ends = line
    fields, exact, F, _ = problem("darcy", 1, k, "RT", 3)
    W = ProductSpace({n: (1, c, f, kk, mesh) for n, f, kk, c, d in fields})
    W.make_subspaces_discontinuous({n: bool(d) for n, *_, d in fields})
    W.build_structures({n: cells for n, *_ in fields}, {"u": ends})
    W.dof_shift = shift
    data = {n: function(v) for n, v in exact.items()}
    form, bc = FORMS["darcy"](W), FLUX["darcy"][0](W)
    form.functions = {n: function(f) for n, f in F.items()}
    bc.functions = data
    V = W.discrete_spaces["u"]
    jobs["cells of the line"] = ["form", list(range(len(V.elements))), form]
    jobs["ends of the line"] = ["bc_form", list(range(len(V.bc_elements))), bc]
    return W, [0] * len(V.elements), {0: (exact, data)}, fields, 1


def add(jobs, label, cls, W, functions, i):
    if label not in jobs:
        b = cls(W)
        b.functions = functions
        jobs[label] = ["bc_form", [], b]
    jobs[label][1].append(i)


def judge(W, part, truth, fields, dim, mesh, alpha, name, ctx, rep):
    # the penalty of a normal component leaves four digits to the tangential one
    tol = 1e-2 if name == "normal displacement" else 1e-6
    xi = np.vstack((np.zeros(dim), np.eye(dim), np.full((1, dim), 1.0 / (dim + 1)), [np.arange(1, dim + 1) / (dim + 1.0) ** 2]))
    worst, size = {}, 0.0
    for n, f, kk, comps, d in fields:
        V = W.discrete_spaces[n]
        worst[n] = 0.0
        for i, el in enumerate(V.elements):
            exact = truth[part[i]][0]
            P = mesh.points[el.data.cell.node_tags]
            X = P[0] + xi @ (P[1:] - P[0])
            _, jac, det, inv = el.evaluate_mapping(xi)
            phi = el.evaluate_basis(xi, jac, det, inv)[0]
            a = alpha[W.discrete_spaces_destination_indexes(i)[n]].reshape(-1, comps)
            got = np.einsum("pid,ic->cdp", phi, a)
            want = np.array([v(X[:, 0], X[:, 1], X[:, 2]) for v in exact[n].ravel()]).reshape(comps, -1, len(X))
            D = want.shape[1]
            worst[n] = max(worst[n], np.abs(got[:, :D] - want).max(), np.abs(got[:, D:]).max() if got.shape[1] > D else 0.0)
            size = max(size, np.abs(want).max())
    for n in worst:
        rep.expect(worst[n] < tol * (size + 1), "the solution is the exact one", lambda: f"{n} off by {worst[n]} of {size} {ctx()}")
    if len(truth) == 1:
        errors = l2_error(dim, W, truth[0][1], alpha)
        rep.step()
        rep.expect(len(errors) == len(fields) and max(errors) < 10 * tol * (size + 1), "the reported errors vanish", lambda: f"{errors} {ctx()}")
