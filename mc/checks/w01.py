"""W01: the local forms of the models are the integrals that define them."""
import itertools

import numpy as np

import mc.ad_shim
from mc.checks.s05 import PLACE, sign, GEO
from mc.fem import exponents, monomial_integral
from mc.forms import Fields, Jet, axial, block, skew, spin, sym, tr
from mc.meshes import read_mesh
from spaces.product_space import ProductSpace
from weak_forms.degenerate_elliptic_weak_form import DegenerateEllipticWeakForm
from weak_forms.l2_projector_weak_form import L2ProjectorWeakForm
from weak_forms.laplace_dual_weak_form import LaplaceDualWeakForm
from weak_forms.laplace_primal_weak_form import LaplacePrimalWeakForm
from weak_forms.lce_dual_weak_form import LCEDualWeakForm
from weak_forms.lce_primal_weak_form import LCEPrimalWeakForm
from weak_forms.lce_riesz_map_weak_form import LCERieszMapWeakForm
from weak_forms.lce_scaled_dual_weak_form import LCEScaledDualWeakForm
from weak_forms.lce_scaled_riesz_map_weak_form import LCEScaledRieszMapWeakForm
from weak_forms.le_dual_weak_form import LEDualWeakForm
from weak_forms.le_primal_stress_constraint_weak_form import LEPrimalStressConstraintWeakForm
from weak_forms.le_primal_weak_form import LEPrimalWeakForm
from weak_forms.le_riesz_map_weak_form import LERieszMapWeakForm
from weak_forms.le_taylor_hood_weak_form import LETaylorHoodWeakForm
from weak_forms.scaled_to_physical_l2_projection import ScaledToPhysicalL2Projection
from weak_forms.unscaled_elliptic_weak_form import UnscaledEllipticWeakForm

ID = "W01"
LEVEL = "model_checking"
CHUNK = 2


def spaces(tier):
    t = tier == "thorough"
    for dim, name in ((1, "lines"), (2, "triangles"), (3, "tetrahedra")):
        P = list(itertools.permutations(range(dim + 1)))
        out = []
        for m in models(dim, t):
            for i, p in enumerate(P):
                if dim == 3 and not t and i % 3 != len(out) % 3:
                    continue
                for place in PLACE if t and dim < 3 else [list(PLACE)[(len(out) + i) % 3]]:
                    out.append([dim, list(p), place] + m)
        yield name, out


def models(dim, t):
    """[model, degree, family of the vector fields]"""
    out = []
    K = (1, 2, 3) if t or dim < 3 else (1, 2)
    out += [["laplace", k, ""] for k in K]
    if dim > 1:
        for m in ("elasticity", "stress constraint", "cosserat"):
            out += [[m, k, ""] for k in (K if dim == 2 else (1, 2))]
        if dim == 2:
            out += [["taylor-hood", k, ""] for k in (2, 3)]
    for m in ("darcy", "degenerate", "unscaled", "physical", "projection"):
        fams = ("RT",) if dim == 1 else ("RT", "BDM")
        out += [[m, k, f] for f in fams for k in (K if dim < 3 else (1, 2))]
    if dim > 1:
        for m in ("stress", "stress map", "couple", "couple map", "scaled couple", "scaled map"):
            out += [[m, k, f] for f in ("RT", "BDM") for k in ((1, 2) if dim == 2 or t else (1,))]
        # fields of different families and orders, as the examples use them
        for m in ("couple", "couple map", "scaled couple", "scaled map"):
            out += [[m, 1, f] for f in ("BDM RT 0", "BDM RT 1", "RT BDM 1")[: 3 if dim == 2 or t else 2]]
        out += [[m, 1, f] for m in ("stress", "stress map") for f in ("RT RT 1", "BDM BDM 1")]
    return out


BOUNDS = {
    "quick": "two cells that share a facet in 1D, 2D and 3D (each an element of the space): every node order of the first cell (3D: one in 3), a small, a unit and a large placement; 14 models x degrees 1 to 3 (3D: 1 to 2, mixed elasticity 1; 2D: 1 to 2) x RT and BDM, and stress and couple stress of different families and orders; coefficients and loads that vary in space; every pair of polynomials of the local space, three states",
    "thorough": "as quick, with every node order and placement and degree 2 of mixed elasticity in 3D",
}


def coefficient(i, h):
    return lambda x, y, z: 1.5 + 0.25 * i + 0.2 * np.sin(0.7 * (i + 1) + (x + (0.5 + i % 3) * y - 0.75 * z) / h)


def several(n, i, h, shape=None):
    """n functions of a point: (n, ...)."""
    return lambda x, y, z: np.array([coefficient(2 * j + i, h)(x, y, z) * (1.0 if j % 2 else -0.5) for j in range(n)])


def signed(h):
    """A porosity: positive, small, zero and negative in parts of the domain."""
    parts = lambda s, x: [s < 0.6, s < 0.9, s < 1.2, s > 1.9]
    return lambda x, y, z: np.select(parts((x + y + z) / h, x), [0.0 * x, 1e-3 + 0.0 * x, 1e-6 + 0.0 * x, -0.3 + 0.0 * x], 0.25 + np.abs(x) / h)


def pair(test, trial, w):
    a = test.reshape(test.shape[0], test.shape[1], -1)
    b = trial.reshape(trial.shape[0], trial.shape[1], -1)
    return np.einsum("ipk,jpk,p->ij", a, b, w, optimize=True)


def load(test, data, w):
    """data: (points, comps...)"""
    return np.einsum("ipk,pk,p->i", test.reshape(test.shape[0], test.shape[1], -1), data.reshape(len(data), -1), w)


class Model:
    """One model: its fields, the functions it needs, its bilinear form and its load."""

    def __init__(self, name, dim, k, fam, h):
        self.name, self.dim, self.h = name, dim, h
        r = 1 if dim == 2 else 3
        # family of the stress, family of the couple stress, orders that the latter has more
        fam, fam2, more = fam.split() if " " in fam else (fam, fam, 0)
        more = int(more)
        L = lambda n, k, c, d=1: (n, "Lagrange", k, c, d)
        V = lambda n, c: (n, fam, k, c, 0)
        low = k - 1
        c = lambda i: coefficient(i, h)
        self.methods = ["evaluate_form"]
        self.penalty = 1.0
        mats = {"lambda": c(0), "mu": c(1)}
        cos = {"lambda_s": c(0), "mu_s": c(1), "kappa_s": c(2), "lambda_o": c(3), "mu_o": c(4), "kappa_o": c(5), "l": c(6)}
        grad = lambda x, y, z: np.array([np.cos(x / h), np.sin(y / h) + 0.2, 0.4 + 0.1 * z / h])
        if name == "laplace":
            self.cls, self.fields = LaplacePrimalWeakForm, [L("p", k, 1, 0)]
            self.F = {"kappa": c(0), "rhs": several(1, 1, h)}
        elif name == "elasticity":
            self.cls, self.fields = LEPrimalWeakForm, [L("u", k, dim, 0)]
            self.F = dict(mats, rhs=several(dim, 1, h))
        elif name == "stress constraint":
            self.cls, self.fields = LEPrimalStressConstraintWeakForm, [L("u", k, dim, 0)]
            self.F = dict(mats, s_target=lambda x, y, z: several(dim * dim, 1, h)(x, y, z).reshape((dim, dim) + np.shape(x)))
            self.penalty = 1e6
        elif name == "taylor-hood":
            self.cls, self.fields = LETaylorHoodWeakForm, [L("u", k, dim, 0), L("p", k - 1, 1, 0)]
            self.F = dict(mats, rhs=several(dim, 1, h))
        elif name == "cosserat":
            self.cls, self.fields = LCEPrimalWeakForm, [L("u", k, dim, 0), L("t", max(k - 1, 1), r, 0)]
            self.F = dict(mats, kappa=c(2), gamma=c(3), rhs=several(dim + r, 1, h))
        elif name == "darcy":
            self.cls, self.fields = LaplaceDualWeakForm, [V("u", 1), L("p", low, 1)]
            self.F = {"kappa": c(0), "rhs": several(1, 1, h)}
        elif name == "degenerate":
            self.cls, self.fields = DegenerateEllipticWeakForm, [V("v", 1), L("q", low, 1)]
            self.F = {"porosity": signed(h), "d_phi": c(2), "grad_d_phi": grad, "rhs": several(1, 1, h)}
        elif name == "unscaled":
            self.cls, self.fields = UnscaledEllipticWeakForm, [V("u", 1), L("p", low, 1)]
            self.F = {"porosity": lambda x, y, z: np.abs(signed(h)(x, y, z)), "d_phi": c(2), "grad_d_phi": grad, "rhs": several(1, 1, h)}
        elif name == "physical":
            self.cls, self.fields = ScaledToPhysicalL2Projection, [V("v", 1), L("q", low, 1)]
            self.F = {"porosity": signed(h), "d_phi": c(2)}
        elif name == "projection":
            self.cls, self.fields = L2ProjectorWeakForm, [V("v", 2), L("q", k, 2)]
            vec = dim > 1
            self.F = {
                "v": (lambda x, y, z: several(2 * dim, 1, h)(x, y, z).reshape((2, dim) + np.shape(x))) if vec else several(2, 1, h),
                "q": several(2, 3, h),
            }
        elif name == "stress":
            self.cls, self.fields = LEDualWeakForm, [V("s", dim), L("u", low, dim), L("t", low + more, r)]
            self.F = dict(mats, rhs=several(dim + r, 1, h))
            self.methods = ["evaluate_form", "evaluate_form_vectorized"] if dim == 2 else ["evaluate_form_vectorized"]
        elif name == "stress map":
            self.cls, self.fields = LERieszMapWeakForm, [V("s", dim), L("u", low, dim), L("t", low + more, r)]
            self.F = dict(mats, rhs=several(dim + r, 1, h))
            self.methods = ["evaluate_form", "evaluate_form_vectorized"]
        else:
            self.cls = {
                "couple": LCEDualWeakForm, "couple map": LCERieszMapWeakForm,
                "scaled couple": LCEScaledDualWeakForm, "scaled map": LCEScaledRieszMapWeakForm,
            }[name]
            self.fields = [V("s", dim), ("m", fam2, k + more, r, 0), L("u", low, dim), L("t", low + more, r)]
            self.F = dict(cos, rhs=several(dim + r, 1, h))
            if "scaled" in name:
                self.F["grad_l"] = grad
            self.methods = ["evaluate_form", "evaluate_form_vectorized"]

    def at(self, X):
        return {n: np.asarray(f(X[:, 0], X[:, 1], X[:, 2])) for n, f in self.F.items()}

    def matrix(self, j, w, X):
        """Rows: test fields; columns: trial fields."""
        d, f, name = self.dim, self.at(X), self.name
        I = np.eye(d)
        mat = lambda a: a[None, :, None, None]
        if name == "laplace":
            return pair(j.grad["p"], j.grad["p"], w * f["kappa"])
        if name in ("elasticity", "stress constraint", "taylor-hood"):
            g = j.grad["u"]
            s = 2 * mat(f["mu"]) * sym(g) + (mat(f["lambda"]) * tr(g)[..., None, None]) * I
            if name != "taylor-hood":
                return self.penalty * pair(g, s, w)
            p = j.val["p"][:, :, 0]
            s = s - tr(s)[..., None, None] * I / d + p[..., None, None] * I
            return pair(g, s, w) + pair(p, tr(g), w) - pair(p, p, w / (f["lambda"] + f["mu"]))
        if name == "cosserat":
            e = j.grad["u"] + spin(j.val["t"], d)
            s = 2 * mat(f["mu"]) * sym(e) + 2 * mat(f["kappa"]) * skew(e) + (mat(f["lambda"]) * tr(e)[..., None, None]) * I
            return pair(j.grad["u"], s, w) + pair(j.val["t"], axial(skew(s), d), w) + pair(j.grad["t"], j.grad["t"], w * f["gamma"])
        if name == "darcy":
            u, D, p = j.val["u"], j.div["u"], j.val["p"]
            return pair(u, u, w / f["kappa"]) - pair(D, p, w) + pair(p, D, w)
        if name == "degenerate":
            v, q = j.val["v"], j.val["q"]
            flat = v.reshape(v.shape[0], v.shape[1], 1, -1)
            dv = f["d_phi"][None, :, None] * j.div["v"] + np.einsum("ipcd,dp->ipc", flat, f["grad_d_phi"][: flat.shape[3]])
            ok = f["porosity"] > 1e-8
            dv = dv * np.where(ok, 1 / np.sqrt(np.where(ok, f["porosity"], 1.0)), 0.0)[None, :, None]
            return pair(v, v, w) - pair(dv, q, w) + pair(q, dv, w) + pair(q, q, w)
        if name == "unscaled":
            u, D, p = j.val["u"], j.div["u"], j.val["p"]
            phi = np.where(f["porosity"] > 1e-8, f["porosity"], 1e-16)
            return pair(u, u, w / f["d_phi"] ** 2) - pair(D, p, w) + pair(p, D, w) + pair(p, p, w * phi)
        if name in ("physical", "projection"):
            return sum(pair(j.val[n], j.val[n], w) for n in ("v", "q"))
        s, u, t = j.val["s"], j.val["u"], j.val["t"]
        if name in ("stress", "stress map"):
            lam, mu = f["lambda"], f["mu"]
            kap = mu
        else:
            lam, mu, kap = f["lambda_s"], f["mu_s"], f["kappa_s"]
        As = (sym(s) - mat(lam / (2 * mu + d * lam)) * tr(s)[..., None, None] * I) * mat(1 / (2 * mu)) + skew(s) * mat(1 / (2 * kap))
        out = pair(s, As, w)
        ds = j.div["s"]
        if "map" in name:
            out += pair(ds, ds, w) + pair(u, u, w) + pair(t, t, w)
        else:
            out += pair(ds, u, w) + pair(u, ds, w)
            out -= pair(s, spin(t, d), w) + pair(t, axial(s, d), w)
        if name in ("stress", "stress map"):
            return out
        m, dm = j.val["m"], j.div["m"]
        lam, mu, kap, l = f["lambda_o"], f["mu_o"], f["kappa_o"], f["l"]
        if "scaled" in name:
            dm = l[None, :, None] * dm + np.einsum("ipcd,dp->ipc", m, f["grad_l"][:d])
            l = np.ones_like(l)
        if d == 2:
            out += pair(m, m, w / (l * (mu + kap)))
        else:
            Am = (sym(m) - mat(lam / (2 * mu + d * lam)) * tr(m)[..., None, None] * I) * mat(1 / (2 * mu)) + skew(m) * mat(1 / (2 * kap))
            out += pair(m, Am, w / l)
        return out + (pair(dm, dm, w) if "map" in name else pair(dm, t, w) + pair(t, dm, w))

    def constant(self, j, w, X, given=None):
        """The residual of the zero state; given: values of the fields of the scaled state."""
        f, name = self.at(X), self.name
        if name in ("elasticity", "taylor-hood"):
            return load(j.val["u"], f["rhs"].T, w)
        if name == "stress constraint":
            return -self.penalty * load(j.grad["u"], f["s_target"].transpose(2, 0, 1), w)
        if name == "cosserat":
            d = self.dim
            return load(j.val["u"], f["rhs"][:d].T, w) + load(j.val["t"], f["rhs"][d:].T, w)
        if name == "laplace":
            return -load(j.val["p"], f["rhs"].T, w)
        if name in ("darcy", "degenerate"):
            return -load(j.val["p" if name == "darcy" else "q"], f["rhs"].T, w)
        if name == "unscaled":
            return -load(j.val["p"], f["rhs"].T, w * np.sqrt(f["porosity"]))
        if name == "projection":
            return -sum(load(j.val[n], np.moveaxis(f[n], -1, 0), w) for n in ("v", "q"))
        if name == "physical":
            on = f["porosity"] > 0
            a = np.where(on, f["d_phi"], 1.0)
            b = np.where(on, 1 / np.sqrt(np.where(on, f["porosity"], 1.0)), 1.0)
            return -pair(j.val["v"], j.val["v"], w * a) @ given - pair(j.val["q"], j.val["q"], w * b) @ given
        if "map" in name:
            return np.zeros(j.N)
        d = self.dim
        return -load(j.val["u"], f["rhs"][:d].T, w) - load(j.val["t"], f["rhs"][d:].T, w)

    def load_only(self, method):
        return self.name in ("darcy", "projection") or method != "evaluate_form"


def run_case(space, case, rep):
    dim, p, place, name, k, fam = case
    h = PLACE[place]
    geo = [h * np.array(g) for g in GEO[dim]]
    c1 = list(p)
    c2 = [i + 1 for i in range(dim + 1)]
    if sign([geo[i] for i in c1]) != sign([geo[i] for i in c2]):
        c2[-1], c2[-2] = c2[-2], c2[-1]
    mesh = read_mesh(dim, np.array(geo), [(dim, [c1, c2], [1, 1])])
    rep.state(case)
    M = Model(name, dim, k, fam, h)
    W = ProductSpace({n: (dim, c, f, kk, mesh) for n, f, kk, c, d in M.fields})
    W.make_subspaces_discontinuous({n: bool(d) for n, f, kk, c, d in M.fields})
    W.build_structures({n: [1] for n, *_ in M.fields}, {})
    form = M.cls(W)
    form.functions = M.F
    exact_rule(W, dim, rep)
    for i in range(2):
        element(W, M, form, i, mesh, h, rep)


def element(W, M, form, i, mesh, h, rep):
    dim = M.dim
    first = W.discrete_spaces[M.fields[0][0]].elements[i]
    verts = mesh.points[first.data.cell.node_tags]
    pts, wts = W.quadrature[dim]
    J = (verts[1:] - verts[0]).T
    X = verts[0] + np.asarray(pts).reshape(-1, dim) @ J.T
    w = np.asarray(wts) * np.sqrt(np.linalg.det(J.T @ J))
    fields = {n: Fields(W.discrete_spaces[n], W.discrete_spaces[n].elements[i], verts, f, k, c, dim, X) for n, f, k, c, d in M.fields}
    ctx = lambda: f"{M.name} {M.fields} element {i}"
    if not rep.expect(all(f.complete for f in fields.values()), "the basis spans the polynomials of its element", ctx):
        return
    jet = Jet(fields, X)
    C = block(fields)
    n = C.shape[1]
    given = np.cos(1.0 + 0.8 * np.arange(jet.N))
    A = M.matrix(jet, w, X)
    b = M.constant(jet, w, X, given)
    extra = [given @ C] if M.name == "physical" else []
    states = [np.zeros(n), np.sin(0.5 + 1.3 * np.arange(n)), np.cos(0.2 + 0.9 * np.arange(n))]
    for method in M.methods:
        for m, a in enumerate(states):
            r, K = getattr(form, method)(i, a, *extra)
            r, K = np.array(r).ravel(), np.array(K)
            rep.step()
            e = np.abs(C @ K @ C.T - A) / (np.abs(C) @ np.abs(K) @ np.abs(C).T + np.abs(A) + 1e-300)
            rep.expect(e.max() < 1e-10, "tangent", lambda: f"{ctx()} {method} {e.max()} at {np.unravel_index(e.argmax(), e.shape)}")
            if m and M.load_only(method):
                continue  # these return the load at every state
            got, want = C @ r, b + C @ (K @ a)
            scale = np.abs(want).max() + np.abs(b).max() + np.abs(C).sum(axis=1).max() * (np.abs(K) @ np.abs(a)).max()
            rep.expect(np.abs(got - want).max() < 1e-10 * scale + 1e-15, "residual", lambda: f"{ctx()} {method} state {m} {np.abs(got - want).max()} of {scale}")
    rep.outcome(f"{M.name} {dim}D")


def exact_rule(W, dim, rep):
    """The rules of the space integrate products of two of its fields exactly."""
    degree = 2 * max(V.k_order for V in W.discrete_spaces.values())
    for d, rules in ((dim, W.quadrature), (dim - 1, W.bc_quadrature)):
        if d == 0:
            continue
        pts, wts = rules[d]
        pts = np.asarray(pts).reshape(-1, d)
        for e in exponents(d, degree):
            got = np.sum(np.asarray(wts) * np.prod([pts[:, b] ** a for b, a in enumerate(e)], axis=0))
            rep.expect(abs(got - monomial_integral(e)) < 1e-12, "quadrature", lambda: f"{d}D {e} degree {degree}")
