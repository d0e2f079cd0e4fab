"""A01: the assembler adds exactly the local contributions at the global indices."""
import itertools

import numpy as np
from petsc4py import PETSc

from assembly.SequentialAssembler import SequentialAssembler
from mc import larger
from mc.complexes import POINTS, cell_sets, faces
from mc.meshes import read_mesh
from spaces.product_space import ProductSpace
from weak_forms.weak_from import WeakForm

ID = "A01"
LEVEL = "model_checking"
CHUNK = 8
TYPES = ["form", "bc_form", "interface_form", "bc_interface_form", "time_dependent_form", "time_dependent_bc_form"]
BOUNDS = {
    "quick": "4 meshes (1D, two 2D, 3D) x 3 products of spaces x shifts 0 and 4; every sequence (with repetitions) of <=2 elements for each of the 6 kinds of forms; every ordered set of <=3 kinds assembled in one run; two runs into the same matrix; the time is zero, positive or negative; every element of 5 larger meshes (up to 18 cells), for every kind and a second one",
    "thorough": "as quick, sequences of <=3 elements, every ordered set of <=4 kinds",
}
MESHES = [
    (1, 4, [(0, 1), (1, 2), (2, 3)]), (2, 4, [(0, 1, 2), (1, 2, 3)]), (2, 5, [(2, 0, 1), (3, 1, 2), (4, 2, 3)]), (3, 5, [(0, 1, 2, 3), (1, 2, 3, 4)]),
]
PRODUCTS = [
    lambda d: {"u": (d, d, "Lagrange", 1), "p": (d, 1, "Lagrange", 2)},
    lambda d: {"q": (d, 1, "RT", 1), "m": (d, 2, "Lagrange", 1)},
    lambda d: {"u": (d, 2, "Lagrange", 2)},
]


def spaces(tier):
    t = tier == "thorough"
    out = []
    for m in range(len(MESHES)):
        for s in range(len(PRODUCTS)):
            for sh in (0, 4):
                for k in range(len(TYPES)):
                    for n in range(1, 4 if t else 3):
                        for seq in itertools.product(range(len(MESHES[m][2])), repeat=n):
                            out.append([m, s, sh, [[k, list(seq)]]])
    yield "one kind", out
    out = []
    for m in (1, 2, 3):
        for s in (0, 1):
            for n in range(2, 5 if t else 4):
                for ks in itertools.permutations(range(len(TYPES)), n):
                    seqs = [[(i + j) % 2 for j in range(1 + (i + ks[0]) % 3)] for i in range(n)]
                    out.append([m, s, 3 * s, [[k, q] for k, q in zip(ks, seqs)]])
    yield "several kinds", out
    out = []
    for shape in ("line 12", "fan 6", "squares 3x3", "wheel 5", "cube") + (("squares 5x4", "cubes 2x1x1") if t else ()):
        for s in range(len(PRODUCTS)):
            for k in range(len(TYPES)):
                for stride in range(3):
                    out.append([[shape, stride, 1], s, (0, 4, 300)[stride], [[k, []], [(k + 1 + stride) % len(TYPES), []]]])
    yield "all elements", out


class Stub(WeakForm):
    """Local contributions without structure, that depend on everything they are given."""

    def __init__(self, space, k):
        super().__init__(space)
        self.k, self.calls = k, []

    def local(self, idx, alphas, t):
        a = np.concatenate(alphas)
        n = len(alphas[0]) if TYPES[self.k] == "time_dependent_form" else len(a)
        i = np.arange(n)
        r = np.sin(1.0 + self.k + idx + i) + 0.5 * a[:n] ** 2 + (0.25 * a[n:] if len(a) > n else 0.0) + t
        j = np.cos(2.0 + self.k + 3 * idx + 5 * i[:, None] + 7 * i[None, :]) + a[:n][:, None] + t
        return r, j

    def evaluate_form(self, *args):
        self.calls.append(args)
        ty = TYPES[self.k]
        if ty in ("form", "bc_form"):
            idx, a = args
            return self.local(idx, [a], 0.0)
        if ty == "interface_form":
            idx, pair, (a, b) = args
            return self.local(100 * idx + 10 * pair[0] + pair[1], [a, b], 0.0)
        if ty == "bc_interface_form":
            idx, i, a = args
            return self.local(100 * idx + i, [a], 0.0)
        if ty == "time_dependent_form":
            idx, a, b, t = args
            return self.local(idx, [a, b], t)
        idx, a, t = args
        return self.local(idx, [a], t)


def run_case(space, case, rep):
    m, s, shift, jobs = case
    if isinstance(m, list):
        dim, pts, cells = larger.build(m)
        n = len(cells)
        jobs = [[k, [(n - 1 - 3 * i) % n if n % 3 else n - 1 - i for i in range(n)]] for k, _ in jobs]
        jobs[1][1] += jobs[1][1][:2]
    else:
        dim, n, cells = MESHES[m]
        pts = np.array(POINTS[:n])
    f = faces(cells, dim - 1)
    mesh = read_mesh(dim, pts, [(dim - 1, f, [7] * len(f)), (dim, cells, [1] * len(cells))])
    spec = PRODUCTS[s](dim)
    W = ProductSpace({k: v + (mesh,) for k, v in spec.items()})
    W.build_structures({k: [1] for k in spec}, {k: [7] for k in spec})
    W.dof_shift = shift
    rep.state(case)
    N = W.n_dof + shift
    J = PETSc.Mat()
    J.createAIJ([N, N])
    J.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
    R = np.zeros(N)
    new, old = np.cos(1.3 * np.arange(N)), np.sin(0.7 * np.arange(N) + 2)
    Jw, Rw = np.zeros((N, N)), np.zeros(N)
    asm = SequentialAssembler(W, J, R)
    inputs, forms, wants = {}, [], []
    for i, (k, seq) in enumerate(jobs):
        form = Stub(W, k)
        forms.append(form)
        ty = TYPES[k]
        nbc = len(f)
        if ty == "interface_form":
            seq = [(q + 40, (q, (q + 1) % len(cells))) for q in seq]
        elif ty == "bc_interface_form":
            seq = [(q + 50, q) for q in seq]
        elif "bc" in ty:
            seq = [(q * 2 + i) % nbc for q in seq]
        t = (0.75, 0.0, -0.5)[(i + k + shift + len(seq)) % 3] if "time" in ty else 0.0
        inputs[f"job {i}"] = [ty, seq, form, (new, old), t] if "time" in ty else [ty, seq, form, new]
        ref = Stub(W, k)
        for item in seq:
            if ty == "form":
                dest = W.destination_indexes(item)
                args = (item, new[dest])
            elif ty == "bc_form":
                dest = W.bc_destination_indexes(item)
                args = (item, new[dest])
            elif ty == "interface_form":
                d0, d1 = (W.destination_indexes(x) for x in item[1])
                dest = np.concatenate((d0, d1))
                args = (item[0], item[1], (new[d0], new[d1]))
            elif ty == "bc_interface_form":
                dest = W.destination_indexes(item[1])
                args = (item[0], item[1], new[dest])
            elif ty == "time_dependent_form":
                dest = W.destination_indexes(item)
                args = (item, new[dest], old[dest], t)
            else:
                dest = W.bc_destination_indexes(item)
                args = (item, new[dest], t)
            r, j = ref.evaluate_form(*args)
            for a, x in enumerate(dest):
                Rw[x] += r[a]
                for b, y in enumerate(dest):
                    Jw[x, y] += j[a, b]
        wants.append(ref)
    asm.form_to_input_list = inputs
    for times in (1, 2):
        asm.scatter_forms()
        J.assemble()
        rep.step(sum(len(q) for _, q in jobs))
        got = J.getValues(range(N), range(N))
        ctx = lambda: f"mesh {m} spaces {s} {[TYPES[k] for k, _ in jobs]} run {times}"
        rep.expect(np.allclose(R, times * Rw, rtol=1e-12, atol=1e-12), "residual", ctx)
        rep.expect(np.allclose(got, times * Jw, rtol=1e-12, atol=1e-12), "matrix", ctx)
    for g, w in zip(forms, wants):
        half = len(g.calls) // 2
        rep.expect(len(g.calls) == 2 * len(w.calls), "every element is visited once per run", ctx)
        rep.expect(str(g.calls[:half]) == str(w.calls) == str(g.calls[half:]), "what a form is given", ctx)
    rep.expect(np.array_equal(new, np.cos(1.3 * np.arange(N))) and np.array_equal(old, np.sin(0.7 * np.arange(N) + 2)), "the coefficients are not changed", ctx)
    rep.outcome(",".join(TYPES[k] for k, _ in jobs) if len(jobs) < 3 else f"{len(jobs)} kinds")
    J.destroy()
