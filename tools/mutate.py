"""Find gaps: small syntactic changes of /repo/src that no check notices.

    python tools/mutate.py list FILE            number of mutants
    python tools/mutate.py run FILE... [--jobs N] [--budget S]
    python tools/mutate.py again [--jobs N] [--budget S]   the survivors once more

For every mutant of a file its checks (quick cases in a scattered order, one process, a
time budget each) run until one of them fails.  Survivors are written to
/tmp/mut/survivors.jsonl for reading; this tool decides nothing.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")
OUT = "/tmp/mut"
CHECKS = {
    "geometry/operations/point_geometry_operations.py": "G01 G03 T03 G04",
    "geometry/operations/line_geometry_operations.py": "G02 G04 T03 G06",
    "geometry/operations/polygon_geometry_operations.py": "G03 G04",
    "geometry/fracture_network.py": "G06",
    "geometry/mapping.py": "G07 S04 S02",
    "geometry/compute_normal.py": "G07",
    "mesh/mesh.py": "M01 M06 M04 M02 M05",
    "mesh/mesh_cell.py": "M01 M06 M03 M04",
    "mesh/mesh_topology.py": "M03 S01",
    "mesh/topological_queries.py": "M03",
    "mesh/mesh_operations.py": "M04",
    "mesh/mesh_coloring.py": "M05 M06",
    "mesh/mesh_metrics.py": "G07",
    "mesh/conformal_mesher.py": "M02",
    "mesh/discrete_domain.py": "M02",
    "spaces/dof_map.py": "S01 S04 S02",
    "spaces/discrete_space.py": "S01 S02 S03 S04 S05",
    "spaces/product_space.py": "S03 S01 A01 W04",
    "basis/basis_trace.py": "S06",
    "basis/finite_element.py": "S02 S04 S05 S01 G07",
    "basis/element_data.py": "S02 S04 S01",
    "basis/element_family.py": "S02 S05",
    "basis/element_type.py": "S02 S03",
    "basis/parametric_transformation.py": "S04",
    "basis/permute_and_transform.py": "S02 S04",
    "assembly/SequentialAssembler.py": "A01",
    "assembly/ScatterFormData.py": "A01",
    "postprocess/projectors.py": "S05",
    "postprocess/l2_error_post_processor.py": "W02",
    "postprocess/solution_norms_post_processor.py": "W02",
    "postprocess/solution_post_processor.py": "W04",
    "topology/shape.py": "T01 T04 T05",
    "topology/wire.py": "T01 T04 T03",
    "topology/edge.py": "T01 T05 T02",
    "topology/vertex.py": "T01 T05",
    "topology/face.py": "T01 T04",
    "topology/shell.py": "T01",
    "topology/solid.py": "T01",
    "topology/composite_solid.py": "T01",
    "topology/domain.py": "T04 T03 T06",
    "topology/domain_market.py": "T03 T04 T06",
    "topology/shape_manipulation.py": "T06",
    "topology/operations/domain_operations.py": "T02 T05 T03",
    "topology/operations/edge_operations.py": "T05 T02",
    "topology/operations/vertex_operations.py": "T05 T02",
}
for f in os.listdir(os.path.join(REPO, "src/weak_forms")):
    if f.endswith(".py"):
        CHECKS["weak_forms/" + f] = "W01 W03 A02"
SKIP = {"draw_grahp", "devia_l2_error", "devia_l2_norm", "plot", "print", "build_box_3D_with_planes", "build_disjoint_planes"}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
NAMES = {"min": "max", "max": "min", "all": "any", "any": "all", "zeros": "ones", "ones": "zeros", "append": None, "argmin": "argmax", "argmax": "argmin", "sorted": "list", "predecessors": "successors", "successors": "predecessors", "abs": "float"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    par = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIP or isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip |= set(ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            skip |= set(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip |= set(ast.walk(n))
    nodes = [n for n in ast.walk(tree)]
    out = []

    def emit(i, what, change):
        t = copy.deepcopy(tree)
        n = [x for x in ast.walk(t)][i]
        change(n, t)
        new = ast.unparse(ast.fix_missing_locations(t))
        out.append((getattr(nodes[i], "lineno", 0), what, new))

    def drop(t, target, by):
        for m in ast.walk(t):
            for f, v in ast.iter_fields(m):
                if isinstance(v, list) and target in v:
                    v[v.index(target)] = by
                    return

    for i, n in enumerate(nodes):
        if n in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                for new in CMP[type(o)]:
                    emit(i, f"{type(o).__name__}->{new.__name__}", lambda x, t: x.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            emit(i, f"{type(n.op).__name__}", lambda x, t: setattr(x, "op", BIN[type(n.op)]()))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            emit(i, f"aug {type(n.op).__name__}", lambda x, t: setattr(x, "op", BIN[type(n.op)]()))
        elif isinstance(n, ast.BoolOp):
            emit(i, "and/or", lambda x, t: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(i, "not", lambda x, t: setattr(x, "op", ast.UAdd()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            emit(i, "neg", lambda x, t: setattr(x, "op", ast.UAdd()))
        elif isinstance(n, ast.Constant) and not isinstance(par.get(n), ast.Expr):
            if isinstance(n.value, bool):
                emit(i, "bool", lambda x, t: setattr(x, "value", not x.value))
            elif isinstance(n.value, int):
                emit(i, "int+1", lambda x, t: setattr(x, "value", x.value + 1))
                if n.value > 0:
                    emit(i, "int-1", lambda x, t: setattr(x, "value", x.value - 1))
            elif isinstance(n.value, float):
                emit(i, "float", lambda x, t: setattr(x, "value", x.value * 2 + (x.value == 0)))
        elif isinstance(n, ast.Attribute) and NAMES.get(n.attr) and isinstance(n.ctx, ast.Load):
            emit(i, n.attr, lambda x, t: setattr(x, "attr", NAMES[n.attr]))
        elif isinstance(n, ast.Name) and NAMES.get(n.id) and isinstance(par.get(n), ast.Call):
            emit(i, n.id, lambda x, t: setattr(x, "id", NAMES[n.id]))
        elif isinstance(n, (ast.Break, ast.Continue)):
            emit(i, "break/continue", lambda x, t: drop(t, x, ast.Continue() if isinstance(x, ast.Break) else ast.Break()))
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            emit(i, "drop statement", lambda x, t: drop(t, x, ast.Pass()))
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            emit(i, "drop assignment", lambda x, t: drop(t, x, ast.Pass()))
        if isinstance(n, ast.If):
            emit(i, "if False", lambda x, t: setattr(x, "test", ast.Constant(False)))
            emit(i, "if True", lambda x, t: setattr(x, "test", ast.Constant(True)))
    return out


DRIVER = r'''
import importlib, itertools, os, random, sys, time
sys.path.insert(0, "%s")
from mc import core
core.setup_paths()
pid, budget = sys.argv[1], float(sys.argv[2])
t0 = time.process_time()
with core.Silence():
    mod = importlib.import_module("mc.checks." + pid.lower())
    by = [[(s, c) for c in cs] for s, cs in mod.spaces("quick")]
    for cs in by:
        random.Random(3).shuffle(cs)
    cases = [x for row in itertools.zip_longest(*by) for x in row if x is not None]
    rep = core.Reporter()
    core._MOD = mod
    core.CASE_LIMIT = 60
    known = core.load_known(pid)
    n = 0
    for s, c in cases:
        rep.run(mod, s, c)
        n += 1
        rep.failures = [f for f in rep.failures if not core.match_known(known, f[0], f[1], f[2])]
        if rep.failures:
            f = rep.failures[0]
            core.sys.stderr.write("KILLED %%s: %%s\n" %% (f[2], f[3][:120]))
            os._exit(1)
        if time.process_time() - t0 > budget:
            break
sys.stderr.write("SURVIVED %%d of %%d cases\n" %% (n, len(cases)))
''' % VERIF


def one(job):
    rel, k, line, what, new, budget = job
    d = f"{OUT}/w{os.getpid()}"
    if not os.path.exists(d + "/src"):
        shutil.copytree(REPO + "/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(d + "/cwd")
    p = f"{d}/src/{rel}"
    open(p, "w").write(new)
    notes = []
    env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONPATH="")
    try:
        for pid in CHECKS[rel].split():
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-c", DRIVER, pid, str(budget)], cwd=d + "/cwd", env=env, capture_output=True, text=True, timeout=3 * budget + 120)
                last = (r.stderr.strip().splitlines() or [""])[-1]
                if r.returncode:
                    return rel, k, line, what, None
                notes.append(f"{pid} {last}")
            except subprocess.TimeoutExpired:
                return rel, k, line, what, None
    finally:
        shutil.copy(f"{REPO}/src/{rel}", p)
    return rel, k, line, what, notes


def main():
    args = sys.argv[2:]
    opt = lambda name, d: int(args[args.index(name) + 1]) if name in args else d
    files = [a for a in args if a.endswith(".py")] or list(CHECKS)
    if sys.argv[1] == "list":
        tot = 0
        for f in files:
            n = len(mutants(f"{REPO}/src/{f}"))
            tot += n
            print(n, f)
        print(tot)
        return
    jobs, budget = opt("--jobs", 6), opt("--budget", 40)
    os.makedirs(OUT, exist_ok=True)
    work = []
    if sys.argv[1] == "again":  # the survivors once more, with another budget
        old = [json.loads(l) for l in open(OUT + "/survivors.jsonl")]
        os.rename(OUT + "/survivors.jsonl", OUT + "/survivors.old")
        for f in dict.fromkeys(o[0] for o in old):
            ms = mutants(f"{REPO}/src/{f}")
            work += [(f, o[1], *ms[o[1]], budget) for o in old if o[0] == f]
        files = []
    for f in files:
        for k, (line, what, new) in enumerate(mutants(f"{REPO}/src/{f}")):
            work.append((f, k, line, what, new, budget))
    # a part of them
    work = work[opt("--offset", 0) :: opt("--every", 1)]
    print(len(work), "mutants", flush=True)
    t0, n, alive = time.time(), 0, 0
    with mp.Pool(jobs) as pool, open(OUT + "/survivors.jsonl", "a") as log:
        for rel, k, line, what, notes in pool.imap_unordered(one, work):
            n += 1
            if notes is not None:
                alive += 1
                src = open(f"{REPO}/src/{rel}").read().splitlines()
                log.write(json.dumps([rel, k, line, what, src[line - 1].strip() if line else "", notes]) + "\n")
                log.flush()
            if n % 50 == 0:
                print(n, "done", alive, "alive", int(time.time() - t0), "s", flush=True)
    print("finished", n, alive, flush=True)


if __name__ == "__main__":
    main()
