"""Common machinery of the bounded-exhaustive checks.

A check module (mc/checks/<id>.py) exposes

    ID     = "G01"
    LEVEL  = "model_checking"
    BOUNDS = {"quick": "...", "thorough": "..."}
    ASSUMPTIONS = [...]
    def spaces(tier): -> list of (space name, list-or-iterator of cases)
    def run_case(space, case, rep): executes one case on the code in /repo and
        compares it with the oracle, calling rep.*.

A *case* is JSON data only (so that it can be replayed), and the case lists are
finite enumerations: `spaces` must yield every element of the bounded space.
"""
import hashlib
import importlib
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def setup_paths():
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    warnings.simplefilter("ignore")


class Silence:
    """Discard what the code under test prints (OS level: gmsh prints from C)."""

    def __enter__(self):
        sys.stdout.flush()
        self.fd = os.dup(1)
        self.null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(self.null, 1)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.fd, 1)
        os.close(self.fd)
        os.close(self.null)


def key_of(obj):
    s = json.dumps(obj, sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=10).digest()


class Reporter:
    """Collects what happened while a chunk of cases was executed."""

    def __init__(self):
        self.states = set()  # canonical model states
        self.transitions = 0  # operations of the real code executed
        self.traces = 0  # executions compared, step by step, with the oracle
        self.outcomes = {}  # distinct outcome classes -> count
        self.samples = []
        self.failures = []  # (space, case, label, message)
        self._space = None
        self._case = None
        self._bad = False

    # -- API for checks ---------------------------------------------------
    def state(self, obj):
        self.states.add(key_of([self._space, obj]))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, name):
        k = f"{self._space}:{name}"
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def fail(self, label, message):
        """label: short stable class of the failure (call site / clause)."""
        self._bad = True
        if len(self.failures) < 400 or not any(
            f[2] == label for f in self.failures
        ):
            self.failures.append((self._space, self._case, label, str(message)[:600]))

    def expect(self, cond, label, message=""):
        if not cond:
            self.fail(label, message() if callable(message) else message)
        return bool(cond)

    # -- driver -----------------------------------------------------------
    def run(self, mod, space, case):
        self._space, self._case, self._bad = space, case, False
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(CASE_LIMIT)
            mod.run_case(space, case, self)
        except Exception as e:  # the code under test (or the oracle) raised
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if "/src/" in fr.filename:
                    where = f"{os.path.relpath(fr.filename, SRC)}:{fr.name}"
                    break
            self.fail(
                f"exception {type(e).__name__}",
                f"{type(e).__name__}: {e} at {where}",
            )
        finally:
            signal.alarm(0)
        if not self._bad:
            self.traces += 1
            if len(self.samples) < 1:
                self.samples.append({"space": space, "case": case})

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.samples += o.samples
        self.failures += o.failures


_MOD = None
_SCRATCH = None
CASE_LIMIT = 400  # seconds; a case takes well under ten


def _alarm(*_):
    raise TimeoutError(f"no answer after {CASE_LIMIT} s")


def scratch():
    """A directory of this run only, removed at its end."""
    return _SCRATCH


def _worker(args):
    chunk = args
    rep = Reporter()
    with Silence():
        for space, case in chunk:
            rep.run(_MOD, space, case)
    return rep


def pooled(ctx, jobs, feed):
    """Run the chunks on a pool; find the cases that kill the process they run in."""
    feed = iter(feed)
    open_, lost, done = {}, [], False
    ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker)
    while not done or open_:
        try:
            while not done and len(open_) < 4 * jobs:
                try:
                    c = next(feed)
                except StopIteration:
                    done = True
                    break
                try:
                    open_[ex.submit(_worker, c)] = c
                except BrokenProcessPool:
                    lost.append(c)
                    raise
            if not open_:
                break
            ready, _ = wait(open_, return_when=FIRST_COMPLETED)
            for f in ready:
                rep = f.result()
                del open_[f]
                yield rep
        except BrokenProcessPool:
            lost += list(open_.values())
            open_ = {}
            ex.shutdown(wait=False)
            ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init_worker)
    ex.shutdown()
    for c in lost:
        yield one_by_one(ctx, c)


def one_by_one(ctx, chunk):
    total = Reporter()
    for space, case in chunk:
        ex = ProcessPoolExecutor(1, mp_context=ctx, initializer=_init_worker)
        try:
            total.merge(ex.submit(_worker, [(space, case)]).result())
        except BrokenProcessPool:
            total._space, total._case = space, case
            total.fail("the process died", "killed or crashed while it ran this case")
        ex.shutdown(wait=False)
    return total


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


def match_known(known, space, case, label):
    """A known finding names the space, the failing clause and the exact case."""
    for k in known:
        if k["space"] != space or k["label"] != label:
            continue
        if any(c == case for c in k["cases"]):
            return k
    return None


def main(argv=None):
    global _MOD, _SCRATCH
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--dump-failures")
    ap.add_argument("--space")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    setup_paths()
    t0 = time.time()
    _SCRATCH = tempfile.mkdtemp(prefix=f"nfempy-{a.id}-")
    os.chdir(_SCRATCH)  # the code writes gmsh.msh and similar into its cwd
    try:
        with Silence():
            _MOD = importlib.import_module(f"mc.checks.{a.id.lower()}")
        if a.replay:
            return replay(a.replay)
        return explore(a, tier, seed, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    rep = Reporter()
    for f_ in d["failures"]:
        rep.run(_MOD, f_["space"], f_["case"])
    for f_ in rep.failures:
        print("FAIL", f_[0], json.dumps(f_[1]), f_[2], f_[3])
    print(f"replayed {len(d['failures'])} case(s): {len(rep.failures)} failure(s)")
    return 1 if rep.failures else 0


def explore(a, tier, seed, t0):
    mod = _MOD
    known = load_known(a.id)
    total = Reporter()
    chunk_size = getattr(mod, "CHUNK", 64)
    sizes = {}
    crashed = None

    def feed():
        for name, cases in mod.spaces(tier):
            if a.space and a.space != name:
                continue
            n = 0
            for c in chunks(cases, getattr(mod, "CHUNKS", {}).get(name, chunk_size)):
                n += len(c)
                yield [(name, x) for x in c]
            sizes[name] = n

    if a.jobs > 1:
        ctx = mp.get_context("fork")
        for rep in pooled(ctx, a.jobs, feed()):
            total.merge(rep)
            if len(total.samples) > 64:
                total.samples = total.samples[:64]
    else:
        for c in feed():
            total.merge(_worker(c))
    if hasattr(mod, "finish"):
        with Silence():
            mod.finish(tier, total)

    cases = sum(sizes.values())
    seen_known, violations = {}, []
    for sp, case, label, msg in total.failures:
        k = match_known(known, sp, case, label)
        if k is None:
            violations.append((sp, case, label, msg))
        else:
            seen_known.setdefault(k["name"], [k, 0])[1] += 1
    wall = time.time() - t0

    # one sample per space
    samples, got = [], set()
    for s in total.samples:
        if s["space"] not in got:
            got.add(s["space"])
            samples.append(s)
    if len(samples) < 3:
        samples = total.samples[:3]
    cov = {
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "samples": samples[:12] or [{"space": "none", "case": None}],
        "cases": cases,
        "cases_per_space": sizes,
        "distinct_outcomes": len(total.outcomes),
        "outcomes": dict(sorted(total.outcomes.items())[:80]),
        "bounds": mod.BOUNDS[tier],
        "exhaustive": True,
    }
    if a.space is None:
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, f"{a.id}.json"), "w") as f:
            json.dump(
                {
                    "property": a.id,
                    "tier": tier,
                    "seed": seed,
                    "level": mod.LEVEL,
                    "coverage": cov,
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "wall_s": round(wall, 3),
                    "violations": len(violations),
                },
                f,
                indent=1,
                default=str,
            )
    if a.dump_failures:
        with open(a.dump_failures, "w") as f:
            json.dump(
                [dict(space=s, case=c, label=l, message=m) for s, c, l, m in violations],
                f,
                default=str,
            )
    print(
        f"{a.id} {tier}: cases={cases} states={cov['states']} "
        f"transitions={cov['transitions']} traces={cov['traces_validated_against_impl']} "
        f"outcomes={cov['distinct_outcomes']} wall={wall:.1f}s"
    )
    for name, (k, n) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={a.id} {k['name']}: {k['what']} ({n} listed case(s) fail)")
    if cases == 0:
        print("ERROR: nothing was explored")
        return 2
    if violations:
        rp = os.path.join(EVIDENCE, f"replay-{a.id}.json")
        by = {}
        for v in violations:
            by.setdefault((v[0], v[2]), []).append(v)
        with open(rp, "w") as f:
            json.dump(
                {
                    "property": a.id,
                    "replay_with": f"/verif/run.sh {a.id} --replay {rp}",
                    "failures": [
                        dict(space=s, case=c, label=l, message=m)
                        for vs in by.values()
                        for s, c, l, m in vs[:5]
                    ],
                },
                f,
                indent=1,
                default=str,
            )
        for (sp, lab), vs in list(by.items())[:12]:
            v = min(vs, key=lambda x: len(json.dumps(x[1], default=str)))
            print(f"  [{sp}] {lab}: {len(vs)} case(s); e.g. {json.dumps(v[1], default=str)[:300]} -> {v[3][:300]}")
        print(f"VIOLATION property={a.id} replay={rp}")
        return 1
    return 0


def _init_worker():
    d = tempfile.mkdtemp(dir=_SCRATCH)
    os.chdir(d)

