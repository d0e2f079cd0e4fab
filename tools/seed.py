"""Adds planted bugs: python3 tools/seed.py BATCH.py  (BATCH defines SEEDS).

SEEDS: id -> dict(property, edits=[(file, old, new)], needs, breaks, demo).
Each is tried in a scratch copy: it has to build, pass the 91 stable tests, pass its
demonstration unchanged and fail it changed.  What passes is kept in seeded/<id>/,
and the outcome of the quick check of its property is printed and noted in
tools/seeds.json.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = os.path.join(ROOT, "tools", "seeds.json")
DEMO = """#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cd "$w" && timeout 250 /opt/venv/bin/python "$d/demo.py"
"""
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYVISTA_OFF_SCREEN="true",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HOME="/root", PATH="/opt/venv/bin:" + os.environ["PATH"])
ENV.pop("PYTHONPATH", None)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def one(sid, s, recheck=False):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = work + "/repo"
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(ROOT, "seeded", sid)
        if not recheck:
            e = work + "/d"
            os.mkdir(e)
            open(e + "/demo.sh", "w").write(DEMO)
            os.chmod(e + "/demo.sh", 0o755)
            open(e + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            r = sh([e + "/demo.sh"], repo)
            if r.returncode:
                return sid, "BAD demo fails on the unchanged tree", r.stdout[-800:]
            for f, old, new in s["edits"]:
                p = os.path.join(repo, "src", f)
                t = open(p).read()
                if t.count(old) != 1:
                    return sid, f"BAD edit matches {t.count(old)} times in {f}", old
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=repo, text=True, stdout=subprocess.PIPE).stdout
            r = sh([e + "/demo.sh"], repo)
            if not r.returncode:
                return sid, "BAD demo passes on the changed tree", r.stdout[-800:]
            demo_out = r.stdout.strip().splitlines()[-1:]
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300"], repo, MPLCONFIGDIR=work + "/mpl", TMPDIR=work)
            if "91 passed" not in r.stdout or "failed" in r.stdout.splitlines()[-1]:
                return sid, "BAD tests", "\n".join(r.stdout.splitlines()[-6:])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in ("demo.sh", "demo.py"):
                shutil.copy(e + "/" + f, d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        else:
            demo_out = []
            r = sh(["git", "apply", d + "/patch.diff"], repo)
            if r.returncode:
                return sid, "BAD does not apply", r.stdout
            r = sh([d + "/demo.sh"], repo)
            if not r.returncode:
                return sid, "BAD demo passes on the changed tree", r.stdout[-800:]
        ev = work + "/verif"
        shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns("seeded", ".git", "evidence"))
        os.mkdir(ev + "/evidence")
        r = sh(["timeout", "900", "./run.sh", s["property"]], ev, VERIF_REPO=repo)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        caught = r.returncode == 1 and bool(v)
        return sid, "caught" if caught else f"MISSED ({r.returncode})", "\n".join(demo_out + r.stdout.splitlines()[:3])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    recheck = sys.argv[1] == "--recheck"
    if recheck:
        ids = sys.argv[2:] or sorted(os.listdir(ROOT + "/seeded"))
        seeds = {i: json.load(open(f"{ROOT}/seeded/{i}/meta.json")) for i in ids}
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        seeds = {k: v for k, v in ns["SEEDS"].items() if not sys.argv[2:] or k in sys.argv[2:]}
    notes = json.load(open(NOTES)) if os.path.exists(NOTES) else {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for sid, res, out in ex.map(lambda x: one(x[0], x[1], recheck), seeds.items()):
            print(f"## {sid} [{seeds[sid]['property']}] {res}\n   " + out.replace("\n", "\n   "), flush=True)
            if not res.startswith("BAD"):
                late = res == "caught" and "missed" in notes.get(sid, "").lower()
                notes[sid] = "caught (missed at first; check strengthened)" if late else res
    json.dump(notes, open(NOTES, "w"), indent=1, sort_keys=True)


main()
