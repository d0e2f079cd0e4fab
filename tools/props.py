"""The properties; writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, tech, note):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(
            files=["src/" + f for f in files],
            mechanism=[dict(name=n, where="src/" + w) for n, w in mech],
            observe_at=observe, hook_needed=None,
        ),
    ), tech, note))


GEO = "bounded-exhaustive enumeration of the configurations of an integer grid, each executed on the real code and compared with exact rational arithmetic"
OPS = "bounded-exhaustive enumeration of operation sequences on the real code, compared state by state with a reference model"
CPX = "bounded-exhaustive enumeration of small cell complexes, numberings and orders, each built by the real code and compared with a set-theoretic model"
FEM = "bounded-exhaustive enumeration of mesh configurations, spaces and numberings, each executed on the real code and compared with an independent reference"

exec(open(os.path.join(ROOT, "tools", "props_text.py")).read())


def main():
    ready = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mc", "checks"))}
    P.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, basix, gmsh, meshio, networkx'", checks=[], not_applicable=[])
    for p, tech, note in P:
        if p["id"] in ready:
            m["checks"].append(dict(
                property=p["id"], quick_cmd=f"./run.sh {p['id']}",
                thorough_cmd=f"./run.sh {p['id']} --tier thorough",
                technique="model checking: " + tech, level="model_checking", level_note=note,
            ))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason=NOT.get(p["id"], "its check is not finished")))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NOT = {}
main()
