"""Writes DESIGN.md (source env.sh; python tools/design.py): the text of tools/design.md with the
bounds of the checks, the fixes and the planted bugs filled in."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo/src"]
J = lambda *p: os.path.join(ROOT, *p)


def bounds(pid):
    return importlib.import_module("mc.checks." + pid.lower()).BOUNDS


text = open(J("tools", "design.md")).read()
props = {json.loads(l)["id"]: json.loads(l) for l in open(J("properties.jsonl"))}
seen = set()


def one(m):
    pid = m.group(1)
    seen.add(pid)
    p = props[pid]
    b = bounds(pid)
    return (f"### {pid} {p['title']}\n\n*Enumerated, quick:* {b['quick']}.\n\n*Thorough:* {b['thorough']}.\n\n"
            f"*Beyond the tests:* {p['why_tests_cant']}\n")


text = re.sub(r"^@@(\w+)$", one, text, flags=re.M)
assert seen == set(props), set(props) ^ seen
k = json.load(open(J("known_findings.json")))
text = text.replace("@FIXED", "\n".join("- " + f for f in k["fixed"]))
text = text.replace("@FINDINGS", "\n".join(f"- {f['property']}, {f['name']}: {f['what']}." for f in k["findings"]) or "None: every genuine defect found was repaired.")
seeds = json.load(open(J("tools", "seeds.json")))
rows = ["| planted bug | property | what it breaks | outcome |", "|---|---|---|---|"]
for sid in sorted(os.listdir(J("seeded"))):
    meta = json.load(open(J("seeded", sid, "meta.json")))
    s = seeds.get(sid)
    rows.append(f"| {sid} | {meta['property']} | {meta['what_it_breaks']} | {s if isinstance(s, str) else 'not run'} |")
text = text.replace("@SEEDS", "\n".join(rows))
open(J("DESIGN.md"), "w").write(text)
