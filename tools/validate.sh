#!/bin/bash
# validates properties.jsonl, MANIFEST.json and the evidence against the schemas
cd "$(dirname "$0")/.."
/opt/veriftools/pyvenv/bin/python - <<'PY'
import json, glob, jsonschema
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
rows = [json.loads(l) for l in open("properties.jsonl")]
s = S("PROPERTIES")
for r in rows:
    jsonschema.validate(r if s.get("type") == "object" else rows, s)
jsonschema.validate(json.load(open("MANIFEST.json")), S("MANIFEST"))
e = S("EVIDENCE")
for f in glob.glob("evidence/[A-Z][0-9]*.json"):
    jsonschema.validate(json.load(open(f)), e)
import os
for r in rows:
    for f in r["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
    for m in r["anchors"]["mechanism"]:
        assert os.path.exists("/repo/" + m["where"]), m
    if r["statement"].count(". ") > 2: print("many sentences", r["id"])
print(len(rows), "ok")
PY
