#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in props_table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props_table import PROPS, NA, LEVELS
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(q) + "\n")
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    lv = p.get("level", "proof")
    checks.append({
        "property": i,
        "quick_cmd": "bash check.sh %s quick" % i,
        "thorough_cmd": "bash check.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": p.get("technique", "contract-based deductive verification of the Go source (gvc: symbolic execution + z3/cvc5)"),
        "level": lv,
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: contracts live in /verif/specs and refer to the functions of /repo by name", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Each check re-reads /repo's source, regenerates all proof obligations of the contracts behind the property and discharges them; concrete replay on the compiled code only supplies failing inputs."}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
        assert len(json.loads(l)["title"]) <= 80
except ImportError:
    print("no jsonschema")
pj = json.load(open(root + "/specs/props.json"))
ids = [c["property"] for c in checks]
for i in ids:
    if i not in pj: print("no props.json entry", i)
for i in pj:
    if i not in ids: print("not claimed", i)
print(len(checks), "checks", len(na), "not applicable")
