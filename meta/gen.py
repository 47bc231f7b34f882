#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py and lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/meta", V + "/lib"]
from props import P
from registry import CHECKS
na = json.load(open(V + "/meta/not_applicable.json")) if os.path.exists(V + "/meta/not_applicable.json") else {}
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        q["statement"] = q["statement"].strip()
        f.write(json.dumps(q) + "\n")
checks = []
for p in P:
    if p["id"] not in CHECKS:
        continue
    c = CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "technique": p["technique"], "level": c.get("level", "exploration"),
                   "level_note": c.get("note", "Holds on every generated case of the run (counts, classes and samples in the evidence file); no proof beyond them. "
                                       "Trusts the harness's reference model, the compiler, and AddressSanitizer for memory errors.")})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "no check built yet")} for p in P if p["id"] not in CHECKS],
     "notes": "Checks compile harnesses against /repo/src directly (content-hashed object cache in .build). VERIF_SEED selects the cases. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    assert len(json.loads(l)["statement"].split(". ")) <= 3, l[:20]
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(checks), "checks")
