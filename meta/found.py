"""found.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json
import sys
p, c, w = sys.argv[1:]
f = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(f))
d["findings"].append({"property": p, "status": "fixed", "what": f"fixed: property={p} {c} {w}"})
json.dump(d, open(f, "w"), indent=1)
