#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = dict(props.NA)
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [
    {"property": k, "reason": r} for k, r in props.NA],
    "notes": "One static analysis over facts extracted by a compiler driver from /repo's current source; the crates "
             "missing offline are replaced by stand-ins with the same interface (shim/), so that everything "
             "type-checks. Nothing of /repo is run."}
for p in props.PROPS:
    if p["id"] in na:
        continue
    assert os.path.exists(V + "/checks/%s.py" % p["id"]), p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "./check.py " + p["id"],
        "thorough_cmd": "./check.py " + p["id"], "technique": "static analysis: " + p["technique"], "level": "other",
        "level_note": p["note"]})
for n in os.listdir(V + "/checks"):
    if n.endswith(".py") and n[:-3] not in [c["property"] for c in m["checks"]]:
        print("unlisted check", n)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props.PROPS), "properties", len(m["checks"]), "checks")
import design
design.write(props)
