#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and checks/registry.py."""
import json
import os
import re
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "checks")]
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from registry import CHECKS  # noqa: E402

props = sorted(PROPS, key=lambda p: p["id"])
na = {x["property"] for x in NOT_APPLICABLE}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        a = {"files": p["files"],
             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in props:
    if p["id"] in na:
        continue
    c = CHECKS[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s" % p["id"],
        "thorough_cmd": "python3 run.py %s --thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": c["level"],
        "level_note": p["note"] + " Assumes: " + "; ".join(c.get("assumptions", ["nothing more"])) + "."})
assert set(CHECKS) == {c["property"] for c in checks}, set(CHECKS) ^ {c["property"] for c in checks}
json.dump({"version": 1, "setup_cmd": "mkdir -p build evidence replays",
           "checks": checks, "not_applicable": NOT_APPLICABLE,
           "notes": "run.py builds the harness of a property from /repo's working tree and explores it; see DESIGN.md"},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(line), ps)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))),
                        json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print("%d properties, %d checks" % (len(props), len(checks)))
