#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl for the properties that have a plan in vlib/plans.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import plans  # noqa: E402
import gen_properties  # noqa: E402

props = [p for p in gen_properties.P if p["id"] in plans.PLANS]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for p in props:
    plan = plans.PLANS[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": plan["technique"],
        "level": plan.get("level", "exploration"),
        "level_note": plan["note"],
    })

m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": plans.HOOKS,
    "checks": checks,
    "not_applicable": [],
    "notes": "Runtime monitoring and sanitizers. The whole engine of /repo is built three times (plain with block "
             "level pause injection, address+undefined sanitizers, thread sanitizer) against stand-ins of the two "
             "missing libraries, driven through the public interface, and every recorded history is decided by an "
             "offline checker. See DESIGN.md; open findings are in known_findings.txt.",
}
if plans.HOOKS is None:
    del m["hooks"]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
