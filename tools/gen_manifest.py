#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check rebuilds the monitors in harness/ against /repo's working tree. "
             "No hooks in /repo are needed: all observation happens through public traits.",
}
for i in ids:
    if i in spec.CHECKS:
        c = spec.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py " + i,
            "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
            "technique": c["technique"],
            "level": c["level"],
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
