#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in tools/props_data.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash check.sh " + p["id"],
        "thorough_cmd": "bash check.sh " + p["id"],
        "technique": p.get("technique", "deterministic simulation with fault injection: seeded search over schedules and faults"),
        "level": "exploration",
        "level_note": p["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "build overlay (no guarded code is committed in /repo)",
        "enable": "sim/gen writes a 'go build -overlay' that instruments /repo's current sources and the toolchain's scheduler, clock, randomness and network",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check builds everything it needs from /repo's working tree; see DESIGN.md.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
