#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
props = [json.loads(line)["id"] for line in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check rebuilds from /repo's working tree (object cache keyed "
             "by content under /verif/build). No hooks in /repo are needed.",
}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
