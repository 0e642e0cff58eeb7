#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property listed in CLAIMS, the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
from claims import CLAIMS
checks, na = [], []
for p in props:
    c = CLAIMS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "no monitor built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
        "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "sh tools/setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: everything is observed through public interfaces (integrand and basis-function types are the caller's to define). Known findings and repaired defects: known_findings.json. fem_2d has no unsafe code, so memory sanitizers are not used; ThreadSanitizer runs for C10 and C25.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
