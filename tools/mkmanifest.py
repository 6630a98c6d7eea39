#!/usr/bin/env python3
"""writes MANIFEST.json from tools/overlays.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from overlays import OVERLAYS, NOTES, NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NOT_APPLICABLE:
        na.append({"property": p, "reason": NOT_APPLICABLE[p]})
        continue
    proof = bool(OVERLAYS.get(p))
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "contract-based deductive verification with Verus of functions extracted from /repo on every run; bounded search on the real crate for the failing input"
                     if proof else "bounded stand-in: contracts executed on the real crate over generated inputs (not proved)",
        "level": "proof" if proof else "exploration",
        "level_note": NOTES[p],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: functions are extracted from the working tree by /verif/extract. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
