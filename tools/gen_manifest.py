#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from claims import CLAIMS, NOT_APPLICABLE
checks = []
for pid, (level, note) in CLAIMS.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 tools/check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {pid}",
        "technique": "deterministic simulation with fault injection (seeded search)",
        "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/check.py --build", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
