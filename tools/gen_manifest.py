#!/usr/bin/env python3
"""Writes ../MANIFEST.json from run/config.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "run"))
from config import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    c = PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 run/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run/check.py %s" % i,
                   "technique": "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; failed obligations replayed against the real code",
                   "level": c.get("level", "proof"), "level_note": c["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: its contracts are still being written")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash run/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Plans (contracts) in plans/, extractor in extract/, counterexample replay in replay/, driver run/check.py, known findings in known_findings.txt. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
