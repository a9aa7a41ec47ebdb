#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import CHECKS, NOTES, NOT_APPLICABLE
checks = []
for p in sorted(CHECKS):
    tech, note = NOTES[p]
    checks.append(dict(property=p, quick_cmd="bash check.sh " + p, thorough_cmd="VERIF_TIER=thorough bash check.sh " + p,
                       evidence_file="evidence/%s.json" % p, technique=tech, level=CHECKS[p][2], level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
         notes="TLA+ specifications in spec/, checked with TLC; harness/ replays their behaviours into the code and validates recorded traces. No hooks are needed in /repo.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
