#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import registry  # noqa: E402
from levelnotes import NOTES  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": "TLA+ specification model-checked with TLC; traces of the real code validated against it",
           "level": "model_checking", "level_note": NOTES.get(p, "")} for p in props if p in registry.CHECKS]
na = [{"property": p, "reason": "no check yet"} for p in props if p not in registry.CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "All checks drive the public API; no hooks in /repo are needed. known_findings.txt lists the repaired defects."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
