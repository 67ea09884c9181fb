#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py."""
import json, os, sys
sys.dont_write_bytecode = True
from specs import CHECKS
NOT = {}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p} quick",
            "thorough_cmd": f"./check {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "symbolic execution of rustc's LLVM IR of krates, every branch and assertion decided by z3",
            "level": "model_checking",
            "level_note": CHECKS[p]["bounds"]["quick"],
        }
        for p in ids if p in CHECKS
    ],
    "not_applicable": [
        {"property": p, "reason": NOT.get(p, "not built yet")} for p in ids if p not in CHECKS
    ],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
