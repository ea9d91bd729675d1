#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  PROVED lists the properties decided by the deductive engine."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
try:
    import sys
    sys.path.insert(0, here)
    from dv.prove import PROVED, NOTES
except ImportError:
    PROVED, NOTES = {}, {}
checks = []
for i in ids:
    if i in PROVED:
        lev = "proof"
        tech = "contract-based deductive verification of the LLVM IR compiled from /repo (own VC generator, z3), bounded replay on the real code"
        note = NOTES.get(i) or "Every obligation of the listed functions is discharged by z3 for all inputs; trusted: clang/opt lowering, the VC generator in dv/, z3, the assumed contracts of the element type and the allocator. See evidence/%s.json." % i
    else:
        lev = "exploration"
        tech = "bounded stand-in: operation histories on the real code against an ideal model"
        note = NOTES.get(i) or "Bounded: all histories up to the length in the evidence plus random longer ones; sanitizers and a tracking element/allocator watch every step."
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": lev, "level_note": note})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
