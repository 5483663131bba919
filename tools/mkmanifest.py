#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.NOTES:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "technique": "symbolic execution of the real code (LLVM IR) with Z3, counterexamples replayed natively",
                       "level": "model_checking", "level_note": props.NOTES[i]})
    else:
        na.append({"property": i, "reason": props.NA.get(i, "the check for this property is not built yet")})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "symx/ is a symbolic executor for LLVM 18 bitcode written for this task; harness/ holds the environment models; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
