#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl, the existing checks and the
reasons for what is not applicable (development tool)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = "path-sensitive abstract interpretation of clang CFGs (trace partitioning, inlining) with property-specific rules"
AST = "abstract interpretation / dataflow rules over the Python syntax tree"
TECH = {"P01": "const-effect analysis over clang CFGs and compile-fail witnesses",
        "P03": "lockset analysis over all abstract paths of clang CFGs",
        "P15": AST, "P16": AST, "P23": "order taint analysis and abstract interpretation of the file effects over the Python syntax tree"}
NOTES = {}
exec(open(os.path.join(V, "tool", "manifest_notes.py")).read())
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vp", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier=quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier=thorough" % i,
                       "technique": TECH.get(i, PATHS), "level": "other",
                       "level_note": NOTES.get(i, "Every rule is decided on all abstract paths of the analysed functions of the current tree; loops are summarised by one symbolic iteration. Violations name function and path.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: see DESIGN.md. Findings on the unchanged tree are listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
