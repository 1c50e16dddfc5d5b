#!/usr/bin/python3
"""Writes DESIGN.md (development tool)"""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tool", "design_text.py")).read())
NA = {}
exec(open(os.path.join(V, "tool", "manifest_notes.py")).read())
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
find = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
seeds = {}
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    seeds.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j["what_it_breaks"]))


def strings(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


def rules(path):
    t = ast.parse(open(path).read())
    r, a = {}, []
    for c in ast.walk(t):
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
            if c.func.attr == "rule" and len(c.args) == 2:
                k, v = strings(c.args[0]), strings(c.args[1])
                if k and v:
                    r.setdefault(k, v)
            elif c.func.attr == "assume" and len(c.args) == 1:
                v = strings(c.args[0])
                if isinstance(v, str) and v not in a:
                    a.append(v)
    return r, a


out = [INTRO, "## Properties\n"]
na = ["## Properties without a check\n"]
for p in props:
    i = p["id"]
    f = os.path.join(V, "vp", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append("* **%s %s**: %s" % (i, p["title"], NA.get(i, "No check has been built for it yet.")))
        continue
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i in NOTES:
        out.append("*How:* " + NOTES[i] + "\n")
    r, a = rules(f)
    out.append("*Rules* (`vp/checks/%s.py`):\n" % i.lower())
    out += ["* `%s`: %s" % x for x in r.items()]
    out.append("")
    if a:
        out.append("*Assumed:* " + "; ".join(a) + ".\n")
    fs = [x for x in find if x["property"] == i]
    if fs:
        out.append("*Findings:*\n")
        for x in fs:
            out.append("* %s: %s%s" % ("fixed in " + x["commit"] if x["status"] == "fixed" else "known, not repaired", x["what"],
                                       "" if x["status"] == "fixed" else ". Fails for: %s. Not repaired because %s" % (x["history"], x["why_not_fixed"])))
        out.append("")
    if i in seeds:
        out.append("*Planted bugs that this check reports:*\n")
        out += ["* `%s`: %s" % s for s in seeds[i]]
        out.append("")
out += na + ["", NOT_DONE]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
