#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(HERE, "check.py")).read()
claimed = re.findall(r'"(C\d\d)": \[', src)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks = []
na = []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": "contract-based deductive verification of the compiled source (VCs from LLVM IR, z3)",
                       "level": "proof", "level_note": NOTES.get(i, NOTES["default"])})
    else:
        na.append({"property": i, "reason": NOTES.get("na_" + i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read the unmodified source", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check rebuilds the LLVM IR of /repo/src from the working tree and discharges all obligations anew."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
