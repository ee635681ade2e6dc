#!/usr/bin/env python3
"""Refreshes the tables between <!-- name --> and <!-- /name --> in DESIGN.md from seedspecs.py, refspecs.py and results.json."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import seedspecs, refspecs
seeds = [s for s in seedspecs.SEEDS if os.path.isdir(os.path.join(HERE, "seeded", s["id"]))]
R = json.load(open(os.path.join(HERE, "tools", "results.json")))
t = "%d changes:\n\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n" % len(seeds)
for s in sorted(seeds, key=lambda s: s["id"]):
    t += "| %s | %s | %s | %s |\n" % (s["id"], R["seeds"].get(s["id"], "?"), s["breaks"], s["needs"])
u = "%d edits:\n\n| edit | checks run | result |\n|---|---|---|\n" % len(refspecs.REFS)
for r in refspecs.REFS:
    u += "| %s | %s | %s |\n" % (r["id"], " ".join(r["props"]), R["refs"].get(r["id"], "?"))
p = os.path.join(HERE, "DESIGN.md")
d = open(p).read()
for n, x in (("seeds", t), ("refs", u)):
    d, k = re.subn(r"<!-- %s -->.*?<!-- /%s -->" % (n, n), lambda m: "<!-- %s -->\n%s<!-- /%s -->" % (n, x, n), d, flags=re.S)
    assert k == 1, n
open(p, "w").write(d)
