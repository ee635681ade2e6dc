"""development driver: dev.py MODULE [-p PROPS] [-u REGEX] [-v]"""
import argparse
import re
import sys
import tempfile
import time
import shutil
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import runner

ap = argparse.ArgumentParser()
ap.add_argument("module", nargs="+")
ap.add_argument("-p", default=None)
ap.add_argument("-u", default=None)
ap.add_argument("-v", action="store_true")
ap.add_argument("-b", type=int, default=300)
a = ap.parse_args()
us = runner.load_units(a.module)
har = sorted({h for M, _ in us for h in M.HARNESS})
d = tempfile.mkdtemp()
try:
    mod, lay = build.load(har, d)
finally:
    shutil.rmtree(d)
units = [u for _, u in us if (not a.u or re.search(a.u, u.name)) and (not a.p or u.props & set(a.p.split(",")))]
props = a.p.split(",") if a.p else sorted({p for u in units for p in u.props})
t = time.time()
bad = 0
for r in runner.run_units(mod, lay, units, props, budget=a.b):
    n = sum(o["count"] for o in r["obls"])
    f = [o for o in r["obls"] if o["failed"]]
    print("%-50s %5.1fs q=%d hard=%d paths=%d obl=%d/%d names=%d unk=%d %s" % (
        r["unit"], r["wall"], r["queries"], r["hard"], r["paths"], n - len(f), n, len(r["obls"]), len(r["unknowns"]), r["error"] or ""))
    if r["error"] and a.v:
        print(r.get("tb"))
    for o in f:
        bad += 1
        print("   FAIL %s %s\n        at %s\n        %s\n        goal %s" % (o["props"], o["name"], o["loc"], o["model"], (o["goal"] or "")[:300]))
    for k, v in r["reached"].items():
        if not v:
            print("   NOT REACHED", k)
    if a.v:
        for o in r["obls"]:
            print("   %s %4d %s" % (",".join(o["props"]), o["count"], o["name"]))
        print("   reached:", [k for k in r["reached"]])
        for k, v in r["loops"].items():
            print("   loop", k, v)
print("total %.1fs failures=%d" % (time.time() - t, bad))
