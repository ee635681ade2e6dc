#!/usr/bin/env python3
"""reftool.py [-t] [-k REGEX]: applies each behaviour-preserving edit of refspecs.py to a scratch copy of /repo and runs the checks of
its properties against it; they have to stay quiet. -t: build and run the repository's tests instead."""
import json, os, re, subprocess, sys, shutil, tempfile, importlib.util, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("refspecs", os.path.join(HERE, "tools", "refspecs.py"))
S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

args = sys.argv[1:]
tests = "-t" in args
pat = args[args.index("-k") + 1] if "-k" in args else ""
only = args[args.index("-p") + 1].split(",") if "-p" in args else None
V = tempfile.mkdtemp(prefix="refv_")
for n in ("vc", "check.py", "harness", "replay", "assumptions.json", "known_findings.txt", "properties.jsonl", "MANIFEST.json"):
    s = os.path.join(HERE, n)
    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(V, n))
bad = 0
for r in S.REFS:
    if not re.search(pat, r["id"]): continue
    tmp = tempfile.mkdtemp(prefix="ref_")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % tmp)
        for f, old, new in r["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            if t.count(old) != 1: print(r["id"], "EDIT DOES NOT APPLY", f, t.count(old), old[:80]); break
            open(p, "w").write(t.replace(old, new))
        else:
            if tests:
                b = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && cmake --build _b", cwd=tmp)
                if b.returncode: print(r["id"], "BUILD FAILED", (b.stdout + b.stderr)[-1500:]); continue
                t = sh("ctest --test-dir _b -j4 --timeout 120", cwd=tmp)
                print(r["id"], "tests", t.returncode, re.findall(r"\d+% tests passed.*", t.stdout), flush=True)
                continue
            for p in r["props"]:
                if only and p not in only: continue
                t0 = time.time()
                c = sh("VERIF_REPO=%s timeout 900 python3-vt check.py %s" % (tmp, p), cwd=V)
                try: ev = json.load(open(os.path.join(V, "evidence", p + ".json")))
                except Exception: ev = {}
                note = [l for l in c.stdout.split("\n") if re.search("VIOLATION|failed obl|bounded|stand-in|error|unknown", l)]
                quiet = c.returncode == 0
                bad += not quiet
                print("%-28s %s %s %3ds %s" % (r["id"], p, "quiet" if quiet else "ALARM rc=%d" % c.returncode, time.time() - t0, ("\n      ".join([""] + [n[:300] for n in note[:6]])) if note else ""), flush=True)
                if c.returncode not in (0, 1): print(c.stdout[-800:], c.stderr[-1500:])
    finally:
        shutil.rmtree(tmp)
shutil.rmtree(V)
print("alarms:", bad)
