#!/usr/bin/env python3
"""seedtool.py make ID   : (re)creates seeded/ID/patch.diff from seeded specs in tools/seedspecs.py
   seedtool.py test ID.. : in a scratch copy: builds, runs the repository's tests with the patch, runs the demo without and with it
   seedtool.py check ID [PROP..]: applies the patch to /repo, runs the checks, undoes it"""
import json, os, subprocess, sys, shutil, tempfile, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("seedspecs", os.path.join(HERE, "tools", "seedspecs.py"))
S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
SEEDS = {s["id"]: s for s in S.SEEDS}

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def make(i):
    s = SEEDS[i]
    d = os.path.join(HERE, "seeded", i)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % tmp)
        sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % tmp)
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C %s diff" % tmp).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(tmp)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.cpp"), "w").write(S.COMMON + s["demo"])
    shutil.copy(os.path.join(HERE, "harness", "ReiserRT_CoreExport.h"), os.path.join(d, "ReiserRT_CoreExport.h"))
    open(os.path.join(d, "demo.sh"), "w").write(S.DEMO_SH.replace("@FLAGS@", s.get("flags", "-O1")))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)

def test(i, full=True):
    d = os.path.join(HERE, "seeded", i)
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s" % tmp)
        dd = os.path.join(tmp, "_demo"); shutil.copytree(d, dd)
        r0 = sh("bash %s/demo.sh" % dd, cwd=tmp, timeout=300)
        a = sh("git apply %s/patch.diff" % d, cwd=tmp) if False else sh("patch -p1 < %s/patch.diff" % d, cwd=tmp)
        r1 = sh("timeout 300 bash %s/demo.sh" % dd, cwd=tmp)
        print(i, "demo clean:", r0.returncode, "patched:", r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", (r1.stdout+r1.stderr)[-200:])
        if full:
            b = sh("cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo && cmake --build _b", cwd=tmp)
            if b.returncode: print("BUILD FAILED", (b.stdout + b.stderr)[-2000:]); return
            t = sh("ctest --test-dir _b -j1 --timeout 120", cwd=tmp)
            print(i, t.stdout[-400:])
    finally:
        shutil.rmtree(tmp)

def check(i, props):
    d = os.path.join(HERE, "seeded", i)
    props = props or [SEEDS[i]["property"]]
    r = sh("git -C /repo status --porcelain")
    assert not r.stdout.strip(), "repo dirty"
    r = sh("git -C /repo apply %s/patch.diff" % d)
    assert not r.returncode, r.stderr
    try:
        for p in props:
            r = sh("python3-vt check.py %s" % p, cwd=HERE)
            v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or "failed obl" in l or "error" in l or "replayed" in l]
            print(i, p, "exit", r.returncode, "\n   ".join([""] + v[:8]), r.stderr[-500:])
    finally:
        sh("git -C /repo checkout -- .")

if sys.argv[1] == "make":
    for i in (sys.argv[2:] or SEEDS): make(i)
elif sys.argv[1] == "test":
    for i in (sys.argv[2:] or SEEDS): test(i)
elif sys.argv[1] == "demo":
    for i in (sys.argv[2:] or SEEDS): test(i, False)
elif sys.argv[1] == "check":
    if len(sys.argv) > 2 and sys.argv[2] in SEEDS: check(sys.argv[2], sys.argv[3:])
    else:
        for i in SEEDS: check(i, [])
