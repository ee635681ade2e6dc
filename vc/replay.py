"""Looks for a concrete failing run of the real code: run after an obligation failed, and as a bounded stand-in for a unit
that the verifier could not process.  The drivers are in /verif/replay; they are compiled with /repo's current sources."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile
import time
import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (driver, flavour): sched = all schedules under the cooperative scheduler, seeds 1..; plain / san = one thread
DRIVERS = {
    "C01": [("ring", "plain"), ("ring", "san")], "C02": [("ring", "plain"), ("ring", "san")],
    "C03": [("sem", "sched")], "C04": [("sem", "sched")], "C05": [("sem", "sched")], "C06": [("sem", "sched")],
    "C07": [("mutex", "plain"), ("mutex", "san")],
    "C08": [("rbg", "sched")], "C09": [("rbg", "sched")],
    "C10": [("pool", "sched"), ("mq", "sched"), ("opool", "san")],
    "C11": [("pool", "sched"), ("opool", "plain")], "C12": [("pool", "sched")],
    "C13": [("opool", "plain"), ("opool", "san")], "C14": [("opool", "plain"), ("opool", "san")],
    "C15": [("mq", "sched")], "C16": [("mq", "sched")], "C17": [("mq", "sched")], "C18": [("mq", "sched")],
    "C19": [("mq", "sched")],
}
COMMON = ["-std=c++17", "-g", "-w", "-DREISER_RT_HAS_PTHREADS", "-DReiserRT_Core_EXPORTS"]
FLAGS = {"sched": ["-O1", "-fsanitize=thread"], "plain": ["-O2"],
         "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0", "UBSAN_OPTIONS": "exitcode=99:halt_on_error=1:print_stacktrace=1"}


def compile_all(todo, tmp):
    """-> {(driver, flavour): executable or error text}"""
    objs, jobs = {}, {}

    def cc(src, fl, out):
        r = subprocess.run(["g++"] + COMMON + fl + ["-I" + build.REPO + "/src", "-I" + HERE + "/replay", "-I" + HERE + "/harness",
                                                    "-c", src, "-o", out], capture_output=True, text=True, timeout=300)
        return r.stderr if r.returncode else None

    need = []
    for d, f in todo:
        need += [(s, f) for s in build.repo_sources()] + [(os.path.join(HERE, "replay", d + ".cpp"), f)]
        need.append((os.path.join(HERE, "replay", "sched.cpp"), "plain") if f == "sched" else
                    (os.path.join(HERE, "replay", "seq.cpp"), f))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, (s, f) in enumerate(dict.fromkeys(need)):
            o = os.path.join(tmp, "%d.o" % i)
            objs[(s, f)] = o
            jobs[(s, f)] = ex.submit(cc, s, FLAGS[f] if not s.endswith("/sched.cpp") else ["-O1"], o)
    out = {}
    for d, f in todo:
        srcs = [(s, f) for s in build.repo_sources()] + [(os.path.join(HERE, "replay", d + ".cpp"), f)]
        srcs.append((os.path.join(HERE, "replay", "sched.cpp"), "plain") if f == "sched" else
                    (os.path.join(HERE, "replay", "seq.cpp"), f))
        err = [jobs[s].result() for s in srcs if jobs[s].result()]
        if err:
            out[(d, f)] = (None, err[0])
            continue
        exe = os.path.join(tmp, "%s_%s" % (d, f))
        r = subprocess.run(["g++"] + (FLAGS["san"] if f == "san" else []) + [objs[s] for s in srcs] + ["-o", exe, "-lpthread", "-ldl"],
                           capture_output=True, text=True, timeout=300)
        out[(d, f)] = (None, r.stderr) if r.returncode else (exe, None)
    return out


def run(prop, driver, flavour, exe, tmp, limit):
    cwd = tempfile.mkdtemp(dir=tmp)
    try:
        r = subprocess.run([exe, prop, flavour], capture_output=True, text=True, timeout=limit, errors="replace", cwd=cwd,
                           env=dict(os.environ, **ENV))
        out, code = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, code = ((e.stdout or b"") + (e.stderr or b"")).decode(errors="replace"), "timeout"
    res = {"driver": "replay/%s.cpp (%s)" % (driver, flavour), "exit": code, "failing": None, "output": out[-3000:]}
    lines = out.split("\n")
    fail = [l for l in lines if l.startswith("FAIL ")]
    last = [l for l in lines if l.startswith("RUN ")]
    res["scenarios"] = len(last)
    res["runs"] = sum(int(m.group(1)) for m in (re.match(r"DID (\d+)", l) for l in lines) if m)
    res["note"] = [l for l in lines if l.startswith("NOTE ")][:3]
    res["complete"] = code == 0 and any(l == "ok" for l in lines)
    if fail:
        res["failing"] = fail[0][5:]
    elif code not in (0, "timeout"):
        why = [l for l in lines if "terminate called" in l or "ERROR: AddressSanitizer" in l or "runtime error:" in l]
        res["failing"] = "scenario %s ends abnormally (exit %s)%s" % (last[-1][4:] if last else "?", code,
                                                                      ": " + why[0].strip() if why else "")
    return res


def search(prop, outdir=None, limit=200):
    """-> {"failing": text or None, "runs": [...], "complete": every driver ran to its end}"""
    todo = DRIVERS.get(prop)
    if not todo:
        return {"failing": None, "complete": False, "runs": []}
    t = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        exes = compile_all(todo, tmp)
        runs = []
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            fs = []
            for (d, f), (exe, err) in exes.items():
                if exe is None:
                    runs.append({"driver": "replay/%s.cpp (%s)" % (d, f), "failing": None, "complete": False,
                                 "note": "does not build", "output": err[-2000:]})
                else:
                    fs.append(ex.submit(run, prop, d, f, exe, tmp, limit))
            runs += [f.result() for f in fs]
        hit = [r for r in runs if r["failing"]]
        return {"failing": hit[0]["failing"] if hit else None, "complete": all(r["complete"] for r in runs), "runs": runs,
                "seconds": round(time.time() - t, 1)}
    except subprocess.TimeoutExpired:
        return {"failing": None, "complete": False, "runs": [], "note": "compilation timed out"}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import json
    import sys
    for p in sys.argv[1:] or DRIVERS:
        r = search(p)
        print(p, r.get("seconds"), "complete" if r["complete"] else "INCOMPLETE", r["failing"] or "quiet",
              [(x["driver"], x["exit"] if "exit" in x else x["output"], x.get("runs"), x["note"]) for x in r["runs"]])
