#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property against /repo's current source.

exit 0  every obligation generated from the current source was discharged
exit 1  an obligation failed (VIOLATION line)
other   the check could not decide (unsupported construct, solver gave up, build failure)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
import build
import runner
import replay

MODULES = {
    "C01": ["ring"], "C02": ["ring"],
    "C03": ["sem"], "C04": ["sem"], "C05": ["sem"], "C06": ["sem"],
    "C07": ["mutex"],
    "C08": ["rbg"], "C09": ["rbg"],
    "C10": ["pool", "mq", "opool"], "C11": ["pool"], "C12": ["pool"],
    "C13": ["opool"], "C14": ["opool"],
    "C15": ["mq"], "C16": ["mq"], "C17": ["mq"], "C18": ["mq"], "C19": ["mq"],
}
# Contracts that the units of a property use at calls, and that are proved again here (for the sizes that can occur):
# (module, properties whose obligations make up the contract, units)
SEM = ("sem", ("C03", "C04", "C05", "C06"), r"")
RING = ("ring", ("C01", "C02"), r"<(i32|u64|vp|u8|dbl)>")
RINGP = ("ring", ("C01", "C02"), r"<vp>")
RBG = ("rbg", ("C08", "C09"), r"<vp>::(get|put|flush|abort)$")
POOL = ("pool", ("C10", "C11"), r"")
DEPS = {
    "C08": [SEM, RING], "C09": [SEM, RING],
    "C10": [RBG, SEM, RINGP], "C11": [RINGP], "C12": [RINGP],
    "C13": [POOL, RINGP], "C14": [POOL, RINGP],
    "C15": [RBG, SEM, RINGP], "C16": [RBG, SEM, RINGP], "C18": [RBG, SEM, RINGP], "C19": [RBG, SEM, RINGP],
}
RING_T = {"i32": "int", "u8": "unsigned char", "dbl": "double", "u64": "unsigned long", "vp": "void*"}
DEP_MAX = 1 << 20


def call_names(unit):
    """the contract (as recorded at call sites) that a dependency unit proves"""
    m = re.match(r"Semaphore::(~?\w+)\((.*?)\)( at .*)?$", unit)
    if m:
        if m.group(3):
            return []
        return ["Semaphore::" + m.group(1) + ("(functor)" if m.group(2) == "functor" else "")]
    m = re.match(r"RingBufferSimple<(\w+)>::(~?\w+)", unit)
    if m:
        return ["RingBufferSimple<%s>::%s" % (RING_T[m.group(1)], m.group(2))]
    m = re.match(r"RingBufferGuarded<\w+>::(\w+)", unit)
    if m:
        return ["RingBufferGuarded::%s (%s)" % (m.group(1), w) for w in ("raw", "cooked")]
    return [unit]


ASSUME = json.load(open(os.path.join(HERE, "assumptions.json")))


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) obligation=\"([^\"]*)\" unit=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    outdir = os.path.join(HERE, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evp = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(evp):
        os.remove(evp)
    us = [(M, u) for M, u in runner.load_units(MODULES[prop]) if prop in u.props]
    dus = [(M, u, ps) for m, ps, rx in DEPS.get(prop, []) for M, u in runner.load_units([m])
           if set(ps) & u.props and re.search(rx, u.name)]
    har = sorted({h for M, _ in us for h in M.HARNESS} | {h for M, _, _ in dus for h in M.HARNESS})
    tmp = tempfile.mkdtemp(prefix="verif_")
    res, deps, build_error = [], [], None
    fns, core, tb = [], [], 0
    try:
        try:
            mod, lay = build.load(har, tmp)
        except (build.BuildError, build.Unsupported) as e:
            build_error = str(e)[:4000]
        tb = time.time() - t0
        if build_error is None:
            smt = None
            if tier == "thorough":
                smt = os.path.join(tmp, "smt")
                os.makedirs(smt)
            spec = [(u, [prop], None) for _, u in us] + [(u, ps, DEP_MAX) for _, u, ps in dus]
            # the longest first
            allres = runner.run_units(mod, lay, spec, None, budget=450 if tier == "quick" else 3000, smt=smt,
                                      until=t0 + (470 if tier == "quick" else 6000))
            res, deps = allres[:len(us)], allres[len(us):]
            dem = mod.demangle
            fns = sorted({dem(f) for r in res for f in r["fns"]})
            core = sorted({f for f in fns if "ReiserRT" in f and not f.startswith("std::")})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # only contracts that are really called
    called, todo = set(), list(res)
    used = []
    while todo:
        for r in todo:
            called |= set(r["contracts"])
        todo = [r for r in deps if r not in used and set(call_names(r["unit"])) & called]
        used += todo
    if any(r["error"] for r in res):
        used = deps
    deps = used

    def total(rs):
        return sum(o["count"] for r in rs for o in r["obls"])
    n = total(res)
    failed = [(r, o) for r in res for o in r["obls"] if o["failed"]]
    dfailed = [(r, o) for r in deps for o in r["obls"] if o["failed"]]
    unknowns = [u for r in res + deps for u in r["unknowns"]]
    errors = [(r["unit"], r["error"], r.get("tb", "")) for r in res + deps if r["error"]]
    for r in res + deps:
        for nm in (r["smt"] or {}).get("disagreements", []):
            errors.append((r["unit"], "the solvers disagree on: " + nm, ""))
    if build_error is not None:
        errors.append(("build", "the source does not build for verification: " + build_error, ""))
    elif n == 0:
        errors.append(("all units", "no obligations were generated", ""))
    known = known_findings(prop)
    listed, new = [], []
    for r, o in failed:
        for ob, un, what in known:
            if ob == o["name"] and un == r["unit"]:
                listed.append((o, what))
                break
        else:
            new.append((r, o))
    new += dfailed
    for what in sorted({w for _, w in listed}):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    cov = {
        "obligations": n, "discharged": n - len(failed) - sum(len(r["unknowns"]) for r in res),
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": ASSUME["trusted_base"] + ASSUME["per_property"].get(prop, {}).get("trusted", []),
        "back_end": "z3 (python API) on verification conditions generated from LLVM IR of the current source",
        "units": [{"unit": r["unit"], "obligation_kinds": len(r["obls"]), "obligations": sum(o["count"] for o in r["obls"]),
                   "paths": r["paths"], "solver_queries": r["queries"], "solver_seconds": round(r["solver_s"], 2),
                   "loops_by_induction": r["loops"]} for r in res],
        "solver_queries": sum(r["queries"] for r in res + deps),
        "solver_seconds": round(sum(r["solver_s"] for r in res + deps), 2),
        "functions_executed_from_source": len(fns), "library_functions_under_contract": core,
        "contracts_used_at_calls": {k: v for r in res for k, v in r["contracts"].items()},
        "contracts_proved_again_in_this_run": [
            {"unit": r["unit"], "obligations": sum(o["count"] for o in r["obls"]), "failed": sum(bool(o["failed"]) for o in r["obls"]),
             "sizes_up_to": DEP_MAX} for r in deps],
        "obligations_of_those_contracts": total(deps),
        "named_obligations": sorted({o["name"] for r in res for o in r["obls"]}),
        "outcomes_shown_reachable": sorted(k for r in res for k, v in r["reached"].items() if v),
        "undecided": len(unknowns), "unit_errors": [list(e[:2]) for e in errors],
        "bounded": ASSUME["per_property"].get(prop, {}).get("bounded", []),
        "build_seconds": round(tb, 1),
    }
    if tier == "thorough":
        cov["second_solver"] = [r["smt"] for r in res + deps if r["smt"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ASSUME["common"] + ASSUME["per_property"].get(prop, {}).get("assumptions", []),
          "wall_s": 0, "violations": len(new)}

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 1)
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
        return code

    def report(hit, more):
        rp = os.path.join(outdir, "replay.json")
        doc = {"property": prop, "failed_obligations": [
            {"unit": r["unit"], "obligation": o["name"], "at": o["loc"], "counterexample": o["model"],
             "goal": o["goal"], "path": o["trace"]} for r, o in new], "unit_errors": errors, "replay": hit,
            "how_to_replay": "cd vc && python3-vt replay.py %s" % prop}
        with open(rp, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        if hit.get("failing"):
            print("replayed against the real code: %s" % hit["failing"])
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, more))
        ev["violations"] = max(1, len(new))
        return finish(1)

    if new:
        for r, o in new[:12]:
            print("failed obligation [%s] %s\n    at %s\n    counterexample: %s" % (r["unit"], o["name"], o["loc"], o["model"]))
        hit = replay.search(prop)
        return report(hit, "" if hit.get("failing") else " no-failing-input-found")
    if errors or unknowns:
        for u, e, tbk in errors:
            print("not decided by proof: %s: %s\n%s" % (u, e, tbk if os.environ.get("VERIF_DEBUG") else ""))
        for u in unknowns[:10]:
            print("not decided by proof: %s: %s" % tuple(u))
        # some part is beyond the verifier's reach: the bounded runs of the real code stand in
        hit = replay.search(prop)
        if hit["failing"]:
            return report(hit, "")
        if not hit["complete"]:
            print("check error: neither the proof nor the bounded runs came to an end: %s" % [
                (r["driver"], r.get("note"), r.get("exit")) for r in hit["runs"]])
            finish(2)
            return 2
        runs = [{k: r.get(k) for k in ("driver", "scenarios", "runs")} for r in hit["runs"]]
        ev["level"] = "other"
        cov["stand_in_runs"] = runs
        cov["explanation"] = ("bounded, not proved: part of the current source is beyond the verifier's reach (see unit_errors and "
                              "undecided); all obligations that could be generated hold, and in its place the replay drivers ran "
                              "the real code in %s runs without finding a violation"
                              % sum(r["runs"] or 0 for r in runs))
        print("property %s: %d obligations discharged; the undecided part is covered by bounded runs only (%d runs, quiet), %.1fs" % (
            prop, cov["discharged"], sum(r["runs"] or 0 for r in runs), time.time() - t0))
        return finish(0)
    if tier == "thorough":
        # the drivers also run on top of a complete proof: they test the assumptions the proof makes
        hit = replay.search(prop, limit=400)
        cov["extra_runs"] = [{k: r.get(k) for k in ("driver", "scenarios", "runs", "exit")} for r in hit["runs"]]
        if hit["failing"]:
            return report(hit, "")
    print("property %s: %d obligations discharged in %d units, and %d of the contracts they use in %d units, %.1fs" % (
        prop, n - len(listed), len(res), total(deps), len(deps), time.time() - t0))
    return finish(0)


if __name__ == "__main__":
    sys.exit(main())
