"""Runs proof units in parallel processes and collects their results."""
import importlib
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from llvm import Unsupported


def _child(mod, lay, unit, props, dep, deadline, smt, q, idx):
    import exec as X
    import stubs
    t = time.time()
    res = {"unit": unit.name, "error": None}
    ex = X.Exec(mod, lay, props=frozenset(props))
    ex.unit = unit.name
    ex.dep = dep
    ex.deadline = time.time() + deadline
    if smt:
        import crosscheck
        ex.smt_log = crosscheck.Logger(smt)
        ex.smt_log.unit = unit.name
    stubs.install(ex)
    try:
        unit.fn(ex)
    except Unsupported as e:
        res["error"] = "unsupported: %s" % e
        res["tb"] = traceback.format_exc()[-3000:]
    except Exception as e:
        res["error"] = "internal: %s: %s" % (type(e).__name__, e)
        res["tb"] = traceback.format_exc()[-3000:]
    res["obls"] = [{"unit": o.unit, "name": o.name, "props": list(o.prop), "count": o.count, "failed": o.failed,
                    "model": o.model, "loc": o.loc, "goal": o.goal,
                    "trace": [str(x) for x in (o.trace or [])][-30:]} for o in ex.obls.values()]
    res["unknowns"] = ex.unknowns
    res["reached"] = {"%s: %s" % k: v for k, v in ex.reached.items()}
    res["fns"] = sorted(ex.fn_seen)
    res["contracts"] = dict(ex.contract_calls)
    res["queries"], res["solver_s"], res["hard"] = ex.solver.n, ex.solver.time, ex.solver.hard
    res["loops"] = {"%s | %s" % (k[0], k[1]): list(map(str, v)) for k, v in ex.loops_proved.items()}
    res["paths"] = ex.paths
    res["smt"] = ex.smt_log.summary() if ex.smt_log is not None else None
    res["wall"] = time.time() - t
    q.put((idx, res))


def load_units(modules):
    units = []
    for m in modules:
        M = importlib.import_module("units." + m)
        units += [(M, u) for u in M.UNITS]
    return units


def run_units(mod, lay, units, props, jobs=8, budget=600, smt=None, until=None, stop=None):
    """units: list of Unit or (Unit, properties, size bound when run as a dependency); returns result dicts in order;
    no unit runs past the time `until`; when stop(result) is true the others are ended and only the finished ones returned"""
    jobspec = [u if isinstance(u, tuple) else (u, props, None) for u in units]
    units = [u for u, _, _ in jobspec]
    until = until or time.time() + 10 * budget
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(enumerate(units))
    todo.reverse()
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            i, u = todo.pop()
            u, pr, dep = jobspec[i]
            b = max(5, min(budget, until - time.time()))
            p = ctx.Process(target=_child, args=(mod, lay, u, pr, dep, b, smt, q, i))
            p.start()
            live[i] = (p, time.time() + b)
        try:
            i, r = q.get(timeout=1.0)
            out[i] = r
            live.pop(i)[0].join()
            if stop is not None and stop(r):
                for p, _ in live.values():
                    p.kill()
                return list(out.values())
        except Exception:
            for i, (p, t) in list(live.items()):
                if not p.is_alive():
                    try:
                        while True:
                            k, r = q.get(timeout=0.5)
                            out[k] = r
                            if k in live:
                                live.pop(k)[0].join()
                    except Exception:
                        pass
                    if i in live:
                        live.pop(i)
                        out[i] = {"unit": units[i].name, "error": "internal: unit process died (exit %s)" % p.exitcode,
                                  "obls": [], "unknowns": [], "reached": {}, "fns": [], "contracts": {}, "queries": 0,
                                  "solver_s": 0, "hard": 0, "loops": {}, "paths": 0, "smt": None, "wall": 0}
                elif time.time() - t > 60:
                    p.kill()
    return [out[i] for i in range(len(units))]
