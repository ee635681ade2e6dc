"""Mutex: C07."""
import z3
from llvm import Unsupported
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from units.base import *

HARNESS = ["h_sem.cpp"]
PRIO_INHERIT = 1
EBUSY = 16


def made(ex):
    """-> states after construction with the native handle's key"""
    ex.crash_prop = ("C07",)
    st = State()
    out = []
    for s in ex.run_function(st, "h_mutex_new", []):
        if s.status != "ret":
            ex.oblige(s, "C07", "construction does not fail", False)
            continue
        mx = s.ghost.get("mutexes") or {}
        ex.oblige(s, "C07", "a Mutex has exactly one native mutex", len(mx) == 1)
        if len(mx) != 1:
            continue
        out.append((s, list(mx)[0], list(mx.values())[0], s.ret))
    return out


def unit_ctor(ex):
    for s, k, proto, obj in made(ex):
        ex.reach(s, "constructed")
        ex.oblige(s, "C07", "the native mutex has the priority-inheritance protocol",
                  bv(proto, 32) == PRIO_INHERIT)
        r = s.mem.get(k[0])
        ex.oblige(s, "C07", "the native mutex lives as long as the Mutex", r is not None and r.alive and r.kind == "heap")
        reset(s)
        for t in ex.run_function(s, "h_mutex_native", [obj]):
            ex.oblige(t, "C07", "native_handle returns the address of the native mutex",
                      t.status == "ret" and isinstance(t.ret, Ptr) and t.ret.rid == k[0] and t.ret.off == k[1])
    ex.must_reach("C07", "constructed")


def unit_two(ex):
    """two Mutex objects never share a native mutex"""
    for s, k, proto, obj in made(ex):
        reset(s)
        for t in ex.run_function(s, "h_mutex_new", []):
            if t.status == "ret":
                ex.reach(t, "second mutex")
                ex.oblige(t, "C07", "every Mutex has a native mutex of its own", len(t.ghost.get("mutexes") or {}) == 2)


def unit_op(op):
    native = {"lock": "pthread_mutex_lock", "unlock": "pthread_mutex_unlock", "try_lock": "pthread_mutex_trylock"}[op]

    def run(ex):
        for s, k, proto, obj in made(ex):
            reset(s)
            ex.mutex_results = True
            s.ghost["native_calls"] = ()
            for t in ex.run_function(s, "h_mutex_" + op, [obj]):
                calls = t.ghost["native_calls"]
                ex.oblige(t, "C07", "%s performs exactly one native operation, on the own native mutex" % op,
                          len(calls) == 1 and calls[0][0] == native and calls[0][1] == k)
                if len(calls) != 1:
                    continue
                rc = calls[0][2]
                inputs(t, native_result=rc)
                if t.status == "ret":
                    ex.reach(t, op + " returns")
                    if op == "try_lock":
                        v = boolv(t.ret)
                        ex.oblige(t, "C07", "try_lock returns only on success or busy", z3.Or(rc == 0, rc == EBUSY))
                        ex.oblige(t, "C07", "try_lock returns true exactly on success", v == (rc == 0))
                    else:
                        ex.oblige(t, "C07", "%s returns normally only on success" % op, rc == 0)
                else:
                    ex.reach(t, op + " throws")
                    ex.oblige(t, "C07", "%s throws std::system_error" % op, t.exc.ti == "_ZTISt12system_error")
                    g = t.exc.ghost or {}
                    code = g.get("code")
                    ex.oblige(t, "C07", "the exception carries the native error code",
                              code is not None and bv(code, 32) == rc)
                    if op == "try_lock":
                        ex.oblige(t, "C07", "try_lock throws only for real errors", z3.And(rc != 0, rc != EBUSY))
                    else:
                        ex.oblige(t, "C07", "%s throws only on failure" % op, rc != 0)
            ex.mutex_results = False
        ex.must_reach("C07", op + " returns", op + " throws")
    return run


def unit_dtor(ex):
    for s, k, proto, obj in made(ex):
        heap = [rid for rid, r in s.mem.items() if r.kind == "heap" and r.alive]
        reset(s)

        def hook(e, st, r):
            if r.id == k[0]:
                e.oblige(st, "C07", "the native mutex is destroyed before its memory is freed",
                         k not in (st.ghost.get("mutexes") or {}))
        ex.hook_delete = hook
        for t in ex.run_function(s, "h_mutex_delete", [obj]):
            ex.oblige(t, "C07", "destruction does not throw", t.status == "ret")
            ex.reach(t, "destroyed")
            ex.oblige(t, "C07", "the native mutex is destroyed exactly once with the Mutex", not t.ghost.get("mutexes"))
            ex.oblige(t, "C07", "the native mutex is freed exactly once with the Mutex",
                      all(not t.mem[r].alive for r in heap))
    ex.must_reach("C07", "destroyed")


UNITS = [Unit("Mutex::Mutex()", ("C07",), unit_ctor), Unit("Mutex identity", ("C07",), unit_two),
         Unit("Mutex::lock()", ("C07",), unit_op("lock")),
         Unit("Mutex::unlock()", ("C07",), unit_op("unlock")), Unit("Mutex::try_lock()", ("C07",), unit_op("try_lock")),
         Unit("Mutex::~Mutex()", ("C07",), unit_dtor)]
