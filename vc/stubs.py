"""Trusted contracts of the environment: pthreads, the C++ runtime, operator new/delete, standard exceptions."""
import re
import z3
from llvm import Unsupported
from sym import fresh, is_sym, simp, bv, boolv, Ptr, Exc, Region

TRUSTED = {
    "pthread_mutex_*": "a default pthread mutex gives mutual exclusion; operations on an initialised mutex succeed "
                       "(except in C07, where every return code is considered)",
    "pthread_cond_*": "POSIX condition variables: wait atomically releases and re-acquires the mutex, may wake "
                      "spuriously; signal wakes at least one waiter if there is one; broadcast wakes all",
    "operator new/delete": "fresh, 16-byte aligned, non-overlapping storage; does not fail",
    "__cxa_* / landing pads": "Itanium C++ ABI exception handling; single and non-virtual multiple inheritance matching",
    "std::runtime_error, std::logic_error, std::system_error": "constructors store their argument and do not throw",
    "nanosleep": "returns",
    "std::string operations": "no effect on library state (used for exception texts only)",
}


def key(p):
    if not isinstance(p, Ptr):
        raise Unsupported("synchronisation object without provenance")
    if not isinstance(p.off, int):
        raise Unsupported("synchronisation object at symbolic offset")
    return (p.rid, p.off)


def throw(ex, st, ti, size=16, ghost=None):
    r = ex.new_region(st, "exception", "heap", size)
    r.meta = {"exc": True}
    return ("exc", st, Exc(ex.ptr(r), ti, ghost))


# ---------------------------------------------------------------- C++ runtime

def cxa_allocate_exception(ex, st, a, n):
    r = ex.new_region(st, "exception", "heap", a[0])
    r.meta = {"exc": True}
    return ex.ptr(r)


def cxa_free_exception(ex, st, a, n):
    return [("ret", st, None)]


def cxa_throw(ex, st, a, n):
    ti = ex.region_name(st, a[1])[1:]
    return [("exc", st, Exc(a[0], ti, st.ghost.get("syserr", {}).get(a[0].rid)))]


def cxa_begin_catch(ex, st, a, n):
    p = a[0]
    e = st.ghost["_excs"][p.rid]
    st.caught = st.caught + [[e]]
    return p


def cxa_end_catch(ex, st, a, n):
    if not st.caught:
        raise Unsupported("unbalanced __cxa_end_catch")
    st.caught = st.caught[:-1]
    return [("ret", st, None)]


def cxa_rethrow(ex, st, a, n):
    if not st.caught:
        return terminate(ex, st, a, n)
    return [("exc", st, st.caught[-1][0])]


def terminate(ex, st, a, n):
    ex.crash(st, "std::terminate reached (%s)" % ex.where(st), ex.terminate_prop)
    return [("run", st)]


def new(ex, st, a, n):
    sz = a[0]
    if ex.hook_new is not None:
        r = ex.hook_new(ex, st, sz)
        if r is not None:
            return r
    r = ex.new_region(st, "heap", "heap", sz)
    return ex.ptr(r)


def delete(ex, st, a, n):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return [("ret", st, None)]
    if not isinstance(p, Ptr):
        raise Unsupported("delete of a pointer without provenance")
    r = st.mem.get(p.rid)
    if r is None or not r.alive or r.kind != "heap" or not (isinstance(p.off, int) and p.off == 0):
        ex.crash(st, "invalid or double delete")
        return [("run", st)]
    if ex.hook_delete is not None:
        ex.hook_delete(ex, st, r)
    st.region(r.id, True).alive = False
    return [("ret", st, None)]


def nop(ex, st, a, n):
    return [("ret", st, None)]


def zero(ex, st, a, n):
    return [("ret", st, 0)]


def ret_this(ex, st, a, n):
    return [("ret", st, a[0] if a else None)]


def opaque_global(name):
    def h(ex, st, a, n):
        rid = ex.gl.get("opaque:" + name)
        if rid is None or rid not in st.mem:
            r = Region("opaque:" + name, "global", 64)
            if rid is not None:
                r.id = rid
            r.base = (r.id + 1) << 32
            ex.gl["opaque:" + name] = r.id
            st.mem[r.id] = r
            rid = r.id
        r = st.mem[rid]
        return Ptr(r.id, 0, r.base)
    return h


def system_error_ctor(ex, st, a, n):
    """std::system_error(int, const error_category&) / (error_code) and the overloads with a text"""
    d = dict(st.ghost.get("syserr") or {})
    ints = [x for x in a[1:] if isinstance(x, int) or (is_sym(x) and x.size() == 32)]
    code = None
    cat = None
    for x in a[1:]:
        if (is_sym(x) and not isinstance(x, z3.BoolRef) and x.size() == 32) or isinstance(x, int):
            if code is None:
                code = x
        elif isinstance(x, Ptr):
            nm = ex.region_name(st, x)
            if nm.startswith("opaque:"):
                cat = nm[7:]
            elif ex.mod.demangle(n).find("error_code") < 0:
                pass
    # error_code passed by reference or in registers
    if code is None:
        for x in a[1:]:
            if isinstance(x, Ptr) and ex.region_name(st, x).endswith(".local"):
                code = ex.load(st, x, 4)
    d[a[0].rid] = {"code": code, "cat": cat}
    st.ghost["syserr"] = d
    return [("ret", st, None)]


def bad_function_call(ex, st, a, n):
    return [throw(ex, st, "_ZTISt17bad_function_call")]


def throw_std(ti):
    def h(ex, st, a, n):
        return [throw(ex, st, ti)]
    return h


def errno_location(ex, st, a, n):
    p = opaque_global("errno")(ex, st, a, n)
    return p


def throw_system_error(ex, st, a, n):
    o = throw(ex, st, "_ZTISt12system_error", 32, {"code": a[0], "cat": "generic"})
    return [o]


def pure_virtual(ex, st, a, n):
    ex.crash(st, "pure virtual call")
    return [("run", st)]


# ---------------------------------------------------------------- pthreads

def _mx(st):
    return st.ghost.setdefault("mutexes", {})


def _set(st, name, k, v):
    d = dict(st.ghost.get(name) or {})
    if v is None:
        d.pop(k, None)
    else:
        d[k] = v
    st.ghost[name] = d


def attr_init(ex, st, a, n):
    ex.store(st, a[0], 4, fresh("attr_bits", 32))
    _set(st, "attrs", key(a[0]), fresh("attr_default_protocol", 32))
    return 0


def attr_getprotocol(ex, st, a, n):
    p = st.ghost.get("attrs", {}).get(key(a[0]))
    if p is None:
        ex.oblige(st, ("C07",), "mutex attribute initialised before use", False)
        return 0
    ex.store(st, a[1], 4, p)
    return 0


def attr_setprotocol(ex, st, a, n):
    if st.ghost.get("attrs", {}).get(key(a[0])) is None:
        ex.oblige(st, ("C07",), "mutex attribute initialised before use", False)
    _set(st, "attrs", key(a[0]), a[1])
    return 0


def attr_other(ex, st, a, n):
    """other attribute setters (type, robust, pshared ...): remember that the mutex is not a plain one"""
    _set(st, "attrs_extra", key(a[0]), (n, a[1] if len(a) > 1 else None))
    return 0


def attr_destroy(ex, st, a, n):
    _set(st, "attrs", key(a[0]), None)
    return 0


def mutex_init(ex, st, a, n):
    k = key(a[0])
    mx = dict(st.ghost.get("mutexes") or {})
    if k in mx:
        ex.oblige(st, ("C07",), "mutex initialised only once", False)
    proto = None
    if isinstance(a[1], Ptr):
        proto = st.ghost.get("attrs", {}).get(key(a[1]))
    mx[k] = proto if proto is not None else 0
    st.ghost["mutexes"] = mx
    return 0


def mutex_destroy(ex, st, a, n):
    k = key(a[0])
    mx = dict(st.ghost.get("mutexes") or {})
    ex.oblige(st, ("C07",), "mutex destroyed only while initialised", k in mx)
    ex.oblige(st, ("C07",) if ex.crash_prop is None else ex.crash_prop, "mutex not destroyed while held",
              k not in st.ghost.get("held", ()))
    mx.pop(k, None)
    st.ghost["mutexes"] = mx
    return 0


def held(st, k):
    return k in st.ghost.get("held", ())


def mutex_lock(ex, st, a, n):
    p = a[0]
    if not isinstance(p, Ptr):
        ex.crash(st, "lock of an invalid mutex")
        return [("run", st)]
    k = key(p)
    if ex.mutex_results:
        e = fresh("rc_" + n, 32)
        st.ghost["last_rc"] = e
        st.ghost["native_calls"] = st.ghost.get("native_calls", ()) + ((n, k, e),)
        return e
    init = k in (st.ghost.get("mutexes") or {})
    if not init:
        ex.crash(st, "lock of a mutex that is not initialised")
        return [("run", st)]
    if n == "pthread_mutex_trylock":
        s2 = st.clone()
        out = [("ret", s2, 16)]
        if not held(st, k):
            out += _acquire(ex, st, k)
        return out
    if held(st, k):
        ex.oblige(st, ex.lock_props(k), "no self-deadlock: mutex is not locked twice by one thread", False)
        st.status = "cut"
        return [("run", st)]
    return _acquire(ex, st, k)


def _acquire(ex, st, k):
    st.ghost["held"] = frozenset(st.ghost.get("held", ())) | {k}
    m = ex.monitors.get(k)
    if m is not None:
        m.on_lock(ex, st)
    return [("ret", st, 0)]


def mutex_unlock(ex, st, a, n):
    k = key(a[0])
    if ex.mutex_results:
        e = fresh("rc_" + n, 32)
        st.ghost["native_calls"] = st.ghost.get("native_calls", ()) + ((n, k, e),)
        return e
    if not held(st, k):
        ex.oblige(st, ex.lock_props(k), "mutex unlocked only by the thread that holds it", False)
        st.status = "cut"
        return [("run", st)]
    m = ex.monitors.get(k)
    if m is not None:
        m.on_unlock(ex, st)
    if st.status != "run":
        return [("run", st)]
    st.ghost["held"] = frozenset(st.ghost.get("held", ())) - {k}
    return 0


def condattr_init(ex, st, a, n):
    ex.store(st, a[0], 4, fresh("attr_bits", 32))
    _set(st, "condattrs", key(a[0]), True)
    return 0


def condattr_other(ex, st, a, n):
    if key(a[0]) not in (st.ghost.get("condattrs") or {}):
        ex.crash(st, "use of a condition attribute that is not initialised")
        return [("run", st)]
    if n == "pthread_condattr_destroy":
        _set(st, "condattrs", key(a[0]), None)
    return 0


def cond_init(ex, st, a, n):
    if isinstance(a[1], Ptr) and key(a[1]) not in (st.ghost.get("condattrs") or {}):
        ex.crash(st, "initialisation of a condition variable from an attribute that is not initialised")
        return [("run", st)]
    _set(st, "conds", key(a[0]), True)
    return 0


def cond_destroy(ex, st, a, n):
    if key(a[0]) not in (st.ghost.get("conds") or {}) and not _static_cond(ex, st, key(a[0])):
        ex.crash(st, "destruction of a condition variable that is not initialised")
        return [("run", st)]
    for m in ex.monitors.values():
        if hasattr(m, "on_cond_destroy"):
            m.on_cond_destroy(ex, st, key(a[0]))
    _set(st, "conds", key(a[0]), None)
    return 0


def _static_cond(ex, st, c):
    """PTHREAD_COND_INITIALIZER: all zero"""
    if not (isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], int)):
        return False
    r = st.mem.get(c[0])
    if r is None or r.mode != "bytes":
        return False
    if any(not (isinstance(v, int) and v == 0) for v in (ex.read_cells(r, dict(r.cells), c[1] + o, 8, r.zero) for o in range(0, 48, 8))):
        return False
    _set(st, "conds", c, True)
    return True


def _cond_ok(ex, st, c, what):
    if c not in (st.ghost.get("conds") or {}) and not _static_cond(ex, st, c):
        ex.crash(st, "%s on a condition variable that is not initialised" % what)
        return False
    return True


def cond_wait(ex, st, a, n):
    c, k = key(a[0]), key(a[1])
    if not _cond_ok(ex, st, c, "wait"):
        return [("run", st)]
    if not held(st, k):
        ex.oblige(st, ex.lock_props(k), "condition wait only with the mutex held", False)
        st.status = "cut"
        return [("run", st)]
    if len(st.ghost["held"]) > 1:
        ex.oblige(st, ex.lock_props(k), "no other mutex held while waiting", False)
    m = ex.monitors.get(k)
    if m is None:
        raise Unsupported("wait on a mutex without monitor")
    return m.on_wait(ex, st, c, n)


def cond_signal(ex, st, a, n):
    c = key(a[0])
    if not _cond_ok(ex, st, c, "signal"):
        return [("run", st)]
    for m in ex.monitors.values():
        if hasattr(m, "on_signal") and m.on_signal(ex, st, c, n == "pthread_cond_broadcast"):
            return 0
    return 0


def string_stub(ex, st, a, n):
    return [("ret", st, a[0] if a and isinstance(a[0], Ptr) else 0)]


def install(ex):
    ex.hook_new = None
    ex.hook_delete = None
    ex.mutex_results = False
    ex.lock_props = lambda k: ex.crash_prop or tuple(sorted(ex.props or ("SAFE",)))
    S = ex.stub_exact
    for n in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "malloc"):
        S[n] = new
    for n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free"):
        S[n] = delete
    S["__cxa_allocate_exception"] = cxa_allocate_exception
    S["__cxa_free_exception"] = cxa_free_exception
    S["__cxa_throw"] = cxa_throw
    S["__cxa_begin_catch"] = cxa_begin_catch
    S["__cxa_end_catch"] = cxa_end_catch
    S["__cxa_rethrow"] = cxa_rethrow
    S["__clang_call_terminate"] = terminate
    S["_ZSt9terminatev"] = terminate
    S["abort"] = terminate
    S["__cxa_pure_virtual"] = pure_virtual
    S["__cxa_throw_bad_array_new_length"] = throw_std("_ZTISt20bad_array_new_length")
    S["__cxa_guard_acquire"] = lambda ex, st, a, n: 1
    S["__cxa_guard_release"] = nop
    S["__cxa_atexit"] = zero
    S["_ZSt25__throw_bad_function_callv"] = bad_function_call
    S["_ZSt20__throw_system_errori"] = throw_system_error
    S["_ZNSt3_V215system_categoryEv"] = opaque_global("system_category")
    S["_ZNSt3_V216generic_categoryEv"] = opaque_global("generic_category")
    S["__errno_location"] = errno_location
    for n in ("nanosleep", "usleep", "sched_yield", "clock_nanosleep"):
        S[n] = zero
    S["pthread_mutexattr_init"] = attr_init
    S["pthread_mutexattr_getprotocol"] = attr_getprotocol
    S["pthread_mutexattr_setprotocol"] = attr_setprotocol
    S["pthread_mutexattr_settype"] = S["pthread_mutexattr_setpshared"] = S["pthread_mutexattr_setrobust"] = attr_other
    S["pthread_mutexattr_destroy"] = attr_destroy
    S["pthread_mutex_init"] = mutex_init
    S["pthread_mutex_destroy"] = mutex_destroy
    S["pthread_mutex_lock"] = S["pthread_mutex_trylock"] = mutex_lock
    S["pthread_mutex_unlock"] = mutex_unlock
    S["pthread_condattr_init"] = condattr_init
    S["pthread_condattr_destroy"] = S["pthread_condattr_setclock"] = S["pthread_condattr_setpshared"] = condattr_other
    S["pthread_cond_init"] = cond_init
    S["pthread_cond_destroy"] = cond_destroy
    S["pthread_cond_wait"] = S["pthread_cond_timedwait"] = cond_wait
    S["pthread_cond_signal"] = S["pthread_cond_broadcast"] = cond_signal
    R = ex.stub_rx
    R.append((re.compile(r"^std::system_error::system_error\("), system_error_ctor))
    R.append((re.compile(r"^std::system_error::~system_error"), nop))
    R.append((re.compile(r"^std::(runtime_error|logic_error|out_of_range|overflow_error|underflow_error|range_error|"
                         r"length_error|domain_error|invalid_argument|exception|bad_alloc)::~?\w+\("), nop))
    R.append((re.compile(r"^std::(__cxx11::)?(basic_string|to_string)|^std::allocator<char>|"
                         r"std::(__cxx11::)?basic_string<char.* std::operator\+"), string_stub))
    R.append((re.compile(r"^std::__throw_(\w+)\("), throw_std("_ZTISt11logic_error")))
