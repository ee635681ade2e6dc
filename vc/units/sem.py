"""Semaphore: C03, C04, C05, C06 (monitor invariants over the internal lock)."""
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from units.base import *

HARNESS = ["h_sem.cpp"]
M32 = (1 << 32) - 1


class Roles:
    """which memory cells hold the count, the maximum, ... - found by running the code on probe inputs"""
    pass


class ProbeMonitor:
    def __init__(self):
        self.waits = []

    def on_lock(self, ex, st):
        pass

    def on_unlock(self, ex, st):
        pass

    def on_wait(self, ex, st, c, n):
        self.waits.append((c, st.clone()))
        st.status = "cut"
        return [("run", st)]

    def on_signal(self, ex, st, c, b):
        return True


def heap_cells(st):
    for rid, r in st.mem.items():
        if r.kind == "heap" and r.alive and r.mode == "bytes" and not (r.meta or {}).get("exc"):
            for off, (n, v) in r.cells.items():
                yield (rid, off, n), v


def mutex_keys(st):
    return list((st.ghost.get("mutexes") or {}).keys())


def probe(ex):
    """-> (template state, object pointer, Roles)"""
    saved = ex.unit
    ex.unit = "probe"
    props, ex.props = ex.props, frozenset()
    R = Roles()
    a = concrete_new(ex, "h_sem_new", [5, 9])[0]
    R.obj = a.ret
    mks = mutex_keys(a)
    if len(mks) != 1:
        raise Unsupported("semaphore with %d native mutexes" % len(mks))
    R.mutex = mks[0]
    av = [k for k, v in heap_cells(a) if v == 5]
    mx = [k for k, v in heap_cells(a) if v == 9]
    if len(av) != 1 or len(mx) != 1:
        raise Unsupported("cannot identify the semaphore's count and maximum")
    R.avail, R.max = av[0], mx[0]
    reset(a)
    pm = ProbeMonitor()
    ex.monitors = {R.mutex: pm}

    def changed(s0, s1):
        d0 = dict(heap_cells(s0))
        return [k for k, v in heap_cells(s1) if k in d0 and d0[k] is not v and not (isinstance(d0[k], int) and d0[k] == v)]
    s = a.clone()
    o = [x for x in ex.run_function(s, "h_sem_abort", [a.ret if a.ret else R.obj]) if x.status == "ret"]
    if len(o) != 1:
        raise Unsupported("abort probe")
    ch = changed(a, o[0])
    if len(ch) != 1:
        raise Unsupported("cannot identify the abort flag (%d cells change)" % len(ch))
    R.abort = ch[0]
    for nm, fn, val in (("T", "h_sem_take", 0), ("G", "h_sem_give", 9)):
        pm.waits = []
        s = a.clone()
        r = s.region(R.avail[0], True)
        ex.write_cells(r.cells, R.avail[1], R.avail[2], val)
        s0 = s.clone()
        ex.run_function(s, fn, [R.obj])
        if not pm.waits:
            setattr(R, "cond" + nm, None)
            setattr(R, "pend" + nm, None)
            continue
        c, w = pm.waits[0]
        setattr(R, "cond" + nm, c)
        ch = changed(s0, w)
        setattr(R, "pend" + nm, ch[0] if len(ch) == 1 else None)
        if len(ch) > 1:
            raise Unsupported("cannot identify the pending counter (%s)" % nm)
    known = {R.avail, R.max, R.abort, R.pendT, R.pendG}
    R.other = []
    cond_offs = set(a.ghost.get("conds") or {})
    for k, v in heap_cells(a):
        if k[0] == R.avail[0] and k not in known and not isinstance(v, Ptr) and (k[0], k[1]) not in cond_offs:
            R.other.append(k)
    ex.unit = saved
    ex.props = props
    ex.monitors = {}
    return a, R


class G(Ghost):
    fields = ("uT", "sT", "uG", "sG", "oT", "oG", "oBT", "oBG", "seg", "segAbort", "cum", "pT", "pG", "pBT", "pBG",
              "calls", "meT", "meG")

    def __init__(self):
        for f in self.fields:
            setattr(self, f, 0)


class SemMonitor:
    """Lock invariant of the semaphore.

    uT/uG: threads asleep in take/give that nobody has signalled; sT/sG: signalled, not yet running again;
    oT/oG (oBT/oBG): signals (broadcasts) other threads have yet to issue after leaving the lock."""

    def __init__(self, R, kind):
        self.R, self.kind = R, kind

    # cells
    def get(self, ex, st, k):
        r = st.region(k[0], True)
        return ex.read_cells(r, r.cells, k[1], k[2], r.zero)

    def put(self, ex, st, k, v):
        r = st.region(k[0], True)
        ex.write_cells(r.cells, k[1], k[2], v)

    def pieces(self, ex, st, inside=False):
        """the lock invariant; inside: as it may stand between waking up and releasing the lock, when this thread
        itself is the signalled one that has not yet used its unit"""
        R = self.R
        g = st.ghost["sem"]
        av, mx, ab = (wide(self.get(ex, st, k)) for k in (R.avail, R.max, R.abort))
        uT, sT, uG, sG = (wide(x) for x in (g.uT, g.sT, g.uG, g.sG))
        oT, oG, oBT, oBG = (wide(x) for x in (g.oT, g.oG, g.oBT, g.oBG))
        if inside:
            oT, oG = oT + wide(g.meT), oG + wide(g.meG)
        ps = [(("C03",), "the count never exceeds the maximum", z3.ULE(av, mx))]
        for nm, pend, u, s in (("take", R.pendT, uT, sT), ("give", R.pendG, uG, sG)):
            if pend is not None:
                ps.append((("C05", "C06"), "the record of threads blocked in %s is exact" % nm,
                           wide(self.get(ex, st, pend)) == u + s))
        ps.append((("C06",), "abort has released every thread blocked in take",
                   z3.Implies(z3.And(ab != 0, uT != 0), oBT != 0)))
        ps.append((("C06",), "abort has released every thread blocked in give",
                   z3.Implies(z3.And(ab != 0, uG != 0), oBG != 0)))
        ps.append((("C05",), "no taker is left asleep while units are available for it",
                   z3.Implies(z3.And(ab == 0, uT != 0), z3.ULE(av, sT + oT))))
        ps.append((("C05",), "no giver is left asleep while there is room for it",
                   z3.Implies(z3.And(ab == 0, uG != 0), z3.ULE(mx - av, sG + oG))))
        return ps

    def bounds(self, g):
        b = z3.BitVecVal(65535, 64)
        c = z3.BitVecVal(1 << 40, 64)
        return z3.And(z3.ULE(g.uT, b), z3.ULE(g.sT, b), z3.ULE(g.uG, b), z3.ULE(g.sG, b),
                      z3.ULE(g.uT + g.sT + g.uG + g.sG, b), z3.ULE(g.oT, c), z3.ULE(g.oG, c), z3.ULE(g.oBT, c),
                      z3.ULE(g.oBG, c))

    def havoc(self, ex, st):
        """arbitrary state allowed by the lock invariant; abort is monotone"""
        R = self.R
        g = st.ghost["sem"]
        old_ab = self.get(ex, st, R.abort)
        first = not st.ghost.get("_seen")
        for k in [R.avail, R.pendT, R.pendG] + R.other:
            if k is not None:
                self.put(ex, st, k, fresh("h_" + self.name(k), 8 * k[2]))
        ab = fresh("h_abort", 1)
        self.put(ex, st, R.abort, simp(z3.If(ab, z3.BitVecVal(1, 8 * R.abort[2]), z3.BitVecVal(0, 8 * R.abort[2]))))
        if not first:
            st.assume(z3.Implies(wide(old_ab) != 0, ab))
        for f in ("uT", "sT", "uG", "sG", "oT", "oG", "oBT", "oBG"):
            setattr(g, f, fresh(f))
        st.assume(self.bounds(g))
        # promises made by this thread are among the outstanding ones
        for f, p in (("oT", "pT"), ("oG", "pG"), ("oBT", "pBT"), ("oBG", "pBG")):
            st.assume(z3.ULE(wide(getattr(g, p)), getattr(g, f)))
        for _, _, c in self.pieces(ex, st):
            st.assume(c)
        st.ghost["_seen"] = True
        g.seg = self.get(ex, st, R.avail)
        g.segAbort = self.get(ex, st, R.abort)

    def name(self, k):
        R = self.R
        for n in ("avail", "max", "abort", "pendT", "pendG"):
            if getattr(R, n) == k:
                return n
        return "cell%d" % k[1]

    def on_lock(self, ex, st):
        self.havoc(ex, st)
        g = st.ghost["sem"]
        inputs(st, available=self.get(ex, st, self.R.avail), maximum=self.get(ex, st, self.R.max),
               aborted=g.segAbort, takers_asleep=g.uT, takers_signalled=g.sT, givers_asleep=g.uG, givers_signalled=g.sG)

    def release(self, ex, st, waiting):
        """the lock is about to be given up: check the invariant and account for the segment"""
        R = self.R
        g = st.ghost["sem"]
        av = wide(self.get(ex, st, R.avail))
        ab = wide(self.get(ex, st, R.abort))
        delta = simp(av - wide(g.seg))
        g.cum = simp(wide(g.cum) + bv(delta, 64))
        d = {"take": M64, "give": 1}.get(self.kind, 0)
        cum = bv(g.cum, 64)
        if waiting:
            ex.oblige(st, "C03", "the count is not changed by a thread that goes to sleep", cum == 0)
        else:
            ex.oblige(st, "C03", "a call changes the count by at most one unit in its own direction",
                      z3.Or(cum == 0, cum == d) if d else cum == 0)
        if self.kind == "abort" or self.kind == "dtor":
            ex.oblige(st, "C06", "abort leaves the semaphore aborted", ab == 1)
        else:
            ex.oblige(st, "C06", "only abort sets the abort state and nothing clears it", ab == wide(g.segAbort))
            ex.oblige(st, "C06", "an aborted semaphore changes no count", z3.Implies(ab != 0, delta == 0 if not isinstance(delta, int) else z3.BoolVal(delta == 0)))
        # where a wake-up is missing the thread may still owe it (signalling after unlocking)
        if not waiting:
            for pp, nm, c in self.pieces(ex, st):
                for word, o, p in (("no taker", "oT", "pT"), ("no giver", "oG", "pG"),
                                   ("blocked in take", "oBT", "pBT"), ("blocked in give", "oBG", "pBG")):
                    if word in nm and ("asleep" in nm or "released" in nm) and not ex.valid(st, c):
                        setattr(g, o, simp(wide(getattr(g, o)) + 1))
                        setattr(g, p, simp(wide(getattr(g, p)) + 1))
                        st.ghost["owed"] = st.ghost.get("owed", ()) + (p,)
        for pp, nm, c in self.pieces(ex, st):
            if st.status != "run":
                return
            ex.oblige(st, pp, nm, c)
        g.seg = self.get(ex, st, R.avail)

    def on_unlock(self, ex, st):
        self.release(ex, st, False)

    def on_wait(self, ex, st, c, n):
        R = self.R
        g = st.ghost["sem"]
        which = "T" if c == R.condT else "G" if c == R.condG else None
        if self.kind in ("abort", "dtor", "count"):
            ex.oblige(st, ("C06",), "%s never blocks" % self.kind, False)
            st.status = "cut"
            return [("run", st)]
        if which is None:
            raise Unsupported("wait on an unknown condition variable")
        if (which == "T") != (self.kind == "take"):
            ex.oblige(st, ("C05",), "takers and givers sleep on their own condition variables", False)
            st.status = "cut"
            return [("run", st)]
        st.assume(z3.ULT(wide(g.uT) + wide(g.sT) + wide(g.uG) + wide(g.sG), 65535))   # fewer than 65536 waiters
        setattr(g, "u" + which, simp(wide(getattr(g, "u" + which)) + 1))
        ex.reach(st, "waits in " + self.kind)
        self.release(ex, st, True)
        if st.status != "run":
            return [("run", st)]
        self.havoc(ex, st)
        s2 = st.clone()
        out = []
        for s, f in ((st, "s"), (s2, "u")):
            gg = s.ghost["sem"]
            v = wide(getattr(gg, f + which))
            s.assume(z3.UGE(v, 1))
            setattr(gg, f + which, simp(v - 1))
            setattr(gg, "me" + which, 1 if f == "s" else 0)
            if ex.feasible(s):
                out.append(("ret", s, 0))
        return out

    def on_signal(self, ex, st, c, broadcast):
        R = self.R
        if c not in (R.condT, R.condG):
            return False
        w = "T" if c == R.condT else "G"
        g = st.ghost["sem"]
        under = R.mutex in st.ghost.get("held", ())
        if not under:
            # issued after the lock was released: it pays a promise
            for p, o in (("p" + w, "o" + w), ("pB" + w, "oB" + w)):
                v = getattr(g, p)
                if not (isinstance(v, int) and v == 0) and (broadcast or p == "p" + w):
                    setattr(g, p, simp(wide(v) - 1))
                    setattr(g, o, simp(wide(getattr(g, o)) - 1))
            return True
        u, s = wide(getattr(g, "u" + w)), wide(getattr(g, "s" + w))
        if broadcast:
            setattr(g, "s" + w, simp(s + u))
            setattr(g, "u" + w, 0)
        else:
            has = u != 0
            setattr(g, "u" + w, simp(z3.If(has, u - 1, u)))
            setattr(g, "s" + w, simp(z3.If(has, s + 1, s)))
        return True

    def on_cond_destroy(self, ex, st, c):
        if c in (self.R.condT, self.R.condG):
            ex.oblige(st, "C06", "a semaphore is aborted before it is torn down",
                      wide(self.get(ex, st, self.R.abort)) != 0)

    def candidates(self, ex, base):
        if self.R.mutex not in base.ghost.get("held", ()):
            return []
        n = len(self.pieces(ex, base))
        out = []
        for i in range(n):
            out.append(("inv%d" % i, lambda e, st, i=i: self.pieces(e, st, True)[i][2]))
        R = self.R
        g = lambda st: st.ghost["sem"]
        for f in ("meT", "meG"):
            out.append((f + "01", lambda e, st, f=f: z3.ULE(wide(getattr(g(st), f)), 1)))
        out.append(("bounds", lambda e, st: self.bounds_any(g(st))))
        out.append(("no delta yet", lambda e, st: wide(self.get(e, st, R.avail)) == wide(g(st).seg)))
        out.append(("abort as found", lambda e, st: wide(self.get(e, st, R.abort)) == wide(g(st).segAbort)))
        out.append(("abort bool", lambda e, st: z3.ULE(wide(self.get(e, st, R.abort)), 1)))
        out.append(("cum0", lambda e, st: wide(g(st).cum) == 0))
        for f in ("pT", "pG", "pBT", "pBG", "calls"):
            out.append((f + "0", lambda e, st, f=f: wide(getattr(g(st), f)) == 0))
        return out

    def bounds_any(self, g):
        class H:
            pass
        h = H()
        for f in ("uT", "sT", "uG", "sG", "oT", "oG", "oBT", "oBG"):
            setattr(h, f, wide(getattr(g, f)))
        return self.bounds(h)


M64 = (1 << 64) - 1


def setup(ex, kind):
    tmpl, R = probe(ex)
    st = tmpl.clone()
    m = SemMonitor(R, kind)
    ex.monitors = {R.mutex: m}
    ex.loop_candidates = lambda e, base: m.candidates(e, base)
    mx = fresh("max", 8 * R.max[2])
    st.assume(mx != 0)
    if ex.dep:
        st.assume(z3.ULE(wide(mx), ex.dep))
    m.put(ex, st, R.max, mx)
    st.ghost["sem"] = G()
    cells = {(k[0], k[1]): k for k in (R.avail, R.pendT, R.pendG, R.abort) if k is not None}

    def hook(e, s, r, off, n, write, atomic):
        if r.id == R.avail[0] and isinstance(off, int):
            for (rid, o), k in cells.items():
                if o < off + n and off < o + k[2]:
                    if R.mutex not in s.ghost.get("held", ()) and not s.ghost.get("exclusive"):
                        e.oblige(s, ("C03", "C04", "C05", "C06"), "semaphore state is accessed only under the lock", False)
                        s.status = "cut"
            if write and off < R.max[1] + R.max[2] and R.max[1] < off + n:
                e.oblige(s, ("C03",), "the maximum never changes", False)
    ex.access_hook = hook
    ex.crash_prop = ("C03", "C04", "C05", "C06")
    ex.lock_props = lambda k: ("C03", "C04", "C05", "C06")
    return st, R, m


def finish_common(ex, s, R, m):
    g = s.ghost["sem"]
    ex.oblige(s, ("C03", "C04", "C05", "C06"), "the lock is released on every exit", R.mutex not in s.ghost.get("held", ()))
    for p in ("pT", "pG"):
        ex.oblige(s, "C05", "every owed wake-up is issued before returning", wide(getattr(g, p)) == 0)
    for p in ("pBT", "pBG"):
        ex.oblige(s, "C06", "every owed abort broadcast is issued before returning", wide(getattr(g, p)) == 0)


def op_stub(ex, R, m, kind):
    def v_op(e, st, a, n):
        g = st.ghost["sem"]
        e.reach(st, "functor called")
        e.oblige(st, "C04", "the functor runs with the lock held", R.mutex in st.ghost.get("held", ()))
        if st.status != "run":
            return [("run", st)]
        e.oblige(st, "C04", "the functor runs once only", wide(g.calls) == 0)
        g.calls = simp(wide(g.calls) + 1)
        e.oblige(st, ("C04", "C06"), "the functor is not called on an aborted semaphore",
                 wide(m.get(e, st, R.abort)) == 0)
        av, seg = wide(m.get(e, st, R.avail)), wide(g.seg)
        if kind == "take":
            e.oblige(st, ("C04", "C03"), "take's functor runs after the count was decremented",
                     z3.And(av == seg - 1, seg != 0))
        else:
            e.oblige(st, ("C04", "C03"), "give's functor runs before the count is incremented, with room for one more",
                     z3.And(av == seg, z3.ULT(av, wide(m.get(e, st, R.max)))))
        out = []
        for ti, size in (USER_EXCS + LIB_EXCS if not ex.dep else []):
            s = st.clone()
            s.ghost["opthrew"] = 1
            out.append(throw_user(e, s, ti, size, "op"))
        st.ghost["opthrew"] = 0
        out.append(("ret", st, None))
        return out
    ex.stub_exact["v_op"] = v_op
    ex._stub_cache.clear()


def unit_op(kind, with_op):
    def run(ex):
        st, R, m = setup(ex, kind)
        st.ghost["opthrew"] = 0
        if with_op:
            op_stub(ex, R, m, kind)
        fn = "h_sem_%s%s" % (kind, "_op" if with_op else "")
        for s in ex.run_function(st, fn, [R.obj]):
            g = s.ghost["sem"]
            cum = bv(g.cum, 64)
            ab = wide(m.get(ex, s, R.abort))
            finish_common(ex, s, R, m)
            if s.status == "ret":
                ex.reach(s, "%s returns" % fn)
                ex.oblige(s, "C03", "a completed %s changed the count by exactly one" % kind,
                          cum == (M64 if kind == "take" else 1))
                ex.oblige(s, "C06", "%s succeeds only while not aborted" % kind, ab == 0)
                if with_op:
                    ex.oblige(s, "C04", "a completed %s ran the functor exactly once" % kind, wide(g.calls) == 1)
                    ex.oblige(s, "C04", "an exception of the functor reaches the caller", wide(s.ghost["opthrew"]) == 0)
            elif s.status == "exc":
                ex.oblige(s, ("C03", "C04", "C06"), "a %s that throws leaves the count unchanged" % kind, cum == 0)
                u = s.ghost.get("_user_exc")
                if s.ghost["opthrew"]:
                    ex.reach(s, "%s passes a functor exception on" % fn)
                    ex.oblige(s, "C04", "the functor's own exception reaches the caller",
                              u is not None and s.exc.ptr.rid == u.ptr.rid)
                elif s.exc.ti == SEM_ABORTED:
                    ex.reach(s, "%s throws SemaphoreAborted" % fn)
                    ex.oblige(s, ("C06", "C03"), "SemaphoreAborted only on an aborted semaphore", ab != 0)
                    ex.oblige(s, ("C04", "C06"), "a failing %s never calls the functor" % kind, wide(g.calls) == 0)
                elif s.exc.ti == SEM_OVERFLOW and kind == "give":
                    ex.reach(s, "%s throws SemaphoreOverflow" % fn)
                    ex.oblige(s, "C03", "SemaphoreOverflow only at 2^32-1", wide(m.get(ex, s, R.avail)) == M32)
                    ex.oblige(s, ("C06",), "an aborted semaphore reports SemaphoreAborted", ab == 0)
                    ex.oblige(s, "C04", "a failing %s never calls the functor" % kind, wide(g.calls) == 0)
                else:
                    ex.oblige(s, ("C03", "C04", "C06"), "%s throws only the documented exceptions (got %s)" % (kind, s.exc.ti), False)
        ex.must_reach(("C03", "C04", "C05"), "%s returns" % fn, "waits in " + kind)
        ex.must_reach("C06", "%s throws SemaphoreAborted" % fn)
        if kind == "give" and not ex.dep:
            ex.must_reach("C03", "%s throws SemaphoreOverflow" % fn)
        if with_op:
            ex.must_reach(("C04", "C05"), "functor called", *([] if ex.dep else ["%s passes a functor exception on" % fn]))
    return run


def unit_overflow(ex):
    """a give that finds 2^32-1 units must throw at once (it would otherwise sleep)"""
    st, R, m = setup(ex, "give")
    base_wait = m.on_wait

    def on_wait(e, s, c, n):
        e.oblige(s, "C03", "a give at 2^32-1 throws SemaphoreOverflow instead of blocking",
                 wide(m.get(e, s, R.avail)) != M32)
        return base_wait(e, s, c, n)
    m.on_wait = on_wait
    for s in ex.run_function(st, "h_sem_give", [R.obj]):
        pass


def unit_abort(ex):
    st, R, m = setup(ex, "abort")
    for s in ex.run_function(st, "h_sem_abort", [R.obj]):
        finish_common(ex, s, R, m)
        if s.status == "ret":
            ex.reach(s, "abort returns")
            ex.oblige(s, "C06", "abort has set the abort state", wide(m.get(ex, s, R.abort)) != 0)
            ex.oblige(s, ("C03", "C06"), "abort leaves the count alone", bv(s.ghost["sem"].cum, 64) == 0)
        else:
            ex.oblige(s, "C06", "abort never throws (got %s)" % s.exc.ti, False)
    ex.must_reach(ALL, "abort returns")


def unit_count(ex):
    st, R, m = setup(ex, "count")
    for s in ex.run_function(st, "h_sem_count", [R.obj]):
        finish_common(ex, s, R, m)
        g = s.ghost["sem"]
        if s.status == "ret":
            ex.reach(s, "getAvailableCount returns")
            ex.oblige(s, "C03", "getAvailableCount reports the count", wide(s.ret) == wide(g.seg))
            ex.oblige(s, "C03", "getAvailableCount changes nothing", bv(g.cum, 64) == 0)
        else:
            ex.oblige(s, "C03", "getAvailableCount does not throw", False)
    ex.must_reach("C03", "getAvailableCount returns")


def unit_dtor(ex):
    st, R, m = setup(ex, "dtor")
    st.ghost["destroyed"] = 0
    for s in ex.run_function(st, "h_sem_delete", [R.obj]):
        if s.status == "ret":
            ex.reach(s, "destructor returns")
            ex.oblige(s, ("C06",), "the destructor releases the lock", R.mutex not in s.ghost.get("held", ()))
            ex.oblige(s, ("C06",), "the destructor has torn down what it created",
                      not (s.ghost.get("conds") or {}) and not (s.ghost.get("mutexes") or {}))
            ex.oblige(s, "C06", "the destructor frees the semaphore",
                      all(not r.alive for rid, r in s.mem.items() if r.kind == "heap" and rid in st.mem))
        else:
            ex.oblige(s, "C06", "the destructor never throws", False)
    ex.must_reach("C06", "destructor returns")


def unit_ctor(two):
    def run(ex):
        tmpl, R = probe(ex)
        st = State()
        i = fresh("initial")
        m = fresh("maximum") if two else 0
        inputs(st, initialCount=i, maxCount=m)
        if ex.dep:
            st.assume(z3.ULE(i, ex.dep))
            if two:
                st.assume(z3.And(m != 0, z3.ULE(m, ex.dep), z3.ULE(i, m)))
        mon = SemMonitor(R, "ctor")
        ex.crash_prop = ("C03",)
        for s in ex.run_function(st, "h_sem_new" if two else "h_sem_new1", [i, m] if two else [i]):
            if s.status != "ret":
                ex.oblige(s, "C03", "construction does not fail", False)
                continue
            ex.reach(s, "constructor returns")
            # same layout as the probe: region of the implementation object
            def cell(k):
                # locate the object by the same path: pointer stored in the Semaphore object
                p = s.ret if k[0] == R.obj.rid else ex.load(s, s.ret, 8)
                r = s.region(p.rid, True)
                return ex.read_cells(r, r.cells, k[1], k[2], r.zero)
            av, mx, ab = (wide(cell(k)) for k in (R.avail, R.max, R.abort))
            ci = z3.If(z3.UGT(i, M32), z3.BitVecVal(M32, 64), i)
            mm = bv(m, 64)
            want = z3.If(mm == 0, z3.BitVecVal(M32, 64), z3.If(z3.UGT(mm, M32), z3.BitVecVal(M32, 64), mm))
            want = z3.If(z3.UGT(ci, want), ci, want)
            ex.oblige(s, "C03", "the initial count is the clamped request", av == ci)
            ex.oblige(s, "C03", "the maximum is the clamped request", mx == want)
            ex.oblige(s, ("C03", "C06"), "a new semaphore is not aborted", ab == 0)
            for k in (R.pendT, R.pendG):
                if k is not None:
                    ex.oblige(s, ("C05", "C06"), "a new semaphore has no waiters", wide(cell(k)) == 0)
            ex.oblige(s, ("C05", "C06"), "both condition variables are initialised",
                      len(s.ghost.get("conds") or {}) == len({c for c in (R.condT, R.condG) if c}))
            ex.oblige(s, ("C05", "C03"), "takers and givers can both wait",
                      R.condT is not None and R.condG is not None)
        ex.must_reach(("C03", "C05", "C06"), "constructor returns")
    return run


ALL = ("C03", "C04", "C05", "C06")
UNITS = [
    Unit("Semaphore::Semaphore(initial,max)", ("C03", "C05", "C06"), unit_ctor(True)),
    Unit("Semaphore::Semaphore(initial)", ("C03", "C05", "C06"), unit_ctor(False)),
    Unit("Semaphore::take()", ("C03", "C04", "C05", "C06"), unit_op("take", False)),
    Unit("Semaphore::give()", ("C03", "C04", "C05", "C06"), unit_op("give", False)),
    Unit("Semaphore::take(functor)", ALL, unit_op("take", True)),
    Unit("Semaphore::give(functor)", ALL, unit_op("give", True)),
    Unit("Semaphore::give() at the absolute limit", ("C03",), unit_overflow),
    Unit("Semaphore::abort()", ALL, unit_abort),
    Unit("Semaphore::getAvailableCount()", ("C03",), unit_count),
    Unit("Semaphore::~Semaphore()", ("C06",), unit_dtor),
]
