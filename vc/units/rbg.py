"""RingBufferGuarded: C08, C09 (over the contracts of Semaphore and RingBufferSimple).

Ownership discipline of the ring inside a guarded buffer: before the buffer is ready it belongs to the one thread that
primes it; from then on to whoever holds the semaphore's lock inside take/give; after abort to the flushing thread.
Lock invariant from readiness on: number of elements in the ring == available count of the semaphore <= n."""
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv, fresh_array
from units.base import *
from units.contracts import RingSimple, SemContract
from units.sem import heap_cells

HARNESS = ["h_sem.cpp", "h_rbg.cpp"]
ALL = ("C08", "C09")
TY = {"u8": 8, "f64": 64, "i32": 32, "u64": 64, "vp": 64, "ip": 64, "cip": 64}
NP, RDY, TERM = 0, 1, 2
PRIMED = z3.Function("primed", z3.BitVecSort(64), z3.BitVecSort(64))


class GR(Ghost):
    """sawR/sawN/sawT: this call has seen the state ready / needing priming / terminal; made: it has made it ready;
    calls: calls of the priming or flushing functor so far; moved: elements put or taken by this call"""
    fields = ("sawR", "sawN", "sawT", "made", "calls", "moved", "threw")

    def __init__(self):
        for f in self.fields:
            setattr(self, f, 0)
        self.p0 = self.g0 = None
        self.got = None


def flag(old, c):
    if isinstance(c, bool):
        return 1 if c else old
    return simp(z3.If(c, z3.BitVecVal(1, 64), wide(old)))


class StateCell:
    """rely/guarantee of the atomic state: needs priming -> ready -> terminal, or straight to terminal"""

    def __init__(self, U, key):
        self.U, self.key = U, key

    def is_(self, v, ph):
        return bv(v, 8 * self.key[2]) == self.U.vals[ph]

    def interfere(self, ex, st, cur, kind):
        if st.ghost.get("exclusive"):
            return cur
        U = self.U
        f = fresh("state", 8 * self.key[2])
        others = [z3.And(self.is_(cur, a), self.is_(f, b)) for a in (NP, RDY, TERM) for b in (NP, RDY, TERM)
                  if a <= b and not (U.kind == "prime" and a == NP and b == RDY)]
        st.assume(z3.Or(*others))
        return f

    def observed(self, ex, st, cur, order):
        g = st.ghost["rbg"]
        acq = order in ("acquire", "seq_cst", "acq_rel")
        g.sawN = flag(g.sawN, self.is_(cur, NP))
        g.sawT = flag(g.sawT, self.is_(cur, TERM))
        if acq:
            g.sawR = flag(g.sawR, self.is_(cur, RDY))

    def commit(self, ex, st, cur, new, kind, order):
        if st.ghost.get("exclusive"):
            return
        U, g = self.U, st.ghost["rbg"]
        same = bv(cur, 8 * self.key[2]) == bv(new, 8 * self.key[2])
        to_t = self.is_(new, TERM)
        ok = z3.Or(same, to_t) if U.kind in ("abort", "dtor") else same
        if U.kind == "prime":
            ok = z3.Or(same, z3.And(self.is_(cur, NP), self.is_(new, RDY)))
        ex.oblige(st, ("C09",), "the state only moves from needs-priming to ready (by prime) or to terminal (by abort)", ok)
        if st.status != "run":
            return
        if U.kind == "prime":
            t = st.clone()
            t.assume(z3.Not(same))
            if ex.feasible(t):
                U.primed(ex, t, order)
        g.made = flag(g.made, z3.And(z3.Not(same), self.is_(new, RDY)))
        g.sawT = flag(g.sawT, to_t)


class U:
    """one operation under verification"""

    def __init__(self, fam, kind, variant=0):
        """variant 0: a buffer constructed for priming, in any state of its life; 1: one constructed without"""
        self.fam, self.kind, self.w, self.variant = fam, kind, TY[fam], variant

    def ring(self, st):
        return st.ghost[self.rk]

    def sem(self, st):
        return st.ghost[self.sk]

    # -------------------------------------------------------- policy of the semaphore
    def acquire(self, ex, st, k):
        s, r, g = self.sem(st), self.ring(st), st.ghost["rbg"]
        av, ab = fresh("available"), fresh("aborted", 1)
        st.assume(z3.ULE(av, self.n))
        st.assume(z3.Implies(wide(s.aborted) != 0, ab))
        s.avail, s.aborted = av, simp(z3.If(ab, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        if self.kind == "prime":
            # only this thread can make the buffer ready, so nobody has taken or given anything
            st.assume(av == self.n)
        else:
            r.p, r.g, r.seq = fresh("puts"), fresh("gets"), fresh_array("contents", 64, 64)
            st.assume(z3.Implies(self.was_ready(st), r.p - r.g == av))
        inputs(st, available=av, aborted=ab)
        g.p0, g.g0 = r.p, r.g
        g.seq0 = r.seq

    def was_ready(self, st):
        g = st.ghost["rbg"]
        return z3.Or(wide(g.sawR) != 0, wide(g.made) != 0)

    def release(self, ex, st, k, what):
        s, r, g = self.sem(st), self.ring(st), st.ghost["rbg"]
        if self.kind == "prime":
            return
        dp, dg = wide(r.p) - wide(g.p0), wide(r.g) - wide(g.g0)
        if what == "take":
            ex.oblige(st, "C08", "take removes exactly the oldest element, under the lock", z3.And(dp == 0, dg == 1))
            g.got = simp(z3.Select(g.seq0, wide(g.g0)))
            g.moved = simp(wide(g.moved) + 1)
        elif what == "give":
            ex.oblige(st, "C08", "give appends exactly the value that was put, under the lock",
                      z3.And(dp == 1, dg == 0, z3.Select(r.seq, wide(g.p0)) == self.value)
                      if self.value is not None else False)
            g.moved = simp(wide(g.moved) + 1)
        else:
            ex.oblige(st, ALL, "an operation that fails leaves the elements alone", z3.And(dp == 0, dg == 0))
        if st.status != "run":
            return
        ex.oblige(st, "C08", "the number of elements equals the available count whenever the lock is free",
                  z3.Implies(self.was_ready(st), wide(r.p) - wide(r.g) == wide(s.avail)))

    # -------------------------------------------------------- policy of the ring
    def access(self, ex, st, k, op):
        g = st.ghost["rbg"]
        inl = st.ghost.get("in_sem") == self.sk
        if self.kind in ("get", "put"):
            ex.oblige(st, "C08", "elements are transferred only under the semaphore's lock", inl)
            ex.oblige(st, ALL, "elements are transferred only after the buffer was seen to be ready", wide(g.sawR) != 0)
        elif self.kind == "prime":
            ex.oblige(st, "C09", "priming touches the elements only while the buffer needs priming",
                      z3.And(wide(g.sawN) != 0, wide(g.made) == 0))
        elif self.kind == "flush":
            ex.oblige(st, "C09", "flushing touches the elements only of a terminal buffer", wide(g.sawT) != 0)
        else:
            ex.oblige(st, ALL, "%s transfers no element" % self.kind, False)

    def primed(self, ex, st, order):
        """prime is making the buffer ready"""
        g, r = st.ghost["rbg"], self.ring(st)
        ex.oblige(st, ALL, "the primed elements are published to other threads",
                  order in ("release", "seq_cst", "acq_rel"))
        ex.oblige(st, ALL, "the buffer becomes ready only with all n elements enqueued",
                  z3.And(wide(g.calls) == self.n, wide(r.p) - wide(r.g) == self.n))
        j = fresh("j")
        v = PRIMED(j)
        if self.w < 64:
            v = z3.ZeroExt(64 - self.w, z3.Extract(self.w - 1, 0, v))
        ex.oblige(st, "C09", "priming enqueues the results of the functor in order",
                  z3.Implies(z3.ULT(j, self.n), z3.Select(r.seq, wide(r.g) + j) == v))

    # -------------------------------------------------------- functors
    def v_prime(self, ex, st, a, n):
        g = st.ghost["rbg"]
        ex.oblige(st, "C09", "the priming functor is called for 0, 1, 2, ... in this order",
                  z3.And(bv(a[0], 64) == wide(g.calls), z3.ULT(wide(g.calls), self.n)))
        if st.status != "run":
            return [("run", st)]
        ex.reach(st, "priming functor called")
        out = []
        for ti, size in USER_EXCS + LIB_EXCS:
            s = st.clone()
            s.ghost["rbg"].threw = 1
            out.append(throw_user(ex, s, ti, size, "prime"))
        g.calls = simp(wide(g.calls) + 1)
        out.append(("ret", st, simp(PRIMED(bv(a[0], 64)))))
        return out

    def v_flush(self, ex, st, a, n):
        g, r = st.ghost["rbg"], self.ring(st)
        cut = lambda v: v if self.w == 64 else z3.Extract(self.w - 1, 0, v)
        ex.oblige(st, "C09", "flush hands out the elements in order, each once",
                  z3.And(z3.ULT(wide(g.calls), self.held),
                         cut(bv(a[0], 64)) == cut(z3.Select(self.seq0, self.g0 + wide(g.calls)))))
        if st.status != "run":
            return [("run", st)]
        ex.reach(st, "flushing functor called")
        g.calls = simp(wide(g.calls) + 1)
        out = []
        for ti, size in USER_EXCS + LIB_EXCS:
            s = st.clone()
            s.ghost["rbg"].threw = 1
            out.append(throw_user(ex, s, ti, size, "flush"))
        out.append(("ret", st, 0))
        return out

    # -------------------------------------------------------- construction
    def construct(self, ex, st, prime):
        if prime is None:
            return ex.run_function(st, "h_rbg_newd_" + self.fam, [self.n])
        return ex.run_function(st, "h_rbg_new_" + self.fam, [self.n, prime])

    def find(self, st):
        rk = [k for k in st.ghost if k.startswith("ring:")]
        sk = [k for k in st.ghost if k.startswith("semc:")]
        if len(rk) != 1 or len(sk) != 1:
            raise Unsupported("guarded ring buffer with %d rings and %d semaphores" % (len(rk), len(sk)))
        self.rk, self.sk = rk[0], sk[0]

    def template(self, ex):
        """-> a state holding a buffer of symbolic size in an arbitrary state of its life"""
        saved, ex.props = ex.props, frozenset()
        unit, ex.unit = ex.unit, "probe"
        del ex.contract_rx[:]
        self.contract = RingSimple(self)
        self.contract.install(ex)
        SemContract(self).install(ex)
        st = State()
        self.n = fresh("n")
        st.assume(z3.And(z3.UGE(self.n, 1), z3.ULE(self.n, 1 << 20)))
        inputs(st, requestedNumElements=self.n)
        st.ghost["exclusive"] = True
        st.ghost["rbg"] = GR()
        a = [x for x in self.construct(ex, st.clone(), 1) if x.status == "ret"]
        b = [x for x in self.construct(ex, st.clone(), 0) if x.status == "ret"]
        if len(a) != 1 or len(b) != 1:
            raise Unsupported("construction branches")
        a, b = a[0], b[0]
        self.find(a)
        pa, pb = a.ret, b.ret
        # the state cell: the byte(s) of the object accessed atomically
        cells = {}

        def hook(e, s, r, off, n, write, atomic):
            if atomic and isinstance(off, int):
                cells[(r.id, off)] = (r.id, off, n)
        old, ex.access_hook = ex.access_hook, hook
        c = reset(a.clone())
        c = [x for x in ex.run_function(c, "h_rbg_abort_" + self.fam, [pa]) if x.status == "ret"][0]
        ex.access_hook = old
        if len(cells) != 1:
            raise Unsupported("guarded ring buffer with %d atomic cells" % len(cells))
        key = list(cells.values())[0]

        def value(s, p):
            r = s.region(p.rid, True)
            v = ex.read_cells(r, r.cells, key[1], key[2], False)
            if not isinstance(v, int):
                raise Unsupported("symbolic buffer state")
            return v
        if key[0] != pa.rid:
            raise Unsupported("state outside the buffer object")
        self.vals = [value(a, pa), value(b, pb), value(c, pa)]
        if len(set(self.vals)) != 3:
            raise Unsupported("the three states are not distinguished")
        other = {}
        for x, q in ((a, pa), (b, pb)):
            other[id(x)] = [(off, n, v if isinstance(v, int) else str(v)) for rr in x.mem.values() if rr.id == q.rid
                            for off, (n, v) in sorted(rr.cells.items()) if off + n <= key[1] or off >= key[1] + key[2]]
        # does an object not built for priming differ in more than its state and the ring and semaphore inside?
        self.alt = other[id(a)] != other[id(b)]
        if self.variant:
            a, pa, key = b, pb, (pb.rid, key[1], key[2])
            self.find(a)
        self.cell = key
        self.obj = pa
        s = reset(a)
        s.ghost["exclusive"] = False
        s.ghost["rbg"] = GR()
        spec = StateCell(self, key)
        s.ghost["atomics"] = {(key[0], key[1]): spec}
        cur = fresh("state", 8 * key[2])
        s.assume(z3.Or(*[cur == v for v in self.vals]))
        if self.variant:
            s.assume(cur != self.vals[NP])
        r = s.region(key[0], True)
        ex.write_cells(r.cells, key[1], key[2], cur)
        self.cur0 = cur
        ring, sem = self.ring(s), self.sem(s)
        ring.n0 = ring.n
        self.N = ring.n
        for i in (NP, RDY, TERM):
            inputs(s, **{"state_is_%s" % ("needs_priming", "ready", "terminal")[i]: cur == self.vals[i]})
        ab = fresh("aborted0", 1)
        sem.aborted = simp(z3.If(ab, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        sem.max = self.n
        if self.kind == "prime":
            # while it needs priming nobody else touches the elements, and there are none (a prime that fails leaves none)
            ring.p = ring.g = fresh("puts")
            sem.avail = self.n
            s.assume(z3.Or(cur != self.vals[NP], wide(sem.aborted) == 0))
        else:
            ring.p, ring.g, ring.seq = fresh("puts"), fresh("gets"), fresh_array("contents", 64, 64)
            sem.avail = fresh("available")
            s.assume(z3.ULE(sem.avail, self.n))
        self.p0, self.g0, self.seq0 = wide(ring.p), wide(ring.g), ring.seq
        self.held = simp(self.p0 - self.g0)
        if self.kind == "flush":
            # abort has returned and no other call is in progress: the thread owns the buffer
            s.assume(z3.ULE(self.held, sem.avail))
            s.assume(z3.Implies(cur == self.vals[TERM], wide(sem.aborted) == 1))
            inputs(s, elements=self.held, available=sem.avail)
        ex.stub_exact["v_prime"] = self.v_prime
        ex.stub_exact["v_flush"] = self.v_flush
        ex._stub_cache.clear()
        ex.loop_candidates = self.candidates
        shared = {x.id for x in s.mem.values() if x.kind == "heap"}
        cells0 = {(key[0], key[1])}

        def race(e, t, r, off, n, write, atomic):
            if r.id not in shared or t.ghost.get("exclusive") or r.id not in t.mem:
                return
            hit = isinstance(off, int) and r.id == key[0] and off < key[1] + key[2] and key[1] < off + n
            if hit and not atomic:
                e.oblige(t, ALL, "the state is only accessed atomically", False)
            if write and not hit and not t.ghost.get("in_sem"):
                e.oblige(t, ALL, "shared members are written only atomically or under the lock", False)
        ex.access_hook = race
        ex.props, ex.unit = saved, unit
        return s

    def candidates(self, ex, base):
        out = []
        k = self.cell

        def cur(ex, st):
            r = st.region(k[0], True)
            return bv(ex.read_cells(r, r.cells, k[1], k[2], False), 8 * k[2])
        out.append(("needs priming or terminal", lambda e, st: z3.Or(cur(e, st) == self.vals[NP], cur(e, st) == self.vals[TERM])))
        out.append(("a valid state", lambda e, st: z3.Or(*[cur(e, st) == v for v in self.vals])))
        out.append(("still needs priming", lambda e, st: cur(e, st) == self.vals[NP]))
        out.append(("still terminal", lambda e, st: cur(e, st) == self.vals[TERM]))
        g = lambda st: st.ghost["rbg"]
        out.append(("terminal was seen", lambda e, st: z3.Or(cur(e, st) != self.vals[TERM], wide(g(st).sawT) != 0)))
        for f in ("sawR", "sawN", "sawT"):
            out.append((f, lambda e, st, f=f: wide(getattr(g(st), f)) != 0))
            out.append((f + "0", lambda e, st, f=f: wide(getattr(g(st), f)) == 0))
        for f in ("made", "threw", "moved"):
            out.append((f + "0", lambda e, st, f=f: wide(getattr(g(st), f)) == 0))
        ring, sem = self.ring, self.sem
        occ = lambda st: wide(ring(st).p) - wide(ring(st).g)
        out.append(("calls = puts", lambda e, st: wide(g(st).calls) == occ(st)))
        out.append(("calls <= n", lambda e, st: z3.ULE(wide(g(st).calls), self.n)))
        out.append(("calls <= held", lambda e, st: z3.ULE(wide(g(st).calls), self.held)))
        out.append(("calls = gets", lambda e, st: wide(ring(st).g) == self.g0 + wide(g(st).calls)))
        out.append(("no puts", lambda e, st: wide(ring(st).p) == self.p0))
        return out


def user_exc(ex, x):
    u = x.ghost.get("_user_exc")
    return x.ghost["rbg"].threw and u is not None and x.exc.ptr.rid == u.ptr.rid


def unit_get(fam):
    def run(ex, variant=0):
        u = U(fam, "get", variant)
        ex.crash_prop = ALL
        s = u.template(ex)
        for x in ex.run_function(s, "h_rbg_get_" + fam, [u.obj]):
            g = x.ghost["rbg"]
            if x.status == "ret":
                ex.reach(x, "get returns")
                ex.oblige(x, "C08", "a get that returns has removed exactly one element", wide(g.moved) == 1)
                if g.got is not None and x.status == "ret":
                    want = g.got if u.w == 64 else z3.Extract(u.w - 1, 0, g.got)
                    v = x.ret.addr() if isinstance(x.ret, Ptr) else x.ret
                    ex.oblige(x, "C08", "get returns the oldest element unchanged", bv(v, u.w) == want)
                ex.oblige(x, "C09", "no get succeeds on a buffer not yet primed or already aborted",
                          z3.And(wide(g.sawR) != 0, wide(u.sem(x).aborted) == 0))
            else:
                ex.oblige(x, ALL, "a get that throws has removed nothing", wide(g.moved) == 0)
                if x.exc.ti == SEM_ABORTED:
                    ex.reach(x, "get throws SemaphoreAborted")
                    ex.oblige(x, "C09", "SemaphoreAborted only after abort", wide(u.sem(x).aborted) != 0)
                elif x.exc.ti == RB_STATE:
                    ex.reach(x, "get throws RingBufferStateError")
                    ex.oblige(x, "C09", "RingBufferStateError only from a buffer that is not ready",
                              z3.Or(wide(g.sawN) != 0, wide(g.sawT) != 0))
                else:
                    ex.oblige(x, ALL, "get throws only SemaphoreAborted and RingBufferStateError (got %s)" % x.exc.ti, False)
        if u.alt and not variant:
            run(ex, 1)
        ex.must_reach(ALL, "get returns", "get throws SemaphoreAborted")
        ex.must_reach("C09", "get throws RingBufferStateError")
    return run


def unit_put(fam):
    def run(ex, variant=0):
        u = U(fam, "put", variant)
        ex.crash_prop = ALL
        s = u.template(ex)
        v = fresh("value", u.w)
        inputs(s, value=v)
        u.value = wide(v)
        for x in ex.run_function(s, "h_rbg_put_" + fam, [u.obj, v]):
            g = x.ghost["rbg"]
            if x.status == "ret":
                ex.reach(x, "put returns")
                ex.oblige(x, "C08", "a put that returns has appended its value, unless the buffer was aborted",
                          z3.Or(wide(g.moved) == 1, z3.And(wide(g.moved) == 0, wide(g.sawT) != 0)))
                ex.oblige(x, "C09", "no put succeeds on a buffer not yet primed or already aborted",
                          z3.Or(wide(g.moved) == 0, z3.And(wide(g.sawR) != 0, wide(u.sem(x).aborted) == 0)))
                ex.oblige(x, "C08", "put tells whether it has appended its value", wide(x.ret) == wide(g.moved))
                y = x.clone()
                y.assume(wide(g.moved) == 1)
                if ex.feasible(y):
                    ex.reach(y, "put transfers")
            else:
                ex.oblige(x, ALL, "a put that throws has appended nothing", wide(g.moved) == 0)
                if x.exc.ti == SEM_ABORTED:
                    ex.reach(x, "put throws SemaphoreAborted")
                    ex.oblige(x, "C09", "SemaphoreAborted only after abort", wide(u.sem(x).aborted) != 0)
                elif x.exc.ti == RB_STATE:
                    ex.reach(x, "put throws RingBufferStateError")
                    ex.oblige(x, "C09", "RingBufferStateError only from a buffer that is not ready",
                              z3.Or(wide(g.sawN) != 0, wide(g.sawT) != 0))
                else:
                    ex.oblige(x, ALL, "put throws only SemaphoreAborted and RingBufferStateError (got %s)" % x.exc.ti, False)
        if u.alt and not variant:
            run(ex, 1)
        ex.must_reach(ALL, "put returns", "put transfers", "put throws SemaphoreAborted")
        ex.must_reach("C09", "put throws RingBufferStateError")
    return run


def unit_prime(fam):
    def run(ex, variant=0):
        u = U(fam, "prime", variant)
        ex.crash_prop = ALL
        s = u.template(ex)
        for x in ex.run_function(s, "h_rbg_prime_" + fam, [u.obj]):
            g, r = x.ghost["rbg"], u.ring(x)
            if x.status == "ret":
                ex.reach(x, "prime returns")
                ex.oblige(x, "C09", "a prime that returns has made the buffer ready, unless it was aborted",
                          z3.Or(wide(g.made) == 1, wide(g.sawT) != 0))
                y = x.clone()
                y.assume(wide(g.made) == 1)
                if ex.feasible(y):
                    ex.reach(y, "prime makes the buffer ready")
                ex.oblige(x, "C09", "prime enqueues exactly what its functor returned", wide(r.p) - wide(r.g) == wide(g.calls))
            elif isinstance(g.threw, int) and g.threw and user_exc(ex, x):
                ex.reach(x, "prime passes a functor exception on")
                ex.oblige(x, "C09", "a prime whose functor throws does not make the buffer ready", wide(g.made) == 0)
                ex.oblige(x, "C09", "a prime whose functor throws leaves no element behind for the next attempt", wide(r.p) == wide(r.g))
            elif x.exc.ti == RB_STATE:
                ex.reach(x, "prime throws RingBufferStateError")
                ex.oblige(x, "C09", "RingBufferStateError only from a buffer that does not need priming",
                          z3.Or(wide(g.sawR) != 0, wide(g.sawT) != 0))
                ex.oblige(x, "C09", "a prime in the wrong state changes nothing",
                          z3.And(wide(g.made) == 0, wide(g.calls) == 0, wide(r.p) == u.p0, wide(r.g) == u.g0))
            else:
                ex.oblige(x, ALL, "prime throws only RingBufferStateError and what its functor throws (got %s)" % x.exc.ti, False)
        if u.alt and not variant:
            run(ex, 1)
        ex.must_reach("C09", "prime returns", "prime makes the buffer ready", "prime passes a functor exception on",
                      "prime throws RingBufferStateError", "priming functor called")
    return run


def unit_flush(fam):
    def run(ex, variant=0):
        u = U(fam, "flush", variant)
        ex.crash_prop = ("C09",)
        s = u.template(ex)
        s.ghost["exclusive"] = False
        u.acquire = lambda e, st, k: None       # no other call is in progress
        u.release = lambda e, st, k, what: None
        for x in ex.run_function(s, "h_rbg_flush_" + fam, [u.obj]):
            g, r = x.ghost["rbg"], u.ring(x)
            if x.status == "ret":
                ex.reach(x, "flush returns")
                ex.oblige(x, "C09", "flush has handed out every element that was held",
                          z3.And(wide(g.calls) == u.held, wide(r.g) == u.p0, wide(r.p) == u.p0, wide(g.sawT) != 0))
            elif isinstance(g.threw, int) and g.threw and user_exc(ex, x):
                ex.reach(x, "flush passes a functor exception on")
                ex.oblige(x, "C09", "a flush whose functor throws keeps the elements not yet handed out",
                          z3.And(wide(r.g) == u.g0 + wide(g.calls), wide(r.p) == u.p0))
            elif x.exc.ti == RB_STATE:
                ex.reach(x, "flush throws RingBufferStateError")
                ex.oblige(x, "C09", "RingBufferStateError only from a buffer that is not aborted",
                          z3.Or(wide(g.sawR) != 0, wide(g.sawN) != 0))
                ex.oblige(x, "C09", "a flush in the wrong state changes nothing",
                          z3.And(wide(g.calls) == 0, wide(r.p) == u.p0, wide(r.g) == u.g0))
            else:
                ex.oblige(x, "C09", "flush throws only RingBufferStateError and what its functor throws (got %s)" % x.exc.ti, False)
        if u.alt and not variant:
            run(ex, 1)
        ex.must_reach("C09", "flush returns", "flush passes a functor exception on", "flush throws RingBufferStateError",
                      "flushing functor called")
    return run


def unit_abort(fam, kind):
    def run(ex, variant=0):
        u = U(fam, kind, variant)
        ex.crash_prop = ALL
        s = u.template(ex)
        if kind == "dtor":
            s.ghost["exclusive"] = True
        for x in ex.run_function(s, "h_rbg_%s_%s" % ("delete" if kind == "dtor" else "abort", fam), [u.obj]):
            ex.oblige(x, "C09", "%s does not throw" % kind, x.status == "ret")
            if x.status != "ret":
                continue
            ex.reach(x, kind + " returns")
            if kind == "abort":
                r = x.region(u.cell[0], True)
                ex.oblige(x, "C09", "abort leaves the buffer terminal",
                          bv(ex.read_cells(r, r.cells, u.cell[1], u.cell[2], False), 8 * u.cell[2]) == u.vals[TERM])
            ex.oblige(x, "C09", "%s releases and rejects every blocked caller" % kind, wide(u.sem(x).aborted) != 0)
        if u.alt and not variant:
            run(ex, 1)
        ex.must_reach("C09", kind + " returns")
    return run


def unit_ctor(fam):
    def run(ex):
        for prime in (0, 1, None):
            # None: the default argument, no priming
            u = U(fam, "ctor")
            ex.crash_prop = ALL
            RingSimple().install(ex)
            SemContract().install(ex)
            st = State()
            u.n = fresh("n")
            st.assume(z3.And(z3.UGE(u.n, 1), z3.ULE(u.n, 1 << 20)))
            inputs(st, requestedNumElements=u.n)
            st.ghost["exclusive"] = True
            for x in u.construct(ex, st, prime):
                ex.oblige(x, ALL, "construction does not fail", x.status == "ret")
                if x.status != "ret":
                    continue
                ex.reach(x, "constructed")
                u.find(x)
                r, s = u.ring(x), u.sem(x)
                ex.oblige(x, ALL, "the buffer admits exactly n elements",
                          z3.And(bv(s.max, 64) == u.n, z3.UGE(bv(r.n, 64), u.n)))
                ex.oblige(x, ALL, "a new buffer is empty, and not aborted",
                          z3.And(wide(r.p) == wide(r.g), wide(s.aborted) == 0))
                ex.oblige(x, ALL, "a new buffer offers " + ("its n elements once primed" if prime else "nothing to get"),
                          wide(s.avail) == (u.n if prime else 0))
                p = x.ret
                for fn, want in ((("get", RB_STATE), ("prime", None)) if prime else (("prime", RB_STATE),)):
                    # a fresh buffer built for priming must be primed first; any other needs none
                    y = reset(x.clone())
                    saved, ex.props = ex.props, frozenset()
                    ex.stub_exact["v_prime"] = lambda e, t, a, n: [("ret", t, simp(PRIMED(bv(a[0], 64))))]
                    ex._stub_cache.clear()
                    y.ghost["rbg"] = GR()
                    outs = ex.run_function(y, "h_rbg_%s_%s" % (fn, fam), [p])
                    ex.props = saved
                    for z in outs:
                        ok = (z.status == "exc" and z.exc.ti == want) if want else z.status == "ret"
                        ex.oblige(z, "C09", "a buffer %s priming %s %s" % ("built for" if prime else "not built for",
                                  "rejects" if want else "accepts", fn), ok)
                if fam == "u64" and prime == 0:
                    for fn, f in (("size", lambda N: N), ("mask", lambda N: N - 1)):
                        for z in ex.run_function(reset(x.clone()), "h_rbg_%s_u64" % fn, [p]):
                            ex.oblige(z, ALL, "the reported %s is that of the ring" % fn,
                                      z.status == "ret" and bv(z.ret, 64) == f(bv(r.n, 64)))
        ex.must_reach(ALL, "constructed")
    return run


UNITS = []
for f in TY:
    UNITS += [Unit("RingBufferGuarded<%s>::get" % f, ALL, unit_get(f)), Unit("RingBufferGuarded<%s>::put" % f, ALL, unit_put(f)),
              Unit("RingBufferGuarded<%s>::prime" % f, ALL, unit_prime(f)), Unit("RingBufferGuarded<%s>::flush" % f, ("C09",), unit_flush(f)),
              Unit("RingBufferGuarded<%s>::abort" % f, ALL, unit_abort(f, "abort")),
              Unit("RingBufferGuarded<%s> destructor" % f, ("C09",), unit_abort(f, "dtor")),
              Unit("RingBufferGuarded<%s> constructor" % f, ALL, unit_ctor(f))]
