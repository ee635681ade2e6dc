"""MemoryPoolBase: C10, C11, C12."""
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from stubs import throw
from units.base import *
from units.contracts import RingSimple, Blocks, count
from units.sem import heap_cells, mutex_keys

HARNESS = ["h_sem.cpp", "h_pool.cpp"]
ALL = ("C10", "C11", "C12")


class GPool(Ghost):
    """free: number of free blocks as last seen under the lock; hand: blocks owned by this call;
    debt: blocks this call has taken out of (or not yet put into) the free list that the running count still counts"""
    fields = ("free", "debt", "zq")

    def __init__(self):
        self.free = 0
        self.debt = 0
        self.zq = z3.BoolVal(False)
        self.hand = ()
        self.empty_seen = False


class Tokens:
    """each element of the free list is the ownership of one block"""

    def __init__(self, P):
        self.P = P

    def locked(self, ex, st):
        P = self.P
        held = frozenset(st.ghost.get("held", ()))
        if P.lockset is None:
            P.seen_held.append(held)
            return
        ex.oblige(st, ("C11",), "the free list is accessed only under the pool's lock", bool(held & P.lockset))

    def fresh_free(self, ex, st):
        g = st.ghost["pool"]
        f = fresh("free")
        st.assume(z3.ULE(f, self.P.N - len(g.hand)))
        g.free = f

    def get(self, ex, st, k, r, a):
        P = self.P
        self.locked(ex, st)
        if st.status != "run":
            return [("run", st)]
        self.fresh_free(ex, st)
        out = []
        for s, tk in ex.branch(st, bv(st.ghost["pool"].free, 64) != 0):
            g = s.ghost["pool"]
            if not tk:
                g.empty_seen = True
                out.append(throw(ex, s, RB_UNDERFLOW))
                continue
            b = fresh("block")
            s.assume(z3.ULT(b, P.N))
            for h in g.hand:
                s.assume(b != h)
            g.hand = g.hand + (b,)
            g.free = simp(g.free - 1)
            g.debt = simp(wide(g.debt) + 1)
            g.zq = z3.BoolVal(False)
            out.append(("ret", s, Ptr(P.blocks.arena.id, simp(P.blocks.off(b)), P.blocks.arena.base)))
        return out

    def put(self, ex, st, k, r, a):
        P = self.P
        self.locked(ex, st)
        if st.status != "run":
            return [("run", st)]
        g = st.ghost["pool"]
        self.fresh_free(ex, st)
        p = a[1]
        hit = None
        if isinstance(p, Ptr) and p.rid == P.blocks.arena.id:
            for h in g.hand:
                if ex.valid(st, P.blocks.diff(bv(p.off, 64), h) == 0):
                    hit = h
        ex.oblige(st, ("C11", "C10"), "only a block that the caller holds is put on the free list, and once only", hit is not None)
        if hit is None or st.status != "run":
            st.status = "cut"
            return [("run", st)]
        # free + held blocks = N and this caller holds one: the list cannot be full
        g.hand = tuple(h for h in g.hand if h is not hit)
        g.free = simp(g.free + 1)
        g.debt = simp(wide(g.debt) - 1)
        self.P.stats.point(ex, st, "after the free list changed")
        return [("ret", st, None)]


class Stats:
    """the atomic running state; run/low are whatever getRunningStateStatistics makes of the cells"""

    def __init__(self, P):
        self.P = P

    def values(self, st, override=None):
        P = self.P
        sub = []
        for k, sym in P.acells.items():
            if override is not None and k == override[0]:
                v = override[1]
            else:
                r = st.mem[k[0]]
                v = r.cells[k[1]][1]
            sub.append((sym, bv(v, sym.size())))
        f = lambda e: z3.simplify(z3.substitute(e, *sub))
        return f(P.run), f(P.low)

    def inv(self, st, override=None):
        g = st.ghost["pool"]
        run, low = self.values(st, override)
        d = wide(g.debt)
        return z3.And(z3.ULE(low, run), z3.ULE(run, self.P.N - len(g.hand) + d), z3.UGE(run, d))

    def point(self, ex, st, what):
        """other threads may look now"""
        g = st.ghost["pool"]
        d = wide(g.debt)
        ex.oblige(st, "C12", "the running count never falls below the free blocks nor exceeds the size (%s)" % what,
                  z3.ULE(d, len(g.hand)))

    # the interface of Exec.atomic
    def interfere(self, ex, st, cur, kind):
        P = self.P
        if st.ghost.get("exclusive"):
            return cur
        self.point(ex, st, "at an atomic access")
        me = st.ghost["_acell"]
        val = None
        # cells are read and written as a whole: all of them may have changed
        for k, sym in P.acells.items():
            f = fresh("state", sym.size())
            r = st.region(k[0], True)
            ex.write_cells(r.cells, k[1], k[2], f)
            if k == me:
                val = f
        st.assume(self.inv(st))
        return val

    def observed(self, ex, st, cur, order):
        pass

    def commit(self, ex, st, cur, new, kind, order):
        if st.ghost.get("exclusive"):
            return
        g = st.ghost["pool"]
        me = st.ghost["_acell"]
        run0, low0 = self.values(st)
        run1, low1 = self.values(st, (me, new))
        g.debt = simp(wide(g.debt) + run1 - run0)
        self.point(ex, st, "after an update")
        ex.oblige(st, "C12", "each update keeps the low watermark the minimum of all running counts",
                  low1 == z3.If(z3.ULT(run1, low0), run1, low0))
        st.ghost["commits"] = st.ghost.get("commits", 0) + 1 if isinstance(st.ghost.get("commits", 0), int) else 0


class CellSpec:
    """binds Stats to one cell"""

    def __init__(self, stats, key):
        self.s, self.key = stats, key

    def interfere(self, ex, st, cur, kind):
        st.ghost["_acell"] = self.key
        return self.s.interfere(ex, st, cur, kind)

    def observed(self, ex, st, cur, order):
        pass

    def commit(self, ex, st, cur, new, kind, order):
        st.ghost["_acell"] = self.key
        return self.s.commit(ex, st, cur, new, kind, order)


class P:
    pass


def is_arena(st, r):
    return is_sym(r.size)


def construct(ex, st):
    n, e = fresh("requested"), fresh("elementSize")
    inputs(st, requestedNumElements=n, elementSize=e)
    st.assume(z3.And(z3.UGE(e, 1), z3.ULE(e, 1 << 40)))
    st.ghost["exclusive"] = True
    return n, e, ex.run_function(st, "h_pool_new", [n, e])


def call1(ex, st, fn, args):
    """run a query; all resulting states that return"""
    return [reset(x) for x in ex.run_function(st, fn, args) if x.status == "ret"]


def query(ex, st, fn, args):
    """value of a side-effect free query with one outcome"""
    s = st.clone()
    r = [x for x in ex.run_function(s, fn, args) if x.status == "ret"]
    if len(r) != 1:
        raise Unsupported("%s has %d outcomes" % (fn, len(r)))
    return r[0].ret


def stats_of(ex, st, obj, expand=True):
    """(size, run, low, states)"""
    buf = ex.new_region(st, "stats", "heap", 24)
    out = []
    for x in ex.run_function(st, "h_pool_stats", [obj, ex.ptr(buf)]):
        if x.status != "ret":
            out.append((x, None))
            continue
        r = x.region(buf.id, True)
        out.append((x, [bv(ex.read_cells(r, r.cells, 8 * i, 8, False), 64) for i in range(3)]))
    return out


class ArenaWrites:
    def __init__(self, P, props):
        self.P, self.props = P, props

    def __call__(self, ex, st, r, off, n, v, fill):
        P = self.P
        if st.ghost.get("exclusive"):
            return
        g = st.ghost["pool"]
        n64 = bv(n, 64)
        ok = z3.BoolVal(False)
        for h in g.hand:
            d = P.blocks.diff(bv(off, 64), h)
            ok = z3.Or(ok, z3.And(z3.ULE(d, P.psize), z3.ULE(n64, P.psize - d)))
        ex.oblige(st, self.props, "memory is written only inside a block that the caller holds", ok)
        if st.status != "run" or not g.hand:
            return
        h = g.hand[-1]
        rel = P.blocks.poly(P.q) - P.blocks.poly(P.blocks.diff(bv(off, 64), h))
        rel = rel.term()
        if fill:
            isz = (v == 0) if isinstance(v, int) else bv(v, 8) == 0
        elif isinstance(v, int):
            isz = v == 0
        elif isinstance(v, Ptr):
            isz = False
        else:
            isz = bv(v, 8 * n) == 0
        isz = z3.BoolVal(isz) if isinstance(isz, bool) else isz
        g.zq = z3.simplify(z3.If(z3.ULT(rel, n64), isz, g.zq if not isinstance(g.zq, (int, bool)) else z3.BoolVal(bool(g.zq))))


def template(ex, props=()):
    """construct a pool with symbolic parameters; -> list of (state, P) ready for get/ret"""
    saved, unit = ex.props, ex.unit
    ex.props = frozenset(props)
    ring = RingSimple()
    ring.install(ex)
    st = State()
    n, e, outs = construct(ex, st)
    res = []
    for s in outs:
        if s.status != "ret":
            continue
        p = P()
        p.obj = s.ret
        reset(s)
        p.esize = wide(query(ex, s, "h_pool_esize", [p.obj]))
        p.psize = wide(query(ex, s, "h_pool_psize", [p.obj]))
        p.size = wide(query(ex, s, "h_pool_size", [p.obj]))
        rk = [k for k in s.ghost if k.startswith("ring:")]
        if len(rk) != 1:
            raise Unsupported("pool with %d free lists" % len(rk))
        p.ring = s.ghost[rk[0]]
        p.N = p.ring.n
        p.e, p.n = e, n
        p.q = fresh("byte")
        s.assume(z3.ULT(p.q, p.psize))
        res.append((s, p))
    ex.props, ex.unit = saved, unit
    return res, outs, ring, n, e


def atomic_cells(ex, s, p):
    """cells accessed atomically by getRunningStateStatistics; and the statistics as functions of them"""
    seen = {}

    def hook(e, st, r, off, n, write, atomic):
        if atomic and isinstance(off, int):
            seen[(r.id, off)] = (r.id, off, n)
    old = ex.access_hook
    ex.access_hook = hook
    t = s.clone()
    stats_of(ex, t, p.obj)
    ex.access_hook = old
    if not seen:
        raise Unsupported("the running state is not atomic")
    p.acells = {}
    t = s.clone()
    for k in seen.values():
        sym = fresh("cell%d" % k[1], 8 * k[2])
        p.acells[k] = sym
        r = t.region(k[0], True)
        ex.write_cells(r.cells, k[1], k[2], sym)
    rs = stats_of(ex, t, p.obj)
    if len(rs) != 1:
        raise Unsupported("getRunningStateStatistics branches on the state")
    x, v = rs[0]
    p.run, p.low = v[1], v[2]


def prepare(ex, s, p):
    """turn the constructed pool into an arbitrary pool in use"""
    p.blocks = Blocks(ex, s, lambda k: z3.Select(p.ring.seq, k), p.N, p.psize, ("C10",), p.esize)
    if not p.blocks.ok:
        raise Unsupported("blocks outside the arena")
    atomic_cells(ex, s, p)
    p.stats = Stats(p)
    s.ghost["atomics"] = {(k[0], k[1]): CellSpec(p.stats, k) for k in p.acells}
    s.ghost["pool"] = GPool()
    s.ghost["exclusive"] = False
    r = s.region(p.blocks.arena.id, True)
    r.mode = "opaque"
    ex.opaque_write = ArenaWrites(p, ("C10",))
    # other mutable, non-atomic state of the pool: found by running both operations
    p.lockset = None
    p.seen_held = []
    p.mutable = set()
    saved, ex.props = ex.props, frozenset()
    ex.ring_contract.policy = Tokens(p)
    for _ in range(4):
        before = set(p.mutable)
        for op in ("get", "ret"):
            t = s.clone()
            havoc_cells(ex, t, p)
            args = enter(ex, t, p, op)
            c0 = dict(heap_cells(t))
            for x in ex.run_function(t, "h_pool_" + op, args):
                for k, v in heap_cells(x):
                    if k in c0 and (k[0], k[1]) not in s.ghost["atomics"] and c0[k] is not v and not (
                            isinstance(v, int) and c0[k] == v) and not isinstance(v, Ptr):
                        p.mutable.add(k)
        if p.mutable == before:
            break
    else:
        raise Unsupported("mutable pool state does not stabilise")
    ex.props = saved
    locks = frozenset.intersection(*p.seen_held) if p.seen_held else frozenset()
    p.lockset = locks
    ex.access_hook = race_hook(p, s)
    return p


def havoc_cells(ex, st, p):
    for k in p.mutable:
        r = st.region(k[0], True)
        ex.write_cells(r.cells, k[1], k[2], fresh("mutable%d" % k[1], 8 * k[2]))


def race_hook(p, s0):
    shared = {r.id for r in s0.mem.values() if r.kind == "heap" and not is_sym(r.size)}

    def hook(ex, st, r, off, n, write, atomic):
        if r.id in shared and write and not atomic and not st.ghost.get("exclusive"):
            held = frozenset(st.ghost.get("held", ()))
            ex.oblige(st, ALL, "shared pool state is written only atomically or under the pool's lock", bool(held & p.lockset))
        if r.id in shared and not atomic and isinstance(off, int) and not st.ghost.get("exclusive"):
            for k in p.acells:
                if k[0] == r.id and k[1] < off + n and off < k[1] + k[2]:
                    ex.oblige(st, ("C12",), "the running state is only accessed atomically", False)
    return hook


class LockMonitor:
    def __init__(self, p):
        self.p = p

    def on_lock(self, ex, st):
        havoc_cells(ex, st, self.p)

    def on_unlock(self, ex, st):
        pass

    def on_wait(self, ex, st, c, n):
        ex.oblige(st, ("C11",), "a pool never blocks its callers", False)
        st.status = "cut"
        return [("run", st)]


def enter(ex, st, p, op):
    g = st.ghost["pool"] = GPool()
    for k, sym in p.acells.items():
        r = st.region(k[0], True)
        ex.write_cells(r.cells, k[1], k[2], fresh("state", sym.size()))
    if op == "ret":
        b = fresh("block")
        st.assume(z3.ULT(b, p.N))
        g.hand = (b,)
        p.b = b
        st.assume(p.stats.inv(st))
        return [p.obj, Ptr(p.blocks.arena.id, simp(p.blocks.off(b)), p.blocks.arena.base)]
    st.assume(p.stats.inv(st))
    return [p.obj]


def unit_op(op):
    def run(ex):
        ex.crash_prop = ALL
        res, outs, ring, n, e = template(ex)
        ex.ring_contract = ring
        for s, p in res:
            ex.contract_rx = [c for c in ex.contract_rx]
            ring.policy = None
            ex.access_hook = None
            saved, ex.props = ex.props, frozenset()
            prepare(ex, s, p)
            ex.props = saved
            ring.policy = Tokens(p)
            ex.monitors = {k: LockMonitor(p) for k in mutex_keys(s)}
            st = s.clone()
            havoc_cells(ex, st, p)
            args = enter(ex, st, p, op)
            for x in ex.run_function(st, "h_pool_" + op, args):
                g = x.ghost["pool"]
                ex.oblige(x, ("C11",), "the lock is released on every exit", not x.ghost.get("held"))
                p.stats.point(ex, x, "at the end")
                ex.oblige(x, "C12", "outside of requests and returns the running count is the number of free blocks",
                          wide(g.debt) == 0)
                if x.status == "ret":
                    ex.reach(x, op + " returns")
                    if op == "get":
                        ex.oblige(x, "C11", "a request takes exactly one block off the free list", len(g.hand) == 1)
                        if len(g.hand) != 1 or x.status != "ret":
                            continue
                        ok = isinstance(x.ret, Ptr) and x.ret.rid == p.blocks.arena.id
                        ex.oblige(x, ("C11", "C10"), "the block handed out is the one taken off the free list",
                                  p.blocks.diff(bv(x.ret.off, 64), g.hand[0]) == 0 if ok else False)
                        ex.oblige(x, "C10", "every byte of a fresh block is zero", g.zq if not isinstance(g.zq, int) else bool(g.zq))
                    else:
                        ex.oblige(x, "C11", "a returned block is free again", len(g.hand) == 0)
                else:
                    ex.reach(x, op + " throws")
                    if op == "get":
                        ex.oblige(x, "C11", "a request fails only with RingBufferUnderflow (got %s)" % x.exc.ti,
                                  x.exc.ti == RB_UNDERFLOW)
                        ex.oblige(x, "C11", "a request fails only when no block is free", g.empty_seen)
                        ex.oblige(x, "C11", "a failed request keeps no block", len(g.hand) == 0)
                    else:
                        ex.oblige(x, "C11", "giving a block back never throws", False)
        ex.must_reach(ALL, op + " returns")
        if op == "get":
            ex.must_reach("C11", op + " throws")
    return run


def unit_ctor(ex):
    ex.crash_prop = ALL
    props = ex.props if ex.props is not None else ALL
    res, outs, ring, n, e = template(ex, props)
    for s in outs:
        ex.oblige(s, ALL, "construction does not fail", s.status != "exc")
    cn = z3.If(z3.ULT(n, 2), z3.BitVecVal(2, 64), z3.If(z3.UGT(n, 1 << 20), z3.BitVecVal(1 << 20, 64), n))
    for s, p in res:
        ex.reach(s, "constructed")
        ex.oblige(s, ALL, "getSize is the request rounded up to a power of two",
                  z3.And(p.size & (p.size - 1) == 0, z3.UGE(p.size, cn), z3.ULT(z3.LShR(p.size, 1), cn)))
        ex.oblige(s, ("C11", "C12"), "a new pool has getSize() free blocks",
                  z3.And(wide(p.ring.p) - wide(p.ring.g) == p.size, p.size == p.N, wide(p.ring.g) == 0))
        ex.oblige(s, "C10", "the padded element size holds an element",
                  z3.And(z3.UGE(p.psize, p.esize), p.esize == p.e))
        Blocks(ex, s, lambda k: z3.Select(p.ring.seq, k), p.N, p.psize, ("C10", "C11"), p.esize)
        for x, v in stats_of(ex, s.clone(), p.obj):
            ex.oblige(x, "C12", "statistics of a new pool: everything free",
                      z3.And(v[0] == p.size, wide(v[1]) == p.size, wide(v[2]) == p.size) if v else False)
    ex.must_reach(ALL, "constructed")


def unit_stats(ex):
    ex.crash_prop = ALL
    res, outs, ring, n, e = template(ex)
    ex.ring_contract = ring
    for s, p in res:
        saved, ex.props = ex.props, frozenset()
        ring.policy = None
        ex.access_hook = None
        prepare(ex, s, p)
        ex.props = saved
        ring.policy = Tokens(p)
        st = s.clone()
        enter(ex, st, p, "get")
        for x, v in stats_of(ex, st, p.obj):
            if v is None:
                ex.oblige(x, "C12", "reading the statistics never fails", False)
                continue
            ex.reach(x, "statistics read")
            ex.oblige(x, "C12", "a snapshot shows the size", v[0] == p.N)
            ex.oblige(x, "C12", "a snapshot shows low watermark <= running count <= size",
                      z3.And(z3.ULE(v[2], v[1]), z3.ULE(v[1], v[0])))
            ex.oblige(x, "C12", "reading the statistics changes nothing", not x.ghost.get("commits"))
    ex.must_reach("C12", "statistics read")


def unit_dtor(ex):
    ex.crash_prop = ALL
    res, outs, ring, n, e = template(ex)
    for s, p in res:
        s.ghost["exclusive"] = True
        for x in ex.run_function(s, "h_pool_delete", [p.obj]):
            ex.oblige(x, ("C10", "C11"), "destruction does not fail", x.status == "ret")
            ex.reach(x, "destroyed")
            ex.oblige(x, ("C10",), "destruction frees all memory of the pool",
                      all(not r.alive for r in x.mem.values() if r.kind == "heap"))
            ex.oblige(x, ("C11",), "destruction releases the lock object", not x.ghost.get("mutexes"))
    ex.must_reach(("C10", "C11"), "destroyed")


UNITS = [Unit("MemoryPoolBase::MemoryPoolBase", ALL, unit_ctor),
         Unit("MemoryPoolBase::getRawBlock", ALL, unit_op("get")),
         Unit("MemoryPoolBase::returnRawBlock", ALL, unit_op("ret")),
         Unit("MemoryPoolBase::getRunningStateStatistics", ("C12",), unit_stats),
         Unit("MemoryPoolBase::~MemoryPoolBase", ("C10", "C11"), unit_dtor)]
