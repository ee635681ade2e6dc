"""Contracts of RingBufferSimple, MemoryPoolBase, Semaphore and RingBufferGuarded as seen by their callers.

Each contract is what the units of C01/C02, C03-C06, C08/C09 and C10-C12 prove about the implementation."""
import re
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv, fresh_array
from stubs import throw
from units.base import *


def count(ex, what):
    ex.contract_calls[what] = ex.contract_calls.get(what, 0) + 1


def obj_key(p):
    if not isinstance(p, Ptr) or not isinstance(p.off, int):
        raise Unsupported("contract applied to an object without a fixed address")
    return (p.rid, p.off)


class GRing(Ghost):
    fields = ("p", "g", "seq")

    def __init__(self, n):
        self.n = n
        self.p = 0
        self.g = 0
        self.seq = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 64))


def pow2_size(st, n):
    """the size of a ring built for n elements (C02)"""
    N = fresh("N")
    cn = z3.If(z3.ULT(n, 2), z3.BitVecVal(2, 64), z3.If(z3.UGT(n, 1 << 20), z3.BitVecVal(1 << 20, 64), n))
    st.assume(N & (N - 1) == 0)
    st.assume(z3.And(z3.UGE(N, cn), z3.ULT(z3.LShR(N, 1), cn), z3.UGE(N, 2), z3.ULE(N, 1 << 20)))
    return N


RS_RX = re.compile(r"^ReiserRT::Core::RingBufferSimple(?:Base|Imple)?<(.+)>::"
                   r"(~?RingBufferSimple\w*|get|put|getSize|getMask|getNumBits)\(")


WIDTHS = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32,
          "unsigned int": 32, "float": 32}


class RingSimple:
    """sequence contract (C01, C02); with a token policy each element is an owned block"""

    def __init__(self, policy=None):
        self.policy = policy

    def install(self, ex):
        ex.contract_rx.append((RS_RX, self.call))
        ex._stub_cache.clear()

    @staticmethod
    def ring(st, p):
        k = "ring:%d:%d" % obj_key(p)
        return k, st.ghost.get(k)

    def call(self, ex, st, a, fname):
        dem = ex.mod.demangle(fname)
        m = RS_RX.match(dem)
        op = m.group(2)
        count(ex, "RingBufferSimple<%s>::%s" % (m.group(1), op))
        k, r = self.ring(st, a[0])
        if op.startswith("~"):
            return [("ret", st, None)]
        if op.startswith("RingBufferSimple"):
            st.ghost[k] = GRing(pow2_size(st, bv(a[1], 64)))
            return [("ret", st, None)]
        if r is None:
            ex.crash(st, "use of a ring buffer that is not constructed")
            return [("run", st)]
        if op == "getSize":
            return [("ret", st, r.n)]
        if op == "getMask":
            return [("ret", st, simp(r.n - 1))]
        if op == "getNumBits":
            nb = fresh("nb")
            st.assume(z3.And(z3.ULE(nb, 20), z3.BitVecVal(1, 64) << nb == r.n))
            return [("ret", st, nb)]
        if self.policy is not None and not st.ghost.get("exclusive"):
            if hasattr(self.policy, "access"):
                self.policy.access(ex, st, k, op)
                if st.status != "run":
                    return [("run", st)]
                r = st.ghost[k]
            else:
                return getattr(self.policy, op)(ex, st, k, r, a)
        w = WIDTHS.get(m.group(1), 64)
        out = []
        if op == "put":
            for s, tk in ex.branch(st, z3.ULT(wide(r.p) - wide(r.g), r.n)):
                rr = s.ghost[k]
                if tk:
                    v = a[1].addr() if isinstance(a[1], Ptr) else a[1]
                    rr.seq = z3.Store(rr.seq, wide(rr.p), wide(bv(v, w) if w > 1 else boolv(v)))
                    rr.p = simp(wide(rr.p) + 1)
                    out.append(("ret", s, None))
                else:
                    out.append(throw(ex, s, RB_OVERFLOW))
            return out
        for s, tk in ex.branch(st, wide(r.p) != wide(r.g)):
            rr = s.ghost[k]
            if tk:
                v = z3.Select(rr.seq, wide(rr.g))
                v = simp(v if w == 64 else z3.Extract(w - 1, 0, v) if w > 1 else z3.Extract(0, 0, v) == 1)
                rr.g = simp(wide(rr.g) + 1)
                out.append(("ret", s, v))
            else:
                out.append(throw(ex, s, RB_UNDERFLOW))
        return out


class Blocks:
    """the affine family of block addresses that a constructor put into a ring"""

    def __init__(self, ex, st, addr_of, N, P, props, min_size):
        """addr_of(k): address term of block number k"""
        k = fresh("k")
        self.k = k
        self.N = N
        t = bv(simp(addr_of(k)), 64)
        from poly import poly
        self.poly = poly
        tmp = st.clone()
        tmp.assume(z3.ULT(k, N))
        while z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            if ex.valid(tmp, c):
                t = t.arg(1)
            elif ex.valid(tmp, z3.Not(c)):
                t = t.arg(2)
            else:
                break
        pl = poly(t)
        self.ok = False
        cand = [r for r in st.mem.values() if r.kind == "heap" and r.alive and is_sym(r.base) and
                pl.t.get((r.base.get_id(),)) == 1]
        if len(cand) != 1:
            ex.oblige(st, props, "every block lies in memory allocated by the pool", False, str(t)[:500])
            return
        self.arena = cand[0]
        off = pl - poly(self.arena.base)
        sp = off.split(k)
        if sp is None or sp[0].mentions(k):
            raise Unsupported("block addresses are not an affine family: %s" % str(t)[:300])
        S, c0 = sp
        self.S, self.c0 = S, c0
        St, Ct = S.term(), c0.term()
        A = bv(self.arena.size, 64)
        lim = 1 << 42
        ex.oblige(st, props, "blocks are at least a padded element apart (no two blocks overlap)",
                  z3.And(z3.UGE(St, P), z3.ULT(St, lim), z3.ULT(Ct, lim)))
        ex.oblige(st, props, "every block is aligned for pointers",
                  z3.And(z3.URem(Ct, z3.BitVecVal(8, 64)) == 0, z3.URem(St, z3.BitVecVal(8, 64)) == 0))
        last = (poly(A) - (c0 + S * (poly(N) - poly(1)))).term()
        ex.oblige(st, props, "the last block ends within the allocated memory",
                  z3.And(z3.UGE(last, P), z3.ULT(last, 1 << 62)))
        self.ok = True

    def off(self, k):
        p = self.c0 + self.S * self.poly(k)
        return p.term()

    def diff(self, off, k):
        """off - f(k), normalised"""
        return (self.poly(off) - self.c0 - self.S * self.poly(k)).term()


MP_RX = re.compile(r"^ReiserRT::Core::MemoryPoolBase::"
                   r"(~?MemoryPoolBase|getRawBlock|returnRawBlock|getSize|getElementSize|getPaddedElementSize|"
                   r"getRunningStateStatistics)\(")


def live_objects(st, rid):
    return [k for k, v in (st.ghost.get("objs") or {}).items() if k[0] == rid]


class Pool:
    """C10-C12 as seen by ObjectPool and BlockPool: every block is a memory region of its own"""

    def __init__(self, props):
        self.props = props

    def install(self, ex):
        ex.contract_rx.append((MP_RX, self.call))
        ex._stub_cache.clear()

    def call(self, ex, st, a, fname):
        op = MP_RX.match(ex.mod.demangle(fname)).group(1)
        count(ex, "MemoryPoolBase::" + op)
        if not isinstance(a[0], Ptr):
            ex.crash(st, "use of a null pool")
            return [("run", st)]
        k = obj_key(a[0])
        pools = st.ghost.get("pools") or {}
        if op == "MemoryPoolBase":
            e = bv(a[2], 64)
            ex.oblige(st, self.props, "pool elements have a non-zero size", e != 0)
            P = fresh("padded")
            st.assume(z3.And(z3.UGE(P, e), z3.ULT(P - e, 8), P & 7 == 0))
            pools = dict(pools)
            pools[k] = (bv(a[1], 64), e, P, pow2_size(st, bv(a[1], 64)))
            st.ghost["pools"] = pools
            return [("ret", st, None)]
        if op == "~MemoryPoolBase":
            return [("ret", st, None)]
        if k not in pools:
            ex.crash(st, "use of a pool that is not constructed")
            return [("run", st)]
        n, e, P, N = pools[k]
        if op == "getElementSize":
            return [("ret", st, e)]
        if op == "getPaddedElementSize":
            return [("ret", st, P)]
        if op == "getSize":
            return [("ret", st, N)]
        if op == "getRawBlock":
            s = st.clone()
            s.ghost["exhausted"] = 1
            out = [throw(ex, s, RB_UNDERFLOW)]
            r = new_block(ex, st, P, k)
            out.append(("ret", st, ex.ptr(r)))
            return out
        if op == "returnRawBlock":
            give_back(ex, st, a[1], k, self.props)
            return [("ret", st, None)] if st.status == "run" else [("run", st)]
        raise Unsupported(fname)


def new_block(ex, st, size, owner):
    m = ex.sym_mode
    ex.sym_mode = "bytes"
    r = ex.new_region(st, "block", "block", size)
    ex.sym_mode = m
    r.zero = True
    r.meta = {"owner": owner}
    b = dict(st.ghost.get("blocks") or {})
    b[r.id] = owner
    st.ghost["blocks"] = b
    st.ghost["taken"] = st.ghost.get("taken", 0) + 1
    return r


def give_back(ex, st, p, owner, props):
    b = dict(st.ghost.get("blocks") or {})
    ok = isinstance(p, Ptr) and p.rid in b and isinstance(p.off, int) and p.off == 0
    ex.oblige(st, props, "what is given back to a pool is the address of a block taken from it, once only",
              ok and b.get(p.rid) == owner)
    if st.status != "run":
        return
    ex.oblige(st, props, "no object is alive on a block that is given back", not live_objects(st, p.rid))
    if st.status != "run":
        return
    el = st.ghost.get("elems:%d" % p.rid)
    if el is not None and not el.triv:
        j = fresh("j")
        ex.oblige(st, props, "no element is alive on a block that is given back", z3.Select(el.live, j) == 0)
    del b[p.rid]
    st.ghost["blocks"] = b
    st.region(p.rid, True).alive = False


def is_zero(st, rid):
    """every byte of the block is zero, apart from virtual table pointers already stored by base constructors"""
    r = st.region(rid)
    if any(not isinstance(v, Ptr) and not (isinstance(v, int) and v == 0) for _, v in r.cells.values()):
        return False
    if r.zero:
        return True
    q = fresh("byte")
    z = z3.BoolVal(False)
    for off, n, v in (r.meta or {}).get("fills", ()):
        z = z3.If(z3.ULT(q - bv(off, 64), bv(n, 64)), bv(v, 8) == 0, z)
    return z3.Implies(z3.ULT(q, bv(r.size, 64)), z)


SEM_RX = re.compile(r"^ReiserRT::Core::Semaphore::(~?Semaphore|take|give|abort|getAvailableCount)\(")
M32 = (1 << 32) - 1


class GSem(Ghost):
    fields = ("avail", "aborted")

    def __init__(self, avail, mx):
        self.avail, self.max, self.aborted = avail, mx, 0


class SemContract:
    """C03-C06 as seen by a caller.

    policy.acquire(ex, st, k): the internal lock has just been obtained (other threads may have run);
    policy.release(ex, st, k, what): it is about to be released."""

    def __init__(self, policy=None):
        self.policy = policy

    def install(self, ex):
        ex.contract_rx.append((SEM_RX, self.call))
        ex._stub_cache.clear()

    def lock(self, ex, st, k):
        ex.oblige(st, ex.crash_prop, "a semaphore is not used from within its own functor", not st.ghost.get("in_sem"))
        if st.status != "run":
            return
        st.ghost["in_sem"] = k
        if self.policy is not None and not st.ghost.get("exclusive"):
            self.policy.acquire(ex, st, k)

    def unlock(self, ex, st, k, what):
        if st.status == "run" and self.policy is not None and not st.ghost.get("exclusive"):
            self.policy.release(ex, st, k, what)
        st.ghost["in_sem"] = None

    def call(self, ex, st, a, fname):
        dem = ex.mod.demangle(fname)
        op = SEM_RX.match(dem).group(1)
        with_f = "function" in dem
        count(ex, "Semaphore::" + op + ("(functor)" if with_f else ""))
        k = "semc:%d:%d" % obj_key(a[0])
        if op == "Semaphore":
            i, m = bv(a[1], 64), bv(a[2], 64)
            ci = z3.If(z3.UGT(i, M32), z3.BitVecVal(M32, 64), i)
            mm = z3.If(z3.Or(m == 0, z3.UGT(m, M32)), z3.BitVecVal(M32, 64), m)
            st.ghost[k] = GSem(simp(ci), simp(z3.If(z3.UGT(ci, mm), ci, mm)))
            return [("ret", st, None)]
        s = st.ghost.get(k)
        if s is None:
            ex.crash(st, "use of a semaphore that is not constructed")
            return [("run", st)]
        if op == "~Semaphore":
            s.aborted = 1
            return [("ret", st, None)]
        if op == "abort":
            self.lock(ex, st, k)
            if st.status == "run":
                st.ghost[k].aborted = 1
                self.unlock(ex, st, k, "abort")
            return [("ret", st, None)] if st.status == "run" else [("run", st)]
        if op == "getAvailableCount":
            self.lock(ex, st, k)
            if st.status == "run":
                v = st.ghost[k].avail
                self.unlock(ex, st, k, "count")
                return [("ret", st, v)]
            return [("run", st)]
        # take / give
        self.lock(ex, st, k)
        if st.status != "run":
            return [("run", st)]
        out = []
        for x, ab in ex.branch(st, wide(st.ghost[k].aborted) != 0):
            if ab:
                self.unlock(ex, x, k, "aborted")
                out.append(throw(ex, x, SEM_ABORTED) if x.status == "run" else ("run", x))
                continue
            g = x.ghost[k]
            if op == "give":
                y = x.clone()
                y.assume(wide(g.avail) == M32)
                if ex.feasible(y):
                    self.unlock(ex, y, k, "overflow")
                    out.append(throw(ex, y, SEM_OVERFLOW) if y.status == "run" else ("run", y))
            # blocked until a unit (room for one) is there
            x.assume(wide(g.avail) != 0 if op == "take" else z3.ULT(wide(g.avail), bv(g.max, 64)))
            if not ex.feasible(x):
                continue
            if op == "take":
                g.avail = simp(wide(g.avail) - 1)
            if not with_f:
                if op == "give":
                    g.avail = simp(wide(g.avail) + 1)
                self.unlock(ex, x, k, op)
                out.append(("ret", x, None) if x.status == "run" else ("run", x))
                continue

            def done(e, t, v):
                if op == "give":
                    t.ghost[k].avail = simp(wide(t.ghost[k].avail) + 1)
                self.unlock(e, t, k, op)
                return [("ret", t, None)] if t.status == "run" else [("run", t)]

            def failed(e, t, exc):
                if op == "take":
                    t.ghost[k].avail = simp(wide(t.ghost[k].avail) + 1)
                self.unlock(e, t, k, "failed " + op)
                return [("exc", t, exc)] if t.status == "run" else [("run", t)]
            out.extend(ex.call_back(x, "h_fn_void", [a[1]], done, failed, "Semaphore::" + op))
        return out
