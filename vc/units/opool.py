"""ObjectPool (C13) and BlockPool (C14) over the contract of MemoryPoolBase."""
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from units.base import *
from units import contracts
from poly import divide
from units.contracts import Pool, is_zero, live_objects

HARNESS = ["h_sem.cpp", "h_opool.cpp"]
# most derived kind -> (kinds constructed, number of entries)
KINDS = {"VPlain": {1}, "VBase": {2}, "VDer": {2, 3}, "VMulti": {2, 4}, "VBig": {2, 5}}
SIZES = {"VPlain": 8, "VBase": 16, "VDer": 24, "VMulti": 32, "VBig": 176}


def block_of(ex, st, p, what, props):
    ok = isinstance(p, Ptr) and p.rid in (st.ghost.get("blocks") or {})
    ex.oblige(st, props, what + " lies on a block taken from the pool", ok)
    return ok and st.status == "run"


def placed(ex, st, p, props):
    """an object is being constructed at p"""
    if not block_of(ex, st, p, "a constructed object", props + ("C10",)):
        return False
    if not live_objects(st, p.rid):
        ex.oblige(st, "C10", "every byte of the block is zero before an object is constructed on it", is_zero(st, p.rid))
    return st.status == "run"


def install_events(ex, props, can_throw=True):
    S = ex.stub_exact

    def ctor(e, st, a, n):
        kind = a[1]
        if not placed(e, st, a[0], props):
            return [("run", st)]
        k = (a[0].rid, a[0].off, kind)
        d = dict(st.ghost.get("objs") or {})
        e.oblige(st, props, "an object is constructed once only", k not in d)
        out = []
        if can_throw:
            for ti, size in USER_EXCS:
                s = st.clone()
                s.ghost["threw"] = 1
                out.append(throw_user(e, s, ti, size, "ctor"))
        d[k] = a[2]
        st.ghost["objs"] = d
        st.ghost["built"] = st.ghost.get("built", ()) + ((k, a[2]),)
        out.append(("ret", st, None))
        return out

    def dtor(e, st, a, n):
        if not isinstance(a[0], Ptr):
            e.crash(st, "destruction of an invalid object")
            return [("run", st)]
        k = (a[0].rid, a[0].off, a[1])
        d = dict(st.ghost.get("objs") or {})
        e.oblige(st, props, "an object is destroyed once only, and only if it was constructed", k in d)
        if st.status != "run":
            return [("run", st)]
        r = st.mem.get(a[0].rid)
        e.oblige(st, props, "an object is destroyed before its block is given back", r is not None and r.alive)
        d.pop(k, None)
        st.ghost["objs"] = d
        st.ghost["died"] = st.ghost.get("died", ()) + (k,)
        return [("ret", st, None)]

    def fwd(e, st, a, n):
        if not placed(e, st, a[0], props):
            return [("run", st)]
        st.ghost["fwd"] = tuple(a[1:])
        k = (a[0].rid, a[0].off, 6)
        d = dict(st.ghost.get("objs") or {})
        e.oblige(st, props, "an object is constructed once only", k not in d)
        d[k] = 0
        st.ghost["objs"] = d
        st.ghost["built"] = st.ghost.get("built", ()) + ((k, 0),)
        return [("ret", st, None)]
    S["v_ctor"], S["v_dtor"], S["v_fwd"] = ctor, dtor, fwd
    ex._stub_cache.clear()


PR = ("C13",)
PRM = ("C13", "C10")


def setup(ex, fam, default_size=False):
    ex.crash_prop = PRM
    Pool(PRM).install(ex)
    install_events(ex, PR)
    st = State()
    st.ghost.update({"threw": 0, "exhausted": 0, "built": (), "died": (), "taken": 0, "blocks": {}, "objs": {}, "pools": {}})
    n = fresh("requested")
    out = []
    if default_size:
        inputs(st, requested=n)
        rs = ex.run_function(st, "h_op_newd_" + fam, [n])
    else:
        m = fresh("minSize")
        st.assume(z3.ULE(m, 1 << 40))
        inputs(st, requested=n, minTypeAllocSize=m)
        rs = ex.run_function(st, "h_op_new_" + fam, [n, m])
    for s in rs:
        ex.oblige(s, PR, "pool construction does not fail", s.status == "ret")
        if s.status == "ret":
            s.ghost["the_pool"] = None
            pool = s.ret
            ks = list(s.ghost["pools"])
            out.append((reset(s), pool, ks[-1]))
    return out


def owned(ex, fam, D, sts=None):
    """all states in which a pointer owns an object: (state, pool, poolkey, ptr-object, block rid)"""
    out = []
    for s, pool, pk in (sts if sts is not None else setup(ex, fam)):
        a = fresh("argument", 32)
        before = len(s.ghost["built"])
        for x in ex.run_function(s, "h_op_make_%s_%s" % (fam, D), [pool, a]):
            out.append((x, pool, pk, a, before))
    return out


def unit_make(fam, D, default_size=False):
    def run(ex):
        for s, pool, pk in setup(ex, fam, default_size):
            P = s.ghost["pools"][pk][2]
            for x, _, _, a, _ in owned(ex, fam, D, [(s, pool, pk)]):
                blocks = x.ghost["blocks"]
                if x.status == "ret":
                    ex.reach(x, "createObj returns")
                    p = x.ret
                    reset(x)
                    ex.oblige(x, PRM, "createObj takes one block", len(blocks) == 1 and x.ghost["taken"] == 1)
                    if x.status != "run":
                        continue
                    b = list(blocks)[0]
                    kinds = {k[2] for k in live_objects(x, b)}
                    ex.oblige(x, PR, "the object is constructed exactly once, on the block",
                              kinds == KINDS[D] and len(x.ghost["built"]) == len(KINDS[D]) and not x.ghost["died"])
                    for k, arg in x.ghost["built"]:
                        ex.oblige(x, PR, "constructor arguments are forwarded unchanged",
                                  bv(arg, 64) == z3.SignExt(32, a))
                    for y in ex.run_function(x, "h_op_addr_" + fam, [p]):
                        # the pointer designates the T subobject
                        tk = {"plain": 1, "base": 2}[fam]
                        want = [k for k in live_objects(y, b) if k[2] == tk]
                        ex.oblige(y, PRM, "the pointer designates the new object",
                                  y.status == "ret" and isinstance(y.ret, Ptr) and len(want) == 1 and
                                  (y.ret.rid, y.ret.off) == want[0][:2])
                else:
                    ex.oblige(x, PR, "a createObj that throws leaves no object and takes no block",
                              not blocks and not x.ghost["objs"])
                    if x.exc.ti == OP_SIZE:
                        ex.reach(x, "createObj rejects the type")
                        ex.oblige(x, PR, "ObjectPoolElementSizeError only for a type larger than the padded element size",
                                  z3.ULT(P, SIZES[D]))
                        ex.oblige(x, PR, "an oversized type is rejected before a block is taken",
                                  x.ghost["taken"] == 0 and not x.ghost["exhausted"])
                    elif x.exc.ti == RB_UNDERFLOW:
                        ex.reach(x, "createObj on an exhausted pool")
                        ex.oblige(x, PR, "RingBufferUnderflow only from an exhausted pool", x.ghost["exhausted"] == 1)
                    else:
                        ex.reach(x, "createObj passes a constructor exception on")
                        u = x.ghost.get("_user_exc")
                        ex.oblige(x, PR, "only the constructor's own exception reaches the caller",
                                  x.ghost["threw"] == 1 and u is not None and x.exc.ptr.rid == u.ptr.rid)
                if x.status == "ret" or x.exc is None or x.exc.ti != OP_SIZE:
                    ex.oblige(x, PRM, "a type larger than the padded element size is always rejected", z3.UGE(P, SIZES[D]))
        ex.must_reach(PRM, "createObj returns")
        ex.must_reach(PR, "createObj on an exhausted pool", "createObj passes a constructor exception on")
        if D == "VBig":
            ex.must_reach(PR, "createObj rejects the type")
    return run


def unit_fwd(ex):
    for s, pool, pk in setup(ex, "fwd"):
        rs = [ex.new_region(s, "arg%d" % i, "heap", 4) for i in range(3)]
        ps = [ex.ptr(r) for r in rs]
        for x in ex.run_function(s, "h_op_make_fwd", [pool] + ps):
            if x.status == "ret":
                ex.reach(x, "createObj returns")
                f = x.ghost.get("fwd")
                ex.oblige(x, PR, "arguments are forwarded as the references they were given as",
                          f is not None and f[3] == 1 and all((q.rid, q.off) == (r.rid, r.off) for q, r in zip(f[:3], ps)))
    ex.must_reach(PR, "createObj returns")


def two(ex, fam, D, D2):
    """states with pointers p (D on pool 1) and q (D2 on pool 2), each owning; or empty"""
    for s, pool, pk in setup(ex, fam):
        n, m = fresh("requested2"), fresh("minSize2")
        s.assume(z3.ULE(m, 1 << 40))
        for t in ex.run_function(s, "h_op_new_" + fam, [n, m]):
            if t.status != "ret":
                continue
            pool2 = t.ret
            pk2 = [k for k in t.ghost["pools"] if k != pk][0]
            reset(t)
            for x, _, _, a, _ in owned(ex, fam, D, [(t, pool, pk)]):
                if x.status != "ret":
                    continue
                p = x.ret
                b1 = list(x.ghost["blocks"])[0]
                reset(x)
                for y, _, _, a2, _ in owned(ex, fam, D2, [(x, pool2, pk2)]):
                    if y.status != "ret":
                        continue
                    q = y.ret
                    b2 = [k for k in y.ghost["blocks"] if k != b1][0]
                    reset(y)
                    yield y, (p, b1, pk), (q, b2, pk2)


def gone(ex, x, b, D, what):
    ex.oblige(x, PR, what + ": the object is destroyed exactly once",
              not live_objects(x, b) and sorted(k[2] for k in x.ghost["died"] if k[0] == b) == sorted(KINDS[D]))
    ex.oblige(x, PR, what + ": its block is given back to its pool", b not in x.ghost["blocks"])


def kept(ex, x, b, D, what):
    ex.oblige(x, PR, what + ": the other object is untouched",
              b in x.ghost["blocks"] and {k[2] for k in live_objects(x, b)} == KINDS[D] and
              not [k for k in x.ghost["died"] if k[0] == b])


def unit_ptr(fam, D, D2):
    def run(ex):
        def go(s, fn, args):
            out = []
            for x in ex.run_function(s, "h_op_%s_%s" % (fn, fam), args):
                ex.oblige(x, PR, "operations of the owning pointer do not throw", x.status == "ret")
                if x.status == "ret":
                    ex.reach(x, fn)
                    v = x.ret
                    out.append((reset(x), v))
            return out
        for s, (p, b1, k1), (q, b2, k2) in two(ex, fam, D, D2):
            for fn in ("destroy", "reset", "null"):
                for x, _ in go(s.clone(), fn, [p]):
                    gone(ex, x, b1, D, fn)
                    kept(ex, x, b2, D2, fn)
                    if fn != "destroy":
                        for y, _ in go(x, "destroy", [p]):
                            gone(ex, y, b1, D, fn + ", destroy")
            for x, r in go(s.clone(), "move", [p]):
                kept(ex, x, b1, D, "move")
                for y, _ in go(x, "destroy", [p]):
                    kept(ex, y, b1, D, "destroying a moved-from pointer")
                    for z, _ in go(y, "destroy", [r]):
                        gone(ex, z, b1, D, "destroying a move-constructed pointer")
                        kept(ex, z, b2, D2, "destroying a move-constructed pointer")
            for x, _ in go(s.clone(), "assign", [p, q]):
                gone(ex, x, b1, D, "move assignment")
                kept(ex, x, b2, D2, "move assignment")
                for y, _ in go(x, "destroy", [q]):
                    kept(ex, y, b2, D2, "destroying an assigned-from pointer")
                    for z, _ in go(y, "destroy", [p]):
                        gone(ex, z, b2, D2, "destroying a move-assigned pointer")
            # empty targets and sources
            for x, e in go(s.clone(), "ptr", []):
                for y, _ in go(x.clone(), "assign", [e, p]):
                    kept(ex, y, b1, D, "assignment to an empty pointer")
                    for z, _ in go(y, "destroy", [e]):
                        gone(ex, z, b1, D, "destroying the assigned pointer")
                for y, _ in go(x.clone(), "assign", [p, e]):
                    gone(ex, y, b1, D, "assignment from an empty pointer")
                    for z, _ in go(y, "destroy", [p]):
                        gone(ex, z, b1, D, "assignment from an empty pointer, destroy")
                for y, _ in go(x.clone(), "reset", [e]):
                    kept(ex, y, b1, D, "reset of an empty pointer")
                for y, _ in go(x.clone(), "destroy", [e]):
                    kept(ex, y, b1, D, "destroying an empty pointer")
        ex.must_reach(PR, "destroy", "reset", "move", "assign")
    return run


# ------------------------------------------------------------------------------------------------ BlockPool
BT = {"u8": (1, None), "i32": (4, None), "dbl": (8, None), "ptr": (8, None), "triv": (8, None), "enm": (2, None), "mptr": (8, None),
      "nt": (8, 1), "thr": (16, 2), "thr4": (4, 3), "ntd": (8, 4),
      "emp": (1, 5), "s24": (24, 6), "ttd": (2, 7), "ntemp": (1, 8)}
TRIVD = (4, 7)      # element kinds with a trivial destructor
THROWS = ("thr", "thr4", "emp", "s24", "ttd")
PB = ("C14",)
PBM = ("C14", "C10")


class GElems(Ghost):
    fields = ("live", "made", "dead")

    def __init__(self, triv):
        self.triv = triv     # trivially destructible: nothing to destroy
        z = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
        self.live = z        # by element index
        self.made = z
        self.dead = z


def index_of(o, size):
    """(element index, condition that o is a multiple of size): o == index * size modulo 2^64 whenever the condition holds"""
    if size == 1:
        return o, True
    q = divide(o, size)
    if q is not None:
        return q, True
    return z3.UDiv(o, z3.BitVecVal(size, 64)), z3.URem(o, z3.BitVecVal(size, 64)) == 0


def setup_b(ex, ty):
    ex.crash_prop = PBM
    Pool(PBM).install(ex)
    size, kind = BT[ty]
    S = ex.stub_exact

    def elems(e, st, p):
        if not block_of(e, st, p, "an element", PBM):
            return None
        return st.ghost["elems:%d" % p.rid]

    def ector(throws):
        def h(e, st, a, n):
            g = elems(e, st, a[0])
            if g is None:
                return [("run", st)]
            o, mult = index_of(bv(a[0].off, 64), size)
            e.oblige(st, "C10", "every byte of the block is zero before an element is constructed on it", is_zero(st, a[0].rid))
            e.oblige(st, PBM, "elements lie within the block", z3.And(
                z3.ULT(o, st.ghost["elements"]), mult))
            e.oblige(st, PB, "each element is constructed once only", z3.Select(g.made, o) == 0)
            out = []
            if throws:
                for ti, sz in USER_EXCS:
                    s = st.clone()
                    s.ghost["threw"] = 1
                    out.append(throw_user(e, s, ti, sz, "ctor"))
            g = st.ghost["elems:%d" % a[0].rid]
            g.live = z3.Store(g.live, o, z3.BitVecVal(1, 8))
            g.made = z3.Store(g.made, o, z3.BitVecVal(1, 8))
            out.append(("ret", st, None))
            return out
        return h

    def edtor(e, st, a, n):
        g = elems(e, st, a[0])
        if g is None:
            return [("run", st)]
        o, mult = index_of(bv(a[0].off, 64), size)
        e.oblige(st, PB, "only constructed elements are destroyed, each once only", z3.And(mult, z3.Select(g.live, o) == 1))
        if st.status != "run":
            return [("run", st)]
        g.live = z3.Store(g.live, o, z3.BitVecVal(0, 8))
        return [("ret", st, None)]
    S["v_ector"], S["v_ector_n"], S["v_edtor"] = ector(True), ector(False), edtor
    ex._stub_cache.clear()

    st = State()
    n, m = fresh("requested"), fresh("elementsPerBlock")
    st.assume(z3.And(z3.UGE(m, 1), z3.ULE(m, 1 << 32)))
    st.ghost.update({"threw": 0, "exhausted": 0, "taken": 0, "blocks": {}, "objs": {}, "pools": {},
                     "elements": m})
    inputs(st, requestedNumberOfBlocks=n, elementsPerBlock=m)
    out = []
    for s in ex.run_function(st, "h_bp_new_" + ty, [n, m]):
        ex.oblige(s, PB, "pool construction does not fail", s.status == "ret")
        if s.status == "ret":
            k = list(s.ghost["pools"])[-1]
            ex.oblige(s, PBM, "blocks are made for exactly the configured number of elements",
                      z3.UGE(s.ghost["pools"][k][1], m * size))
            pool = s.ret
            out.append((reset(s), pool, k, m))
    return out


def elems_at(ex, st, b, m, size, alive, what):
    """obligation: exactly the elements 0..m-1 are alive (or none)"""
    g = st.ghost["elems:%d" % b]
    j = fresh("j")
    inb = z3.ULT(j, m)
    if alive:
        ex.oblige(st, PB, what + ": every element was constructed exactly once",
                  z3.Select(g.live, j) == z3.If(inb, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
    else:
        ex.oblige(st, PB, what + ": every constructed element was destroyed", z3.Select(g.live, j) == 0)


def untouched(ex, st, b, what):
    r = st.region(b)
    ex.oblige(st, PB, what + ": elements of a type without constructor are zero",
              all(isinstance(v, int) and v == 0 for _, v in r.cells.values()))


def hook_blocks(ex, kind):
    """every new block gets its element ghost state"""
    orig = contracts.new_block

    def nb(e, st, size, owner):
        r = orig(e, st, size, owner)
        st.ghost["elems:%d" % r.id] = GElems(kind in TRIVD)
        return r
    contracts.new_block = nb


def get_block(ex, ty, s, pool):
    return ex.run_function(s, "h_bp_get_" + ty, [pool])


def unit_get(ty):
    def run(ex):
        size, kind = BT[ty]
        hook_blocks(ex, kind)
        for s, pool, pk, m in setup_b(ex, ty):
            for x in get_block(ex, ty, s, pool):
                blocks = x.ghost["blocks"]
                if x.status == "ret":
                    ex.reach(x, "getBlock returns")
                    p = x.ret
                    reset(x)
                    ex.oblige(x, PB, "getBlock takes one block", len(blocks) == 1 and x.ghost["taken"] == 1)
                    if x.status != "run":
                        continue
                    b = list(blocks)[0]
                    if kind is None:
                        untouched(ex, x, b, "getBlock")
                    else:
                        elems_at(ex, x, b, m, size, True, "getBlock")
                    for y in ex.run_function(x.clone(), "h_bp_addr_" + ty, [p]):
                        ex.oblige(y, PBM, "the pointer designates the block",
                                  y.status == "ret" and isinstance(y.ret, Ptr) and (y.ret.rid, y.ret.off) == (b, 0))
                    for y in ex.run_function(x, "h_bp_count_" + ty, [p]):
                        ex.oblige(y, PB, "the deleter reports the configured number of elements",
                                  y.status == "ret" and bv(y.ret, 64) == m)
                else:
                    ex.oblige(x, PB, "a getBlock that throws keeps no block", not blocks)
                    for g in [k for k in x.ghost if k.startswith("elems:") and kind not in TRIVD]:
                        elems_at(ex, x, int(g[6:]), m, size, False, "failed getBlock")
                    if x.exc.ti == RB_UNDERFLOW:
                        ex.reach(x, "getBlock on an exhausted pool")
                        ex.oblige(x, PB, "RingBufferUnderflow only from an exhausted pool", x.ghost["exhausted"] == 1)
                    else:
                        ex.reach(x, "getBlock passes a constructor exception on")
                        u = x.ghost.get("_user_exc")
                        ex.oblige(x, PB, "only the constructor's own exception reaches the caller",
                                  x.ghost["threw"] == 1 and u is not None and x.exc.ptr.rid == u.ptr.rid)
        ex.must_reach(PBM, "getBlock returns")
        ex.must_reach(PB, "getBlock on an exhausted pool")
        if ty in THROWS:
            ex.must_reach(PB, "getBlock passes a constructor exception on")
    return run


def unit_bptr(ty):
    def run(ex):
        size, kind = BT[ty]
        hook_blocks(ex, kind)

        def go(s, fn, args):
            out = []
            for x in ex.run_function(s, "h_bp_%s_%s" % (fn, ty), args):
                ex.oblige(x, PB, "operations of the owning pointer do not throw", x.status == "ret")
                if x.status == "ret":
                    ex.reach(x, fn)
                    v = x.ret
                    out.append((reset(x), v))
            return out

        def gone(x, b, m, what):
            ex.oblige(x, PB, what + ": the block is given back exactly once", b not in x.ghost["blocks"])
            if kind is not None and kind not in TRIVD:
                elems_at(ex, x, b, m, size, False, what)

        def kept(x, b, m, what):
            ex.oblige(x, PB, what + ": the other block is untouched", b in x.ghost["blocks"])
            if kind is not None and x.status == "run":
                elems_at(ex, x, b, m, size, True, what)
        for s, pool, pk, m in setup_b(ex, ty):
            for x in get_block(ex, ty, s, pool):
                if x.status != "ret":
                    continue
                p = x.ret
                b1 = list(x.ghost["blocks"])[0]
                reset(x)
                for y in get_block(ex, ty, x, pool):
                    if y.status != "ret":
                        continue
                    q = y.ret
                    b2 = [k for k in y.ghost["blocks"] if k != b1][0]
                    reset(y)
                    for fn in ("destroy", "reset"):
                        for z, _ in go(y.clone(), fn, [p]):
                            gone(z, b1, m, fn)
                            kept(z, b2, m, fn)
                            if fn == "reset":
                                for w, _ in go(z, "destroy", [p]):
                                    gone(w, b1, m, "reset, destroy")
                    for z, r in go(y.clone(), "move", [p]):
                        kept(z, b1, m, "move")
                        for w, _ in go(z, "destroy", [p]):
                            kept(w, b1, m, "destroying a moved-from pointer")
                            for v, _ in go(w, "destroy", [r]):
                                gone(v, b1, m, "destroying a move-constructed pointer")
                    for z, _ in go(y.clone(), "assign", [p, q]):
                        gone(z, b1, m, "move assignment")
                        kept(z, b2, m, "move assignment")
                        for w, _ in go(z, "destroy", [q]):
                            kept(w, b2, m, "destroying an assigned-from pointer")
                            for v, _ in go(w, "destroy", [p]):
                                gone(v, b2, m, "destroying a move-assigned pointer")
        ex.must_reach(PB, "destroy", "reset", "move", "assign")
    return run


UNITS = [Unit("ObjectPool<%s>::createObj<%s>%s" % (f, D, " (default size)" if d else ""), PRM, unit_make(f, D, d))
         for f, D, d in (("plain", "VPlain", False), ("plain", "VPlain", True), ("base", "VBase", False),
                         ("base", "VDer", False), ("base", "VMulti", False), ("base", "VBig", False), ("base", "VBase", True))]
UNITS += [Unit("ObjectPool<VFwd>::createObj forwarding", PR, unit_fwd)]
UNITS += [Unit("ObjectPool pointers %s %s" % (D, D2), PR, unit_ptr(f, D, D2))
          for f, D, D2 in (("plain", "VPlain", "VPlain"), ("base", "VBase", "VDer"), ("base", "VDer", "VMulti"),
                           ("base", "VMulti", "VBase"))]
UNITS += [Unit("BlockPool<%s>::getBlock" % t, PBM, unit_get(t)) for t in BT]
UNITS += [Unit("BlockPool<%s> pointers" % t, PB, unit_bptr(t)) for t in BT]
