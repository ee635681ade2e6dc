"""RingBufferSimple: C01, C02."""
import z3
from llvm import Unsupported
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from units.base import *
from units.sem import heap_cells

HARNESS = ["h_ring.cpp"]
TYPES = {"bool": 1, "u8": 8, "u16": 16, "i32": 32, "u64": 64, "flt": 32, "dbl": 64, "enm": 16, "mem": 64, "vp": 64,
         "ip": 64, "cip": 64, "rec": 64, "pp": 64}
BOTH = ("C01", "C02")


class R:
    pass


def value(w, name="value"):
    return fresh(name, w)


def cell(ex, st, k):
    r = st.region(k[0], True)
    return ex.read_cells(r, r.cells, k[1], k[2], r.zero)


def settle(ex, st):
    """replaces expressions that have one value only by that value"""
    def one(v):
        if not is_sym(v) or z3.is_bool(v) or z3.is_fp(v):
            return v
        c = ex.concretize_off(st, Ptr(0, v))
        return v if c is None else c
    for r in list(st.mem.values()):
        if r.kind == "heap" and r.alive and not (r.meta or {}).get("exc"):
            if is_sym(r.size):
                st.region(r.id, True).size = one(r.size)
            if r.mode == "bytes":
                for off, (n, v) in list(r.cells.items()):
                    if is_sym(v):
                        st.region(r.id, True).cells[off] = (n, one(v))


def constructions(ex, ty, k):
    """buffers made for any number of elements that calls for a size of 2^k"""
    st = State()
    n = fresh("requestedNumElements")
    inputs(st, requestedNumElements=n)
    if k > 1:
        st.assume(z3.UGT(n, 1 << (k - 1)))
    if k < 20:
        st.assume(z3.ULE(n, 1 << k))
    if ex.dep:
        st.assume(z3.And(n != 0, z3.ULE(n, ex.dep)))
    saved, ex.props = ex.props, frozenset()
    unit, ex.unit = ex.unit, "probe"
    out = []
    for s in ex.run_function(st, "h_rs_new_" + ty, [n]):
        if s.status != "ret":
            raise Unsupported("ring construction fails")
        settle(ex, s)
        out.append(s)
    ex.props, ex.unit = saved, unit
    return out


def roles(ex, ty, a):
    """find the put and get counters and the index offset by probing"""
    saved, ex.props = ex.props, frozenset()
    unit, ex.unit = ex.unit, "probe"
    o = R()
    o.obj = a.ret
    reset(a)
    s = a.clone()
    s = [x for x in ex.run_function(s, "h_rs_size_" + ty, [o.obj])][0]
    o.n = s.ret
    if is_sym(o.n):
        o.n = ex.concretize_off(s, Ptr(0, o.n))
    if not isinstance(o.n, int):
        raise Unsupported("ring size is not concrete")

    def changed(s0, s1):
        d0 = dict(heap_cells(s0))
        return [k for k, v in heap_cells(s1) if k in d0 and not (d0[k] is v or (isinstance(v, int) and d0[k] == v))]
    before = {rid: dict(r.cells) for rid, r in a.mem.items() if r.kind == "heap"}
    s = a.clone()
    w = TYPES[ty]
    v = 1
    p = [x for x in ex.run_function(s, "h_rs_put_" + ty, [o.obj, v]) if x.status == "ret"]
    if len(p) != 1:
        raise Unsupported("put on a new ring does not succeed")
    p = p[0]
    ch = changed(a, p)
    if len(ch) != 1:
        raise Unsupported("cannot identify the put counter")
    o.put = ch[0]
    st = [(rid, off) for rid, r in p.mem.items() if r.kind == "heap" and rid in before for off in r.cells
          if off not in before[rid]]
    if len(st) != 1:
        raise Unsupported("cannot identify the element store")
    o.buf, off = st[0]
    o.esz = p.mem[o.buf].cells[off][0]
    reset(p)
    q = p.clone()
    g = [x for x in ex.run_function(q, "h_rs_get_" + ty, [o.obj]) if x.status == "ret"]
    if len(g) != 1:
        raise Unsupported("get of a stored element does not succeed")
    ch = changed(p, g[0])
    if len(ch) != 1:
        raise Unsupported("cannot identify the get counter")
    o.get = ch[0]
    if o.get[2] != o.put[2]:
        raise Unsupported("counters of different widths")
    o.w = 8 * o.get[2]
    p0, g0 = cell(ex, a, o.put), cell(ex, a, o.get)
    if p0 != g0:
        raise Unsupported("counters of a new ring differ")
    o.delta = (off // o.esz - p0) % o.n
    # arbitrary element contents from here on
    r = a.region(o.buf, True)
    r.mode = "array"
    r.cells = {}
    sh = {1: 0, 2: 1, 4: 2, 8: 3}[o.esz]
    r.esz = o.esz
    from sym import fresh_array
    r.arr = fresh_array("content", 64 - sh, 8 * o.esz)
    o.dom = 64 - sh
    ex.props = saved
    ex.unit = unit
    return a, o


def at(o, arr, getc, j):
    """element number j (0-based) in FIFO order"""
    w = o.w
    jj = z3.Extract(w - 1, 0, j) if w < 64 else j
    ix = (bv(getc, w) + z3.BitVecVal(o.delta & ((1 << w) - 1), w) + jj) & z3.BitVecVal(o.n - 1, w)
    ix = z3.ZeroExt(64 - w, ix) if w < 64 else ix
    if o.dom < 64:
        ix = z3.Extract(o.dom - 1, 0, ix)
    return z3.Select(arr, ix)


def sizes(ex):
    return range(1, 21)


def stored(o, w, v):
    return bv(v, 8 * o.esz) if w != 1 else z3.If(boolv(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))


def unit_op(ty, op):
    def run(ex):
        w = TYPES[ty]
        ex.crash_prop = BOTH
        for a, o in (roles(ex, ty, c) for k in sizes(ex) for c in constructions(ex, ty, k)):
            st = a
            g = fresh("getCount", o.w)
            occ = fresh("occupancy", 64)
            p = simp(g + (z3.Extract(o.w - 1, 0, occ) if o.w < 64 else occ))
            st.assume(z3.ULE(occ, o.n))
            if ex.dep and op == "put":
                st.assume(z3.ULT(occ, o.n))   # the library's own users never put into a full buffer
            for kk, v in ((o.get, g), (o.put, p)):
                r = st.region(kk[0], True)
                ex.write_cells(r.cells, kk[1], kk[2], v)
            arr0 = st.mem[o.buf].arr
            v = value(w)
            if w == 1:
                # bool elements always hold 0 or 1
                j0 = fresh("j0", 64)
            inputs(st, size=o.n, getCount=g, occupancy=occ, value=v)
            args = [o.obj, v] if op == "put" else [o.obj]
            j = fresh("j", 64)
            # all bool elements stored so far are 0/1
            if w == 1:
                q = z3.BitVec("q", o.dom)
                st.assume(z3.ForAll([q], z3.ULE(z3.Select(arr0, q), 1)))
            cells0 = dict(heap_cells(st))
            for s in ex.run_function(st, "h_rs_%s_%s" % (op, ty), args):
                g2, p2 = cell(ex, s, o.get), cell(ex, s, o.put)
                occ2 = simp(bv(p2, o.w) - bv(g2, o.w))
                occ2 = wide(occ2)
                arr = s.mem[o.buf].arr
                for kk, c in heap_cells(s):
                    if kk in cells0 and kk not in (o.get, o.put):
                        c0 = cells0[kk]
                        if c0 is not c and isinstance(c0, int) and c0 != c:
                            ex.oblige(s, BOTH, "size, mask and number of bits never change", False)
                if s.status == "ret" and op == "put":
                    ex.reach(s, "put succeeds")
                    ex.oblige(s, "C01", "put succeeds only when the buffer is not full", z3.ULT(occ, o.n))
                    ex.oblige(s, "C01", "put adds exactly one element", occ2 == occ + 1)
                    ex.oblige(s, "C01", "the new element is the last one",
                              at(o, arr, g2, occ) == stored(o, w, v))
                    ex.oblige(s, "C01", "put keeps all other elements and their order",
                              z3.Implies(z3.ULT(j, occ), at(o, arr, g2, j) == at(o, arr0, g, j)))
                elif s.status == "ret":
                    ex.reach(s, "get succeeds")
                    ex.oblige(s, "C01", "get succeeds only when the buffer is not empty", occ != 0)
                    ex.oblige(s, "C01", "get returns the oldest element",
                              stored(o, w, s.ret) == at(o, arr0, g, z3.BitVecVal(0, 64)))
                    ex.oblige(s, "C01", "get removes exactly one element", occ2 == occ - 1)
                    ex.oblige(s, "C01", "get keeps all other elements and their order",
                              z3.Implies(z3.ULT(j, occ - 1), at(o, arr, g2, j) == at(o, arr0, g, j + 1)))
                else:
                    want = RB_OVERFLOW if op == "put" else RB_UNDERFLOW
                    ex.reach(s, op + " throws")
                    ex.oblige(s, "C01", "%s throws only %s" % (op, want), s.exc.ti == want)
                    if op == "put":
                        ex.oblige(s, BOTH, "put fails only when the buffer holds getSize() elements", occ == o.n)
                    else:
                        ex.oblige(s, BOTH, "get fails only when the buffer is empty", occ == 0)
                    ex.oblige(s, "C01", "a throwing %s leaves contents and order unchanged" % op,
                              z3.And(occ2 == occ, z3.Implies(z3.ULT(j, occ), at(o, arr, g2, j) == at(o, arr0, g, j))))
        ex.must_reach(BOTH, op + " succeeds", *([] if ex.dep and op == "put" else [op + " throws"]))
    return run


def unit_ctor(ty):
    def run(ex):
        ex.crash_prop = BOTH
        n = fresh("requested", 64)
        st = State()
        inputs(st, requested=n)
        if ex.dep:
            st.assume(z3.And(n != 0, z3.ULE(n, ex.dep)))
        cn = z3.If(z3.ULT(n, 2), z3.BitVecVal(2, 64), z3.If(z3.UGT(n, 1 << 20), z3.BitVecVal(1 << 20, 64), n))
        for s in ex.run_function(st, "h_rs_new_" + ty, [n]):
            if s.status != "ret":
                ex.oblige(s, BOTH, "construction does not fail", False)
                continue
            ex.reach(s, "constructed")
            obj = s.ret
            vals = {}
            ok = True
            cur = [reset(s)]
            for q in ("size", "mask", "bits"):
                nxt = []
                for c in cur:
                    for x in ex.run_function(c, "h_rs_%s_%s" % (q, ty), [obj]):
                        ex.oblige(x, "C02", "size queries do not throw", x.status == "ret")
                        if x.status == "ret":
                            x.ghost["_" + q] = wide(x.ret)
                            nxt.append(reset(x))
                cur = nxt
            for c in cur:
                sz, mk, nb = (c.ghost["_" + q] for q in ("size", "mask", "bits"))
                ex.oblige(c, "C02", "the size is a power of two", z3.And(sz != 0, sz & (sz - 1) == 0))
                ex.oblige(c, "C02", "the size is at least the clamped request", z3.UGE(sz, cn))
                ex.oblige(c, "C02", "no smaller power of two would do", z3.ULT(z3.LShR(sz, 1), cn))
                ex.oblige(c, "C02", "the mask is the size minus one", mk == sz - 1)
                ex.oblige(c, "C02", "the number of bits is the logarithm of the size",
                          z3.And(z3.ULT(nb, 64), sz == (z3.BitVecVal(1, 64) << nb)))
                # starts empty
                for x in ex.run_function(c.clone(), "h_rs_get_" + ty, [obj]):
                    ex.reach(x, "get on a new buffer")
                    ex.oblige(x, BOTH, "a new buffer is empty", x.status == "exc" and x.exc.ti == RB_UNDERFLOW)
                v = value(TYPES[ty])
                for x in ex.run_function(c.clone(), "h_rs_put_" + ty, [obj, v]):
                    ex.oblige(x, BOTH, "a new buffer accepts an element", x.status == "ret")
                    if x.status == "ret":
                        reset(x)
                        for y in ex.run_function(x, "h_rs_get_" + ty, [obj]):
                            ex.oblige(y, BOTH, "a new buffer returns its first element",
                                      y.status == "ret" and (bv(y.ret, TYPES[ty]) == v if TYPES[ty] > 1 else boolv(y.ret) == v))
        ex.must_reach(BOTH, "constructed", "get on a new buffer")
    return run


def unit_dtor(ty):
    """memory safety of destruction: only the buffer's own storage is freed, once, by the matching delete"""
    def run(ex):
        ex.crash_prop = BOTH
        st = State()
        n = fresh("requestedNumElements")
        inputs(st, requestedNumElements=n)
        if ex.dep:
            st.assume(z3.And(n != 0, z3.ULE(n, ex.dep)))
        saved, ex.props = ex.props, frozenset()
        made = [s for s in ex.run_function(st, "h_rs_new_" + ty, [n]) if s.status == "ret"]
        ex.props = saved
        for s in made:
            obj = s.ret
            reset(s)
            other = ex.new_region(s, "storage of others", "heap", 64)
            for x in ex.run_function(s, "h_rs_delete_" + ty, [obj]):
                ex.oblige(x, BOTH, "destruction does not throw", x.status == "ret")
                if x.status == "ret":
                    ex.reach(x, "destroyed")
                    ex.oblige(x, BOTH, "destruction leaves other storage alone", x.mem[other.id].alive)
        ex.must_reach(BOTH, "destroyed")
    return run


UNITS = [Unit("RingBufferSimple<%s>::RingBufferSimple" % t, BOTH, unit_ctor(t)) for t in TYPES]
UNITS += [Unit("RingBufferSimple<%s>::%s" % (t, op), BOTH, unit_op(t, op)) for t in TYPES for op in ("put", "get")]
UNITS += [Unit("RingBufferSimple<%s>::~RingBufferSimple" % t, BOTH, unit_dtor(t)) for t in TYPES]
