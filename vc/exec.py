"""Path-wise symbolic executor over LLVM IR with contracts, monitors, atomics and an induction rule for loops."""
import re
import sys
import time
import z3
from llvm import Unsupported, Const, Reg
from poly import cancel_odd, divide
from sym import (fresh, fresh_array, is_sym, simp, bv, boolv, Region, Ptr, Exc, Frame, Native, State, M64)
import loops

sys.setrecursionlimit(20000)

STD_BASES = {
    "_ZTISt9exception": None, "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt12system_error": "_ZTISt13runtime_error", "_ZTISt17bad_function_call": "_ZTISt9exception",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt14overflow_error": "_ZTISt13runtime_error", "_ZTISt15underflow_error": "_ZTISt13runtime_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt8bad_cast": "_ZTISt9exception",
}


class Solver:
    """Incremental z3 over a stack of path constraints; hard queries are retried in a fresh solver."""

    def __init__(self, timeout_ms=4000, hard_ms=60000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stack = []
        self.hard_ms = hard_ms
        self.n = 0
        self.time = 0.0
        self.hard = 0
        self.cache = {}

    def _sync(self, pc):
        k = 0
        n = min(len(pc), len(self.stack))
        while k < n and pc[k] is self.stack[k]:
            k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)

    def check(self, pc, *extra):
        """-> z3.sat / z3.unsat / z3.unknown"""
        t = time.time()
        self.n += 1
        self._sync(pc)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        self._model = self.s.model() if r == z3.sat else None
        self.s.pop()
        if r == z3.unknown:
            self.hard += 1
            r = self._hard(pc, extra)
        self.time += time.time() - t
        return r

    def _hard(self, pc, extra):
        for mk in (lambda: z3.Solver(), lambda: z3.Then("simplify", "solve-eqs", "bit-blast", "sat").solver(),
                   lambda: z3.SolverFor("QF_AUFBV")):
            try:
                s = mk()
                s.set("timeout", self.hard_ms)
                s.add(*pc)
                s.add(*extra)
                r = s.check()
                if r != z3.unknown:
                    self._model = s.model() if r == z3.sat else None
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def model(self):
        return self._model


class Obligation:
    __slots__ = ("prop", "unit", "name", "count", "failed", "model", "trace", "loc", "goal")

    def __init__(self, prop, unit, name):
        self.prop, self.unit, self.name = prop, unit, name
        self.count = 0
        self.failed = False
        self.model = None
        self.trace = None
        self.loc = None
        self.goal = None


class Exec:
    def __init__(self, mod, lay, props=None, smt_log=None):
        self.mod, self.lay = mod, lay
        self.solver = Solver()
        self.stub_exact = {}
        self.stub_rx = []
        self.contract_rx = []
        self._stub_cache = {}
        self.unit = "?"
        self.obls = {}
        self.unknowns = []
        self.recording = 0
        self.monitors = {}        # mutex region id -> monitor
        self.atomic_specs = {}    # (rid, off) -> spec
        self.access_hook = None   # fn(ex, st, region, off, size, write, atomic)
        self.sym_mode = "array"
        self.props = props        # properties whose obligations are to be decided (None = all)
        self.reached = {}
        self.fn_seen = set()
        self.contract_calls = {}
        self.loop_candidates = None
        self.on_event = {}
        self.gl = {}
        self.max_steps = 400000
        self.deadline = None
        self.smt_log = smt_log
        self.dep = None       # largest size of interest when a unit is re-proved as the contract of another property
        self.unroll_limit = 80
        self.crash_prop = None
        self.terminate_prop = None
        self.paths = 0
        self.loops_proved = {}
        self._ti_cache = {}

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, prop, name, goal, detail=None):
        """Requires pc |= goal.  Afterwards the path continues under goal."""
        if self.recording:
            st.assume(goal if not isinstance(goal, (bool, int)) else bool(goal))
            return True
        props = prop if isinstance(prop, (tuple, list, set)) else (prop,)
        if self.props is not None and not (set(props) & self.props):
            # another property's obligation: neither checked nor relied upon here
            return True
        key = (self.unit, name)
        ob = self.obls.get(key)
        if ob is None:
            ob = self.obls[key] = Obligation(tuple(props), self.unit, name)
        ob.count += 1
        ok = True
        if isinstance(goal, (bool, int)):
            if not goal:
                # a path that is feasible and reaches a false goal
                r = self.solver.check(st.pc)
                if self.smt_log is not None:
                    self.smt_log(self, st.pc, None, self.unit, name, r)
                if r == z3.unsat:
                    st.status = "cut"
                    return True
                ok = False
                if r == z3.unknown:
                    self.unknowns.append((self.unit, name))
        else:
            g = z3.simplify(goal)
            if not z3.is_true(g):
                r = self.solver.check(st.pc, z3.Not(g))
                if self.smt_log is not None:
                    self.smt_log(self, st.pc, z3.Not(g), self.unit, name, r)
                if r == z3.unknown:
                    self.unknowns.append((self.unit, name))
                    ok = True
                elif r == z3.sat:
                    ok = False
                    ob.goal = str(g)[:2000]
        if not ok:
            if not ob.failed:
                ob.failed = True
                ob.model = self.read_inputs(st)
                ob.trace = list(st.trace)[-60:]
                ob.loc = self.where(st)
                if detail:
                    ob.goal = (ob.goal or "") + " | " + str(detail)
        st.assume(goal if not isinstance(goal, (bool, int)) else bool(goal))
        if not ok:
            if self.solver.check(st.pc) == z3.unsat:
                st.status = "cut"
        return ok

    def read_inputs(self, st):
        m = self.solver.model()
        out = {}
        if m is None:
            return out
        for k, v in st.ghost.get("inputs", {}).items():
            try:
                if is_sym(v):
                    e = m.eval(v, model_completion=True)
                    out[k] = e.as_long() if z3.is_bv_value(e) else str(e)
                else:
                    out[k] = v if isinstance(v, int) else str(v)
            except Exception:
                pass
        return out

    def where(self, st):
        for f in reversed(st.frames):
            if not f.native:
                b = f.fn.blocks[f.block]
                ins = b.instrs[min(f.idx, len(b.instrs) - 1)]
                if ins.loc and not ins.loc[0].startswith("/usr"):
                    return "%s:%d in %s" % (ins.loc[0], ins.loc[1], f.fn.demangled)
        return "?"

    def reach(self, st, name):
        """Vacuity guard: remember that the named point is reachable (checked feasible once)."""
        if self.recording or self.reached.get((self.unit, name)):
            return
        self.reached[(self.unit, name)] = self.solver.check(st.pc) == z3.sat

    def must_reach(self, props, *names):
        """non-vacuity: the named outcomes are possible"""
        props = props if isinstance(props, (tuple, list, set)) else (props,)
        if self.props is not None and not (set(props) & self.props):
            return
        for name in names:
            ob = Obligation(tuple(props), self.unit, "outcome is possible: " + name)
            ob.count = 1
            ob.failed = not self.reached.get((self.unit, name))
            self.obls[(self.unit, ob.name)] = ob

    def feasible(self, st, *extra):
        return self.solver.check(st.pc, *extra) != z3.unsat

    def valid(self, st, goal):
        if isinstance(goal, (bool, int)):
            return bool(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return not self.feasible(st)
        return self.solver.check(st.pc, z3.Not(g)) == z3.unsat

    # ------------------------------------------------------------------ memory
    def new_region(self, st, name, kind, size, align=16):
        r = Region(name, kind, size)
        if isinstance(size, int):
            r.base = (r.id + 1) << 32
        else:
            b = fresh("base_" + name)
            r.base = b
            st.pc.append(z3.And(z3.Extract(3, 0, b) == 0, z3.UGT(b, 4096), z3.ULT(b, 1 << 46), z3.ULT(size, 1 << 46)))
            r.mode = self.sym_mode
            if r.mode == "views":
                r.views = {}
        st.mem[r.id] = r
        st.owned.add(r.id)
        return r

    def ptr(self, r, off=0):
        return Ptr(r.id, off, r.base)

    def global_ptr(self, st, name):
        rid = self.gl.get(name)
        if rid is not None and rid in st.mem:
            r = st.mem[rid]
            return Ptr(r.id, 0, r.base)
        if name in self.mod.functions:
            r = Region("@" + name, "func", 1)
            r.base = (r.id + 1) << 32
        else:
            g = self.mod.globals[name]
            r = Region("@" + name, "global", max(g.size, 1))
            r.base = (r.id + 1) << 32
            r.const = g.const
            if not g.decl:
                r.lazy = g
                r.zero = True
        if rid is not None:
            r.id = rid
            r.base = (rid + 1) << 32
        self.gl[name] = r.id
        st.mem[r.id] = r
        if r.lazy is not None:
            g = r.lazy
            r.lazy = None
            self._init_region(st, r, 0, g.init)
        return Ptr(r.id, 0, r.base)

    def region_name(self, st, p):
        r = st.mem.get(p.rid)
        return r.name if r else "?"

    def _init_region(self, st, r, off, c):
        t = c.ty
        if c.kind == "str":
            for k, byte in enumerate(c.v):
                r.cells[off + k] = (1, byte)
        elif c.kind == "agg":
            for k, e in enumerate(c.ops):
                o = off + (k * t.elem.size if t.k == "array" else t.offs[k])
                self._init_region(st, r, o, e)
        elif c.kind in ("zero", "undef"):
            pass
        else:
            v = self.const_val(st, c)
            r.cells[off] = (t.store, v)

    def _lookup(self, st, p, what):
        """-> region or None (wild pointer; the path is ended with a crash obligation)"""
        if isinstance(p, Ptr):
            r = st.mem.get(p.rid)
            if r is None or not r.alive:
                self.crash(st, "access to freed or dead memory (%s)" % what)
                return None
            return r
        if isinstance(p, int):
            self.crash(st, "access through null or invalid pointer (%s)" % what)
            return None
        if is_sym(p):
            res = st.ghost.get("ptr_resolver")
            if res is not None:
                q = res(self, st, p)
                if q is not None:
                    return q
        raise Unsupported("access through a pointer without provenance: %s at %s" % (str(p)[:200], self.where(st)))

    def crash(self, st, msg, prop=None):
        self.oblige(st, prop or self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "no-crash: " + msg, False)
        st.status = "cut"

    def _norm(self, st, p):
        """make offsets concrete where the path forces it"""
        if is_sym(p.off):
            o = simp(p.off)
            if isinstance(o, int):
                return Ptr(p.rid, o, p.base)
        return p

    def bounds(self, st, r, off, n, what):
        if isinstance(off, int) and isinstance(r.size, int):
            if off + n > r.size:
                self.crash(st, "%s out of bounds of %s" % (what, r.name))
                return False
        elif is_sym(r.size):
            self.oblige(st, self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "%s within %s" % (what, r.name),
                        z3.And(z3.ULE(bv(off, 64), r.size), z3.ULE(n, r.size - bv(off, 64))))
            return st.status == "run"
        return True

    def read_cells(self, r, cells, off, n, zero):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        parts = []
        pos = off
        end = off + n
        while pos < end:
            hit = None
            for s in range(pos, pos - 17, -1):
                c = cells.get(s)
                if c is not None:
                    if s + c[0] > pos:
                        hit = (s, c)
                    break
            if hit is None:
                nxt = end
                for s in range(pos + 1, end):
                    if s in cells:
                        nxt = s
                        break
                k = nxt - pos
                v = 0 if zero else fresh("mem_%s_%s" % (r.name, pos), 8 * k)
                cells[pos] = (k, v)
                parts.append((v, k))
                pos = nxt
            else:
                s, (sz, v) = hit
                a, b = pos - s, min(end, s + sz) - s
                if a == 0 and b == sz:
                    parts.append((v, sz))
                else:
                    parts.append((self.extract(v, sz, a, b), b - a))
                pos = s + b
        if len(parts) == 1:
            return parts[0][0]
        if all(isinstance(v, int) for v, _ in parts):
            x, sh = 0, 0
            for v, k in parts:
                x |= v << sh
                sh += 8 * k
            return x
        return simp(z3.Concat(*[bv(v, 8 * k) for v, k in reversed(parts)]))

    @staticmethod
    def extract(v, sz, a, b):
        if isinstance(v, Ptr):
            v = v.addr()
        if isinstance(v, int):
            return (v >> (8 * a)) & ((1 << (8 * (b - a))) - 1)
        return simp(z3.Extract(8 * b - 1, 8 * a, bv(v, 8 * sz)))

    def write_cells(self, cells, off, n, v):
        for s in range(off - 16, off + n):
            c = cells.get(s)
            if c is None or s + c[0] <= off:
                continue
            if s == off and c[0] == n:
                break
            del cells[s]
            sz, ov = c
            if s < off:
                cells[s] = (off - s, self.extract(ov, sz, 0, off - s))
            if s + sz > off + n:
                cells[off + n] = (s + sz - off - n, self.extract(ov, sz, off + n - s, sz))
        cells[off] = (n, v)

    def split_off(self, off):
        """symbolic byte offset -> (symbolic part or None, constant part)"""
        if isinstance(off, int):
            return None, off
        o = z3.simplify(off, som=True)
        if z3.is_bv_value(o):
            return None, o.as_long()
        if z3.is_app_of(o, z3.Z3_OP_BADD):
            cst, rest = 0, []
            for c in o.children():
                if z3.is_bv_value(c):
                    cst += c.as_long()
                else:
                    rest.append(c)
            base = rest[0]
            for c in rest[1:]:
                base = base + c
            cst &= M64
            if cst >= 1 << 63:
                cst -= 1 << 64
            return base, cst
        return o, 0

    def view(self, st, r, off, write):
        sym, c = self.split_off(off)
        key = sym.sexpr() if sym is not None else ""
        v = r.views.get(key)
        if v is None:
            # a different symbolic offset may denote the same bytes; it must be provably another block
            for k2, (s2, cells2) in list(r.views.items()):
                chk = self.view_equal(st, r, sym, s2)
                if chk == "same":
                    return r.views[k2][1], c, k2
                if chk == "unknown":
                    raise Unsupported("possibly aliasing symbolic offsets into %s" % r.name)
            v = r.views[key] = (sym, {})
        return v[1], c, key

    def view_equal(self, st, r, a, b):
        a = bv(a if a is not None else 0, 64)
        b = bv(b if b is not None else 0, 64)
        h = st.ghost.get("view_oracle")
        if h is not None:
            x = h(self, st, r, a, b)
            if x is not None:
                return x
        if self.valid(st, a == b):
            return "same"
        return "unknown"

    def load(self, st, p, n, ty=None, atomic=False):
        r = self._lookup(st, p, "load")
        if r is None:
            return 0
        if isinstance(r, tuple):
            r, p = r
        p = self._norm(st, p)
        if self.access_hook is not None:
            self.access_hook(self, st, r, p.off, n, False, atomic)
        if r.kind == "func":
            raise Unsupported("load from a function")
        if r.mode == "opaque":
            return fresh("content", 8 * n)
        if r.mode == "views":
            r = st.region(r.id, True)
            cells, c, _ = self.view(st, r, p.off, False)
            return self.read_cells(r, cells, c, n, False)
        if r.mode == "array":
            return self.array_access(st, r, p.off, n, None)
        if not isinstance(p.off, int):
            o = self.concretize_off(st, p)
            if o is None:
                self.to_array(st, p, n)
                return self.load(st, p, n, ty, atomic)
            p = Ptr(p.rid, o, p.base)
        if not self.bounds(st, r, p.off, n, "load"):
            return 0
        c = r.cells.get(p.off)
        if c is not None and c[0] == n:
            return c[1]
        r = st.region(r.id, True)
        return self.read_cells(r, r.cells, p.off, n, r.zero)

    def concretize_off(self, st, p):
        if self.solver.check(st.pc) != z3.sat:
            return None
        m = self.solver.model()
        v = m.eval(p.off, model_completion=True)
        if z3.is_bv_value(v) and self.valid(st, p.off == v):
            return v.as_long()
        return None

    def store(self, st, p, n, v, atomic=False):
        r = self._lookup(st, p, "store")
        if r is None:
            return
        if isinstance(r, tuple):
            r, p = r
        p = self._norm(st, p)
        if self.access_hook is not None:
            self.access_hook(self, st, r, p.off, n, True, atomic)
        if r.kind == "func" or r.const:
            self.crash(st, "store to constant memory")
            return
        if r.mode == "opaque":
            self.opaque_write(self, st, r, p.off, n, v, False)
            return
        r = st.region(r.id, True)
        if r.mode == "views":
            cells, c, _ = self.view(st, r, p.off, True)
            self.write_cells(cells, c, n, v)
            return
        if r.mode == "array":
            self.array_access(st, r, p.off, n, v)
            return
        if not isinstance(p.off, int):
            o = self.concretize_off(st, p)
            if o is None:
                self.to_array(st, p, n)
                self.store(st, p, n, v, atomic)
                return
            p = Ptr(p.rid, o, p.base)
        if not self.bounds(st, r, p.off, n, "store"):
            return
        self.write_cells(r.cells, p.off, n, v)

    def to_array(self, st, p, n):
        """a heap block of scalars that is indexed symbolically becomes one z3 array"""
        r = st.region(p.rid, True)
        if r.kind != "heap" or n not in (1, 2, 4, 8) or r.mode != "bytes":
            raise Unsupported("symbolic offset %s into %s at %s" % (p.off, r.name, self.where(st)))
        sh = {1: 0, 2: 1, 4: 2, 8: 3}[n]
        arr = fresh_array("arr_" + r.name, 64 - sh, 8 * n)
        for off, (sz, v) in r.cells.items():
            if sz != n or off % n or isinstance(v, Ptr):
                raise Unsupported("mixed accesses in %s at %s" % (r.name, self.where(st)))
            arr = z3.Store(arr, off >> sh, bv(v, 8 * n))
        r.mode, r.esz, r.arr, r.cells = "array", n, arr, {}

    def array_access(self, st, r, off, n, v):
        """element access in a region of symbolic size"""
        if r.arr is None:
            if n not in (1, 2, 4, 8):
                raise Unsupported("array region element size %d" % n)
            r = st.region(r.id, True)
            r.esz = n
            sh = {1: 0, 2: 1, 4: 2, 8: 3}[n]
            r.arr = fresh_array("arr_" + r.name, 64 - sh, 8 * n)
        sh = {1: 0, 2: 1, 4: 2, 8: 3}[r.esz]
        if n != r.esz:
            raise Unsupported("mixed access sizes in array region %s" % r.name)
        o = bv(off, 64)
        if sh:
            self.oblige(st, self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "aligned element access",
                        z3.Extract(sh - 1, 0, o) == 0)
            ix = z3.simplify(z3.Extract(63, sh, o))
        else:
            ix = o
        self.oblige(st, self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "element index within the buffer",
                    z3.ULT(z3.ZeroExt(sh, ix) if sh else ix, z3.LShR(bv(r.size, 64), sh)))
        if v is None:
            return simp(z3.Select(r.arr, ix))
        r = st.region(r.id, True)
        r.arr = z3.Store(r.arr, ix, bv(v, 8 * n))

    def memset(self, st, p, val, n):
        if isinstance(n, int) and n == 0:
            return
        r = self._lookup(st, p, "memset")
        if r is None:
            return
        if isinstance(r, tuple):
            r, p = r
        if self.access_hook is not None:
            self.access_hook(self, st, r, p.off, n, True, False)
        if r.mode == "opaque":
            self.opaque_write(self, st, r, p.off, n, val, True)
            return
        r = st.region(r.id, True)
        if r.mode == "views":
            cells, c, key = self.view(st, r, p.off, True)
            cells.clear()
            h = st.ghost.get("memset_hook")
            if h is not None:
                h(self, st, r, key, c, val, n)
            return
        if isinstance(n, int) and isinstance(p.off, int) and r.mode == "bytes":
            if not self.bounds(st, r, p.off, n, "memset"):
                return
            k = 0
            v = val
            while k < n:
                s = 8 if n - k >= 8 and (p.off + k) % 8 == 0 else 1
                if isinstance(v, int):
                    x = int.from_bytes(bytes([v & 255] * s), "little")
                else:
                    x = simp(z3.Concat(*[bv(v, 8)] * s)) if s > 1 else v
                self.write_cells(r.cells, p.off + k, s, x)
                k += s
            return
        if r.mode == "array" and isinstance(val, int):
            raise Unsupported("memset of array region")
        if r.mode == "bytes":
            # a fill of symbolic extent: afterwards only its effect on the fill record is known
            self.oblige(st, self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "memset within %s" % r.name,
                        z3.And(z3.ULE(bv(p.off, 64), bv(r.size, 64)), z3.ULE(bv(n, 64), bv(r.size, 64) - bv(p.off, 64))))
            if st.status != "run":
                return
            whole = isinstance(p.off, int) and p.off == 0 and self.valid(st, bv(n, 64) == bv(r.size, 64))
            r.cells = {}
            r.zero = bool(whole and isinstance(val, int) and val & 255 == 0)
            m = dict(r.meta or {})
            m["fills"] = (() if whole else m.get("fills", ())) + ((p.off, n, val),)
            r.meta = m
            return
        raise Unsupported("memset with symbolic length on %s" % r.name)

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            raise Unsupported("memcpy with symbolic length")
        rs = self._lookup(st, s, "memcpy")
        rd = self._lookup(st, d, "memcpy")
        if rs is None or rd is None:
            return
        # copy in naturally aligned pieces, keeping whole cells (pointers) intact
        vals = []
        k = 0
        while k < n:
            step = 1
            if rs.mode == "bytes" and isinstance(s.off, int):
                c = rs.cells.get(s.off + k)
                if c is not None and c[0] <= n - k:
                    step = c[0]
                elif n - k >= 8 and (s.off + k) % 8 == 0:
                    step = 8
            elif n - k >= 8:
                step = 8
            vals.append((k, step, self.load(st, s.add(k), step)))
            k += step
        for k, step, v in vals:
            self.store(st, d.add(k), step, v)

    # ------------------------------------------------------------------ values
    def const_val(self, st, c):
        k = c.kind
        if k == "int":
            return c.v
        if k == "null":
            return 0
        if k == "undef":
            t = c.ty
            if t.k == "int":
                return fresh("undef", t.w)
            if t.k == "struct":
                return tuple(self.const_val(st, Const("undef", e)) for e in t.elems)
            if t.k == "fp":
                return fresh("undef", t.w)
            if t.k == "array":
                return tuple(self.const_val(st, Const("undef", t.elem)) for _ in range(t.n))
            return 0
        if k == "zero":
            t = c.ty
            if t.k == "struct":
                return tuple(self.const_val(st, Const("zero", e)) for e in t.elems)
            if t.k == "array":
                return tuple(self.const_val(st, Const("zero", t.elem)) for _ in range(t.n))
            return 0
        if k in ("fn", "global"):
            return self.global_ptr(st, c.v)
        if k == "agg":
            return tuple(self.const_val(st, e) for e in c.ops)
        if k == "expr":
            ops = [self.const_val(st, o) for o in c.ops]
            if c.v == "gep":
                return self.gep(st, c.extra, ops, [o.ty for o in c.ops])
            if c.v in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return ops[0]
            if c.v in ("add", "sub"):
                return self.binop(c.v, ops[0], ops[1], c.ty.w)
            if c.v == "trunc":
                return self.cast("trunc", ops[0], c.ops[0].ty, c.ty)
        if k == "fp":
            import struct
            t = c.v
            if t.startswith("0x"):
                d = int(t, 16)
                if c.ty.w == 32:
                    f = struct.unpack("<d", struct.pack("<Q", d))[0]
                    return struct.unpack("<I", struct.pack("<f", f))[0]
                return d
            f = float(t)
            return struct.unpack("<I", struct.pack("<f", f))[0] if c.ty.w == 32 else struct.unpack("<Q", struct.pack("<d", f))[0]
        raise Unsupported("constant kind %s %s" % (k, c.v))

    def val(self, st, o):
        if type(o) is Reg:
            try:
                return st.frames[-1].regs[o.key]
            except KeyError:
                raise Unsupported("undefined register in %s" % st.frames[-1].fn.demangled)
        return self.const_val(st, o)

    def gep(self, st, sty, ops, tys):
        p = ops[0]
        off = 0
        t = sty
        first = True
        for ix, ity in zip(ops[1:], tys[1:]):
            if first:
                sc = t.size
                first = False
            elif t.k == "struct":
                off = self.addoff(off, t.offs[ix])
                t = t.elems[ix]
                continue
            elif t.k == "array":
                t = t.elem
                sc = t.size
            else:
                raise Unsupported("gep into %s" % t)
            if isinstance(ix, int):
                if ix >= 1 << (ity.w - 1):
                    ix -= 1 << ity.w
                off = self.addoff(off, ix * sc)
            else:
                e = bv(ix, ity.w)
                if ity.w < 64:
                    e = z3.SignExt(64 - ity.w, e)
                if sc & (sc - 1) == 0 and sc > 0:
                    k = sc.bit_length() - 1
                    e = z3.Concat(z3.Extract(63 - k, 0, e), z3.BitVecVal(0, k)) if k else e
                else:
                    e = e * z3.BitVecVal(sc, 64)
                off = self.addoff(off, e)
        if isinstance(p, Ptr):
            return p.add(off if isinstance(off, int) else simp(off))
        if isinstance(p, int) and isinstance(off, int):
            return (p + off) & M64
        return simp(bv(p, 64) + bv(off, 64))

    @staticmethod
    def addoff(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & M64
        return bv(a, 64) + bv(b, 64)

    def binop(self, op, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "sub" and a.rid == b.rid:
                    return simp(bv(a.off, 64) - bv(b.off, 64))
                a, b = a.addr(), b.addr()
            elif op == "add":
                return a.add(b) if isinstance(a, Ptr) else b.add(a)
            elif op == "sub" and isinstance(a, Ptr):
                nb = (-b) & M64 if isinstance(b, int) else simp(-b)
                return a.add(nb)
            else:
                a = a.addr() if isinstance(a, Ptr) else a
                b = b.addr() if isinstance(b, Ptr) else b
        if w == 1:
            x, y = boolv(a), boolv(b)
            if op == "and":
                return simp(z3.And(x, y))
            if op == "or":
                return simp(z3.Or(x, y))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(x, y))
            raise Unsupported("i1 " + op)
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == "add":
                return (a + b) & mask
            if op == "sub":
                return (a - b) & mask
            if op == "mul":
                return (a * b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mask if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sa >> b) & mask
            if op == "udiv" and b:
                return a // b
            if op == "urem" and b:
                return a % b
            if op == "sdiv" and b:
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & mask
            if op == "srem" and b:
                r = abs(sa) % abs(sb)
                return (r if sa >= 0 else -r) & mask
        x, y = bv(a, w), bv(b, w)
        if op == "add":
            e = x + y
        elif op == "sub":
            e = x - y
        elif op == "mul":
            e = x * y
        elif op == "and":
            e = x & y
        elif op == "or":
            e = x | y
        elif op == "xor":
            e = x ^ y
        elif op == "shl":
            e = x << y
        elif op == "lshr":
            e = z3.LShR(x, y)
        elif op == "ashr":
            e = x >> y
        elif op == "udiv":
            e = z3.UDiv(x, y)
        elif op == "urem":
            e = z3.URem(x, y)
        elif op == "sdiv":
            e = x / y
        elif op == "srem":
            e = z3.SRem(x, y)
        else:
            raise Unsupported("binary " + op)
        return simp(e)

    def icmp(self, pred, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.rid == b.rid:
                    a, b, w = a.off, b.off, 64
                elif pred in ("eq", "ne"):
                    return 0 if pred == "eq" else 1
                else:
                    a, b = a.addr(), b.addr()
            else:
                o = b if isinstance(a, Ptr) else a
                if isinstance(o, int) and o == 0 and pred in ("eq", "ne"):
                    return 0 if pred == "eq" else 1
                a = a.addr() if isinstance(a, Ptr) else a
                b = b.addr() if isinstance(b, Ptr) else b
        if w == 1:
            x, y = boolv(a), boolv(b)
            if pred == "eq":
                return simp(x == y)
            if pred == "ne":
                return simp(x != y)
            a, b = bv(a, 1), bv(b, 1)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            r = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[
                pred if pred in ("eq", "ne") else pred[1:]]
            return 1 if r else 0
        x, y = bv(a, w), bv(b, w)
        if w == 64 and pred in ("eq", "ne"):
            x, y = cancel_odd(x, y)
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
             "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
             "slt": lambda: x < y, "sle": lambda: x <= y}[pred]
        return simp(f())

    def cast(self, op, v, ft, tt):
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            if op == "ptrtoint" and tt.w < 64:
                v = v.addr() if isinstance(v, Ptr) else v
                return v & ((1 << tt.w) - 1) if isinstance(v, int) else simp(z3.Extract(tt.w - 1, 0, v))
            return v
        if isinstance(v, Ptr):
            v = v.addr()
        if op == "trunc":
            if isinstance(v, int):
                return v & ((1 << tt.w) - 1)
            if tt.w == 1:
                return simp(z3.Extract(0, 0, bv(v, ft.w)) == 1)
            return simp(z3.Extract(tt.w - 1, 0, bv(v, ft.w)))
        if op == "zext":
            if isinstance(v, int):
                return v
            if ft.w == 1:
                return simp(z3.If(boolv(v), z3.BitVecVal(1, tt.w), z3.BitVecVal(0, tt.w)))
            return simp(z3.ZeroExt(tt.w - ft.w, v))
        if op == "sext":
            if isinstance(v, int):
                return (v | (((1 << tt.w) - 1) ^ ((1 << ft.w) - 1))) if v >> (ft.w - 1) else v
            if ft.w == 1:
                return simp(z3.If(boolv(v), z3.BitVecVal(-1, tt.w), z3.BitVecVal(0, tt.w)))
            return simp(z3.SignExt(tt.w - ft.w, v))
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------------ calls
    def find_stub(self, name):
        if name in self._stub_cache:
            return self._stub_cache[name]
        h = self.stub_exact.get(name)
        if h is None:
            dem = self.mod.demangle(name)
            for rx, hh in self.contract_rx:
                if rx.search(dem):
                    h = hh
                    break
            if h is None:
                for rx, hh in self.stub_rx:
                    if rx.search(dem):
                        h = hh
                        break
        self._stub_cache[name] = h
        return h

    def call(self, st, fname, args, instr=None):
        """begin a call from the current top frame; returns list of states"""
        fname = self.mod.aliases.get(fname, fname)
        h = self.find_stub(fname)
        if h is not None:
            return self.outcomes(st, h(self, st, args, fname))
        f = self.mod.fn(fname)
        if f is None or f.decl:
            raise Unsupported("call of external function %s at %s" % (self.mod.demangle(fname), self.where(st)))
        self.push(st, f, args)
        return None

    def push(self, st, f, args):
        if len(st.frames) > 400:
            raise Unsupported("call depth exceeded in %s" % f.demangled)
        self.fn_seen.add(f.name)
        fr = Frame(f)
        for (key, ty), a in zip(f.params, args):
            fr.regs[key] = a
        st.frames.append(fr)
        f.blocks
        if 0 in (f.loops or {}):
            raise Unsupported("loop at entry block")

    def outcomes(self, st, out):
        """normalise what stubs return into a list of running states"""
        if out is None:
            return None            # the stub arranged everything itself on st
        if not isinstance(out, list):
            out = [("ret", st, out)]
        res = []
        for o in out:
            kind, s = o[0], o[1]
            if s.status != "run":
                res.append(s)
                continue
            if kind == "ret":
                res.extend(self.finish_call(s, o[2]))
            elif kind == "exc":
                res.extend(self.unwind(s, o[2]))
            elif kind == "run":
                res.append(s)
            else:
                raise Unsupported("bad outcome")
        return res

    def call_back(self, st, fptr_name, args, on_return, on_unwind, name="contract"):
        """push a native continuation and a call of a real function; to be used inside stubs"""
        st.frames.append(Native(name, on_return, on_unwind))
        h = self.find_stub(fptr_name)
        if h is not None:
            out = h(self, st, args, fptr_name)
            res = []
            if not isinstance(out, list):
                if out is None:
                    return [("run", st)]
                out = [("ret", st, out)]
            for o in out:
                if o[1].status != "run":
                    res.append(("run", o[1]))
                elif o[0] == "ret":
                    n = o[1].frames.pop()
                    r = n.on_return(self, o[1], o[2])
                    res.extend(r)
                elif o[0] == "exc":
                    n = o[1].frames.pop()
                    res.extend(n.on_unwind(self, o[1], o[2]))
                else:
                    res.append(o)
            return res
        f = self.mod.fn(fptr_name)
        if f is None or f.decl:
            raise Unsupported("callback to external %s" % fptr_name)
        self.push(st, f, args)
        return [("run", st)]

    def finish_call(self, st, v):
        """the callee of the top frame's current call has returned v"""
        if not st.frames:
            st.status, st.ret = "ret", v
            return [st]
        fr = st.frames[-1]
        if fr.native:
            st.frames.pop()
            r = self.outcomes(st, fr.on_return(self, st, v))
            return [st] if r is None else r
        ins = fr.call
        fr.call = None
        if ins.ty.k != "void":
            fr.regs[ins.key] = v
        if ins.op == "invoke":
            self.goto(st, ins.x["normal"])
        else:
            fr.idx += 1
        return [st]

    def pop_frame(self, st):
        fr = st.frames.pop()
        if not fr.native:
            for rid in fr.allocas:
                st.mem.pop(rid, None)
            if any(c.mode == "record" for c in fr.loopstack):
                st.status = "loopexit"
        return fr

    def ti_bases(self, ti):
        """all type_info symbols a thrown type can be caught as, with base offsets"""
        if ti in self._ti_cache:
            return self._ti_cache[ti]
        res = {ti: 0}
        if ti in STD_BASES:
            b = STD_BASES[ti]
            while b:
                res[b] = 0
                b = STD_BASES[b]
        else:
            g = self.mod.globals.get(ti)
            if g is not None and not g.decl and g.init.kind == "agg":
                ops = g.init.ops
                vt = self._ti_vt(ops[0])
                if "si_class_type_info" in vt:
                    for k, v in self.ti_bases(ops[2].v).items():
                        res[k] = v
                elif "vmi_class_type_info" in vt:
                    for j in range(4, len(ops), 2):
                        flags = ops[j + 1].v
                        off = flags >> 8
                        if flags & 2 and not flags & 1:
                            for k, v in self.ti_bases(ops[j].v).items():
                                res.setdefault(k, v + off)
        self._ti_cache[ti] = res
        return res

    def _ti_vt(self, c):
        while c.kind == "expr":
            c = c.ops[0]
        return str(c.v)

    def unwind(self, st, exc):
        """propagate exc out of the current call of the top frame; returns states"""
        while True:
            if st.status != "run":
                return [st]
            if not st.frames:
                st.status, st.exc = "exc", exc
                return [st]
            fr = st.frames[-1]
            if fr.native:
                st.frames.pop()
                return self.outcomes(st, fr.on_unwind(self, st, exc)) or [st]
            ins = fr.call
            fr.call = None
            if ins is not None and ins.op == "invoke":
                blk = fr.fn.blocks[ins.x["unwind"]]
                lp = next(x for x in blk.instrs if x.op == "landingpad")
                cleanup, clauses = lp.x
                sel = None
                bases = self.ti_bases(exc.ti)
                adj = 0
                for c in clauses:
                    if c.ty.k == "array":        # filter (exception specification)
                        if not c.ops:
                            sel = ("filter", None)
                            break
                        raise Unsupported("exception filter")
                    if c.kind == "null":
                        sel = ("catch", None)
                        break
                    if c.v in bases:
                        sel = ("catch", c.v)
                        adj = bases[c.v]
                        break
                if sel is not None or cleanup:
                    s = 0
                    if sel is not None:
                        s = self.typeid(sel[1]) if sel[0] == "catch" else M64 & 0xffffffff
                    self.goto(st, ins.x["unwind"])
                    if st.status != "run":
                        return [st]
                    p = exc.ptr
                    d = dict(st.ghost.get("_excs") or {})
                    d[p.rid if isinstance(p, Ptr) else p] = exc
                    st.ghost["_excs"] = d
                    fr.regs[lp.key] = (p, s)
                    b = fr.fn.blocks[fr.block]
                    while b.instrs[fr.idx] is not lp:
                        if b.instrs[fr.idx].op != "phi":
                            raise Unsupported("landing pad layout")
                        fr.idx += 1
                    fr.idx += 1
                    return [st]
            self.pop_frame(st)

    def typeid(self, ti):
        if ti is None:
            return 1
        d = self.__dict__.setdefault("_typeids", {})
        return d.setdefault(ti, len(d) + 2)

    # ------------------------------------------------------------------ control flow
    def eval_phis(self, st, fr, target, prev):
        blk = fr.fn.blocks[target]
        vals = []
        n = 0
        for ins in blk.instrs:
            if ins.op != "phi":
                break
            n += 1
            for o, b in zip(ins.ops, ins.x):
                if b == prev:
                    vals.append((ins.key, self.val(st, o)))
                    break
            else:
                raise Unsupported("phi without matching predecessor")
        for k, v in vals:
            fr.regs[k] = v
        fr.prev = prev
        fr.block = target
        fr.idx = n

    def goto(self, st, target):
        fr = st.frames[-1]
        src = fr.block
        f = fr.fn
        self.eval_phis(st, fr, target, src)
        # leaving loops
        while fr.loopstack and target not in f.loops[fr.loopstack[-1].header]:
            c = fr.loopstack[-1]
            fr.loopstack = fr.loopstack[:-1]
            fr.visits.pop(c.header, None)
            if c.mode == "record":
                st.status = "loopexit"
                return
        if target in f.loops:
            top = fr.loopstack[-1] if fr.loopstack else None
            if top is not None and top.header == target:
                top.back(self, st)          # a back edge
            else:
                fr.visits["enter"] = target  # handled by step()

    def branch(self, st, cond):
        """-> [(state, bool)]"""
        if isinstance(cond, int):
            return [(st, bool(cond))]
        c = boolv(cond)
        t = self.solver.check(st.pc, c) != z3.unsat
        f = self.solver.check(st.pc, z3.Not(c)) != z3.unsat
        if t and f:
            s2 = st.clone()
            st.assume(c)
            s2.assume(z3.Not(c))
            return [(st, True), (s2, False)]
        if t:
            return [(st, True)]
        if f:
            return [(st, False)]
        st.status = "cut"
        return []

    # ------------------------------------------------------------------ main loop
    def run(self, states):
        """run to completion; returns finished states (ret / exc / loopback)"""
        work = list(states)
        done = []
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the unit exhausted")
            while st.status == "run":
                r = self.step(st)
                if r is not None:
                    here = False
                    for x in r:
                        if x is st:
                            here = True
                        else:
                            work.append(x)
                    if not here:
                        break
            else:
                here = True
            if not here:
                continue
            if st.status in ("ret", "exc", "loopback"):
                done.append(st)
        return done

    def run_function(self, st, name, args):
        f = self.mod.fn(name)
        if f is None:
            raise Unsupported("function %s not found" % name)
        self.push(st, f, args)
        base = len(st.frames)
        out = self.run([st])
        self.paths += len(out)
        return out

    def step(self, st):
        fr = st.frames[-1]
        if "enter" in fr.visits:
            h = fr.visits.pop("enter")
            return loops.enter(self, st, h)
        b = fr.fn.blocks[fr.block]
        ins = b.instrs[fr.idx]
        st.steps += 1
        if st.steps > self.max_steps:
            raise Unsupported("step budget exceeded in %s" % fr.fn.demangled)
        return getattr(self, "i_" + ins.op, self.i_unknown)(st, fr, ins)

    def i_unknown(self, st, fr, ins):
        raise Unsupported("instruction %s in %s" % (ins.op, fr.fn.demangled))

    def i_alloca(self, st, fr, ins):
        n = self.val(st, ins.ops[0]) if ins.ops else 1
        if not isinstance(n, int):
            raise Unsupported("dynamic alloca")
        r = self.new_region(st, "%s.local" % fr.fn.name[:40], "alloca", ins.x.size * n)
        fr.allocas.append(r.id)
        fr.regs[ins.key] = self.ptr(r)
        fr.idx += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, ins.ops[0])
        t = ins.ty
        if ins.x != "notatomic":
            v = self.atomic(st, "load", p, t.store, None, None, ins.x)
        elif t.k == "struct":
            v = tuple(self.load(st, p.add(o), e.store, e) for o, e in zip(t.offs, t.elems))
        else:
            v = self.load(st, p, t.store, t)
            if t.k == "int" and t.w == 1 and not isinstance(v, (int, z3.BoolRef)):
                v = simp(z3.Extract(0, 0, v) == 1)
        if st.status != "run":
            return
        fr = st.frames[-1]
        fr.regs[ins.key] = v
        fr.idx += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        p = self.val(st, ins.ops[1])
        t = ins.ops[0].ty
        if isinstance(v, z3.BoolRef):
            v = bv(v, 8)
        if ins.x != "notatomic":
            self.atomic(st, "store", p, t.store, v, None, ins.x)
        elif t.k == "struct":
            for o, e, x in zip(t.offs, t.elems, v):
                self.store(st, p.add(o), e.store, x)
        else:
            self.store(st, p, t.store, v)
        if st.status == "run":
            fr.idx += 1

    def i_gep(self, st, fr, ins):
        fr.regs[ins.key] = self.gep(st, ins.x, [self.val(st, o) for o in ins.ops], [o.ty for o in ins.ops])
        fr.idx += 1

    def _bin(self, st, fr, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        if ins.op in ("udiv", "urem", "sdiv", "srem"):
            z = self.icmp("ne", b, 0, ins.ty.w)
            if not isinstance(z, int) or not z:
                self.oblige(st, self.crash_prop or tuple(sorted(self.props or ("SAFE",))), "no-crash: division by zero",
                            boolv(z) if not isinstance(z, int) else False)
                if st.status != "run":
                    return
            if ins.ty.w == 64 and isinstance(b, int) and b & (b - 1) and is_sym(a) and ins.op in ("udiv", "urem"):
                q = divide(a, b)
                if q is not None and self.valid(st, z3.ULE(q, z3.BitVecVal(((1 << 64) - 1) // b, 64))):
                    fr.regs[ins.key] = simp(q) if ins.op == "udiv" else 0
                    fr.idx += 1
                    return
        fr.regs[ins.key] = self.binop(ins.op, a, b, ins.ty.w)
        fr.idx += 1
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_urem = i_sdiv = i_srem = _bin

    def i_icmp(self, st, fr, ins):
        a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        fr.regs[ins.key] = self.icmp(ins.x, a, b, ins.ops[0].ty.w)
        fr.idx += 1

    def _cast(self, st, fr, ins):
        fr.regs[ins.key] = self.cast(ins.op, self.val(st, ins.ops[0]), ins.ops[0].ty, ins.ty)
        fr.idx += 1
    i_trunc = i_zext = i_sext = i_bitcast = i_ptrtoint = i_inttoptr = i_addrspacecast = i_freeze = _cast

    def i_phi(self, st, fr, ins):
        raise Unsupported("phi out of place")

    def i_select(self, st, fr, ins):
        c = self.val(st, ins.ops[0])
        a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
        if isinstance(c, int):
            fr.regs[ins.key] = a if c else b
            fr.idx += 1
            return
        t = ins.ty
        if t.k == "int":
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                pass
            elif t.w == 1:
                fr.regs[ins.key] = simp(z3.If(c, boolv(a), boolv(b)))
                fr.idx += 1
                return
            else:
                fr.regs[ins.key] = simp(z3.If(c, bv(a, t.w), bv(b, t.w)))
                fr.idx += 1
                return
        res = []
        for s, tk in self.branch(st, c):
            f2 = s.frames[-1]
            f2.regs[ins.key] = a if tk else b
            f2.idx += 1
            res.append(s)
        return res

    def i_br(self, st, fr, ins):
        if not ins.ops:
            self.goto(st, ins.x[0])
            return
        c = self.val(st, ins.ops[0])
        res = []
        if not isinstance(c, (int, z3.BoolRef)):
            c = simp(boolv(c))
        for s, tk in self.branch(st, c):
            if not isinstance(c, int):
                s.trace.append((ins.loc, tk))
            # successor order of the C API: 0 = taken when true
            self.goto(s, ins.x[0] if tk else ins.x[1])
            res.append(s)
        return res

    def i_switch(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        w = ins.ops[0].ty.w
        default, cases = ins.x
        if isinstance(v, int):
            for cv, tgt in cases:
                if cv & ((1 << w) - 1) == v:
                    self.goto(st, tgt)
                    return
            self.goto(st, default)
            return
        res = []
        cur = st
        for cv, tgt in cases:
            br = self.branch(cur, simp(bv(v, w) == (cv & ((1 << w) - 1))))
            nxt = None
            for s, tk in br:
                if tk:
                    self.goto(s, tgt)
                    res.append(s)
                else:
                    nxt = s
            if nxt is None:
                return res
            cur = nxt
        self.goto(cur, default)
        res.append(cur)
        return res

    def i_ret(self, st, fr, ins):
        v = self.val(st, ins.ops[0]) if ins.ops else None
        self.pop_frame(st)
        if st.status != "run":
            return
        return self.finish_call(st, v)

    def i_unreachable(self, st, fr, ins):
        self.crash(st, "unreachable executed in %s" % fr.fn.demangled[:80])

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        for k in ins.x:
            v = v[k]
        fr.regs[ins.key] = v
        fr.idx += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        x = self.val(st, ins.ops[1])

        def put(agg, path):
            l = list(agg)
            l[path[0]] = x if len(path) == 1 else put(agg[path[0]], path[1:])
            return tuple(l)
        fr.regs[ins.key] = put(v, ins.x)
        fr.idx += 1

    def i_fence(self, st, fr, ins):
        fr.idx += 1

    def i_landingpad(self, st, fr, ins):
        raise Unsupported("landingpad out of place")

    def i_resume(self, st, fr, ins):
        v = self.val(st, ins.ops[0])
        exc = st.ghost["_excs"][v[0].rid if isinstance(v[0], Ptr) else v[0]]
        self.pop_frame(st)
        if st.status != "run":
            return
        return self.unwind(st, exc)

    def _call(self, st, fr, ins):
        c = ins.x["callee"]
        if c.__class__ is Const and c.kind == "fn":
            name = c.v
        elif c.__class__ is Const and c.kind == "asm":
            raise Unsupported("inline assembly")
        else:
            p = self.val(st, c)
            if isinstance(p, Ptr):
                r = st.mem.get(p.rid)
                if r is None or r.kind != "func":
                    self.crash(st, "call through a pointer that is not a function")
                    return
                name = r.name[1:]
            elif isinstance(p, int):
                self.crash(st, "call through null or invalid pointer")
                return
            else:
                raise Unsupported("indirect call through symbolic pointer at %s" % self.where(st))
        args = [self.val(st, o) if o is not None else None for o in ins.ops]
        fr.call = ins
        if name.startswith("llvm."):
            return self.outcomes(st, self.intrinsic(st, name, args, ins))
        return self.call(st, name, args, ins)
    i_call = i_invoke = _call

    def intrinsic(self, st, name, a, ins):
        n = name.split(".")
        k = n[1]
        if k in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], a[2])
            return [("ret", st, None)]
        if k == "memset":
            self.memset(st, a[0], a[1], a[2])
            return [("ret", st, None)]
        if k in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and n[2] == "with":
            w = int(n[-1][1:])
            x, y = a[0], a[1]
            op = k[1:]
            r = self.binop(op, x, y, w)
            if isinstance(x, int) and isinstance(y, int) and k[0] == "u":
                full = {"mul": x * y, "add": x + y, "sub": x - y}[op]
                return [("ret", st, (r, 0 if 0 <= full < (1 << w) else 1))]
            X, Y = bv(x, w), bv(y, w)
            if k == "umul":
                o = z3.Not(z3.BVMulNoOverflow(X, Y, False))
            elif k == "uadd":
                o = z3.Not(z3.BVAddNoOverflow(X, Y, False))
            elif k == "usub":
                o = z3.ULT(X, Y)
            else:
                raise Unsupported(name)
            if self.valid(st, z3.Not(o)):
                o = 0
            return [("ret", st, (r, o))]
        w = int(n[-1][1:]) if n[-1][0] == "i" and n[-1][1:].isdigit() else 0
        if k in ("umin", "umax", "smin", "smax"):
            p = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
            c = self.icmp(p, a[0], a[1], w)
            if isinstance(c, int):
                return [("ret", st, a[0] if c else a[1])]
            return [("ret", st, simp(z3.If(c, bv(a[0], w), bv(a[1], w))))]
        if k == "expect":
            return [("ret", st, a[0])]
        if k == "assume":
            return [("ret", st, None)]
        if k == "eh" and n[2] == "typeid":
            p = a[0]
            ti = self.region_name(st, p)[1:] if isinstance(p, Ptr) else None
            return [("ret", st, self.typeid(ti))]
        if k == "trap":
            self.crash(st, "llvm.trap")
            return [("run", st)]
        if k in ("ctlz", "cttz", "ctpop", "bswap", "fshl", "fshr", "abs"):
            return [("ret", st, self.bitint(k, a, w))]
        if k in ("stacksave",):
            return [("ret", st, 0)]
        if k in ("stackrestore", "donothing", "prefetch", "experimental", "invariant", "launder", "strip"):
            return [("ret", st, a[0] if k in ("launder", "strip") else None)]
        if k == "is" and n[2] == "constant":
            return [("ret", st, 0)]
        raise Unsupported("intrinsic " + name)

    def bitint(self, k, a, w):
        x = a[0]
        if isinstance(x, int):
            if k == "ctlz":
                return w - x.bit_length()
            if k == "cttz":
                return (x & -x).bit_length() - 1 if x else w
            if k == "ctpop":
                return bin(x).count("1")
            if k == "abs":
                return (-x) & ((1 << w) - 1) if x >> (w - 1) else x
        x = bv(x, w)
        if k == "ctlz":
            e = z3.BitVecVal(w, w)
            for i in range(w):
                e = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), e)
            return simp(e)
        if k == "cttz":
            e = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                e = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), e)
            return simp(e)
        if k == "ctpop":
            e = z3.BitVecVal(0, w)
            for i in range(w):
                e = e + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return simp(e)
        if k == "abs":
            return simp(z3.If(x < 0, -x, x))
        raise Unsupported("intrinsic " + k)

    # ------------------------------------------------------------------ atomics
    def atomic(self, st, kind, p, n, v, exp, order, fn=None):
        """returns the value (load), None (store), old value (rmw); cmpxchg is handled in i_cmpxchg"""
        spec = self.atomic_spec(st, p)
        if spec is None:
            if kind == "load":
                return self.load(st, p, n, atomic=True)
            if kind == "store":
                self.store(st, p, n, v, atomic=True)
                return None
            old = self.load(st, p, n, atomic=True)
            self.store(st, p, n, fn(old), atomic=True)
            return old
        cur = spec.interfere(self, st, self.load(st, p, n, atomic=True), kind)
        if kind == "load":
            self.store(st, p, n, cur, atomic=True)
            spec.observed(self, st, cur, order)
            return cur
        new = v if kind == "store" else fn(cur)
        self.store(st, p, n, cur, atomic=True)
        spec.commit(self, st, cur, new, kind, order)
        if st.status == "run":
            self.store(st, p, n, new, atomic=True)
        return cur

    def atomic_spec(self, st, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int):
            return None
        return st.ghost.get("atomics", {}).get((p.rid, p.off))

    def i_atomicrmw(self, st, fr, ins):
        p, v = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
        op, order = ins.x
        w = ins.ty.w

        def fn(old):
            if op == "xchg":
                return v
            if op in ("add", "sub", "and", "or", "xor"):
                return self.binop(op, old, v, w)
            if op in ("umax", "umin", "max", "min"):
                c = self.icmp({"umax": "ugt", "umin": "ult", "max": "sgt", "min": "slt"}[op], old, v, w)
                return (old if c else v) if isinstance(c, int) else simp(z3.If(c, bv(old, w), bv(v, w)))
            raise Unsupported("atomicrmw " + op)
        old = self.atomic(st, "rmw", p, ins.ty.store, None, None, order, fn)
        if st.status != "run":
            return
        fr = st.frames[-1]
        fr.regs[ins.key] = old
        fr.idx += 1

    def i_cmpxchg(self, st, fr, ins):
        p, exp, new = [self.val(st, o) for o in ins.ops]
        t = ins.ops[1].ty
        spec = self.atomic_spec(st, p)
        cur = self.load(st, p, t.store, atomic=True)
        if spec is not None:
            cur = spec.interfere(self, st, cur, "cmpxchg")
            self.store(st, p, t.store, cur, atomic=True)
        eq = self.icmp("eq", cur, exp, t.w)
        res = []
        for s, tk in self.branch(st, eq):
            if tk:
                if ins.x[2]:
                    # a weak exchange may also fail spuriously
                    s2 = s.clone()
                    f2 = s2.frames[-1]
                    f2.regs[ins.key] = (cur, 0)
                    f2.idx += 1
                    if spec is not None:
                        spec.observed(self, s2, cur, ins.x[1])
                    res.append(s2)
                if spec is not None:
                    spec.commit(self, s, cur, new, "cmpxchg", ins.x[0])
                if s.status == "run":
                    self.store(s, p, t.store, new, atomic=True)
            if s.status == "run":
                if not tk and spec is not None:
                    spec.observed(self, s, cur, ins.x[1])
                f1 = s.frames[-1]
                f1.regs[ins.key] = (cur, 1 if tk else 0)
                f1.idx += 1
            res.append(s)
        return res
