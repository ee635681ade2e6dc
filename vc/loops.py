"""The loop rule.

A loop is first tried as a bounded one (complete unrolling, every iteration decided by the path condition) when its
body is pure register/memory code; otherwise, or when that does not terminate, it is proved by induction:

 1. the set of locations the body modifies is computed by executing it from a havocked state until nothing new
    is modified;
 2. each modified location gets a closed form in the iteration number n where one exists (x0 + n*d for scalars and
    pointers, a lambda term for arrays written once per iteration at an induction index); all others are arbitrary;
 3. candidate bounds derived from the loop's own guards, and candidates supplied by the unit (lock invariants,
    equalities between ghost and real state) are kept if they hold initially and are preserved (Houdini);
 4. the body is executed once from the resulting state for an arbitrary n with all obligations checked, and each
    closed form is re-established for n+1 by the solver.

Everything in 1-3 is heuristic; 4 is the proof.
"""
import z3
from llvm import Unsupported
from sym import fresh, fresh_array, is_sym, simp, bv, boolv, Ptr

ARR = (z3.ArrayRef, z3.QuantifierRef)


class Ctx:
    __slots__ = ("header", "mode", "count", "owner")

    def __init__(self, header, mode, owner=None):
        self.header, self.mode, self.owner = header, mode, owner
        self.count = 0

    def back(self, ex, st):
        fr = st.frames[-1]
        if self.mode == "record":
            st.status = "loopback"
        elif self.mode == "final":
            self.owner.inductive(st)
            st.status = "cut"
        else:
            n = fr.visits.get(self.header, 0) + 1
            fr.visits[self.header] = n
            if n > ex.unroll_limit:
                raise UnrollLimit(self.header)


class UnrollLimit(Unsupported):
    pass


def pure_body(f, body):
    for b in body:
        for ins in f.blocks[b].instrs:
            if ins.op in ("call", "invoke"):
                c = ins.x["callee"]
                if getattr(c, "kind", None) == "fn" and c.v.startswith("llvm."):
                    continue
                return False
            if ins.op in ("cmpxchg", "atomicrmw"):
                return False
            if ins.op in ("load", "store") and ins.x != "notatomic":
                return False
    return True


def enter(ex, st, header):
    """st is positioned just after the phis of `header`, coming from outside the loop."""
    fr = st.frames[-1]
    f = fr.fn
    body = f.loops[header]
    key = (f.name, header)
    mode = ex.__dict__.setdefault("loop_mode", {}).get(key)
    if mode is None and pure_body(f, body):
        # bounded attempt on a clone; all-or-nothing
        s = st.clone()
        s.frames[-1].loopstack += (Ctx(header, "unroll"),)
        depth = len(s.frames)
        try:
            ex.recording += 1
            try:
                r = run_until_exit(ex, s, header, depth)
            finally:
                ex.recording -= 1
            mode = "unroll"
        except UnrollLimit:
            mode = "induct"
        if not ex.recording:
            ex.loop_mode[key] = mode
    if mode == "unroll":
        fr.loopstack += (Ctx(header, "unroll"),)
        return None
    return Induction(ex, st, header).apply()


def run_until_exit(ex, st, header, depth):
    """run a state until its frame at `depth` leaves the loop; used only to see whether unrolling terminates"""
    work = [st]
    out = 0
    while work:
        s = work.pop()
        while s.status == "run":
            if len(s.frames) < depth or (len(s.frames) == depth and
                                         not any(c.header == header for c in s.frames[depth - 1].loopstack)):
                out += 1
                break
            r = ex.step(s)
            if r is not None:
                work.extend(x for x in r if x is not s)
                if not any(x is s for x in r):
                    break
    return out


# ---------------------------------------------------------------------------------------------- locations

def same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.rid == b.rid and same(a.off, b.off)
    if is_sym(a) and is_sym(b):
        return a.eq(b) or (a.sort() == b.sort() and z3.is_true(z3.simplify(a == b)) if not isinstance(a, ARR) else a.eq(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


class Loc:
    """kind: reg(depth,key) cell(rid,off,size) arr(rid) view(rid,key,off,size) ghost(name)"""
    __slots__ = ("kind", "a", "w")

    def __init__(self, kind, a, w):
        self.kind, self.a, self.w = kind, a, w

    def id(self):
        return (self.kind,) + self.a

    def get(self, ex, st):
        k, a = self.kind, self.a
        if k == "reg":
            return st.frames[a[0]].regs[a[1]]
        if k == "cell":
            r = st.region(a[0], True)
            return ex.read_cells(r, r.cells, a[1], a[2], r.zero)
        if k == "arr":
            return st.mem[a[0]].arr
        if k == "view":
            r = st.region(a[0], True)
            return ex.read_cells(r, r.views[a[1]][1], a[2], a[3], False)
        if k == "ghost":
            return st.ghost[a[0]]
        if k == "gfield":
            return getattr(st.ghost[a[0]], a[1])

    def set(self, ex, st, v):
        k, a = self.kind, self.a
        if k == "reg":
            st.frames[a[0]].regs[a[1]] = v
        elif k == "cell":
            r = st.region(a[0], True)
            ex.write_cells(r.cells, a[1], a[2], v)
        elif k == "arr":
            st.region(a[0], True).arr = v
        elif k == "view":
            r = st.region(a[0], True)
            ex.write_cells(r.views[a[1]][1], a[2], a[3], v)
        elif k == "ghost":
            st.ghost[a[0]] = v
        elif k == "gfield":
            setattr(st.ghost[a[0]], a[1], v)


class Ghost:
    """Base class of structured ghost objects whose attributes are loop-analysable one by one."""
    fields = ()

    def copy(self):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        return c


def diff(ex, s0, s1):
    """locations whose value differs between the header state s0 and a back-edge state s1"""
    out = []
    if len(s0.frames) != len(s1.frames):
        raise Unsupported("loop changes the call stack")
    d = len(s0.frames) - 1
    f0, f1 = s0.frames[d], s1.frames[d]
    blk = f0.fn.blocks[f0.block]
    for ins in blk.instrs:
        if ins.op != "phi":
            break
        if not same(f0.regs.get(ins.key), f1.regs.get(ins.key)):
            out.append(Loc("reg", (d, ins.key), ins.ty.w or 64))
    for rid, r0 in s0.mem.items():
        r1 = s1.mem.get(rid)
        if r1 is r0:
            continue
        if r1 is None or not r1.alive:
            if r0.alive:
                raise Unsupported("loop body frees %s" % r0.name)
            continue
        for off, (n, v) in r1.cells.items():
            c = r0.cells.get(off)
            if c is not None and c[0] == n and same(c[1], v):
                continue
            out.append(Loc("cell", (rid, off, n), 8 * n))
        if r1.arr is not None and (r0.arr is None or not same(r0.arr, r1.arr)):
            if r0.arr is None:
                # first access happened inside the loop
                pass
            out.append(Loc("arr", (rid,), 0))
        if r1.views is not None:
            for k, (s, cells) in r1.views.items():
                c0 = r0.views.get(k)
                if c0 is None:
                    continue
                for off, (n, v) in cells.items():
                    c = c0[1].get(off)
                    if c is not None and c[0] == n and same(c[1], v):
                        continue
                    out.append(Loc("view", (rid, k, off, n), 8 * n))
    for k, v1 in s1.ghost.items():
        if k.startswith("_"):
            continue
        v0 = s0.ghost.get(k)
        if v0 is v1:
            continue
        if isinstance(v1, (int, z3.ExprRef)) and not isinstance(v1, bool):
            if v0 is None:
                raise Unsupported("ghost %s created in a loop" % k)
            if not same(v0, v1):
                out.append(Loc("ghost", (k,), 64))
        elif isinstance(v1, Ghost):
            if v0 is None:
                raise Unsupported("ghost %s created in a loop" % k)
            for fl in v1.fields:
                if not same(getattr(v0, fl), getattr(v1, fl)):
                    out.append(Loc("gfield", (k, fl), 64))
        elif isinstance(v1, dict) and isinstance(v0, dict):
            if set(v0) != set(v1) or any(not (v0[x] is v1[x] or v0[x] == v1[x]) for x in v0):
                raise Unsupported("loop changes structured ghost state %s" % k)
        elif isinstance(v1, (list, tuple, set, frozenset)):
            if v0 != v1:
                raise Unsupported("loop changes structured ghost state %s" % k)
    if [c[0] for c in s0.caught] != [c[0] for c in s1.caught]:
        raise Unsupported("loop changes the exception state")
    return out


def width_of(v, dflt):
    if isinstance(v, z3.BitVecRef):
        return v.size()
    return dflt


class Induction:
    def __init__(self, ex, st, header):
        self.ex, self.st, self.header = ex, st, header
        fr = st.frames[-1]
        self.f = fr.fn
        self.depth = len(st.frames)
        self.mod = {}
        self.closed = {}
        self.n = fresh("iter", 64)

    def havoc_value(self, loc, v):
        if isinstance(v, Ptr):
            return Ptr(v.rid, fresh("h_off", 64), v.base)
        if isinstance(v, ARR):
            s = v.sort()
            return fresh_array("h_arr", s.domain().size(), s.range().size())
        if isinstance(v, z3.BoolRef):
            return fresh("h_b", 1)
        if isinstance(v, int) or isinstance(v, z3.BitVecRef):
            w = width_of(v, loc.w)
            return fresh("h_%s" % loc.kind, w)
        raise Unsupported("cannot havoc a value of type %s in a loop" % type(v).__name__)

    def havocked(self, values):
        s = self.st.clone()
        for i, loc in self.mod.items():
            loc.set(self.ex, s, values[i])
        return s

    def body(self, s, mode):
        s.frames[-1].loopstack += (Ctx(self.header, mode, self),)
        return self.ex.run([s])

    def record(self, s):
        ex = self.ex
        ex.recording += 1
        try:
            return [x for x in self.body(s, "record") if x.status == "loopback" and len(x.frames) == self.depth]
        finally:
            ex.recording -= 1

    def apply(self):
        ex, st = self.ex, self.st
        vals0 = {}
        unit_assume = ex.loop_candidates
        # 1. modified set
        for rnd in range(12):
            hv = {}
            for i, loc in self.mod.items():
                hv[i] = self.havoc_value(loc, vals0[i])
            s = self.havocked(hv)
            base = s.clone()
            # unit candidates are assumed during discovery when they hold initially (dropped later if not inductive)
            cands = self.unit_candidates(s, vals0)
            backs = self.record(s)
            new = False
            for b in backs:
                for loc in diff(ex, base, b):
                    if loc.id() not in self.mod:
                        loc2 = loc
                        if loc.kind == "arr" and st.mem[loc.a[0]].arr is None:
                            r = st.region(loc.a[0], True)
                            rb = b.mem[loc.a[0]]
                            r.esz = rb.esz
                            r.arr = fresh_array("arr0", rb.arr.sort().domain().size(), rb.arr.sort().range().size())
                        self.mod[loc2.id()] = loc2
                        vals0[loc2.id()] = loc2.get(ex, st)
                        new = True
            if not new:
                break
        else:
            raise Unsupported("loop: modified set does not stabilise")
        if not backs:
            # the body never comes back: execute it as straight-line code
            st.frames[-1].loopstack += (Ctx(self.header, "final", self),)
            self.vals0, self.forms, self.cands = vals0, {}, []
            return [st]
        # 2. closed forms
        self.vals0 = vals0
        forms = self.find_forms(hv, backs, base)
        # 3. candidates
        while True:
            self.forms = forms
            self.free = {i: self.havoc_value(l, vals0[i]) for i, l in self.mod.items() if i not in forms}
            s = self.at(self.n)
            base = s.clone()
            cands = self.candidates(s, base)
            cands = self.houdini(base, cands)
            # re-check closed forms under the surviving candidates
            s = base.clone()
            for _, c in cands:
                s.assume(c(s, self.n))
            ok = True
            for b in self.record(s):
                for i in list(forms):
                    if not self.form_holds(b, i):
                        del forms[i]
                        ok = False
            if ok:
                break
        self.cands = cands
        # 4. proof step
        s = base
        for _, c in cands:
            s.assume(c(s, self.n))
        s.frames[-1].loopstack += (Ctx(self.header, "final", self),)
        if not ex.recording:
            ex.loops_proved[(ex.unit, self.f.demangled[:120], self.header)] = (
                len(forms), len(self.mod) - len(forms), [nm for nm, _ in cands])
        return [s]

    # -------------------------------------------------------------- closed forms
    def find_forms(self, hv, backs, base):
        ex = self.ex
        forms = {}
        syms = {}
        for i, v in hv.items():
            if isinstance(v, Ptr):
                syms[i] = v.off
            else:
                syms[i] = v
        names = {str(x): i for i, x in syms.items()}

        def mentions(e):
            out = set()
            if not is_sym(e):
                return out
            seen = set()
            stack = [e]
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = str(t)
                    if nm in names:
                        out.add(names[nm])
                    elif nm.split("!")[-1].isdigit() and int(nm.split("!")[-1]) >= self.mark:
                        out.add("<fresh>")
                stack.extend(t.children())
            return out
        self.mark = min([int(str(x).split("!")[-1]) for x in syms.values() if "!" in str(x)] or [1 << 60])
        # scalars
        for i, loc in self.mod.items():
            x = syms[i]
            if isinstance(x, ARR + (z3.BoolRef,)):
                continue
            d = None
            ok = True
            for b in backs:
                v = loc.get(ex, b)
                if isinstance(v, Ptr):
                    if not isinstance(hv[i], Ptr) or v.rid != hv[i].rid:
                        ok = False
                        break
                    v = v.off
                if isinstance(v, (tuple, z3.BoolRef)) or v is None:
                    ok = False
                    break
                w = x.size()
                if is_sym(v) and v.size() != w:
                    ok = False
                    break
                dv = z3.simplify(bv(v, w) - x, som=True)
                if mentions(dv):
                    ok = False
                    break
                if d is None:
                    d = dv
                elif not d.eq(dv):
                    ok = False
                    break
            if ok and d is not None:
                forms[i] = ("lin", d)
        # arrays
        sub = []
        for i in forms:
            v0 = self.vals0[i]
            v0 = v0.off if isinstance(v0, Ptr) else v0
            sub.append(i)

        def at(e, n):
            """substitute closed forms at iteration n"""
            ps = []
            for i in sub:
                w = syms[i].size()
                ps.append((syms[i], self.lin(i, forms[i][1], n, w)))
            return z3.simplify(z3.substitute(e, *ps)) if ps else e
        def array_form(i, loc, backs, at, sub):
            x = syms[i]
            pat = None
            for b in backs:
                v = loc.get(ex, b)
                if z3.is_store(v) and v.arg(0).eq(x):
                    idx, val = v.arg(1), v.arg(2)
                    if pat is None:
                        pat = (idx, val)
                    elif not (pat[0].eq(idx) and pat[1].eq(val)):
                        pat = None
                        break
                else:
                    pat = None
                    break
            if pat is None:
                return None
            idx, val = pat
            if (mentions(idx) | mentions(val)) - sub:
                return None
            dw = idx.size()
            n = self.n
            step = z3.simplify(at(idx, n + 1) - at(idx, n), som=True)
            if not z3.is_bv_value(step) or step.as_long() == 0:
                return None
            mag = step.as_long()
            down = mag >= 1 << (dw - 1)
            if down:
                mag = (1 << dw) - mag
            idx0 = at(idx, z3.BitVecVal(0, 64))
            j = z3.BitVec("j!arr", dw)
            delta = simp(idx0 - j if down else j - idx0)
            hit = None
            if mag != 1:
                M = z3.BitVecVal(mag, dw)
                hit = z3.URem(delta, M) == 0
                delta = z3.UDiv(delta, M)
            jj = z3.ZeroExt(64 - dw, delta) if dw < 64 else delta
            val_j = at(val, jj)
            a0 = self.vals0[i]

            def mk(m, j=j, delta=delta, hit=hit, val_j=val_j, a0=a0, dw=dw, abstract=None):
                mm = z3.Extract(dw - 1, 0, m) if dw < 64 else m
                vj = val_j if abstract is None else abstract(j)
                c = z3.ULT(delta, mm)
                if hit is not None:
                    c = z3.And(hit, c)
                return z3.Lambda([j], z3.If(c, vj, z3.Select(a0, j)))
            return ("arr", mk, dw, lambda e, j=j, val_j=val_j: z3.substitute(val_j, (j, e)))

        for i, loc in self.mod.items():
            if isinstance(syms[i], ARR):
                f = array_form(i, loc, backs, at, set(sub))
                if f is not None:
                    forms[i] = f
        rest = [i for i in self.mod if isinstance(syms[i], ARR) and i not in forms]
        if rest and sub:
            # once more with the locations that have closed forms at their values in iteration n
            s = self.st.clone()
            self.forms = {i: forms[i] for i in sub}
            for i, loc in self.mod.items():
                loc.set(ex, s, self.form_value(i, self.n) if i in self.forms else hv[i])
            backs2 = self.record(s)

            def at2(e, m):
                return z3.simplify(z3.substitute(e, (self.n, m))) if not m.eq(self.n) else e
            for i in rest if backs2 else ():
                f = array_form(i, self.mod[i], backs2, at2, set())
                if f is not None:
                    forms[i] = f
        return forms

    def lin(self, i, d, n, w):
        v0 = self.vals0[i]
        if isinstance(v0, Ptr):
            v0 = v0.off
        nn = n if isinstance(n, z3.ExprRef) else z3.BitVecVal(n, 64)
        if w < 64:
            nn = z3.Extract(w - 1, 0, nn)
        elif w > 64:
            nn = z3.ZeroExt(w - 64, nn)
        return bv(v0, w) + nn * d

    def form_value(self, i, n):
        f = self.forms[i]
        v0 = self.vals0[i]
        if f[0] == "arr":
            return f[1](n)
        if isinstance(v0, Ptr):
            return Ptr(v0.rid, simp(self.lin(i, f[1], n, 64)), v0.base)
        w = f[1].size()
        return simp(self.lin(i, f[1], n, w))

    def at(self, n):
        s = self.st.clone()
        for i, loc in self.mod.items():
            loc.set(self.ex, s, self.form_value(i, n) if i in self.forms else self.free[i])
        return s

    def form_holds(self, b, i):
        ex = self.ex
        loc = self.mod[i]
        v = loc.get(ex, b)
        want = self.form_value(i, self.n + 1)
        if same(v, want):
            return True
        if isinstance(v, Ptr) and isinstance(want, Ptr):
            if v.rid != want.rid:
                return False
            v, want = bv(v.off, 64), bv(want.off, 64)
        if isinstance(v, ARR):
            j = fresh("jchk", v.sort().domain().size())
            f = self.forms[i]
            cur = self.form_value(i, self.n)
            if z3.is_store(v) and v.arg(0).eq(cur):
                # element by element, with the stored values abstracted: they are compared separately
                V = z3.Function("val!%d" % loc_no(), v.sort().domain(), v.sort().range())
                idx, val = v.arg(1), v.arg(2)
                if not poly_equal(ex, b, val, f[3](idx)):
                    return False
                g = z3.Select(z3.Store(f[1](self.n, abstract=V), idx, V(idx)), j) == z3.Select(
                    f[1](self.n + 1, abstract=V), j)
                return ex.valid(b, g)
            return ex.valid(b, z3.Select(v, j) == z3.Select(want, j))
        if isinstance(v, (int, z3.BitVecRef)):
            w = want.size() if is_sym(want) else width_of(v, loc.w)
            e = z3.simplify(bv(v, w) - bv(want, w), som=True)
            if z3.is_bv_value(e):
                return e.as_long() == 0 or ex.valid(b, z3.BoolVal(False))
            return ex.valid(b, bv(v, w) == bv(want, w))
        return False

    def inductive(self, st):
        """called on every back edge of the proof run"""
        ex = self.ex
        if len(st.frames) != self.depth:
            raise Unsupported("loop rule: unbalanced frames")
        for loc in diff(ex, self.st, st):
            if loc.id() not in self.mod:
                raise Unsupported("loop rule: unexpected modification %s" % (loc.id(),))
        for i in self.forms:
            if not self.form_holds(st, i):
                raise Unsupported("loop rule: closed form of %s is not inductive" % (i,))
        for nm, c in self.cands:
            if not ex.valid(st, c(st, self.n + 1)):
                raise Unsupported("loop rule: candidate %s is not inductive" % nm)

    # -------------------------------------------------------------- candidates
    def unit_candidates(self, s, vals0):
        return []

    def candidates(self, s, base):
        """[(name, fn(state, n) -> Bool)]"""
        ex = self.ex
        out = []
        if ex.loop_candidates is not None:
            ex.loop_entry = self.st
            out.extend((nm, (lambda st, n, fn=fn: fn(ex, st))) for nm, fn in ex.loop_candidates(ex, base))
        # guard-derived bounds on n
        n0 = len(base.pc)
        seen = set()
        probe = base.clone()
        for b in self.record(probe):
            for c in b.pc[n0:]:
                for t in conjuncts(c):
                    k = t.sexpr()
                    if k in seen:
                        continue
                    seen.add(k)
                    out.extend(self.guard_candidates(t))
        # equalities between equally wide small locations (a local caching a shared value)
        small = [(i, l) for i, l in self.mod.items() if l.kind in ("cell", "gfield", "ghost", "reg")]
        if len(small) <= 24:
            for x in range(len(small)):
                for y in range(x + 1, len(small)):
                    la, lb = small[x][1], small[y][1]
                    va, vb = la.get(ex, self.st), lb.get(ex, self.st)
                    if isinstance(va, Ptr) or isinstance(vb, Ptr) or va is None or vb is None:
                        continue
                    if isinstance(va, (tuple, z3.BoolRef) + ARR) or isinstance(vb, (tuple, z3.BoolRef) + ARR):
                        continue
                    wa, wb = width_of(va, la.w), width_of(vb, lb.w)
                    if wa != wb:
                        continue
                    if not same(va, vb):
                        continue
                    out.append(("eq", (lambda st, n, la=la, lb=lb, w=wa: bv(la.get(ex, st), w) == bv(lb.get(ex, st), w))))
        return out

    def guard_candidates(self, t):
        """from an atom a != u, a < u ... with a = v0 + n*d (d = +-1 or a constant): n <= distance"""
        out = []
        neg = False
        if z3.is_not(t):
            t = t.arg(0)
            neg = True
        if not (z3.is_app(t) and t.num_args() == 2 and z3.is_bv(t.arg(0))):
            return out
        n = self.n
        nm = str(n)
        for a, u in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
            if mentions_name(u, nm) or not mentions_name(a, nm):
                # also handle guards of the form  expr(n) == const with both sides mixed
                if not (mentions_name(a, nm) and not mentions_name(u, nm)):
                    continue
            w = a.size()
            if w > 64:
                continue
            a0 = z3.substitute(a, (n, z3.BitVecVal(0, 64)))
            a1 = z3.substitute(a, (n, n + 1))
            d = z3.simplify(a1 - a, som=True)
            if not z3.is_bv_value(d):
                # a stride that is a loop-invariant term
                if mentions_name(d, nm):
                    continue
                q = quotient(z3.simplify(u - a0, som=True), d)
                if q is not None:
                    out.append(("bound", self.bound(q)))
                continue
            dv = d.as_long()
            if dv == 0:
                continue
            if dv >= 1 << (w - 1):
                dist, mag = a0 - u, (1 << w) - dv
            else:
                dist, mag = u - a0, dv
            dist = z3.simplify(dist, som=True)
            if mag == 1:
                q = dist
            else:
                q = quotient(dist, z3.BitVecVal(mag, w))
                if q is None:
                    q = z3.UDiv(dist, z3.BitVecVal(mag, w))
            out.append(("bound", self.bound(q)))
        return out

    def bound(self, q):
        w = q.size()
        Q = z3.ZeroExt(64 - w, q) if w < 64 else q
        return lambda st, n: z3.ULE(n, Q)

    def houdini(self, base, cands):
        ex = self.ex
        # initially
        s0 = self.at(z3.BitVecVal(0, 64))
        for i in self.mod:
            if i not in self.forms:
                self.mod[i].set(ex, s0, self.vals0[i])
        keep = [(nm, c) for nm, c in cands if ex.valid(s0, c(s0, z3.BitVecVal(0, 64)))]
        while keep:
            s = base.clone()
            for _, c in keep:
                s.assume(c(s, self.n))
            backs = self.record(s)
            nxt = []
            for nm, c in keep:
                if all(ex.valid(b, c(b, self.n + 1)) for b in backs):
                    nxt.append((nm, c))
            if len(nxt) == len(keep):
                break
            keep = nxt
        return keep


_loc = [0]


def loc_no():
    _loc[0] += 1
    return _loc[0]


def poly_equal(ex, st, a, b):
    """a == b, by normal form if possible"""
    if a.sort() == b.sort() and z3.is_bv(a) and a.size() == 64:
        from poly import poly
        if (poly(a) - poly(b)).is_zero():
            return True
    return ex.valid(st, a == b)


def quotient(e, d):
    """q with e == q*d syntactically, or None"""
    e = z3.simplify(e, som=True)
    w = e.size()
    if e.eq(d):
        return z3.BitVecVal(1, w)
    if z3.is_app_of(e, z3.Z3_OP_BMUL):
        ch = e.children()
        for k, c in enumerate(ch):
            if c.eq(d):
                rest = ch[:k] + ch[k + 1:]
                q = rest[0]
                for r in rest[1:]:
                    q = q * r
                return q
    if z3.is_bv_value(e) and z3.is_bv_value(d) and d.as_long() and e.as_long() % d.as_long() == 0:
        return z3.BitVecVal(e.as_long() // d.as_long(), w)
    if z3.is_app_of(e, z3.Z3_OP_CONCAT) and z3.is_bv_value(d):
        ch = e.children()
        z = ch[-1]
        if z3.is_bv_value(z) and z.as_long() == 0 and d.as_long() == 1 << z.size():
            hi = ch[:-1]
            h = hi[0] if len(hi) == 1 else z3.Concat(*hi)
            return z3.ZeroExt(z.size(), h)
    return None


def mentions_name(e, nm):
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(t) == nm:
            return True
        stack.extend(t.children())
    return False


def conjuncts(c):
    if z3.is_and(c):
        for x in c.children():
            yield from conjuncts(x)
    else:
        yield c
