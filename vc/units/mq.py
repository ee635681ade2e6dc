"""MessageQueue: C15-C19 and the message part of C10, over the contract of RingBufferGuarded (C08, C09).

Construction is executed in full (over the contracts of RingBufferSimple and Semaphore).  The operations are executed for
an arbitrary queue in use: every block of the arena is a memory region of its own, owned by the raw ring, by the cooked
ring together with the message living on it, or by one running call.  Other threads act between any two shared steps."""
import copy
import re
import z3
from llvm import Unsupported
from loops import Ghost
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv
from stubs import throw
from units.base import *
from units.contracts import RingSimple, SemContract, Blocks, count, is_zero, obj_key
from units.sem import mutex_keys

HARNESS = ["h_sem.cpp", "h_mq.cpp"]
ALL = ("C15", "C16", "C17", "C18", "C19")
MEM = ("C10", "C15", "C16", "C19")
KIND = {"VMsg": 1, "VMMulti": 2, "VMBig": 3, "VMNoexc": 4}
RBG_RX = re.compile(r"^ReiserRT::Core::RingBufferGuarded(?:Base)?<.*>::(get|put|abort|flush|prime)\(")


def T(c):
    return c if isinstance(c, z3.BoolRef) else z3.BoolVal(bool(c))


class GM(Ghost):
    """rawgets/cookgets: blocks taken by this call; enq: messages enqueued by it; disp: messages dispatched by it;
    debt: what this call currently contributes to the running count beyond the enqueued messages"""
    fields = ("rawgets", "cookgets", "rawputs", "enq", "disp", "debt", "threw", "flushed", "left")

    def __init__(self):
        for f in self.fields:
            setattr(self, f, 0)


class Q:
    """one queue under verification and the model of its surroundings"""

    def __init__(self, ex, lock, args=None):
        self.ex, self.lock = ex, lock
        self.mode = "op"
        self.seq = None

    # ------------------------------------------------------------------ construction
    def install(self):
        ex = self.ex
        ex.crash_prop, ex.terminate_prop = MEM, ("C19",)
        ex.contract_rx = []
        RingSimple().install(ex)
        SemContract().install(ex)
        ex.contract_rx.insert(0, (RBG_RX, self.rbg))
        S = ex.stub_exact
        S["v_mctor"], S["v_mmove"], S["v_mdtor"] = self.v_mctor, self.v_mmove, self.v_mdtor
        S["v_mctor_n"] = lambda *a: [x for x in self.v_mctor(*a) if x[0] != "exc"]
        S["v_mmove_n"] = lambda *a: [x for x in self.v_mmove(*a) if x[0] != "exc"]
        S["v_dispatch"], S["v_name"], S["v_wake"] = self.v_dispatch, self.v_name, self.v_wake
        ex._stub_cache.clear()
        ex.access_hook = None
        ex.loop_candidates = None
        ex.hook_delete = None

    def start(self):
        st = State()
        f = z3.BoolVal(False)
        st.ghost.update({"exclusive": True, "mq": GM(), "blocks": {}, "objs": {}, "base": {}, "begun": f, "tr": f, "tc": f,
                         "held": frozenset()})
        return st

    def construct(self, fn="h_mq_new"):
        ex = self.ex
        self.install()
        st = self.start()
        self.n, self.e = fresh("requestedNumElements"), fresh("elementSize")
        inputs(st, requestedNumElements=self.n, elementSize=self.e, dispatchLocking=self.lock)
        st.assume(z3.And(z3.UGE(self.n, 1), z3.ULE(self.n, 1 << 20), z3.UGE(self.e, 1), z3.ULE(self.e, 1 << 40)))
        args = [self.n, self.e] + ([self.lock] if fn == "h_mq_new" else [])
        return ex.run_function(st, fn, args)

    def run1(self, s, fn, args, what):
        r = [x for x in self.ex.run_function(s, fn, args) if x.status == "ret"]
        if len(r) != 1:
            raise Unsupported("%s has %d outcomes" % (what, len(r)))
        return r[0]

    def quiet(self, s):
        """a copy of s from which side computations can start"""
        t = s.clone()
        t.frames, t.caught = [], []
        t.status = "run"
        t.ghost["exclusive"] = True
        t.ghost["quiet"] = True
        return t

    def templates(self, fn="h_mq_new"):
        """-> for each outcome of construction: the queue and its state"""
        ex = self.ex
        saved, ex.props = ex.props, frozenset()
        out = [s for s in self.construct(fn) if s.status == "ret"]
        ex.props = saved
        if not out:
            raise Unsupported("construction fails")
        for s in out:
            q = copy.copy(self)
            q.install()
            q.obj = s.ret
            reset(s)
            q.P = wide(q.run1(q.quiet(s), "h_mq_esize", [q.obj], "getElementSize").ret)
            q.find_rings(s)
            yield q, s

    def find_rings(self, s):
        rings = [(k, r) for k, r in s.ghost.items() if k.startswith("ring:")]
        if len(rings) != 2:
            raise Unsupported("message queue with %d ring buffers" % len(rings))
        empty = [self.ex.valid(s, wide(r.p) == wide(r.g)) for k, r in rings]
        if sorted(empty) != [False, True]:
            raise Unsupported("cannot tell the raw from the cooked ring")
        (rk, self.rawring), (ck, self.cookedring) = [x for _, x in sorted(zip(empty, rings), key=lambda x: x[0])]
        self.raw, self.cooked = tuple(map(int, rk.split(":")[1:])), tuple(map(int, ck.split(":")[1:]))

    def sem_of(self, s, ring):
        """the semaphore that belongs to a ring: the one at the next higher address"""
        c = sorted(k for k in (tuple(map(int, k.split(":")[1:])) for k in s.ghost if k.startswith("semc:"))
                   if k[0] == ring[0] and k[1] > ring[1])
        return s.ghost["semc:%d:%d" % c[0]] if c else None

    def probe_layout(self, s):
        """sizes of the message types and the places of their message base"""
        self.size, self.baseoff = {}, {}
        for D, k in KIND.items():
            t = self.quiet(s)
            self.size[k] = self.run1(t, "h_msg_size_" + D, [], D).ret
            t = self.quiet(s)
            r = self.ex.new_region(t, "probe", "heap", 1024)
            x = self.run1(t, "h_msg_make_" + D, [self.ex.ptr(r)], D)
            self.baseoff[k] = x.ret.off

    def prepare(self, s, aborted=False):
        """turn the constructed queue into an arbitrary one in use"""
        ex = self.ex
        saved, ex.props = ex.props, frozenset()
        self.probe_layout(s)
        heap = {r.id for r in s.mem.values() if r.kind == "heap" and r.alive and not is_sym(r.size)}
        self.shared = heap

        def atomics(fn, args):
            seen = {}

            def hook(e, st, r, off, n, write, atomic):
                if atomic and isinstance(off, int) and r.id in heap:
                    seen[(r.id, off)] = (r.id, off, n)
            old, ex.access_hook = ex.access_hook, hook
            t = self.quiet(s)
            outs = ex.run_function(t, fn, [self.obj] + args(t))
            ex.access_hook = old
            return seen, outs
        sc, _ = atomics("h_mq_stats", lambda t: [ex.ptr(ex.new_region(t, "stats", "heap", 24))])
        nc, _ = atomics("h_mq_name", lambda t: [])
        if not sc:
            raise Unsupported("the running state is not atomic")
        if len(nc) != 1:
            raise Unsupported("the name of the last message is not one atomic")
        self.namecell = list(nc.values())[0]
        self.cells = {k: fresh("cell%d" % k[1], 8 * v[2]) for k, v in sc.items()}
        self.cellsz = {k: v[2] for k, v in sc.items()}
        # other atomic cells of the queue object: those that abort() sets
        ac, outs = atomics("h_mq_abort", lambda t: [])
        rings = [self.raw, self.cooked]
        self.flags = {}
        for k, v in ac.items():
            if k in sc or k in nc or self.in_ring(s, k):
                continue
            r0 = s.mem[k[0]].cells.get(k[1])
            vals = {o.mem[k[0]].cells[k[1]][1] for o in outs if o.status == "ret"}
            if r0 is None or len(vals) != 1 or not isinstance(r0[1], int):
                raise Unsupported("abort flag")
            self.flags[k] = (v[2], r0[1], vals.pop())
        # statistics as functions of the cells
        t = self.quiet(s)
        for k, sym in self.cells.items():
            ex.write_cells(t.region(k[0], True).cells, k[1], self.cellsz[k], sym)
        rs = self.stats(t)
        if len(rs) != 1 or rs[0][1] is None:
            raise Unsupported("getRunningStateStatistics branches on the state")
        _, (self.sz, self.run, self.high) = rs[0]
        # which mutex is the dispatch lock
        self.mutex = None
        if self.lock:
            t = self.quiet(s)
            lk = ex.new_region(t, "lock", "heap", self.run1(self.quiet(s), "h_lock_size", [], "lock").ret)
            outs = [x for x in ex.run_function(t, "h_lock_get", [self.obj, ex.ptr(lk)]) if x.status == "ret"]
            if len(outs) == 1 and len(outs[0].ghost["held"]) == 1:
                self.mutex = list(outs[0].ghost["held"])[0]
        # the state of a queue in use
        s.ghost["exclusive"] = False
        s.ghost["mq"] = GM()
        fl = (lambda n: z3.BoolVal(True)) if aborted else (lambda n: fresh(n, 1))
        b, r, c = fl("begun"), fl("rawAborted"), fl("cookedAborted")
        s.assume(z3.Implies(z3.Or(r, c), b))
        s.ghost.update({"begun": b, "tr": r, "tc": c})
        inputs(s, abortStarted=b, abortCompleted=aborted)
        self.tr0, self.tc0, self.b0 = r, c, b
        for k, (n, v0, v1) in self.flags.items():
            v = v1 if aborted else fresh("flag", 8 * n)
            if not aborted:
                s.assume(z3.Or(v == v0, z3.And(b, v == v1)))
            ex.write_cells(s.region(k[0], True).cells, k[1], n, v)
        for k, sym in self.cells.items():
            ex.write_cells(s.region(k[0], True).cells, k[1], self.cellsz[k], fresh("state", sym.size()))
        nm = ex.new_region(s, "name of an earlier message", "global", 8)
        self.name0 = ex.ptr(nm)
        k = self.namecell
        ex.write_cells(s.region(k[0], True).cells, k[1], k[2], self.name0)
        at = {k: StatCell(self, k) for k in self.cells}
        at.update({k: FlagCell(self, k) for k in self.flags})
        s.ghost["atomics"] = at
        s.assume(self.inv(s))
        ex.access_hook = self.access
        ex.loop_candidates = self.candidates
        ex.props = saved
        return s

    def in_ring(self, s, k):
        """atomics that belong to the guarded ring buffers: after the ring of that buffer, before its end"""
        for ring in (self.raw, self.cooked):
            if k[0] == ring[0] and k[1] > ring[1]:
                nxt = [o for o in (self.raw, self.cooked) if o[0] == ring[0] and o[1] > ring[1]]
                end = min(nxt)[1] if nxt else ring[1] + (self.cooked[1] - self.raw[1] if self.cooked[0] == self.raw[0] else 64)
                if k[1] < max(end, ring[1] + abs(self.cooked[1] - self.raw[1])):
                    return True
        return False

    def candidates(self, ex, base):
        out = []
        entry = ex.loop_entry
        for k in ("begun", "tr", "tc"):
            out.append((k + " stays", lambda e, st, k=k: z3.Implies(entry.ghost[k], st.ghost[k])))
            out.append((k + " off", lambda e, st, k=k: z3.Not(st.ghost[k])))
        out.append(("nothing owed", lambda e, st: wide(st.ghost["mq"].debt) == 0))
        out.append(("terminal only after abort", lambda e, st: z3.Implies(z3.Or(st.ghost["tr"], st.ghost["tc"]), st.ghost["begun"])))
        out.append(("statistics invariant", lambda e, st: self.inv(st)))
        for k, (n, v0, v1) in self.flags.items():
            def c(e, st, k=k, n=n, v0=v0, v1=v1):
                r = st.region(k[0], True)
                v = bv(e.read_cells(r, r.cells, k[1], n, False), 8 * n)
                return z3.Or(v == v0, z3.And(st.ghost["begun"], v == v1))
            out.append(("abort flag", c))
        if self.seq is not None:
            out.append(("messages taken", lambda e, st: wide(st.ghost["mq"].left) + wide(st.ghost["mq"].cookgets) == self.seq))
            out.append(("messages left", lambda e, st: z3.ULE(wide(st.ghost["mq"].left), self.seq)))
        return out

    # ------------------------------------------------------------------ interference
    def evolve(self, st):
        if st.ghost.get("exclusive") or self.mode == "alone":
            return
        g = st.ghost
        for k in ("begun", "tr", "tc"):
            if z3.is_true(g[k]):
                continue
            f = fresh(k, 1)
            st.assume(z3.Implies(g[k], f))
            g[k] = f
        st.assume(z3.Implies(z3.Or(g["tr"], g["tc"]), g["begun"]))

    def hand(self, st):
        return len(st.ghost["blocks"])

    def point(self, st, what):
        g = st.ghost["mq"]
        self.ex.oblige(st, "C18", "the running count never falls below the enqueued messages nor exceeds the outstanding ones (%s)" % what,
                       z3.ULE(wide(g.debt), self.hand(st)))

    def values(self, st, override=None):
        sub = []
        for k, sym in self.cells.items():
            if override is not None and k == override[0]:
                v = override[1]
            else:
                r = st.region(k[0], True)
                v = self.ex.read_cells(r, r.cells, k[1], self.cellsz[k], False)
            sub.append((sym, bv(v, sym.size())))
        f = lambda e: z3.simplify(z3.substitute(bv(e, 64), *sub)) if is_sym(e) else bv(e, 64)
        return f(self.run), f(self.high)

    def inv(self, st):
        g = st.ghost["mq"]
        run, high = self.values(st)
        d = wide(g.debt)
        c = z3.And(z3.ULE(run, high), z3.ULE(high, self.n), z3.ULE(run, self.n - self.hand(st) + d), z3.UGE(run, d))
        if self.seq is not None:
            # nobody else is using the queue
            c = z3.And(c, run == wide(g.left) + d)
        return c

    def stats(self, st):
        ex = self.ex
        buf = ex.new_region(st, "stats", "heap", 24)
        out = []
        for x in ex.run_function(st, "h_mq_stats", [self.obj, ex.ptr(buf)]):
            if x.status != "ret":
                out.append((x, None))
                continue
            r = x.region(buf.id, True)
            out.append((x, [bv(ex.read_cells(r, r.cells, 8 * i, 8, False), 64) for i in range(3)]))
        return out

    def access(self, ex, st, r, off, n, write, atomic):
        if r.id not in self.shared or atomic or not isinstance(off, int) or st.ghost.get("exclusive"):
            return
        for k in list(self.cells) + [self.namecell[:2]]:
            if k[0] == r.id and k[1] < off + n and off < k[1] + 8:
                ex.oblige(st, ("C18",) if k in self.cells else ("C19",), "the running state and the name are only accessed atomically", False)

    # ------------------------------------------------------------------ events of the messages
    def block(self, st, rid):
        return rid in st.ghost["blocks"]

    def user(self, st, tag):
        """user code may throw and takes time"""
        self.evolve(st)
        out = []
        for ti, size in USER_EXCS + [(SEM_ABORTED, 16)]:
            s = st.clone()
            s.ghost["mq"].threw = 1
            s.ghost["thrower"] = tag
            out.append(throw_user(self.ex, s, ti, size, tag))
        return out

    def made(self, ex, st, p, kind, ident):
        k = (p.rid, p.off, kind)
        d = dict(st.ghost["objs"])
        ex.oblige(st, ("C16",), "a message is constructed once only", k not in d)
        if self.block(st, p.rid) and not st.ghost.get("quiet"):
            ex.oblige(st, ("C10", "C15"), "a message starts at the start of its block", isinstance(p.off, int) and p.off == 0)
            ex.oblige(st, ("C10",), "every byte of the storage is zero before a message is constructed on it", is_zero(st, p.rid))
        if st.status != "run":
            return [("run", st)]
        out = [] if st.ghost.get("quiet") else self.user(st, "ctor")
        d[k] = ident
        st.ghost["objs"] = d
        out.append(("ret", st, None))
        return out

    def v_mctor(self, ex, st, a, n):
        if not isinstance(a[0], Ptr):
            ex.crash(st, "construction on an invalid address")
            return [("run", st)]
        return self.made(ex, st, a[0], a[1], ("arg", a[2]))

    def v_mmove(self, ex, st, a, n):
        if not isinstance(a[0], Ptr) or not isinstance(a[2], Ptr):
            ex.crash(st, "construction on an invalid address")
            return [("run", st)]
        src = (a[2].rid, a[2].off, a[1])
        ex.oblige(st, ("C15", "C16"), "a message is moved from a live message", src in st.ghost["objs"])
        if st.status != "run":
            return [("run", st)]
        return self.made(ex, st, a[0], a[1], st.ghost["objs"][src])

    def v_mdtor(self, ex, st, a, n):
        if not isinstance(a[0], Ptr):
            ex.crash(st, "destruction of an invalid object")
            return [("run", st)]
        k = (a[0].rid, a[0].off, a[1])
        d = dict(st.ghost["objs"])
        ex.oblige(st, ("C16",), "a message is destroyed once only, and only if it was constructed", k in d)
        if st.status != "run":
            return [("run", st)]
        d.pop(k, None)
        st.ghost["objs"] = d
        return [("ret", st, None)]

    def v_name(self, ex, st, a, n):
        k = "_name:%d" % a[0].rid
        r = st.ghost.get(k)
        if r is None:
            r = st.ghost[k] = ex.new_region(st, "name", "global", 8).id
        if st.ghost.get("quiet"):
            return ex.ptr(st.mem[r])
        out = self.user(st, "name")
        out.append(("ret", st, ex.ptr(st.mem[r])))
        return out

    def v_dispatch(self, ex, st, a, n):
        g = st.ghost["mq"]
        if not isinstance(a[0], Ptr):
            ex.crash(st, "dispatch of an invalid message")
            return [("run", st)]
        k = (a[0].rid, a[0].off, a[1])
        ex.oblige(st, ("C15", "C16"), "what is dispatched is a live message taken from the queue",
                  k in st.ghost["objs"] and k[0] in st.ghost["blocks"])
        if st.status != "run":
            return [("run", st)]
        ex.reach(st, "message dispatched")
        ex.oblige(st, ("C15",), "a message is dispatched only while its storage is still outstanding", k[0] in st.ghost["blocks"])
        held = frozenset(st.ghost["held"])
        if self.lock:
            ex.oblige(st, ("C17",), "dispatch runs with the dispatch lock held", self.mutex is not None and self.mutex in held)
        else:
            ex.oblige(st, ("C17",), "without dispatch locking dispatch takes no lock", not held)
        ex.oblige(st, ("C19",), "abort ends dispatching: nothing is dispatched after it", z3.Not(T(self.tc0)))
        self.check_name(st, k[0], "while it is dispatched")
        if st.status != "run":
            return [("run", st)]
        g.disp = simp(wide(g.disp) + 1)
        out = self.user(st, "dispatch")
        out.append(("ret", st, None))
        return out

    def check_name(self, st, rid, when):
        ex = self.ex
        nk = st.ghost.get("_name:%d" % rid)
        for x in ex.run_function(self.quiet(st), "h_mq_name", [self.obj]):
            ex.oblige(x, ("C19",), "the name of the last message dispatched is that of this message (%s)" % when,
                      x.status == "ret" and isinstance(x.ret, Ptr) and nk is not None and x.ret.rid == nk and x.ret.off == 0)

    def v_wake(self, ex, st, a, n):
        g = st.ghost["mq"]
        ex.reach(st, "wake-up functor called")
        st.ghost["woken"] = st.ghost.get("woken", 0) + 1
        out = self.user(st, "wake")
        out.append(("ret", st, None))
        return out

    # ------------------------------------------------------------------ contract of the guarded ring buffers
    def rbg(self, ex, st, a, fname):
        if st.ghost.get("exclusive"):
            ex.push(st, ex.mod.fn(fname), a)
            return None
        op = RBG_RX.match(ex.mod.demangle(fname)).group(1)
        k = obj_key(a[0])
        which = "raw" if k == self.raw else "cooked" if k == self.cooked else None
        if which is None:
            raise Unsupported("call on an unknown guarded ring buffer")
        count(ex, "RingBufferGuarded::%s (%s)" % (op, which))
        self.evolve(st)
        return getattr(self, which + "_" + op)(ex, st, a)

    def aborted(self, ex, st, t, ret=()):
        """outcomes once the ring is terminal"""
        s = st.clone()
        s.assume(s.ghost[t])
        if not ex.feasible(s):
            return []
        out = [throw(ex, s.clone(), SEM_ABORTED)]
        for r in ret:
            if r == "state":
                out.append(throw(ex, s.clone(), RB_STATE))
            else:
                out.append(("ret", s.clone(), r))
        return out

    def new_block(self, ex, st):
        m, ex.sym_mode = ex.sym_mode, "bytes"
        r = ex.new_region(st, "block", "block", self.P)
        ex.sym_mode = m
        b = dict(st.ghost["blocks"])
        b[r.id] = True
        st.ghost["blocks"] = b
        return r

    def raw_get(self, ex, st, a):
        out = self.aborted(ex, st, "tr", ("state",))
        st.assume(z3.Not(st.ghost["tr"]))
        if ex.feasible(st):
            ex.oblige(st, ("C15",), "only one free block is taken for a message", st.ghost["mq"].rawgets == 0)
            r = self.new_block(ex, st)
            g = st.ghost["mq"]
            g.rawgets = simp(wide(g.rawgets) + 1)
            self.point(st, "after a block was taken")
            out.append(("ret", st, ex.ptr(r)))
        return out

    def drop_block(self, ex, st, p):
        ok = isinstance(p, Ptr) and p.rid in st.ghost["blocks"] and isinstance(p.off, int) and p.off == 0
        ex.oblige(st, ("C16", "C10"), "what is made available again is the address of a block taken from the queue, once only", ok)
        if st.status != "run":
            return False
        if not ok:
            st.status = "cut"
            return False
        ex.oblige(st, ("C16",), "no message is alive on a block that is made available again",
                  not [k for k in st.ghost["objs"] if k[0] == p.rid])
        return st.status == "run"

    def gone(self, st, rid):
        b = dict(st.ghost["blocks"])
        del b[rid]
        st.ghost["blocks"] = b
        st.region(rid, True).alive = False

    def raw_put(self, ex, st, a):
        if not self.drop_block(ex, st, a[1]):
            return [("run", st)]
        self.gone(st, a[1].rid)
        g = st.ghost["mq"]
        g.rawputs = simp(wide(g.rawputs) + 1)
        self.point(st, "after a block was made available again")
        out = self.aborted(ex, st, "tr", (0, "state"))
        st.assume(z3.Not(st.ghost["tr"]))
        if ex.feasible(st):
            out.append(("ret", st, 1))
        return out

    def message_at(self, st, p):
        """the complete message whose message base is at p"""
        if not isinstance(p, Ptr):
            return None
        for (rid, off, kind), ident in st.ghost["objs"].items():
            if rid == p.rid and isinstance(p.off, int) and off + self.baseoff[kind] == p.off:
                return (rid, off, kind)
        return None

    def cooked_put(self, ex, st, a):
        m = self.message_at(st, a[1])
        ex.oblige(st, ("C15", "C16"), "what is enqueued is a complete message on a block taken for it",
                  m is not None and m[0] in st.ghost["blocks"])
        if st.status != "run":
            return [("run", st)]
        if m is None:
            st.status = "cut"
            return [("run", st)]
        out = self.aborted(ex, st, "tc", (0, "state"))
        st.assume(z3.Not(st.ghost["tc"]))
        if not ex.feasible(st):
            return out
        g = st.ghost["mq"]
        st.ghost["sent"] = st.ghost["objs"][m]
        d = dict(st.ghost["objs"])
        del d[m]
        st.ghost["objs"] = d
        g.enq = simp(wide(g.enq) + 1)
        g.debt = simp(wide(g.debt) - 1)
        self.gone(st, m[0])
        ex.oblige(st, ("C15", "C19"), "nothing is enqueued once abort has completed", z3.Not(T(self.tc0)))
        self.point(st, "after a message was enqueued")
        out.append(("ret", st, 1))
        return out

    def place(self, ex, st, D, cont):
        """a block with a live message of type D, as another thread left it; cont(ex, st, p) -> outcomes"""
        k = KIND[D]
        st.assume(z3.UGE(self.P, self.size[k]))
        if not ex.feasible(st):
            return []
        r = self.new_block(ex, st)
        ex_, q = st.ghost.get("exclusive"), st.ghost.get("quiet")
        st.ghost["exclusive"] = st.ghost["quiet"] = True

        def done(e, t, v):
            t.ghost["exclusive"], t.ghost["quiet"] = ex_, q
            return cont(e, t, v)

        def failed(e, t, exc):
            raise Unsupported("construction of a harness message throws")
        return ex.call_back(st, "h_msg_make_" + D, [ex.ptr(r)], done, failed, "message in the queue")

    def cooked_get(self, ex, st, a):
        out = self.aborted(ex, st, "tc", ("state",))
        st.assume(z3.Not(st.ghost["tc"]))
        g = st.ghost["mq"]
        if self.mode == "dtor":
            ex.oblige(st, ("C16", "C19"), "destruction does not wait for messages", False)
        if self.mode != "purge":
            ex.oblige(st, ("C15",), "each call takes one message only", g.cookgets == 0)
        if self.seq is not None and st.status == "run":
            ex.oblige(st, ("C15", "C19"), "purge takes only messages that are there", wide(g.left) != 0)
            g.left = simp(wide(g.left) - 1)
        if st.status != "run" or not ex.feasible(st):
            return out
        for D in ("VMsg", "VMMulti"):
            s = st.clone()
            h = s.ghost["mq"]
            h.cookgets = simp(wide(h.cookgets) + 1)
            h.debt = simp(wide(h.debt) + 1)

            def got(e, t, v):
                self.point(t, "after a message was taken")
                return [("ret", t, v)] if t.status == "run" else [("run", t)]
            out.extend(self.place(ex, s, D, got))
        return out

    def raw_abort(self, ex, st, a):
        return self.do_abort(st, "tr")

    def cooked_abort(self, ex, st, a):
        return self.do_abort(st, "tc")

    def do_abort(self, st, k):
        self.ex.oblige(st, ("C15", "C19"), "only abort and destruction abort the ring buffers", self.mode in ("abort", "dtor"))
        st.ghost[k] = z3.BoolVal(True)
        st.ghost["begun"] = z3.BoolVal(True)
        return [("ret", st, None)]

    def raw_prime(self, ex, st, a):
        raise Unsupported("priming of a queue in use")
    cooked_prime = raw_prime

    def raw_flush(self, ex, st, a):
        ex.oblige(st, ("C16",), "free blocks hold no messages to flush", False)
        return [("ret", st, None)]

    def cooked_flush(self, ex, st, a):
        """calls the functor once for every message still enqueued (C09): an arbitrary one of them is followed"""
        g = st.ghost["mq"]
        ex.oblige(st, ("C16", "C19"), "only an aborted ring buffer is flushed", st.ghost["tc"])
        ex.oblige(st, ("C16",), "a queue is flushed by its destruction only", self.mode == "dtor")
        if st.status != "run":
            return [("run", st)]
        g.flushed = 1
        out = [("ret", st.clone(), None)]
        for D in ("VMsg", "VMMulti"):
            s = st.clone()

            def call(e, t, v):
                rid = v.rid

                def done(e2, u, _):
                    e2.reach(u, "a message still enqueued is flushed")
                    e2.oblige(u, ("C16",), "destruction of the queue destroys a message still enqueued",
                              not [k for k in u.ghost["objs"] if k[0] == rid])
                    if u.status != "run":
                        return [("run", u)]
                    self.gone(u, rid)
                    return [("ret", u, None)]

                def failed(e2, u, exc):
                    e2.oblige(u, ("C16", "C19"), "flushing a message does not throw", False)
                    return [("run", u)]
                return e.call_back(t, "h_fn_flush", [a[1], v], done, failed, "flush")
            out.extend(self.place(ex, s, D, call))
        return out


class StatCell:
    def __init__(self, q, key):
        self.q, self.key = q, key

    def interfere(self, ex, st, cur, kind):
        q = self.q
        if st.ghost.get("exclusive"):
            return cur
        q.point(st, "at an atomic access")
        q.evolve(st)
        if q.seq is not None:
            return cur
        val = None
        for k, sym in q.cells.items():
            f = fresh("state", sym.size())
            ex.write_cells(st.region(k[0], True).cells, k[1], q.cellsz[k], f)
            if k == self.key:
                val = f
        st.assume(q.inv(st))
        return val

    def observed(self, ex, st, cur, order):
        pass

    def commit(self, ex, st, cur, new, kind, order):
        q = self.q
        if st.ghost.get("exclusive"):
            return
        g = st.ghost["mq"]
        run0, high0 = q.values(st)
        run1, high1 = q.values(st, (self.key, new))
        g.debt = simp(wide(g.debt) + run1 - run0)
        q.point(st, "after an update")
        ex.oblige(st, "C18", "each update keeps the high watermark the maximum of all running counts",
                  high1 == z3.If(z3.UGT(run1, high0), run1, high0))


class FlagCell:
    def __init__(self, q, key):
        self.q, self.key = q, key

    def interfere(self, ex, st, cur, kind):
        q = self.q
        if st.ghost.get("exclusive") or q.mode == "alone":
            return cur
        q.evolve(st)
        n, v0, v1 = q.flags[self.key]
        f = fresh("flag", 8 * n)
        st.assume(z3.Or(f == v0, z3.And(st.ghost["begun"], f == v1)))
        st.assume(z3.Implies(bv(cur, 8 * n) == v1, f == v1))
        return f

    def observed(self, ex, st, cur, order):
        pass

    def commit(self, ex, st, cur, new, kind, order):
        q = self.q
        if st.ghost.get("exclusive"):
            return
        n, v0, v1 = q.flags[self.key]
        same = bv(cur, 8 * n) == bv(new, 8 * n)
        to = bv(new, 8 * n) == v1
        ex.oblige(st, ("C15", "C19"), "only abort sets the abort flag, and nothing clears it",
                  z3.Or(same, to) if q.mode in ("abort", "dtor") else same)
        if q.mode in ("abort", "dtor"):
            st.ghost["begun"] = z3.BoolVal(True)


# ------------------------------------------------------------------------------------------------ units

RT = "_ZTISt13runtime_error"


def end(ex, q, x, what, src=None):
    """common obligations at the end of an operation"""
    g = x.ghost["mq"]
    base = x.ghost["base"]
    if x.status not in ("ret", "exc"):
        return
    ex.oblige(x, ("C16",), what + " leaves no block behind: each is enqueued or available again", not x.ghost["blocks"])
    ex.oblige(x, ("C16",), what + " leaves no message behind that is not enqueued", set(x.ghost["objs"]) == set(base))
    ex.oblige(x, ("C17",), what + " leaves no lock held", not x.ghost["held"])
    q.point(x, "at the end")
    ex.oblige(x, "C18", "when no operation is in progress the running count is the number of enqueued messages", wide(g.debt) == 0)


def failure(ex, q, x, what, aborted):
    """obligations on the exception of an operation that throws"""
    g = x.ghost["mq"]
    u = x.ghost.get("_user_exc")
    if isinstance(g.threw, int) and g.threw:
        ex.reach(x, what + " passes an exception of user code on")
        ex.oblige(x, ("C15", "C16"), "only the exception thrown by user code reaches the caller",
                  u is not None and x.exc.ptr.rid == u.ptr.rid)
        return "user"
    if x.exc.ti == MQ_SIZE:
        return "size"
    ex.reach(x, what + " fails because of abort")
    ex.oblige(x, ("C15", "C19"), what + " fails only because of abort (%s)" % x.exc.ti, x.ghost["begun"])
    ex.oblige(x, ("C19",), "a failed %s throws a std::runtime_error (%s)" % (what, x.exc.ti), RT in ex.ti_bases(x.exc.ti))
    return "abort"


def name_kept(ex, q, x, what):
    for y in ex.run_function(q.quiet(x), "h_mq_name", [q.obj]):
        ex.oblige(y, ("C19",), what + " does not change the name of the last message dispatched",
                  y.status == "ret" and isinstance(y.ret, Ptr) and y.ret.rid == q.name0.rid and y.ret.off == 0)


def unit_enqueue(op, D, aborted):
    what = op.rstrip("05")

    def run(ex):
        kind = KIND[D]
        for q, s in Q(ex, 0).templates():
            one(ex, q, q.prepare(s, aborted), kind)
        if aborted:
            ex.must_reach(ALL, what + " fails because of abort")
        else:
            ex.must_reach(ALL, what + " returns", what + " fails because of abort", *([what + " passes an exception of user code on"] if D != "VMNoexc" else []))
            if D == "VMBig":
                ex.must_reach(("C15",), what + " rejects the message")

    def one(ex, q, s, kind):
        if op == "put":
            t = q.quiet(s)
            t = q.run1(t, "h_msg_new_" + D, [], "message")
            src = t.ret
            reset(t)
            t.ghost["exclusive"] = t.ghost["quiet"] = False
            s = t
            args = [src]
            s.ghost["base"] = dict(s.ghost["objs"])
            ident = list(s.ghost["base"].values())[0]
            ident = ("src", ident)
            s.ghost["objs"] = {k: ident for k in s.ghost["objs"]}
        else:
            a = fresh("argument", 32)
            inputs(s, argument=a)
            args = [a]
        for x in ex.run_function(s, "h_mq_%s_%s" % (op, D), [q.obj] + args):
            g = x.ghost["mq"]
            end(ex, q, x, what)
            if x.status not in ("ret", "exc"):
                continue
            name_kept(ex, q, x, what)
            ex.oblige(x, ("C15",), what + " dispatches nothing and takes no message", z3.And(wide(g.disp) == 0, wide(g.cookgets) == 0))
            if x.status == "ret":
                ex.reach(x, what + " returns")
                ex.oblige(x, ("C15",), what + " enqueues exactly one message", wide(g.enq) == 1)
                sent = x.ghost.get("sent")
                if op == "put":
                    ex.oblige(x, ("C15",), "the message enqueued is the one that was put", sent == ident)
                else:
                    ex.oblige(x, ("C15",), "the message enqueued was made from the given arguments",
                              sent is not None and sent[0] == "arg" and bv(sent[1], 64) == (77 if op == "emplace0" else z3.SignExt(32, a))
                              if sent is not None and sent[0] == "arg" else False)
                ex.oblige(x, ("C15",), "a message larger than the padded message size is always rejected", z3.UGE(q.P, q.size[kind]))
                ex.oblige(x, ("C19",), what + " never succeeds after abort", z3.Not(T(aborted)))
            else:
                f = failure(ex, q, x, what, aborted)
                ex.oblige(x, ("C15", "C16"), "a failed %s enqueues nothing" % what, wide(g.enq) == 0)
                if f == "size":
                    ex.reach(x, what + " rejects the message")
                    ex.oblige(x, ("C15",), "MessageQueueElementSizeError only for a message larger than the padded message size",
                              z3.ULT(q.P, q.size[kind]))
                    ex.oblige(x, ("C15",), "an oversized message is rejected before anything is taken from the queue",
                              wide(g.rawgets) == 0)
    return run


def unit_dispatch(wake, lock, aborted):
    def run(ex):
        what = "getAndDispatch"
        for q, s in Q(ex, lock).templates():
            one(ex, q, q.prepare(s, aborted), what)
        if aborted:
            ex.must_reach(ALL, what + " fails because of abort")
        else:
            ex.must_reach(ALL, what + " returns", what + " fails because of abort", what + " passes an exception of user code on",
                          "message dispatched")

    def one(ex, q, s, what):
        s.ghost["woken"] = 0
        if lock:
            ex.oblige(s, ("C17",), "getAutoDispatchLock holds the dispatch lock", q.mutex is not None)
        for x in ex.run_function(s, "h_mq_dispatch" + ("_wake" if wake else ""), [q.obj]):
            g = x.ghost["mq"]
            end(ex, q, x, what)
            if x.status not in ("ret", "exc"):
                continue
            ex.oblige(x, ("C15",), what + " enqueues nothing", z3.And(wide(g.enq) == 0, wide(g.rawgets) == 0))
            nm = [k for k in x.ghost if k.startswith("_name:")]
            if g.disp == 0 and x.status != "ret":
                name_kept(ex, q, x, "a failed getAndDispatch")
            elif nm:
                q.check_name(x, int(nm[0][6:]), "afterwards")
            if x.status == "ret":
                ex.reach(x, what + " returns")
                ex.oblige(x, ("C15",), what + " dispatches exactly one message exactly once",
                          z3.And(wide(g.disp) == 1, wide(g.cookgets) == 1))
                ex.oblige(x, ("C19",), what + " never succeeds after abort", z3.Not(T(aborted)))
                if wake:
                    ex.oblige(x, ("C15",), "the wake-up functor is called once", x.ghost["woken"] == 1)
            else:
                f = failure(ex, q, x, what, aborted)
                ex.oblige(x, ("C15",), what + " dispatches at most once", z3.ULE(wide(g.disp), 1))
                if f == "abort":
                    ex.oblige(x, ("C15", "C19"), "a getAndDispatch that fails because of abort takes and dispatches nothing",
                              z3.And(wide(g.disp) == 0, wide(g.cookgets) == 0))
                elif f == "size":
                    ex.oblige(x, ("C15",), "getAndDispatch does not complain about message sizes", False)
    return run


def unit_purge(ex):
    for q, s in Q(ex, 0).templates():
        purge(ex, q, q.prepare(s))
    ex.must_reach(ALL, "purge returns")


def purge(ex, q, s):
    q.mode = "purge"
    q.seq = fresh("enqueued")
    inputs(s, enqueued=q.seq)
    s.assume(z3.ULE(q.seq, q.n))
    s.ghost["mq"].left = q.seq
    s.assume(q.inv(s))
    what = "purge"
    for x in ex.run_function(s, "h_mq_purge", [q.obj]):
        g = x.ghost["mq"]
        end(ex, q, x, what)
        if x.status not in ("ret", "exc"):
            continue
        name_kept(ex, q, x, what)
        ex.oblige(x, ("C15", "C16"), "purge dispatches and enqueues nothing",
                  z3.And(wide(g.disp) == 0, wide(g.enq) == 0, wide(g.rawgets) == 0))
        if x.status == "ret":
            ex.reach(x, "purge returns")
            ex.oblige(x, ("C15", "C16"), "purge removes every enqueued message", wide(g.left) == 0)
        else:
            failure(ex, q, x, what, False)


def unit_abort(ex):
    for q, s in (x for lock in (0, 1) for x in Q(ex, lock).templates()):
        q.prepare(s)
        q.mode = "abort"
        for x in ex.run_function(s, "h_mq_abort", [q.obj]):
            ex.oblige(x, ("C19",), "abort does not throw", x.status == "ret")
            if x.status != "ret":
                continue
            ex.reach(x, "abort returns")
            end(ex, q, x, "abort")
            name_kept(ex, q, x, "abort")
            g = x.ghost["mq"]
            ex.oblige(x, ("C15", "C19"), "abort neither takes nor dispatches messages",
                      z3.And(wide(g.disp) == 0, wide(g.cookgets) == 0, wide(g.rawgets) == 0, wide(g.enq) == 0))
            ex.oblige(x, ("C19",), "abort stops enqueuing and dispatching for good, releasing every blocked caller",
                      z3.And(x.ghost["tr"], x.ghost["tc"]))
    ex.must_reach(("C19",), "abort returns")


def unit_dtor(ex):
    for q, s in (x for lock in (0, 1) for x in Q(ex, lock).templates()):
        arena = [r.id for r in s.mem.values() if r.kind == "heap" and is_sym(r.size) and r.alive]
        q.prepare(s)
        q.mode = "dtor"
        # nobody else uses the queue any more

        def freed(e, st, r):
            if r.id in arena:
                e.oblige(st, ("C16",), "messages still enqueued are destroyed before their storage is freed",
                         st.ghost["mq"].flushed == 1)
        ex.hook_delete = freed
        heap = [r.id for r in s.mem.values() if r.kind == "heap" and r.alive]
        for x in ex.run_function(s, "h_mq_delete", [q.obj]):
            ex.oblige(x, ("C16", "C19"), "destruction does not throw", x.status == "ret")
            if x.status != "ret":
                continue
            ex.reach(x, "destroyed")
            g = x.ghost["mq"]
            ex.oblige(x, ("C16",), "destruction destroys the messages still enqueued", g.flushed == 1)
            ex.oblige(x, ("C19",), "destruction aborts the queue", z3.And(x.ghost["tr"], x.ghost["tc"]))
            ex.oblige(x, ("C15", "C16"), "destruction dispatches nothing", wide(g.disp) == 0)
            ex.oblige(x, ("C16",), "destruction frees all memory of the queue", all(not x.mem[r].alive for r in heap))
            ex.oblige(x, ("C17",), "destruction releases the dispatch lock object",
                      q.mutex is None or q.mutex not in (x.ghost.get("mutexes") or {}))
    ex.must_reach(("C16", "C19"), "destroyed", "a message still enqueued is flushed")


def unit_stats(ex):
    for q, s in Q(ex, 0).templates():
        q.prepare(s)
        for x, v in q.stats(s):
            if v is None:
                ex.oblige(x, "C18", "reading the statistics never fails", False)
                continue
            ex.reach(x, "statistics read")
            ex.oblige(x, "C18", "a snapshot shows the requested size", v[0] == q.n)
            ex.oblige(x, "C18", "a snapshot shows running count <= high watermark <= size", z3.And(z3.ULE(v[1], v[2]), z3.ULE(v[2], v[0])))
            end(ex, q, x, "reading the statistics")
    ex.must_reach("C18", "statistics read")


def unit_ctor(lock, fn="h_mq_new"):
    def run(ex):
        q = Q(ex, lock)
        n1 = 0
        for s in q.construct(fn):
            ex.oblige(s, ALL + ("C10",), "construction does not fail", s.status == "ret")
            if s.status != "ret":
                continue
            ex.reach(s, "constructed")
            q.obj = s.ret
            reset(s)
            q.P = wide(q.run1(q.quiet(s), "h_mq_esize", [q.obj], "getElementSize").ret)
            q.find_rings(s)
            r, c = q.rawring, q.cookedring
            ex.oblige(s, ("C10", "C15"), "the padded message size holds a message of the requested size", z3.UGE(q.P, q.e))
            ex.oblige(s, ("C15", "C16"), "a new queue has exactly n free blocks",
                      z3.And(wide(r.g) == 0, wide(r.p) == q.n))
            Blocks(ex, s, lambda k: z3.Select(r.seq, k), q.n, q.P, ("C10", "C16"), q.e)
            rs, cs = q.sem_of(s, q.raw), q.sem_of(s, q.cooked)
            ex.oblige(s, ("C15",), "a new queue offers its n free blocks and no message",
                      z3.And(wide(rs.avail) == q.n, wide(cs.avail) == 0, wide(c.p) == wide(c.g))
                      if rs is not None and cs is not None else False)
            ex.oblige(s, ("C15",), "the ring buffers hold n elements",
                      z3.And(z3.UGE(bv(rs.max, 64), q.n), z3.UGE(bv(cs.max, 64), q.n), z3.UGE(bv(c.n, 64), q.n), z3.UGE(bv(r.n, 64), q.n))
                      if rs is not None and cs is not None else False)
            ex.oblige(s, ("C15", "C19"), "a new queue is not aborted", z3.And(wide(rs.aborted) == 0, wide(cs.aborted) == 0)
                      if rs is not None and cs is not None else False)
            for x, v in q.stats(q.quiet(s)):
                ex.oblige(x, "C18", "statistics of a new queue: nothing enqueued",
                          z3.And(v[0] == q.n, v[1] == 0, v[2] == 0) if v else False)
            for x in ex.run_function(q.quiet(s), "h_mq_name", [q.obj]):
                ok = x.status == "ret" and isinstance(x.ret, Ptr)
                txt = []
                if ok:
                    for i in range(7):
                        v = ex.load(x, x.ret.add(i), 1)
                        txt.append(v if isinstance(v, int) else -1)
                ex.oblige(x, "C19", "the name is [NONE] before the first dispatch", txt == list(b"[NONE]\0"))
            for x in ex.run_function(q.quiet(s), "h_mq_aborted", [q.obj]):
                ex.oblige(x, "C19", "a new queue does not report abort", x.status == "ret" and x.ret == 0)
            t = q.quiet(s)
            lk = ex.new_region(t, "lock", "heap", 64)
            for x in ex.run_function(t, "h_lock_get", [q.obj, ex.ptr(lk)]):
                if lock:
                    ex.oblige(x, "C17", "getAutoDispatchLock returns with exactly one lock held",
                              x.status == "ret" and len(x.ghost["held"]) == 1)
                else:
                    ex.oblige(x, "C17", "getAutoDispatchLock throws MessageQueueDispatchLockingDisabled without dispatch locking",
                              x.status == "exc" and x.exc.ti == MQ_NOLOCK)
        ex.must_reach(ALL + ("C10",), "constructed")
    return run


class LockWorld:
    """closure over all histories of lock-object operations on two queues and two lock objects"""

    def __init__(self, ex):
        self.ex = ex

    def setup(self):
        """-> states with two queues and room for two lock objects"""
        ex = self.ex
        q = Q(ex, 1)
        q.install()
        ex.crash_prop = ex.terminate_prop = ("C17",)
        saved, ex.props = ex.props, frozenset()
        s = q.start()
        sts = [(s, [])]
        for i in range(2):
            nxt = []
            for s, qs in sts:
                n = fresh("n%d" % i)
                s.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 1 << 20)))
                for x in ex.run_function(s, "h_mq_new", [n, 8, 1]):
                    if x.status == "ret":
                        v = x.ret
                        reset(x)
                        nxt.append((x, qs + [v]))
            sts = nxt
        ex.props = saved
        if not sts:
            raise Unsupported("construction fails")
        for s, qs in sts:
            ex.props = frozenset()
            self.q = qs
            size = q.run1(q.quiet(s), "h_lock_size", [], "lock").ret
            self.slot = [ex.new_region(s, "lock%d" % i, "heap", size) for i in range(2)]
            self.mx = []
            for p in self.q:
                t = q.quiet(s)
                r = ex.new_region(t, "probe", "heap", size)
                x = [y for y in ex.run_function(t, "h_lock_get", [p, ex.ptr(r)]) if y.status == "ret"]
                self.mx.append(list(x[0].ghost["held"])[0] if len(x) == 1 and len(x[0].ghost["held"]) == 1 else None)
            ex.props = saved
            ex.oblige(s, "C17", "each queue has a dispatch lock of its own", None not in self.mx and self.mx[0] != self.mx[1])
            s.ghost["exclusive"] = True
            if s.status == "run":
                yield s

    def image(self, st, abs_):
        im = []
        for i in range(2):
            if abs_[i] is None:
                im.append(None)
                continue
            r = st.region(self.slot[i].id)
            c = []
            for off, (n, v) in sorted(r.cells.items()):
                c.append((off, n, ("p", v.rid, v.off) if isinstance(v, Ptr) else v if isinstance(v, int) else str(v)))
            im.append(tuple(c))
        return tuple(im)

    def fresh_slot(self, st, i):
        st.region(self.slot[i].id, True).cells = {}

    def explore(self):
        """abstract object: None (does not exist) | (queue or None when moved from, holds the lock)"""
        ex = self.ex
        for s0 in self.setup():
            self.close(s0)
        ex.must_reach("C17", "get", "move", "assign", "unlock", "lock", "destroy", "native")

    def close(self, s0):
        ex = self.ex
        start = (None, None)
        work = [(s0, start)]
        seen = {(start, self.image(s0, start))}
        nops = 0
        while work:
            s, A = work.pop()
            held = {a[0] for a in A if a is not None and a[1]}
            ops = []
            for i in range(2):
                o = 1 - i
                if A[i] is None:
                    for k in range(2):
                        if k not in held:
                            ops.append(("get", i, k))
                    if A[o] is not None:
                        ops.append(("move", i, o))
                else:
                    ops += [("unlock", i, None), ("destroy", i, None), ("native", i, None), ("assign", i, i)]
                    if A[o] is not None:
                        ops.append(("assign", i, o))
                    if not A[i][1] and A[i][0] not in held:
                        ops.append(("lock", i, None))
            for op, i, k in ops:
                t = s.clone()
                B = list(A)
                pi = ex.ptr(self.slot[i])
                if op == "get":
                    self.fresh_slot(t, i)
                    args = [self.q[k], pi]
                    B[i] = (k, True)
                elif op == "move":
                    self.fresh_slot(t, i)
                    args = [ex.ptr(self.slot[k]), pi]
                    B[i], B[k] = A[k], (None, False)
                elif op == "assign":
                    args = [pi, ex.ptr(self.slot[k])]
                    if k != i:
                        B[i], B[k] = A[k], (None, False)
                else:
                    args = [pi]
                    if op == "unlock":
                        B[i] = (A[i][0], False)
                    elif op == "lock":
                        B[i] = (A[i][0], A[i][0] is not None)
                    elif op == "destroy":
                        B[i] = None
                B = tuple(B)
                want = frozenset(self.mx[b[0]] for b in B if b is not None and b[1])
                nops += 1
                for x in ex.run_function(t, "h_lock_" + op, args):
                    ex.oblige(x, "C17", "%s of an AutoDispatchLock does not throw" % op, x.status == "ret")
                    if x.status != "ret":
                        continue
                    ex.reach(x, op)
                    ex.oblige(x, "C17", "after %s exactly the locks of the owning AutoDispatchLocks are held" % op,
                              frozenset(x.ghost["held"]) == want)
                    if op == "native":
                        m = self.mx[A[i][0]] if A[i][0] is not None else None
                        ex.oblige(x, "C17", "native_handle designates the dispatch lock",
                                  (isinstance(x.ret, Ptr) and (x.ret.rid, x.ret.off) == m) if m is not None else x.ret == 0)
                    if x.status != "ret" or frozenset(x.ghost["held"]) != want:
                        continue
                    reset(x)
                    key = (B, self.image(x, B))
                    if key not in seen:
                        if len(seen) > 3000:
                            raise Unsupported("lock objects have too many states")
                        seen.add(key)
                        work.append((x, B))


def unit_locks(ex):
    LockWorld(ex).explore()


UNITS = [Unit("MessageQueue constructor (dispatch locking %s)" % ("on" if l else "off"), ALL + ("C10",), unit_ctor(l)) for l in (0, 1)]
UNITS += [Unit("MessageQueue constructor (default)", ALL + ("C10",), unit_ctor(0, "h_mq_newd"))]
UNITS += [Unit("MessageQueue::%s<%s>%s" % (op, D, " after abort" if ab else ""), ALL + (() if ab else ("C10",)), unit_enqueue(op, D, ab))
          for op in ("put", "emplace") for D in KIND for ab in (False, True) if not (ab and D in ("VMBig", "VMNoexc"))]
UNITS += [Unit("MessageQueue::emplace<VMsg> with %s arguments" % k, ALL + ("C10",), unit_enqueue("emplace" + k, "VMsg", False)) for k in "05"]
UNITS += [Unit("MessageQueue::getAndDispatch(%s) locking %s%s" % ("functor" if w else "", "on" if l else "off", " after abort" if ab else ""),
               ALL, unit_dispatch(w, l, ab)) for w in (0, 1) for l in (0, 1) for ab in (False, True) if not (ab and l)]
UNITS += [Unit("MessageQueue::purge", ALL, unit_purge), Unit("MessageQueue::abort", ALL, unit_abort),
          Unit("MessageQueue::~MessageQueue", ALL, unit_dtor), Unit("MessageQueue::getRunningStateStatistics", ("C16", "C17", "C18"), unit_stats),
          Unit("AutoDispatchLock histories", ("C17",), unit_locks)]
