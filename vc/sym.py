"""Values, memory and program states of the symbolic executor.

int values   : Python int (concrete, already reduced modulo 2^w) or z3 BitVec
i1 values    : Python int 0/1 or z3 Bool
pointers     : Ptr(region, offset) | int (0 = null, other = wild) | z3 BitVec (address without provenance)
aggregates   : Python tuple
"""
import itertools
import z3
from llvm import Unsupported

_ids = itertools.count(1)
_fresh = itertools.count(1)


def fresh(name, w=64):
    n = "%s!%d" % (name, next(_fresh))
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)


def fresh_array(name, dom=64, rng=64):
    return z3.Array("%s!%d" % (name, next(_fresh)), z3.BitVecSort(dom), z3.BitVecSort(rng))


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def simp(e):
    """Normalise a z3 term; concrete results become Python ints."""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(v, Ptr):
        return bv(v.addr(), w)
    return v


def boolv(v):
    """-> z3 Bool"""
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    return v == 1


class Region:
    """A memory object. size: int or z3 BitVec64.  mode: 'bytes' (concrete offsets), 'array' (one z3 array of
    equally sized elements) or 'views' (byte cells keyed by the symbolic part of the offset)."""
    __slots__ = ("id", "name", "kind", "size", "base", "cells", "mode", "arr", "esz", "zero", "alive", "shared",
                 "meta", "views", "lazy", "const")

    def __init__(self, name, kind, size, base=None):
        self.id = next(_ids)
        self.name, self.kind, self.size = name, kind, size
        self.base = base
        self.cells = {}
        self.mode = "bytes"
        self.arr = None
        self.esz = 0
        self.zero = False       # reads of never written bytes give zero
        self.alive = True
        self.shared = False
        self.meta = None
        self.views = None
        self.lazy = None        # GlobalVar whose initializer has not been materialised
        self.const = False

    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells)
        if self.views is not None:
            r.views = {k: (v[0], dict(v[1])) for k, v in self.views.items()}
        if self.meta is not None:
            r.meta = dict(self.meta)
        return r

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)


class Ptr:
    """Pointer with provenance. rid identifies a region in the state's memory; off is int or z3 BV64."""
    __slots__ = ("rid", "off", "base")

    def __init__(self, rid, off, base):
        self.rid, self.off, self.base = rid, off, base

    def addr(self):
        if isinstance(self.base, int) and isinstance(self.off, int):
            return (self.base + self.off) & M64
        return simp(bv(self.base, 64) + bv(self.off, 64))

    def add(self, d):
        if isinstance(d, int) and isinstance(self.off, int):
            return Ptr(self.rid, (self.off + d) & M64, self.base)
        return Ptr(self.rid, simp(bv(self.off, 64) + bv(d, 64)), self.base)

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.rid, self.off)


M64 = (1 << 64) - 1


class Exc:
    """An in-flight exception: object pointer and type_info symbol (or opaque tag)."""
    __slots__ = ("ptr", "ti", "ghost")

    def __init__(self, ptr, ti, ghost=None):
        self.ptr, self.ti, self.ghost = ptr, ti, ghost

    def __repr__(self):
        return "Exc(%s)" % self.ti


class Frame:
    __slots__ = ("fn", "block", "idx", "prev", "regs", "allocas", "call", "loopstack", "visits", "varargs")

    def __init__(self, fn):
        self.fn = fn
        self.block = 0
        self.idx = 0
        self.prev = None
        self.regs = {}
        self.allocas = []
        self.call = None        # the call/invoke instruction of *this* frame that is being executed by a callee
        self.loopstack = ()     # headers whose iteration is under way in this activation
        self.visits = {}

    native = False

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.idx, f.prev, f.call, f.loopstack = self.fn, self.block, self.idx, self.prev, self.call, self.loopstack
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        return f


class Native:
    """A Python continuation on the call stack (used by contracts that call back into real code)."""
    __slots__ = ("on_return", "on_unwind", "name")
    native = True

    def __init__(self, name, on_return, on_unwind):
        self.name, self.on_return, self.on_unwind = name, on_return, on_unwind

    def copy(self):
        return self


class State:
    __slots__ = ("frames", "mem", "owned", "pc", "ghost", "status", "ret", "exc", "caught", "trace", "steps", "rec",
                 "uncaught")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()      # region ids this state may mutate in place
        self.pc = []
        self.ghost = {}
        self.status = "run"     # run | ret | exc | stop
        self.ret = None
        self.exc = None
        self.caught = []        # stack of [Exc, handler count]
        self.trace = []
        self.steps = 0

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.ghost = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.ghost.items()}
        s.status, s.ret, s.exc = self.status, self.ret, self.exc
        s.caught = [list(c) for c in self.caught]
        s.trace = list(self.trace)
        s.steps = self.steps
        return s

    def region(self, rid, write=False):
        r = self.mem.get(rid)
        if r is None:
            raise Unsupported("dangling region %s" % rid)
        if write and rid not in self.owned:
            r = r.copy()
            self.mem[rid] = r
            self.owned.add(rid)
        return r

    def assume(self, c):
        if isinstance(c, (bool, int)):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
