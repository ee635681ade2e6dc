"""Common parts of the proof units."""
import z3
import exec as X
import stubs
from llvm import Unsupported
from sym import State, Ptr, Exc, fresh, is_sym, simp, bv, boolv

USER_EXCS = [("_ZTI8VUserExc", 4), ("_ZTI11VUserStdExc", 16)]
CORE = "_ZTIN8ReiserRT4Core"


def core_ti(n):
    return "%s%d%sE" % (CORE, len(n), n)


SEM_ABORTED = core_ti("SemaphoreAborted")
SEM_OVERFLOW = core_ti("SemaphoreOverflow")
RB_UNDERFLOW = core_ti("RingBufferUnderflow")
RB_OVERFLOW = core_ti("RingBufferOverflow")
RB_STATE = core_ti("RingBufferStateError")
OP_SIZE = core_ti("ObjectPoolElementSizeError")
MQ_SIZE = core_ti("MessageQueueElementSizeError")
MQ_NOLOCK = core_ti("MessageQueueDispatchLockingDisabled")
LIB_EXCS = [(SEM_ABORTED, 16), (RB_UNDERFLOW, 16)]


def wide(v, w=None):
    """zero-extend to 64 bits"""
    if isinstance(v, int):
        return z3.BitVecVal(v, 64)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if v.size() == 64:
        return v
    if v.size() > 64:
        return z3.Extract(63, 0, v)
    return z3.ZeroExt(64 - v.size(), v)


class Unit:
    def __init__(self, name, props, fn, excs=None):
        self.name, self.props, self.fn = name, frozenset(props), fn


def throw_user(ex, st, ti, size, tag):
    """outcome: opaque user code throws an object of type ti"""
    r = ex.new_region(st, "user exception", "heap", size)
    r.meta = {"exc": True}
    e = Exc(ex.ptr(r), ti)
    st.ghost["_user_exc"] = e
    return ("exc", st, e)


def concrete_new(ex, fname, args):
    st = State()
    out = [o for o in ex.run_function(st, fname, args) if o.status == "ret"]
    if not out:
        raise Unsupported("%s never returns" % fname)
    return out


def reset(st):
    """turn a finished state into a start state"""
    st.status, st.ret, st.exc = "run", None, None
    st.frames = []
    st.trace = []
    st.steps = 0
    return st


def inputs(st, **kw):
    d = dict(st.ghost.get("inputs") or {})
    d.update(kw)
    st.ghost["inputs"] = d
