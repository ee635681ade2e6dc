"""Reads LLVM bitcode/IR through the libLLVM-18 C API (ctypes) into plain Python objects.

Nothing here interprets code; it is a lossless-enough mirror of the IR that clang produced from
/repo's current sources.  Unknown constructs raise Unsupported when (and only when) they are executed.
"""
import ctypes as C
import glob
import re
import subprocess


class Unsupported(Exception):
    """A construct the verifier does not handle: reported as an error of the check, never as a violation."""


def _load():
    for p in ["/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*"):
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise Unsupported("libLLVM-18 not found")


L = _load()
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


u, i, ull, cs = C.c_uint, C.c_int, C.c_ulonglong, C.c_char_p
LLVMContextCreate = _f("LLVMContextCreate", P)
CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", i, cs, C.POINTER(P), C.POINTER(cs))
ParseIR = _f("LLVMParseIRInContext", i, P, P, C.POINTER(P), C.POINTER(cs))
FirstFunction = _f("LLVMGetFirstFunction", P, P)
NextFunction = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetName = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", i, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
BBTerm = _f("LLVMGetBasicBlockTerminator", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
InstOpcode = _f("LLVMGetInstructionOpcode", i, P)
NumOperands = _f("LLVMGetNumOperands", i, P)
GetOperand = _f("LLVMGetOperand", P, P, u)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", i, P)
IntWidth = _f("LLVMGetIntTypeWidth", u, P)
ICmpPred = _f("LLVMGetICmpPredicate", i, P)
NumSucc = _f("LLVMGetNumSuccessors", u, P)
GetSucc = _f("LLVMGetSuccessor", P, P, u)
CountIncoming = _f("LLVMCountIncoming", u, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, u)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, u)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOperands = _f("LLVMGetNumArgOperands", u, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
NumClauses = _f("LLVMGetNumClauses", u, P)
GetClause = _f("LLVMGetClause", P, P, u)
IsCleanup = _f("LLVMIsCleanup", i, P)
NumIndices = _f("LLVMGetNumIndices", u, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(u), P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPSourceType = _f("LLVMGetGEPSourceElementType", P, P)
GetOrdering = _f("LLVMGetOrdering", i, P)
SuccOrdering = _f("LLVMGetCmpXchgSuccessOrdering", i, P)
FailOrdering = _f("LLVMGetCmpXchgFailureOrdering", i, P)
GetWeak = _f("LLVMGetWeak", i, P)
RMWBinOp = _f("LLVMGetAtomicRMWBinOp", i, P)
ValueKind = _f("LLVMGetValueKind", i, P)
ConstIntZ = _f("LLVMConstIntGetZExtValue", ull, P)
ConstOpcode = _f("LLVMGetConstOpcode", i, P)
IsNull = _f("LLVMIsNull", i, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", i, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
IsConstantString = _f("LLVMIsConstantString", i, P)
GetAggElem = _f("LLVMGetAggregateElement", P, P, u)
ModuleDL = _f("LLVMGetModuleDataLayout", P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", ull, P, P, u)
ABISize = _f("LLVMABISizeOfType", ull, P, P)
StoreSize = _f("LLVMStoreSizeOfType", ull, P, P)
CountStruct = _f("LLVMCountStructElementTypes", u, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, u)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLength = _f("LLVMGetArrayLength2", C.c_uint64, P)
StructName = _f("LLVMGetStructName", cs, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
FirstParam = _f("LLVMGetFirstParam", P, P)
NextParam = _f("LLVMGetNextParam", P, P)
ReturnType = _f("LLVMGetReturnType", P, P)
GetCalledFunctionType = _f("LLVMGetCalledFunctionType", P, P)
DebugLine = _f("LLVMGetDebugLocLine", u, P)
DebugFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(u))
PrintValue = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
IsVarArg = _f("LLVMIsFunctionVarArg", i, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume",
       59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad", 65: "catchswitch"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}
ORD = {0: "notatomic", 1: "unordered", 2: "monotonic", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}


class Ty:
    __slots__ = ("k", "w", "size", "elems", "offs", "elem", "n", "name", "store")

    def __init__(self, k):
        self.k = k
        self.w = self.size = self.store = 0
        self.elems = self.offs = self.elem = self.n = self.name = None

    def __repr__(self):
        return self.name or self.k


# constant operands
class Const:
    """kind: int(v) null undef poison global(name) expr(op, ops, extra) agg(elems) zero str(bytes) fn(name)"""
    __slots__ = ("kind", "v", "ops", "ty", "extra")

    def __init__(self, kind, ty, v=None, ops=None, extra=None):
        self.kind, self.ty, self.v, self.ops, self.extra = kind, ty, v, ops, extra

    def __repr__(self):
        return "<%s %r>" % (self.kind, self.v)


class Reg:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty


class Instr:
    __slots__ = ("op", "key", "ty", "ops", "x", "ptr", "loc")

    def __init__(self):
        self.x = None
        self.loc = None


class Block:
    __slots__ = ("idx", "instrs", "succ", "name")


class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDeclaration(ref))
        self._blocks = None
        self._params = None
        self.loops = None
        self.ty = GlobalValueType(ref)

    @property
    def demangled(self):
        return self.mod.demangle(self.name)

    @property
    def params(self):
        if self._params is None:
            self._params = []
            p = FirstParam(self.ref)
            while p:
                self._params.append((p, self.mod.ty(TypeOf(p))))
                p = NextParam(p)
        return self._params

    @property
    def blocks(self):
        if self._blocks is None:
            self._build()
        return self._blocks

    def _build(self):
        m = self.mod
        bbs, b = [], FirstBB(self.ref)
        while b:
            bbs.append(b)
            b = NextBB(b)
        ix = {b: n for n, b in enumerate(bbs)}
        self._bbix = ix
        self._blocks = []
        for n, b in enumerate(bbs):
            blk = Block()
            blk.idx = n
            blk.name = m._name(BBAsValue(b))
            blk.instrs = []
            ins = FirstInst(b)
            while ins:
                r = m._instr(ins, ix)
                if r is not None:
                    blk.instrs.append(r)
                ins = NextInst(ins)
            t = BBTerm(b)
            blk.succ = [ix[GetSucc(t, k)] for k in range(NumSucc(t))] if t else []
            self._blocks.append(blk)
        self._find_loops()

    def _find_loops(self):
        """Natural loops: header -> set of blocks. Irreducible graphs are rejected when reached."""
        B = self._blocks
        n = len(B)
        pred = [[] for _ in range(n)]
        for b in B:
            for s in b.succ:
                pred[s].append(b.idx)
        # iterative dominators over reachable blocks
        order, seen = [], set()
        stack = [(0, iter(B[0].succ))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(B[s].succ)))
                    break
            else:
                order.append(v)
                stack.pop()
        order.reverse()
        full = set(order)
        dom = {v: set(full) for v in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for v in order[1:]:
                ps = [dom[p] for p in pred[v] if p in dom]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {v}
                if nd != dom[v]:
                    dom[v] = nd
                    ch = True
        loops = {}
        for v in order:
            for s in B[v].succ:
                if s in dom[v]:
                    body = loops.setdefault(s, {s})
                    work = [v]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in pred[x] if p in dom)
        self.loops = loops


class GlobalVar:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDeclaration(ref))
        self.const = bool(IsGlobalConstant(ref))
        self._init = None
        self.vty = GlobalValueType(ref)

    @property
    def init(self):
        if self._init is None and not self.decl:
            self._init = self.mod.const(GetInitializer(self.ref))
        return self._init

    @property
    def size(self):
        try:
            return int(ABISize(self.mod.dl, self.vty))
        except Exception:
            return 0


class Module:
    def __init__(self, path):
        self.path = path
        ctx = LLVMContextCreate()
        buf, msg, mod = P(), cs(), P()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise Unsupported("cannot read %s: %s" % (path, msg.value))
        if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)):
            raise Unsupported("cannot parse %s: %s" % (path, msg.value))
        self.ref = mod
        self.dl = ModuleDL(mod)
        self._tys = {}
        self.functions, self.globals, self.aliases = {}, {}, {}
        f = FirstFunction(mod)
        while f:
            n = self._name(f)
            self.functions[n] = Function(self, f, n)
            f = NextFunction(f)
        g = FirstGlobal(mod)
        while g:
            n = self._name(g)
            self.globals[n] = GlobalVar(self, g, n)
            g = NextGlobal(g)
        a = GetFirstAlias(mod)
        while a:
            n = self._name(a)
            self.aliases[n] = self._name(AliasGetAliasee(a))
            a = GetNextAlias(a)
        names = list(self.functions) + list(self.globals)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names) + "\n",
                             capture_output=True, text=True).stdout.split("\n")
        self._dem = dict(zip(names, out))

    def demangle(self, n):
        return self._dem.get(n, n)

    def fn(self, name):
        name = self.aliases.get(name, name)
        return self.functions.get(name)

    def find(self, rx):
        r = re.compile(rx)
        return [f for n, f in self.functions.items() if r.search(self._dem[n])]

    @staticmethod
    def _name(v):
        ln = C.c_size_t()
        p = GetName(v, C.byref(ln))
        return C.string_at(p, ln.value).decode() if p else ""

    def ty(self, t):
        r = self._tys.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        # LLVMTypeKind: 0 void 2 float 3 double 4 x86fp80 7 label 8 int 9 function 10 struct 11 array 12 pointer 13 vector 14 metadata
        if k == 8:
            r = Ty("int")
            r.w = IntWidth(t)
            r.name = "i%d" % r.w
        elif k in (2, 3):
            r = Ty("fp")
            r.w = 32 if k == 2 else 64
        elif k == 4:
            r = Ty("fp")
            r.w = 80
        elif k == 12:
            r = Ty("ptr")
            r.w = 64
        elif k == 10:
            r = Ty("struct")
            n = CountStruct(t)
            self._tys[t] = r
            r.elems = [self.ty(StructElt(t, j)) for j in range(n)]
            nm = StructName(t)
            r.name = nm.decode() if nm else "{}"
            try:
                r.offs = [int(OffsetOfElement(self.dl, t, j)) for j in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r = Ty("array")
            r.elem = self.ty(ElementType(t))
            r.n = int(ArrayLength(t))
        elif k == 0:
            r = Ty("void")
        else:
            r = Ty("other%d" % k)
        if k in (8, 2, 3, 4, 12, 11) or (k == 10):
            r.size = int(ABISize(self.dl, t))
            r.store = int(StoreSize(self.dl, t))
        self._tys[t] = r
        return r

    def operand(self, v):
        vk = ValueKind(v)
        # LLVMValueKind: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 24 Instruction
        if vk in (0, 24):
            return Reg(v, self.ty(TypeOf(v)))
        return self.const(v)

    def const(self, v):
        vk = ValueKind(v)
        t = self.ty(TypeOf(v))
        if vk == 5:
            return Const("fn", t, self._name(v))
        if vk == 6:
            n = self._name(v)
            tgt = self.aliases.get(n) or self._name(AliasGetAliasee(v))
            return Const("fn" if tgt in self.functions else "global", t, tgt)
        if vk == 8:
            return Const("global", t, self._name(v))
        if vk == 18:
            if t.w > 64:
                txt = C.string_at(PrintValue(v)).decode().split()[-1]
                return Const("int", t, int(txt) % (1 << t.w))
            return Const("int", t, int(ConstIntZ(v)) & ((1 << t.w) - 1))
        if vk == 19:
            txt = C.string_at(PrintValue(v)).decode().split()[-1]
            return Const("fp", t, txt)
        if vk == 20:
            return Const("null", t, 0)
        if vk in (14, 25):  # undef, poison
            return Const("undef", t)
        if vk == 15:
            return Const("zero", t)
        if vk in (11, 12, 16):  # arrays and structs
            n = t.n if t.k == "array" else len(t.elems)
            if vk == 16 and IsConstantString(v) and t.elem.w == 8:
                ln = C.c_size_t()
                p = GetAsString(v, C.byref(ln))
                return Const("str", t, C.string_at(p, ln.value))
            el = []
            for j in range(n):
                e = GetAggElem(v, j)
                if not e:
                    raise Unsupported("constant aggregate")
                el.append(self.const(e))
            return Const("agg", t, None, el)
        if vk == 10:
            op = OPC.get(ConstOpcode(v), "?")
            ops = [self.const(GetOperand(v, j)) for j in range(NumOperands(v))]
            extra = self.ty(GEPSourceType(v)) if op == "gep" else None
            return Const("expr", t, op, ops, extra)
        if vk == 22:
            return Const("meta", t)
        return Const("other%d" % vk, t)

    def _instr(self, ins, ix):
        op = OPC.get(InstOpcode(ins), "op%d" % InstOpcode(ins))
        r = Instr()
        r.op = op
        r.key = ins
        r.ty = self.ty(TypeOf(ins))
        r.ops = None
        if op in ("call", "invoke"):
            cv = CalledValue(ins)
            if ValueKind(cv) == 5:
                nm = self._name(cv)
                if nm.startswith("llvm.dbg.") or nm.startswith("llvm.lifetime."):
                    return None
            n = NumArgOperands(ins)
            r.ops = []
            for j in range(n):
                o = GetOperand(ins, j)
                if TypeKind(TypeOf(o)) == 14:
                    r.ops.append(None)
                else:
                    r.ops.append(self.operand(o))
            callee = self.operand(cv) if ValueKind(cv) not in (23, 22) else Const("asm", None)
            x = {"callee": callee}
            if op == "invoke":
                x["normal"] = ix[NormalDest(ins)]
                x["unwind"] = ix[UnwindDest(ins)]
            r.x = x
        elif op == "phi":
            r.ops = []
            r.x = []
            for j in range(CountIncoming(ins)):
                r.ops.append(self.operand(IncomingValue(ins, j)))
                r.x.append(ix[IncomingBlock(ins, j)])
        elif op == "br":
            n = NumSucc(ins)
            r.x = [ix[GetSucc(ins, j)] for j in range(n)]
            r.ops = [self.operand(GetOperand(ins, 0))] if n == 2 else []
        elif op == "switch":
            n = NumOperands(ins)
            r.ops = [self.operand(GetOperand(ins, 0))]
            cases = []
            for j in range(2, n, 2):
                cases.append((int(ConstIntZ(GetOperand(ins, j))), ix[ValueAsBB(GetOperand(ins, j + 1))]))
            r.x = (ix[ValueAsBB(GetOperand(ins, 1))], cases)
        elif op == "landingpad":
            cl = []
            for j in range(NumClauses(ins)):
                c = self.const(GetClause(ins, j))
                cl.append(c)
            r.x = (bool(IsCleanup(ins)), cl)
            r.ops = []
        else:
            r.ops = [self.operand(GetOperand(ins, j)) for j in range(NumOperands(ins))]
            if op == "icmp":
                r.x = ICMP[ICmpPred(ins)]
            elif op == "alloca":
                r.x = self.ty(AllocatedType(ins))
            elif op == "gep":
                r.x = self.ty(GEPSourceType(ins))
            elif op in ("extractvalue", "insertvalue"):
                n = NumIndices(ins)
                p = GetIndices(ins)
                r.x = [p[j] for j in range(n)]
            elif op in ("load", "store"):
                r.x = ORD.get(GetOrdering(ins), "?")
            elif op == "atomicrmw":
                r.x = (RMW.get(RMWBinOp(ins), "?"), ORD.get(GetOrdering(ins), "?"))
            elif op == "cmpxchg":
                r.x = (ORD.get(SuccOrdering(ins)), ORD.get(FailOrdering(ins)), bool(GetWeak(ins)))
            elif op == "fence":
                r.x = ORD.get(GetOrdering(ins), "?")
        r.ptr = None
        ln = DebugLine(ins) if op not in ("alloca",) else 0
        if ln:
            k = u()
            p = DebugFile(ins, C.byref(k))
            r.loc = (C.string_at(p, k.value).decode() if p else "?", int(ln))
        return r


# ---------------------------------------------------------------------------------------------------
# debug info: record layouts from the textual IR (names of members are only used to bind the contracts)

class Layouts:
    """{qualified record name: [(member name, byte offset, byte size, type string, const?)]}"""

    def __init__(self, ll_text):
        self.md = {}
        rx = re.compile(r"^!(\d+) = (?:distinct )?!(DI\w+)\((.*)\)\s*$|^!(\d+) = (?:distinct )?!\{(.*)\}\s*$", re.M)
        for m in rx.finditer(ll_text):
            if m.group(1):
                self.md[int(m.group(1))] = (m.group(2), m.group(3))
            else:
                self.md[int(m.group(4))] = ("tuple", m.group(5))
        self.records = {}
        for k, (kind, body) in self.md.items():
            if kind == "DICompositeType" and re.search(r"tag: DW_TAG_(class|structure|union)_type", body) \
                    and "DIFlagFwdDecl" not in body and "elements:" in body:
                q = self.qual(k)
                if q not in self.records or len(self.members(k)) > len(self.records[q]):
                    self.records[q] = self.members(k)

    @staticmethod
    def attr(body, name):
        m = re.search(r"\b%s: (\"(?:[^\"\\]|\\.)*\"|!\d+|[^,]+)" % name, body)
        if not m:
            return None
        s = m.group(1)
        if s.startswith('"'):
            return s[1:-1]
        if s.startswith("!"):
            return int(s[1:])
        return s

    def qual(self, k):
        kind, body = self.md[k]
        n = self.attr(body, "name") or ""
        s = self.attr(body, "scope")
        if isinstance(s, int) and s in self.md and self.md[s][0] in ("DICompositeType", "DINamespace"):
            q = self.qual(s)
            return (q + "::" + n) if q else n
        return n

    def members(self, k):
        body = self.md[k][1]
        e = self.attr(body, "elements")
        out = []
        if not isinstance(e, int):
            return out
        for m in re.findall(r"!(\d+)", self.md[e][1]):
            kind, b = self.md.get(int(m), (None, None))
            if kind == "DIDerivedType" and "DW_TAG_member" in b and "DIFlagStaticMember" not in b:
                off = int(self.attr(b, "offset") or 0) // 8
                size = int(self.attr(b, "size") or 0) // 8
                ts, const = self.tystr(self.attr(b, "baseType"))
                out.append((self.attr(b, "name") or "", off, size, ts, const))
            elif kind == "DIDerivedType" and "DW_TAG_inheritance" in b:
                off = int(self.attr(b, "offset") or 0) // 8
                ts, const = self.tystr(self.attr(b, "baseType"))
                out.append(("<base>", off, 0, ts, const))
        return out

    def tystr(self, k):
        const = False
        for _ in range(30):
            if not isinstance(k, int) or k not in self.md:
                return "void", const
            kind, b = self.md[k]
            if kind == "DIBasicType":
                return self.attr(b, "name"), const
            if kind == "DIDerivedType":
                if "DW_TAG_const_type" in b:
                    const = True
                elif "DW_TAG_pointer_type" in b or "reference_type" in b:
                    return self.tystr(self.attr(b, "baseType"))[0] + "*", const
                k = self.attr(b, "baseType")
                continue
            if kind == "DICompositeType":
                if "DW_TAG_enumeration_type" in b:
                    return "enum " + self.qual(k), const
                return self.qual(k), const
            return kind, const
        return "?", const
