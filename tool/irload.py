"""Load LLVM IR (textual or bitcode) into plain Python objects through the LLVM-C API.

Only reads the program: nothing here executes or rewrites it.
"""
import ctypes as C
import ctypes.util

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    last = None
    for n in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1", "libLLVM.so.18"):
        try:
            L = C.CDLL(n)
            break
        except OSError as e:
            last = e
    else:
        raise RuntimeError("cannot load libLLVM-18: %s" % last)
    V = C.c_void_p

    def sig(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
        return f
    for n in ("LLVMGetFirstFunction", "LLVMGetFirstGlobal"):
        sig(n, V, V)
    for n in ("LLVMGetNextFunction", "LLVMGetNextGlobal", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetInitializer",
              "LLVMGetCalledValue", "LLVMGetCalledFunctionType", "LLVMGetElementType", "LLVMGetReturnType",
              "LLVMGetAllocatedType", "LLVMGetGEPSourceElementType", "LLVMGlobalGetValueType",
              "LLVMBasicBlockAsValue", "LLVMValueAsBasicBlock", "LLVMGetBasicBlockTerminator",
              "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetEntryBasicBlock", "LLVMGetBasicBlockParent"):
        sig(n, V, V)
    sig("LLVMGetParam", V, V, C.c_uint)
    sig("LLVMCountParams", C.c_uint, V)
    sig("LLVMGetOperand", V, V, C.c_uint)
    sig("LLVMGetNumOperands", C.c_int, V)
    sig("LLVMGetInstructionOpcode", C.c_int, V)
    sig("LLVMGetConstOpcode", C.c_int, V)
    sig("LLVMGetICmpPredicate", C.c_int, V)
    sig("LLVMGetValueName2", V, V, C.POINTER(C.c_size_t))
    sig("LLVMGetTypeKind", C.c_int, V)
    sig("LLVMGetIntTypeWidth", C.c_uint, V)
    sig("LLVMGetArrayLength2", C.c_uint64, V)
    sig("LLVMGetVectorSize", C.c_uint, V)
    sig("LLVMCountStructElementTypes", C.c_uint, V)
    sig("LLVMStructGetTypeAtIndex", V, V, C.c_uint)
    sig("LLVMGetStructName", C.c_char_p, V)
    sig("LLVMOffsetOfElement", C.c_ulonglong, V, V, C.c_uint)
    sig("LLVMABISizeOfType", C.c_ulonglong, V, V)
    sig("LLVMStoreSizeOfType", C.c_ulonglong, V, V)
    sig("LLVMGetModuleDataLayout", V, V)
    sig("LLVMGetValueKind", C.c_int, V)
    sig("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
    sig("LLVMConstIntGetSExtValue", C.c_longlong, V)
    sig("LLVMCountIncoming", C.c_uint, V)
    sig("LLVMGetIncomingValue", V, V, C.c_uint)
    sig("LLVMGetIncomingBlock", V, V, C.c_uint)
    sig("LLVMGetNumSuccessors", C.c_uint, V)
    sig("LLVMGetSuccessor", V, V, C.c_uint)
    sig("LLVMIsDeclaration", C.c_int, V)
    sig("LLVMIsGlobalConstant", C.c_int, V)
    sig("LLVMIsThreadLocal", C.c_int, V)
    sig("LLVMGetAlignment", C.c_uint, V)
    sig("LLVMGetNumIndices", C.c_uint, V)
    sig("LLVMGetIndices", C.POINTER(C.c_uint), V)
    sig("LLVMGetAggregateElement", V, V, C.c_uint)
    sig("LLVMIsConditional", C.c_int, V)
    sig("LLVMGetNumArgOperands", C.c_uint, V)
    sig("LLVMGetInlineAsmAsmString", V, V, C.POINTER(C.c_size_t))
    sig("LLVMGetLinkage", C.c_int, V)
    sig("LLVMGetVisibility", C.c_int, V)
    sig("LLVMGetDebugLocLine", C.c_uint, V)
    sig("LLVMGetDebugLocFilename", V, V, C.POINTER(C.c_uint))
    sig("LLVMGetNumClauses", C.c_uint, V)
    sig("LLVMGetClause", V, V, C.c_uint)
    sig("LLVMIsCleanup", C.c_int, V)
    sig("LLVMIsAConstantInt", V, V)
    sig("LLVMIsAInstruction", V, V)
    sig("LLVMIsAGlobalAlias", V, V)
    sig("LLVMAliasGetAliasee", V, V)
    sig("LLVMGetOrdering", C.c_int, V)
    sig("LLVMGetVolatile", C.c_int, V)
    sig("LLVMGetAtomicRMWBinOp", C.c_int, V)
    sig("LLVMGetPersonalityFn", V, V)
    sig("LLVMHasPersonalityFn", C.c_int, V)
    sig("LLVMGetEnumAttributeAtIndex", V, V, C.c_uint, C.c_uint)
    sig("LLVMGetCallSiteEnumAttribute", V, V, C.c_uint, C.c_uint)
    sig("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
    sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
    sig("LLVMParseIRInContext", C.c_int, V, V, C.POINTER(V), C.POINTER(C.c_char_p))
    sig("LLVMContextCreate", V)
    sig("LLVMPrintValueToString", C.c_char_p, V)
    sig("LLVMPrintTypeToString", C.c_char_p, V)
    sig("LLVMIsExactOrDummy", C.c_int, V) if hasattr(L, "LLVMIsExactOrDummy") else None
    _lib = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad', 64: 'cleanuppad',
       65: 'catchswitch'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

# value kinds
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carray',
      12: 'cstruct', 13: 'cvec', 14: 'undef', 15: 'zero', 16: 'cdataarr', 17: 'cdatavec', 18: 'cint', 19: 'cfp',
      20: 'null', 21: 'tokennone', 22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison', 26: 'targetnone'}


class Ty:
    __slots__ = ("k", "w", "elem", "n", "fields", "offs", "size", "name", "store")

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'struct':
            return self.name or '{..}'
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.elem)
        return self.k


class Val:
    """Operand: k in cint/null/undef/zero/arg/inst/func/gvar/cexpr/asm/bb/fp/other"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v=None, ty=None, x=None):
        self.k = k
        self.v = v
        self.ty = ty
        self.x = x

    def __repr__(self):
        return "%s:%s" % (self.k, self.v)


class Inst:
    __slots__ = ("op", "id", "ty", "ops", "line", "file", "bb", "x", "name", "succ", "fn", "raw", "idx")

    def __repr__(self):
        return "%%%s=%s %s" % (self.name or self.id, self.op, self.ops)


class Block:
    __slots__ = ("id", "name", "insts", "succ", "pred", "fn", "rpo", "phis", "loop", "nphi")


class Func:
    __slots__ = ("name", "args", "blocks", "decl", "ret", "linkage", "nounwind", "noreturn", "attrs", "loops", "mod", "live",
                 "argtys", "line", "file", "_liveout", "entry", "ident")

    def __repr__(self):
        return "<fn %s>" % self.name


class GVar:
    __slots__ = ("name", "const", "ty", "init", "decl", "tls", "linkage", "size", "_bytes", "align")

    def __repr__(self):
        return "<gv %s>" % self.name


class Module:
    def __init__(self):
        self.funcs = {}
        self.gvars = {}
        self.aliases = {}


class Loader:
    def __init__(self, path):
        L = self.L = lib()
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = mod
        self.td = L.LLVMGetModuleDataLayout(mod)
        self.types = {}
        self.vals = {}
        self.M = Module()
        self.M.path = path
        self.kind = {}
        for a in ("nounwind", "noreturn", "readnone", "readonly", "memory", "speculatable"):
            self.kind[a] = L.LLVMGetEnumAttributeKindForName(a.encode(), len(a))
        self.load()

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf8', 'replace') if p and n.value else ''

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        self.types[t] = r
        r.w = r.elem = r.n = r.fields = r.offs = r.name = None
        r.size = 0
        r.store = 0
        if k == 8:
            r.k = 'int'
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.k = 'ptr'
        elif k == 0:
            r.k = 'void'
        elif k == 10:
            r.k = 'struct'
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            try:
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r.k = 'array'
            r.n = L.LLVMGetArrayLength2(t)
            r.elem = self.ty(L.LLVMGetElementType(t))
        elif k == 13:
            r.k = 'vec'
            r.n = L.LLVMGetVectorSize(t)
            r.elem = self.ty(L.LLVMGetElementType(t))
        elif k in (1, 2, 3, 4, 5, 6):
            r.k = 'fp'
        elif k == 9:
            r.k = 'fn'
        elif k == 7:
            r.k = 'label'
        elif k == 14:
            r.k = 'metadata'
        else:
            r.k = 'other%d' % k
        if r.k in ('int', 'ptr', 'struct', 'array', 'vec', 'fp'):
            if r.k == 'struct' and L.LLVMCountStructElementTypes(t) == 0:
                r.size = L.LLVMABISizeOfType(self.td, t) if r.name is None or True else 0
                r.store = r.size
            else:
                r.size = L.LLVMABISizeOfType(self.td, t)
                r.store = L.LLVMStoreSizeOfType(self.td, t)
        return r

    def val(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        L = self.L
        k = VK.get(L.LLVMGetValueKind(v), 'other')
        ty = self.ty(L.LLVMTypeOf(v))
        if k == 'cint':
            if ty.w <= 64:
                x = L.LLVMConstIntGetZExtValue(v)
            else:
                s = L.LLVMPrintValueToString(v).decode()
                x = int(s.split()[-1]) % (1 << ty.w)
            r = Val('cint', x, ty)
        elif k in ('null',):
            r = Val('null', None, ty)
        elif k in ('undef', 'poison'):
            r = Val('undef', None, ty)
        elif k == 'zero':
            r = Val('zero', None, ty)
        elif k == 'func':
            r = Val('func', self.name(v), ty)
        elif k == 'alias':
            r = Val('func', self.M.aliases.get(self.name(v), self.name(v)), ty)
        elif k == 'gvar':
            r = Val('gvar', self.name(v), ty)
        elif k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            n = L.LLVMGetNumOperands(v)
            ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(n)]
            x = None
            if op == 'getelementptr':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            r = Val('cexpr', op, ty, (ops, x))
        elif k == 'asm':
            n = C.c_size_t()
            p = L.LLVMGetInlineAsmAsmString(v, C.byref(n))
            r = Val('asm', C.string_at(p, n.value).decode(), ty)
        elif k in ('carray', 'cstruct', 'cvec', 'cdataarr', 'cdatavec'):
            if ty.k == 'struct':
                n = len(ty.fields)
            else:
                n = ty.n
            r = Val('agg', [self.val(L.LLVMGetAggregateElement(v, i)) for i in range(n)], ty)
        elif k == 'cfp':
            r = Val('fp', L.LLVMPrintValueToString(v).decode(), ty)
        elif k == 'metadata':
            r = Val('metadata', None, ty)
        elif k in ('arg', 'inst', 'bb'):
            raise KeyError("unregistered local value %s" % L.LLVMPrintValueToString(v))
        else:
            r = Val('other', k, ty)
        self.vals[v] = r
        return r

    def load(self):
        L, M = self.L, self.M
        # aliases via text is not needed: C++ ctor aliases are resolved lazily
        try:
            L.LLVMGetFirstGlobalAlias.restype = C.c_void_p
            L.LLVMGetFirstGlobalAlias.argtypes = [C.c_void_p]
            L.LLVMGetNextGlobalAlias.restype = C.c_void_p
            L.LLVMGetNextGlobalAlias.argtypes = [C.c_void_p]
            a = L.LLVMGetFirstGlobalAlias(self.m)
            while a:
                M.aliases[self.name(a)] = self.name(L.LLVMAliasGetAliasee(a))
                a = L.LLVMGetNextGlobalAlias(a)
        except AttributeError:
            pass
        g = L.LLVMGetFirstGlobal(self.m)
        gl = []
        while g:
            gv = GVar()
            gv.name = self.name(g)
            gv.const = bool(L.LLVMIsGlobalConstant(g))
            gv.ty = self.ty(L.LLVMGlobalGetValueType(g))
            gv.decl = bool(L.LLVMIsDeclaration(g))
            gv.tls = bool(L.LLVMIsThreadLocal(g))
            gv.linkage = L.LLVMGetLinkage(g)
            gv.size = gv.ty.size
            gv.align = L.LLVMGetAlignment(g)
            gv.init = None
            gv._bytes = None
            M.gvars[gv.name] = gv
            gl.append((g, gv))
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.m)
        fl = []
        while f:
            fn = Func()
            fn.name = self.name(f)
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.linkage = L.LLVMGetLinkage(f)
            fn.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, self.kind["nounwind"]))
            fn.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, self.kind["noreturn"]))
            fn.ret = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
            fn.args = []
            fn.blocks = []
            fn.mod = M
            fn.loops = None
            fn.live = None
            fn.line = 0
            fn.file = ''
            M.funcs[fn.name] = fn
            fl.append((f, fn))
            f = L.LLVMGetNextFunction(f)
        for g, gv in gl:
            if not gv.decl:
                gv.init = self.val(L.LLVMGetInitializer(g))
        for f, fn in fl:
            self.func(f, fn)

    def dbg(self, i):
        L = self.L
        line = L.LLVMGetDebugLocLine(i)
        if not line:
            return 0, ''
        n = C.c_uint()
        p = L.LLVMGetDebugLocFilename(i, C.byref(n))
        return line, (C.string_at(p, n.value).decode() if p else '')

    def func(self, f, fn):
        L = self.L
        np = L.LLVMCountParams(f)
        for i in range(np):
            a = L.LLVMGetParam(f, i)
            v = Val('arg', i, self.ty(L.LLVMTypeOf(a)), self.name(a))
            self.vals[a] = v
            fn.args.append(v)
        fn.argtys = [a.ty for a in fn.args]
        if fn.decl:
            return
        bbs = []
        b = L.LLVMGetFirstBasicBlock(f)
        nid = 0
        while b:
            bl = Block()
            bl.id = len(bbs)
            bv = L.LLVMBasicBlockAsValue(b)
            bl.name = self.name(bv) or ('b%d' % bl.id)
            bl.insts = []
            bl.succ = []
            bl.pred = []
            bl.fn = fn
            bl.loop = None
            self.vals[bv] = Val('bb', bl)
            bbs.append((b, bl))
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins = Inst()
                ins.id = nid
                nid += 1
                ins.raw = i
                ins.bb = bl
                ins.fn = fn
                ins.ty = self.ty(L.LLVMTypeOf(i))
                ins.name = self.name(i)
                ins.idx = len(bl.insts)
                bl.insts.append(ins)
                self.vals[i] = Val('inst', ins, ins.ty)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        fn.blocks = [x[1] for x in bbs]
        fn.entry = fn.blocks[0]
        for b, bl in bbs:
            for ins in bl.insts:
                self.inst(ins)
            bl.nphi = 0
            for ins in bl.insts:
                if ins.op == 'phi':
                    bl.nphi += 1
                else:
                    break
            bl.succ = list(bl.insts[-1].succ)
        for bl in fn.blocks:
            for s in bl.succ:
                if bl not in s.pred:
                    s.pred.append(bl)
        for bl in fn.blocks:
            for ins in bl.insts:
                if ins.line and not fn.line and ins.file:
                    fn.line, fn.file = ins.line, ins.file

    def bbval(self, v):
        return self.vals[v].v

    def inst(self, ins):
        L = self.L
        i = ins.raw
        op = OPC.get(L.LLVMGetInstructionOpcode(i), '?')
        ins.op = op
        ins.line, ins.file = self.dbg(i)
        ins.succ = ()
        ins.x = None
        n = L.LLVMGetNumOperands(i)
        if op == 'phi':
            k = L.LLVMCountIncoming(i)
            ins.ops = [self.val(L.LLVMGetIncomingValue(i, j)) for j in range(k)]
            ins.x = [self.bbval(L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(i, j))) for j in range(k)]
            return
        if op == 'br':
            if L.LLVMIsConditional(i):
                ins.ops = [self.val(L.LLVMGetOperand(i, 0))]
            else:
                ins.ops = []
            ns = L.LLVMGetNumSuccessors(i)
            ins.succ = [self.bbval(L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(i, j))) for j in range(ns)]
            return
        if op == 'switch':
            ins.ops = [self.val(L.LLVMGetOperand(i, 0))]
            default = self.bbval(L.LLVMGetOperand(i, 1))
            cases = []
            for j in range(2, n, 2):
                cases.append((self.val(L.LLVMGetOperand(i, j)).v, self.bbval(L.LLVMGetOperand(i, j + 1))))
            ins.x = (cases, default)
            ins.succ = [default] + [c[1] for c in cases]
            ins.succ = list(dict.fromkeys(ins.succ))
            return
        if op in ('call', 'invoke'):
            cv = L.LLVMGetCalledValue(i)
            na = L.LLVMGetNumArgOperands(i)
            ins.ops = [self.val(L.LLVMGetOperand(i, j)) for j in range(na)]
            callee = self.val(cv)
            nu = bool(L.LLVMGetCallSiteEnumAttribute(i, 0xFFFFFFFF, self.kind["nounwind"]))
            nr = bool(L.LLVMGetCallSiteEnumAttribute(i, 0xFFFFFFFF, self.kind["noreturn"]))
            ins.x = {"callee": callee, "nounwind": nu, "noreturn": nr}
            if op == 'invoke':
                nd = self.bbval(L.LLVMBasicBlockAsValue(L.LLVMGetNormalDest(i)))
                ud = self.bbval(L.LLVMBasicBlockAsValue(L.LLVMGetUnwindDest(i)))
                ins.succ = [nd, ud]
                ins.x["normal"] = nd
                ins.x["unwind"] = ud
            return
        if op == 'landingpad':
            k = L.LLVMGetNumClauses(i)
            ins.ops = []
            cl = []
            for j in range(k):
                c = self.val(L.LLVMGetClause(i, j))
                cl.append(c)
            ins.x = {"clauses": cl, "cleanup": bool(L.LLVMIsCleanup(i))}
            return
        ins.ops = []
        for j in range(n):
            ov = L.LLVMGetOperand(i, j)
            ins.ops.append(self.val(ov))
        if op == 'icmp':
            ins.x = PRED[L.LLVMGetICmpPredicate(i)]
        elif op == 'alloca':
            ins.x = self.ty(L.LLVMGetAllocatedType(i))
        elif op == 'getelementptr':
            ins.x = self.ty(L.LLVMGetGEPSourceElementType(i))
        elif op == 'load' or op == 'store':
            ins.x = {"align": L.LLVMGetAlignment(i), "order": L.LLVMGetOrdering(i)}
        elif op in ('atomicrmw', 'cmpxchg'):
            ins.x = {"order": 7}
            if op == 'atomicrmw':
                ins.x["bin"] = L.LLVMGetAtomicRMWBinOp(i)
        elif op in ('extractvalue', 'insertvalue'):
            k = L.LLVMGetNumIndices(i)
            p = L.LLVMGetIndices(i)
            ins.x = [p[j] for j in range(k)]
        elif op == 'shufflevector':
            ins.x = None


def load(path):
    return Loader(path).M


# ---------------------------------------------------------------- CFG helpers
def rpo(fn):
    seen = set()
    order = []
    stack = [(fn.entry, iter(fn.entry.succ))]
    seen.add(fn.entry.id)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                stack.append((s, iter(s.succ)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    for i, b in enumerate(order):
        b.rpo = i
    return order


def dominators(fn):
    order = rpo(fn)
    idom = {order[0].id: order[0]}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.pred:
                if p.id in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while x.rpo > y.rpo:
                                x = idom[x.id]
                            while y.rpo > x.rpo:
                                y = idom[y.id]
                        new = x
            if idom.get(b.id) is not new:
                idom[b.id] = new
                changed = True
    return order, idom


def dominates(idom, a, b):
    while True:
        if a is b:
            return True
        n = idom.get(b.id)
        if n is None or n is b:
            return False
        b = n


def analyse_cfg(fn):
    """compute rpo, loop headers, live-in sets"""
    if fn.loops is not None:
        return
    order, idom = dominators(fn)
    heads = {}
    for b in order:
        for s in b.succ:
            if s.rpo <= b.rpo:
                body = heads.setdefault(s.id, set([s.id]))
                st = [b]
                while st:
                    x = st.pop()
                    if x.id in body:
                        continue
                    body.add(x.id)
                    st.extend(x.pred)
    fn.loops = heads
    # liveness of SSA values (instruction ids) at block entry
    use, dfn = {}, {}
    for b in order:
        u, d = set(), set()
        for ins in b.insts:
            if ins.op != 'phi':
                for o in ins.ops:
                    _uses(o, u, d)
                if ins.op in ('call', 'invoke'):
                    _uses(ins.x["callee"], u, d)
            d.add(ins.id)
        use[b.id], dfn[b.id] = u, d
    livein = {b.id: set() for b in order}
    phiuse = {}
    for b in order:
        for ins in b.insts[:b.nphi]:
            for o, p in zip(ins.ops, ins.x):
                if o.k == 'inst':
                    phiuse.setdefault((p.id, b.id), set()).add(o.v.id)
                elif o.k == 'arg':
                    phiuse.setdefault((p.id, b.id), set()).add(('a', o.v))
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            lo = set()
            for s in b.succ:
                sd = set(i.id for i in s.insts[:s.nphi])
                lo |= (livein[s.id] - sd)
                lo |= phiuse.get((b.id, s.id), set())
            li = use[b.id] | (lo - dfn[b.id])
            if li != livein[b.id]:
                livein[b.id] = li
                changed = True
    fn.live = livein


def _uses(o, u, d):
    if o.k == 'inst':
        if o.v.id not in d:
            u.add(o.v.id)
    elif o.k == 'arg':
        u.add(('a', o.v))
