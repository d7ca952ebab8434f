"""Loads LLVM bitcode through the LLVM C API (ctypes) into plain Python objects."""
import ctypes as C, ctypes.util, os, glob, re
from build import Broken


def _lib():
    for p in ['libLLVM-18.so', 'libLLVM-18.so.1', '/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/llvm-18/lib/libLLVM-18.so'] + \
            sorted(glob.glob('/usr/lib/*/libLLVM-18*')):
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise Broken('libLLVM-18 not found')


L = _lib()
P = C.c_void_p


def _d(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


for n, r, a in [
    ('LLVMContextCreate', P, ()), ('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, (C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))),
    ('LLVMParseIRInContext', C.c_int, (P, P, C.POINTER(P), C.POINTER(C.c_char_p))),
    ('LLVMGetModuleDataLayout', P, (P,)),
    ('LLVMGetFirstFunction', P, (P,)), ('LLVMGetNextFunction', P, (P,)),
    ('LLVMGetFirstGlobal', P, (P,)), ('LLVMGetNextGlobal', P, (P,)),
    ('LLVMGetFirstBasicBlock', P, (P,)), ('LLVMGetNextBasicBlock', P, (P,)),
    ('LLVMGetFirstInstruction', P, (P,)), ('LLVMGetNextInstruction', P, (P,)),
    ('LLVMGetInstructionOpcode', C.c_int, (P,)), ('LLVMGetNumOperands', C.c_int, (P,)), ('LLVMGetOperand', P, (P, C.c_uint)),
    ('LLVMTypeOf', P, (P,)), ('LLVMGetTypeKind', C.c_int, (P,)), ('LLVMGetIntTypeWidth', C.c_uint, (P,)),
    ('LLVMABISizeOfType', C.c_ulonglong, (P, P)), ('LLVMStoreSizeOfType', C.c_ulonglong, (P, P)),
    ('LLVMOffsetOfElement', C.c_ulonglong, (P, P, C.c_uint)),
    ('LLVMGetElementType', P, (P,)), ('LLVMStructGetTypeAtIndex', P, (P, C.c_uint)),
    ('LLVMGetICmpPredicate', C.c_int, (P,)), ('LLVMGetFCmpPredicate', C.c_int, (P,)),
    ('LLVMCountIncoming', C.c_uint, (P,)), ('LLVMGetIncomingValue', P, (P, C.c_uint)), ('LLVMGetIncomingBlock', P, (P, C.c_uint)),
    ('LLVMGetCalledValue', P, (P,)), ('LLVMGetNumArgOperands', C.c_uint, (P,)),
    ('LLVMGetGEPSourceElementType', P, (P,)), ('LLVMGetAllocatedType', P, (P,)),
    ('LLVMGetValueKind', C.c_int, (P,)), ('LLVMGetValueName2', C.c_void_p, (P, C.POINTER(C.c_size_t))),
    ('LLVMConstIntGetZExtValue', C.c_ulonglong, (P,)), ('LLVMGetConstOpcode', C.c_int, (P,)),
    ('LLVMGetDebugLocLine', C.c_uint, (P,)), ('LLVMGetDebugLocFilename', C.c_void_p, (P, C.POINTER(C.c_uint))),
    ('LLVMCountParams', C.c_uint, (P,)), ('LLVMGetParam', P, (P, C.c_uint)),
    ('LLVMIsDeclaration', C.c_int, (P,)), ('LLVMGetLinkage', C.c_int, (P,)), ('LLVMGetVisibility', C.c_int, (P,)),
    ('LLVMGetInitializer', P, (P,)), ('LLVMGlobalGetValueType', P, (P,)), ('LLVMIsGlobalConstant', C.c_int, (P,)),
    ('LLVMGetAggregateElement', P, (P, C.c_uint)), ('LLVMPrintValueToString', C.c_void_p, (P,)), ('LLVMDisposeMessage', None, (C.c_void_p,)),
    ('LLVMIsConditional', C.c_int, (P,)), ('LLVMBasicBlockAsValue', P, (P,)), ('LLVMGetBasicBlockTerminator', P, (P,)),
    ('LLVMGetNSW', C.c_int, (P,)), ('LLVMGetNUW', C.c_int, (P,)), ('LLVMGetTypeContext', P, (P,)),
    ('LLVMGetIndices', C.POINTER(C.c_uint), (P,)), ('LLVMGetNumIndices', C.c_uint, (P,)),
    ('LLVMCountStructElementTypes', C.c_uint, (P,)), ('LLVMGetStructName', C.c_char_p, (P,)), ('LLVMGetOrdering', C.c_int, (P,)), ('LLVMGetArrayLength2', C.c_ulonglong, (P,)),
    ('LLVMGetVolatile', C.c_int, (P,)), ('LLVMGetAlignment', C.c_uint, (P,)), ('LLVMIsNull', C.c_int, (P,)), ('LLVMGetFunctionCallConv', C.c_uint, (P,)),
    ('LLVMGetInstructionCallConv', C.c_uint, (P,)), ('LLVMIsPackedStruct', C.c_int, (P,)),
]:
    _d(n, r, *a)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# value kinds
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct',
      13: 'cvector', 14: 'undef', 15: 'czero', 16: 'cdataarr', 17: 'cdatavec', 18: 'cint', 19: 'cfp', 20: 'cnull',
      21: 'ctoken', 22: 'metadata', 23: 'inlineasm', 24: 'inst', 25: 'poison'}
# type kinds
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 7: 'label', 8: 'int', 9: 'func', 10: 'struct', 11: 'array',
      12: 'ptr', 13: 'vector', 14: 'metadata'}


class Ty:
    __slots__ = ('kind', 'w', 'size', 'elem', 'fields', 'offs', 'n', 'asize', 'name')


class Val:
    """Operand: constant, argument, instruction, global, block."""
    __slots__ = ('k', 'ty', 'v', 'name', 'ops')

    def __repr__(self):
        return '<%s %s %s>' % (self.k, self.name, self.v)


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'line', 'file', 'bb', 'idx', 'x', 'fn', 'callee', 'k', 'name', 'volatile', 'align', 'atomic')

    def __repr__(self):
        return '<%s@%s:%s>' % (self.op, self.file, self.line)


class Block:
    __slots__ = ('fn', 'idx', 'insts', 'succs', 'preds', 'name')

    def __repr__(self):
        return '%s#%d' % (self.fn.name, self.idx)


class Func:
    __slots__ = ('name', 'args', 'blocks', 'decl', 'linkage', 'vis', 'loops', 'mod', 'cc', 'retty', 'irreducible', 'retw')

    def __repr__(self):
        return 'fn ' + self.name


class GVar:
    __slots__ = ('name', 'ty', 'const', 'init', 'linkage', 'vis', 'decl', 'align')


class Module:
    def __init__(self, path):
        ctx = L.LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise Broken('cannot read %s' % path)
        m = P()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
            raise Broken('cannot parse %s: %s' % (path, err.value))
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self._tc = {}
        self._vc = {}
        self._ic = {}
        self._bc = {}
        self.funcs = {}
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        gl = []
        while g:
            gv = GVar()
            gv.name = self.vname(g)
            gv.ty = self.ty(L.LLVMGlobalGetValueType(g))
            gv.const = bool(L.LLVMIsGlobalConstant(g))
            gv.linkage = L.LLVMGetLinkage(g)
            gv.vis = L.LLVMGetVisibility(g)
            gv.decl = bool(L.LLVMIsDeclaration(g))
            gv.init = None
            gv.align = L.LLVMGetAlignment(g)
            gl.append((g, gv))
            self.globals[gv.name] = gv
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(m)
        todo = []
        while f:
            fn = Func()
            fn.name = self.vname(f)
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.linkage = L.LLVMGetLinkage(f)
            fn.vis = L.LLVMGetVisibility(f)
            fn.cc = L.LLVMGetFunctionCallConv(f)
            fn.mod = self
            fn.args = []
            fn.blocks = []
            fn.loops = None
            fn.irreducible = False
            self.funcs[fn.name] = fn
            todo.append((f, fn))
            f = L.LLVMGetNextFunction(f)
        for f, fn in todo:
            for i in range(L.LLVMCountParams(f)):
                fn.args.append(self.val(L.LLVMGetParam(f, i)))
        for f, fn in todo:
            if not fn.decl:
                self._body(f, fn)
        for g, gv in gl:
            if not gv.decl:
                ini = L.LLVMGetInitializer(g)
                if ini:
                    gv.init = self.val(ini)

    def vname(self, v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p else ''

    def ty(self, t):
        if t in self._tc:
            return self._tc[t]
        r = Ty()
        self._tc[t] = r
        r.kind = TK.get(L.LLVMGetTypeKind(t), 'other%d' % L.LLVMGetTypeKind(t))
        r.w = r.size = r.asize = 0
        r.elem = r.fields = r.offs = r.name = None
        r.n = 0
        if r.kind == 'int':
            r.w = L.LLVMGetIntTypeWidth(t)
        elif r.kind == 'ptr':
            r.w = 64
        elif r.kind in ('array', 'vector'):
            r.elem = self.ty(L.LLVMGetElementType(t))
            if r.kind == 'array':
                r.n = L.LLVMGetArrayLength2(t)
        elif r.kind == 'struct':
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        if r.kind in ('int', 'ptr', 'float', 'double', 'x86_fp80', 'array', 'vector', 'struct', 'half'):
            r.size = L.LLVMStoreSizeOfType(self.td, t)
            r.asize = L.LLVMABISizeOfType(self.td, t)
        if r.kind in ('float', 'double', 'x86_fp80'):
            r.w = r.size * 8
        return r

    def val(self, v):
        if v in self._vc:
            return self._vc[v]
        k = VK.get(L.LLVMGetValueKind(v), 'other')
        r = Val()
        self._vc[v] = r
        r.k = k
        r.ops = None
        r.v = None
        r.name = self.vname(v) if k in ('arg', 'func', 'gvar', 'alias') else ''
        r.ty = self.ty(L.LLVMTypeOf(v)) if k not in ('metadata', 'bb', 'inlineasm') else None
        if k == 'cint':
            if r.ty.w <= 64:
                r.v = L.LLVMConstIntGetZExtValue(v)
            else:
                p = L.LLVMPrintValueToString(v)
                s = C.string_at(p).decode()
                L.LLVMDisposeMessage(p)
                r.v = int(s.split()[-1]) & ((1 << r.ty.w) - 1)
        elif k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(v), 'other')
            r.v = op
            r.ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if op == 'gep':
                r.name = self.ty(L.LLVMGetGEPSourceElementType(v))
        elif k in ('carray', 'cstruct', 'cvector'):
            r.ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
        elif k in ('cdataarr', 'cdatavec'):
            r.ops = [self.val(L.LLVMGetAggregateElement(v, i)) for i in range(r.ty.n)]
        elif k == 'cfp':
            p = L.LLVMPrintValueToString(v)
            r.v = C.string_at(p).decode()
            L.LLVMDisposeMessage(p)
        elif k == 'inlineasm':
            p = L.LLVMPrintValueToString(v)
            m = re.search(r'asm (?:\w+ )*"((?:[^"\\]|\\.)*)"', C.string_at(p).decode())
            r.v = m.group(1) if m else ''
            L.LLVMDisposeMessage(p)
        elif k == 'inst':
            r.v = v
        elif k == 'bb':
            r.v = v
        return r

    def _body(self, f, fn):
        b = L.LLVMGetFirstBasicBlock(f)
        raw = []
        while b:
            bl = Block()
            bl.fn = fn
            bl.idx = len(fn.blocks)
            bl.insts = []
            bl.succs = []
            bl.preds = []
            fn.blocks.append(bl)
            self._bc[L.LLVMBasicBlockAsValue(b)] = bl
            raw.append((b, bl))
            b = L.LLVMGetNextBasicBlock(b)
        pend = []
        for b, bl in raw:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                op = OPC.get(L.LLVMGetInstructionOpcode(i), 'other')
                I = Inst()
                I.op = op
                I.k = 'inst'
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.bb = bl
                I.fn = fn
                I.idx = len(bl.insts)
                I.line = L.LLVMGetDebugLocLine(i)
                n = C.c_uint()
                p = L.LLVMGetDebugLocFilename(i, C.byref(n))
                I.file = C.string_at(p, n.value).decode() if p and I.line else ''
                I.x = None
                I.callee = None
                I.volatile = False
                I.atomic = op in ('cmpxchg', 'atomicrmw')
                bl.insts.append(I)
                self._ic[i] = I
                # make later references resolve to the instruction
                pend.append((i, I))
                i = L.LLVMGetNextInstruction(i)
        for i, I in pend:
            vv = self.val(i)
            vv.name = I
        for i, I in pend:
            op = I.op
            if op == 'phi':
                I.ops = []
                I.x = {}
                for k in range(L.LLVMCountIncoming(i)):
                    I.x[self._bc[L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(i, k))]] = self.val(L.LLVMGetIncomingValue(i, k))
                continue
            nops = L.LLVMGetNumOperands(i)
            raw_ops = [L.LLVMGetOperand(i, k) for k in range(nops)]
            if op == 'br':
                if L.LLVMIsConditional(i):
                    # operands: cond, false, true
                    I.ops = [self.val(raw_ops[0])]
                    I.x = [self._bc[raw_ops[2]], self._bc[raw_ops[1]]]
                else:
                    I.ops = []
                    I.x = [self._bc[raw_ops[0]]]
                I.bb.succs = list(I.x)
                continue
            if op == 'switch':
                I.ops = [self.val(raw_ops[0])]
                I.x = (self._bc[raw_ops[1]], [(self.val(raw_ops[k]).v, self._bc[raw_ops[k + 1]]) for k in range(2, nops, 2)])
                I.bb.succs = [I.x[0]] + [b for _, b in I.x[1]]
                continue
            if op == 'call':
                na = L.LLVMGetNumArgOperands(i)
                I.ops = [self.val(o) for o in raw_ops[:na]]
                I.callee = self.val(L.LLVMGetCalledValue(i))
                continue
            if op == 'invoke':
                raise Broken('invoke unsupported')
            I.ops = [self.val(o) for o in raw_ops]
            if op == 'icmp':
                I.x = PRED[L.LLVMGetICmpPredicate(i)]
            elif op == 'gep':
                I.x = self.ty(L.LLVMGetGEPSourceElementType(i))
            elif op == 'alloca':
                I.x = self.ty(L.LLVMGetAllocatedType(i))
                I.align = L.LLVMGetAlignment(i)
            elif op in ('add', 'sub', 'mul', 'shl'):
                I.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
            elif op in ('extractvalue', 'insertvalue'):
                p = L.LLVMGetIndices(i)
                I.x = [p[k] for k in range(L.LLVMGetNumIndices(i))]
            elif op in ('load', 'store'):
                I.volatile = bool(L.LLVMGetVolatile(i))
                I.atomic = L.LLVMGetOrdering(i) != 0
        for bl in fn.blocks:
            for s in bl.succs:
                s.preds.append(bl)
        fn.loops = find_loops(fn)


class Loop:
    __slots__ = ('head', 'blocks', 'parent', 'children', 'latches')


def find_loops(fn):
    n = len(fn.blocks)
    if not n:
        return {}
    # dominators (iterative)
    order = []
    seen = set()
    stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(fn.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    dom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in dom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a is not c:
                            while rpo[a] > rpo[c]:
                                a = dom[a]
                            while rpo[c] > rpo[a]:
                                c = dom[c]
                        new = a
            if dom.get(b) is not new:
                dom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a is b:
                return True
            if b is order[0]:
                return False
            b = dom[b]
    loops = {}
    for b in order:
        for s in b.succs:
            if s in rpo and dominates(s, b):
                lp = loops.get(s)
                if lp is None:
                    lp = loops[s] = Loop()
                    lp.head = s
                    lp.blocks = {s}
                    lp.latches = []
                lp.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in lp.blocks:
                        lp.blocks.add(x)
                        st.extend(p for p in x.preds if p in rpo)
    # irreducible check
    for b in order:
        for s in b.succs:
            if rpo[s] <= rpo[b] and s not in loops:
                fn.irreducible = True
    return loops
