"""Compile C++ to LLVM IR with clang and decode the IR through libLLVM's C API (ctypes)."""
import ctypes as C, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

_L = None
VP = C.c_void_p


def _find_lib():
    import glob
    for pat in ('/usr/lib/llvm-18/lib/libLLVM-18.so*', '/usr/lib/llvm-18/lib/libLLVM*.so*',
                '/usr/lib/x86_64-linux-gnu/libLLVM-18.so*'):
        for f in sorted(glob.glob(pat)):
            return f
    raise RuntimeError('libLLVM-18 not found')


def L():
    global _L
    if _L is None:
        lib = C.CDLL(_find_lib())

        class W:
            pass
        w = W()

        def fn(name, res, *args):
            f = getattr(lib, name)
            f.restype = res
            f.argtypes = list(args)
            setattr(w, name[4:], f)
        I, U, S, ULL, LL = C.c_int, C.c_uint, C.c_char_p, C.c_ulonglong, C.c_longlong
        fn('LLVMContextCreate', VP)
        fn('LLVMCreateMemoryBufferWithContentsOfFile', I, S, C.POINTER(VP), C.POINTER(VP))
        fn('LLVMParseIRInContext', I, VP, VP, C.POINTER(VP), C.POINTER(VP))
        fn('LLVMLinkModules2', I, VP, VP)
        fn('LLVMRunPasses', VP, VP, S, VP, VP)
        fn('LLVMGetErrorMessage', VP, VP)
        fn('LLVMCreatePassBuilderOptions', VP)
        for o in ('LoopInterleaving', 'LoopVectorization', 'SLPVectorization', 'LoopUnrolling'):
            fn('LLVMPassBuilderOptionsSet' + o, None, VP, I)
        for n in ('GetFirstFunction', 'GetNextFunction', 'GetFirstGlobal', 'GetNextGlobal', 'GetFirstBasicBlock',
                  'GetNextBasicBlock', 'GetFirstInstruction', 'GetNextInstruction', 'GetInitializer', 'GlobalGetValueType',
                  'TypeOf', 'GetElementType', 'GetReturnType', 'GetAllocatedType', 'GetGEPSourceElementType',
                  'GetCalledValue', 'GetCalledFunctionType', 'GetCondition', 'GetSwitchDefaultDest', 'GetModuleDataLayout',
                  'AliasGetAliasee', 'GetFirstGlobalAlias', 'GetNextGlobalAlias', 'BasicBlockAsValue', 'GetEntryBasicBlock',
                  'GetNormalDest', 'GetUnwindDest', 'PrintValueToString', 'PrintTypeToString'):
            fn('LLVM' + n, VP, VP)
        for n in ('CountParams', 'CountBasicBlocks', 'CountIncoming', 'CountStructElementTypes', 'GetIntTypeWidth',
                  'GetNumSuccessors', 'GetNumArgOperands', 'GetVectorSize', 'GetArrayLength', 'GetNumIndices'):
            fn('LLVM' + n, U, VP)
        for n in ('GetTypeKind', 'GetInstructionOpcode', 'GetICmpPredicate', 'GetNumOperands', 'GetValueKind',
                  'IsDeclaration', 'IsNull', 'IsUndef', 'IsPoison', 'IsGlobalConstant', 'IsConditional', 'GetConstOpcode',
                  'IsConstantString', 'IsPackedStruct', 'IsOpaqueStruct', 'IsFunctionVarArg', 'GetLinkage'):
            fn('LLVM' + n, I, VP)
        fn('LLVMGetParam', VP, VP, U)
        fn('LLVMGetOperand', VP, VP, U)
        fn('LLVMGetIncomingValue', VP, VP, U)
        fn('LLVMGetIncomingBlock', VP, VP, U)
        fn('LLVMGetSuccessor', VP, VP, U)
        fn('LLVMStructGetTypeAtIndex', VP, VP, U)
        fn('LLVMGetValueName2', S, VP, C.POINTER(C.c_size_t))
        fn('LLVMConstIntGetZExtValue', ULL, VP)
        fn('LLVMGetAsString', VP, VP, C.POINTER(C.c_size_t))
        fn('LLVMGetAggregateElement', VP, VP, U)
        fn('LLVMGetIndices', C.POINTER(U), VP)
        fn('LLVMABISizeOfType', ULL, VP, VP)
        fn('LLVMStoreSizeOfType', ULL, VP, VP)
        fn('LLVMABIAlignmentOfType', U, VP, VP)
        fn('LLVMOffsetOfElement', ULL, VP, VP, U)
        fn('LLVMDisposeMessage', None, VP)
        fn('LLVMGetStructName', S, VP)
        fn('LLVMGetNumMaskElements', U, VP)
        fn('LLVMGetMaskValue', I, VP, U)
        fn('LLVMGetEnumAttributeKindForName', U, S, C.c_size_t)
        fn('LLVMCreateEnumAttribute', VP, VP, U, ULL)
        fn('LLVMAddAttributeAtIndex', None, VP, U, VP)
        fn('LLVMRemoveEnumAttributeAtIndex', None, VP, U, U)
        fn('LLVMIsAFunction', VP, VP)
        fn('LLVMIsAGlobalVariable', VP, VP)
        fn('LLVMIsAGlobalAlias', VP, VP)
        fn('LLVMIsAConstantInt', VP, VP)
        fn('LLVMIsAConstantExpr', VP, VP)
        fn('LLVMIsAConstant', VP, VP)
        fn('LLVMIsAInlineAsm', VP, VP)
        fn('LLVMIsAArgument', VP, VP)
        fn('LLVMIsAInstruction', VP, VP)
        fn('LLVMVerifyModule', I, VP, I, C.POINTER(VP))
        fn('LLVMSetLinkage', None, VP, I)
        fn('LLVMIntPtrTypeInContext', VP, VP, VP)
        fn('LLVMWriteBitcodeToFile', I, VP, S)
        fn('LLVMGetAlignment', U, VP)
        _L = w
    return _L


CXXFLAGS = ['-std=gnu++17', '-DNDEBUG', '-include', 'cstdint', '-D__GMP_WITHIN_CONFIGURE=1',
            '-D__GMP_WITHIN_CONFIGURE_INLINE=0', '-DGMP_LIMB_BITS=64', '-DGMP_NAIL_BITS=0',
            '-D__GMP_CC="x"', '-D__GMP_CFLAGS="x"', '-D__GMP_HAVE_TOKEN_PASTE=1']


class BuildError(Exception):
    pass


def compile_bc(src, out, incs, extra=(), native_first=None):
    cmd = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-w', '-g0'] + CXXFLAGS + \
          ['-I' + i for i in incs] + list(extra) + ['-emit-llvm', '-c', src, '-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('clang failed on %s:\n%s' % (src, r.stdout[-4000:]))
    return out


def demangle(names):
    if not names:
        return {}
    r = subprocess.run(['c++filt'], input='\n'.join(names) + '\n', stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))


class Func:
    __slots__ = ('name', 'dem', 'nparams', 'consts', 'nregs', 'blocks', 'decl', 'vararg', 'ipdom', 'rettype', 'val',
                 'decoded', 'mod', 'model', 'index', 'ptypes', 'blocknames', 'loopblocks')


class Block:
    __slots__ = ('phis', 'insts', 'succs', 'idx')


(OP_RET, OP_BR, OP_SWITCH, OP_INVOKE, OP_UNREACH) = (1, 2, 3, 5, 7)


class Ty:
    """Decoded type: kind in 'i','p','s','a','v','void','fp'"""
    __slots__ = ('k', 'w', 'size', 'fields', 'elem', 'n', 'align', 'ref', 'name', 'esize')


class Module:
    def __init__(self, bcfiles, passes='default<O1>', noinline=(), dump=None):
        l = L()
        self.ctx = l.ContextCreate()
        self.mod = None
        for f in bcfiles:
            buf = VP()
            msg = VP()
            if l.CreateMemoryBufferWithContentsOfFile(f.encode(), C.byref(buf), C.byref(msg)):
                raise BuildError('cannot read ' + f)
            m = VP()
            if l.ParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
                raise BuildError('cannot parse ' + f)
            if self.mod is None:
                self.mod = m.value
            else:
                if l.LinkModules2(self.mod, m.value):
                    raise BuildError('link failed: ' + f)
        self.dl = l.GetModuleDataLayout(self.mod)
        self._list_functions()
        if noinline:
            kind = l.GetEnumAttributeKindForName(b'noinline', 8)
            alw = l.GetEnumAttributeKindForName(b'alwaysinline', 12)
            attr = l.CreateEnumAttribute(self.ctx, kind, 0)
            rx = re.compile('|'.join('(?:%s)' % p for p in noinline))
            for nm, v in self.fvals.items():
                if rx.search(self.dem[nm]) and not l.IsDeclaration(v):
                    l.RemoveEnumAttributeAtIndex(v, 0xFFFFFFFF, alw)
                    l.AddAttributeAtIndex(v, 0xFFFFFFFF, attr)
        if passes:
            o = l.CreatePassBuilderOptions()
            for n in ('LoopInterleaving', 'LoopVectorization', 'SLPVectorization', 'LoopUnrolling'):
                getattr(l, 'PassBuilderOptionsSet' + n)(o, 0)
            e = l.RunPasses(self.mod, passes.encode(), None, o)
            if e:
                raise BuildError('passes: ' + C.cast(l.GetErrorMessage(e), C.c_char_p).value.decode())
        if dump:
            l.WriteBitcodeToFile(self.mod, dump.encode())
        self._list_functions()
        self.funcs = {}
        self.types = {}
        self.globals = {}
        v = l.GetFirstGlobal(self.mod)
        while v:
            self.globals[self._name(v)] = v
            v = l.GetNextGlobal(v)
        self.aliases = {}
        v = l.GetFirstGlobalAlias(self.mod)
        while v:
            self.aliases[self._name(v)] = l.AliasGetAliasee(v)
            v = l.GetNextGlobalAlias(v)
        for nm, v in self.fvals.items():
            f = Func()
            f.name = nm
            f.dem = self.dem[nm]
            f.val = v
            f.nparams = l.CountParams(v)
            f.decl = bool(l.IsDeclaration(v))
            f.decoded = False
            f.model = None
            f.mod = self
            f.ipdom = None
            self.funcs[nm] = f

    def _name(self, v):
        n = C.c_size_t()
        s = L().GetValueName2(v, C.byref(n))
        return s.decode()

    def _list_functions(self):
        l = L()
        self.fvals = {}
        v = l.GetFirstFunction(self.mod)
        while v:
            self.fvals[self._name(v)] = v
            v = l.GetNextFunction(v)
        self.dem = demangle(list(self.fvals))

    # ---- types
    def ty(self, ref):
        t = self.types.get(ref)
        if t is not None:
            return t
        l = L()
        t = Ty()
        t.ref = ref
        t.name = None
        t.fields = None
        t.elem = None
        t.n = 0
        t.w = 0
        t.size = 0
        t.align = 1
        k = l.GetTypeKind(ref)
        self.types[ref] = t
        if k == 0:
            t.k = 'void'
            return t
        if k == 8:
            t.k = 'i'
            t.w = l.GetIntTypeWidth(ref)
        elif k == 12:
            t.k = 'p'
            t.w = 64
        elif k == 10:
            t.k = 's'
            nm = l.GetStructName(ref)
            t.name = nm.decode() if nm else None
            if l.IsOpaqueStruct(ref):
                return t
            n = l.CountStructElementTypes(ref)
            t.n = n
            t.fields = [(l.OffsetOfElement(self.dl, ref, i), self.ty(l.StructGetTypeAtIndex(ref, i))) for i in range(n)]
        elif k == 11:
            t.k = 'a'
            t.n = l.GetArrayLength(ref)
            t.elem = self.ty(l.GetElementType(ref))
        elif k == 13:
            t.k = 'v'
            t.n = l.GetVectorSize(ref)
            t.elem = self.ty(l.GetElementType(ref))
        elif k in (2, 3, 4, 1, 5, 6):
            t.k = 'fp'
            t.w = {1: 16, 2: 32, 3: 64, 4: 80, 5: 128, 6: 128}[k]
        else:
            t.k = 'other%d' % k
            return t
        t.size = l.ABISizeOfType(self.dl, ref)
        t.align = l.ABIAlignmentOfType(self.dl, ref)
        if t.elem is not None:
            t.esize = t.elem.size
        return t

    # ---- decode
    def get(self, name):
        f = self.funcs[name]
        if not f.decoded and not f.decl:
            self._decode(f)
        return f

    def _decode(self, f):
        l = L()
        f.consts = []
        blocks = []
        bidx = {}
        vals = {}
        v = f.val
        constmap = {}
        bv = l.GetFirstBasicBlock(v)
        order = []
        while bv:
            bidx[bv] = len(order)
            order.append(bv)
            bv = l.GetNextBasicBlock(bv)
        params = [l.GetParam(v, i) for i in range(f.nparams)]
        f.ptypes = [self.ty(l.TypeOf(p)) for p in params]
        # instruction numbering: constants first; collect constants lazily -> two passes
        insts = []
        for b in order:
            lst = []
            i = l.GetFirstInstruction(b)
            while i:
                lst.append(i)
                i = l.GetNextInstruction(i)
            insts.append(lst)
        local = {}
        n = 0
        for p in params:
            local[p] = n
            n += 1
        for lst in insts:
            for i in lst:
                local[i] = n
                n += 1
        nlocal = n
        consts = []

        def opnd(x):
            if x in local:
                return local[x]
            c = constmap.get(x)
            if c is None:
                c = nlocal + len(consts)
                consts.append(self.const(x))
                constmap[x] = c
            return c

        for bi, lst in enumerate(insts):
            B = Block()
            B.idx = bi
            B.phis = []
            B.insts = []
            B.succs = []
            for i in lst:
                op = l.GetInstructionOpcode(i)
                d = local[i]
                t = self.ty(l.TypeOf(i))
                if op == 44:
                    inc = {}
                    for k in range(l.CountIncoming(i)):
                        inc[bidx[l.GetIncomingBlock(i, k)]] = opnd(l.GetIncomingValue(i, k))
                    B.phis.append((d, inc, t))
                elif op == 2:
                    if l.IsConditional(i):
                        s0 = bidx[l.GetSuccessor(i, 0)]
                        s1 = bidx[l.GetSuccessor(i, 1)]
                        B.succs = [s0, s1]
                        B.insts.append((op, opnd(l.GetCondition(i)), s0, s1))
                    else:
                        s0 = bidx[l.GetSuccessor(i, 0)]
                        B.succs = [s0]
                        B.insts.append((0x102, s0))
                elif op == 1:
                    B.insts.append((op, opnd(l.GetOperand(i, 0)) if l.GetNumOperands(i) else None))
                elif op == 3:
                    no = l.GetNumOperands(i)
                    cond = opnd(l.GetOperand(i, 0))
                    default = bidx[l.GetSwitchDefaultDest(i)]
                    cases = []
                    for k in range(2, no, 2):
                        cv = self.const(l.GetOperand(i, k))
                        # successor index k/2
                        cases.append((cv, bidx[l.GetSuccessor(i, k // 2)]))
                    B.succs = [default] + [c[1] for c in cases]
                    w = self.ty(l.TypeOf(l.GetOperand(i, 0))).w
                    B.insts.append((op, cond, default, cases, w))
                elif op in (45, 5):
                    cv = l.GetCalledValue(i)
                    na = l.GetNumArgOperands(i)
                    args = [opnd(l.GetOperand(i, k)) for k in range(na)]
                    while cv in [] or (l.IsAGlobalAlias(cv)):
                        cv = l.AliasGetAliasee(cv)
                    if l.IsAFunction(cv):
                        callee = self._name(cv)
                    elif l.IsAInlineAsm(cv):
                        callee = ('asm',)
                    else:
                        callee = opnd(cv)
                    if op == 5:
                        nd = bidx[l.GetNormalDest(i)]
                        ud = bidx[l.GetUnwindDest(i)]
                        B.succs = [nd]          # exceptional edge is not followed
                        B.insts.append((45, d, callee, args, t))
                        B.insts.append((0x102, nd))
                    else:
                        B.insts.append((45, d, callee, args, t))
                elif op == 7:
                    B.insts.append((op,))
                elif 8 <= op <= 25:
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), t))
                elif op == 26:
                    at = self.ty(l.GetAllocatedType(i))
                    B.insts.append((op, d, at.size, opnd(l.GetOperand(i, 0)), at))
                elif op == 27:
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), t))
                elif op == 28:
                    vt = self.ty(l.TypeOf(l.GetOperand(i, 0)))
                    B.insts.append((op, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), vt))
                elif op == 29:
                    base = opnd(l.GetOperand(i, 0))
                    coff, var = self._gep(i, opnd)
                    B.insts.append((op, d, base, coff, var))
                elif op in (30, 31, 32):
                    st = self.ty(l.TypeOf(l.GetOperand(i, 0)))
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), st, t))
                elif op in (39, 40, 41, 68):
                    st = self.ty(l.TypeOf(l.GetOperand(i, 0)))
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), st, t))
                elif op == 42:
                    st = self.ty(l.TypeOf(l.GetOperand(i, 0)))
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), l.GetICmpPredicate(i), st))
                elif op == 46:
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), opnd(l.GetOperand(i, 2)), t))
                elif op == 50:
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1))))
                elif op == 51:
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), opnd(l.GetOperand(i, 2)), t))
                elif op == 52:
                    nm = l.GetNumMaskElements(i)
                    mask = [l.GetMaskValue(i, k) for k in range(nm)]
                    B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), mask, t))
                elif op in (53, 54):
                    ni = l.GetNumIndices(i)
                    idx = [l.GetIndices(i)[k] for k in range(ni)]
                    if op == 53:
                        B.insts.append((op, d, opnd(l.GetOperand(i, 0)), idx))
                    else:
                        B.insts.append((op, d, opnd(l.GetOperand(i, 0)), opnd(l.GetOperand(i, 1)), idx, t))
                else:
                    B.insts.append((0x200, op, d))
            blocks.append(B)
        f.blocks = blocks
        f.consts = consts
        f.nregs = nlocal + len(consts)
        f.index = nlocal
        f.decoded = True
        f.ipdom = _ipdoms(blocks)

    def _gep(self, i, opnd):
        """-> (constant byte offset, [(operand index, scale, bits)])"""
        l = L()
        t = self.ty(l.GetGEPSourceElementType(i))
        off = 0
        var = []
        n = l.GetNumOperands(i)
        for k in range(1, n):
            o = l.GetOperand(i, k)
            if k == 1:
                scale = t.size
                et = t
            else:
                if t.k == 's':
                    ix = l.ConstIntGetZExtValue(o)
                    off += t.fields[ix][0]
                    t = t.fields[ix][1]
                    continue
                t = t.elem
                scale = t.size
            if l.IsAConstantInt(o):
                w = l.GetIntTypeWidth(l.TypeOf(o))
                c = l.ConstIntGetZExtValue(o)
                if c >> (w - 1) & 1:
                    c -= 1 << w
                off += c * scale
            else:
                var.append((opnd(o), scale, l.GetIntTypeWidth(l.TypeOf(o))))
        return off, var

    # ---- constants: ints -> int; ('null',), ('glob',name,off), ('func',name), ('agg',[...]), ('undef',ty), ('bytes',b)
    def const(self, v):
        l = L()
        t = self.ty(l.TypeOf(v))
        if l.IsUndef(v) or l.IsPoison(v):
            return ('undef', t)
        if l.IsAFunction(v):
            return ('func', self._name(v))
        if l.IsAGlobalVariable(v):
            return ('glob', self._name(v), 0)
        if l.IsAGlobalAlias(v):
            return self.const(l.AliasGetAliasee(v))
        if l.IsAConstantInt(v):
            if t.w <= 64:
                return l.ConstIntGetZExtValue(v)
            s = C.cast(l.PrintValueToString(v), C.c_char_p).value.decode()
            return int(s.split()[-1]) % (1 << t.w)
        if l.IsAConstantExpr(v):
            op = l.GetConstOpcode(v)
            if op == 29:
                base = self.const(l.GetOperand(v, 0))
                off, var = self._gep(v, None)
                if base[0] == 'glob':
                    return ('glob', base[1], base[2] + off)
                return ('unk', 'gep')
            if op in (41, 39, 40):
                c = self.const(l.GetOperand(v, 0))
                return c
            if op in (8, 10):
                a = self.const(l.GetOperand(v, 0))
                b = self.const(l.GetOperand(v, 1))
                return ('expr', op, a, b, t.w)
            return ('unk', 'constexpr%d' % op)
        if l.IsNull(v):
            return ('zero', t) if t.k in ('s', 'a', 'v') else (('null',) if t.k == 'p' else (0 if t.k == 'i' else ('fp', 0)))
        if t.k == 'fp':
            return ('fp', C.cast(l.PrintValueToString(v), C.c_char_p).value.decode())
        if t.k in ('s', 'a', 'v'):
            if t.k == 'a' and l.IsConstantString(v):
                n = C.c_size_t()
                p = l.GetAsString(v, C.byref(n))
                return ('bytes', C.string_at(p, n.value), t)
            n = t.n
            return ('agg', [self.const(l.GetAggregateElement(v, k)) for k in range(n)], t)
        return ('unk', 'const')


def _ipdoms(blocks):
    """immediate post-dominators over normal edges; -1 = function exit.  Blocks that end in unreachable are ignored
    as exits (they lead to the exit as well but terminate the path)."""
    n = len(blocks)
    EXIT = n
    succ = []
    dead = set()
    for b in blocks:
        last = b.insts[-1][0]
        if last == 1:
            succ.append([EXIT])
        elif last == 7:
            succ.append([])
            dead.add(b.idx)
        else:
            succ.append(list(dict.fromkeys(b.succs)))
    # blocks that cannot reach EXIT are ignored
    preds = [[] for _ in range(n + 1)]
    for i, ss in enumerate(succ):
        for s in ss:
            preds[s].append(i)
    # reverse post-order from EXIT on reversed graph
    order = []
    seen = {EXIT}
    stack = [(EXIT, iter(preds[EXIT]))]
    while stack:
        u, it = stack[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                stack.append((w, iter(preds[w])))
                break
        else:
            order.append(u)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for s in succ[b]:
                if s in idom:
                    if new is None:
                        new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return [(-1 if idom.get(i, EXIT) == EXIT else idom[i]) for i in range(n)]
