"""LLVM IR loader: parses IR with the installed libLLVM (C API through ctypes), optionally runs passes,
and turns functions lazily into small Python structures that the verifier interprets."""
import ctypes, os, re, struct
from ctypes import c_void_p, c_char_p, c_int, c_uint, c_size_t, c_ulonglong, c_longlong, c_bool, POINTER, byref

LIB = None
def lib():
    global LIB
    if LIB is None:
        LIB = ctypes.CDLL("/usr/lib/x86_64-linux-gnu/libLLVM.so.20.1")
    return LIB

_P = {}
def F(name, res=c_void_p, *args):
    k = name
    f = _P.get(k)
    if f is None:
        f = getattr(lib(), name)
        f.restype = res
        f.argtypes = list(args)
        _P[k] = f
    return f

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',
 28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',
 40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',52:'shufflevector',
 53:'extractvalue',54:'insertvalue',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin'}
TK = {0:'void',1:'half',2:'float',3:'double',4:'x86_fp80',5:'fp128',7:'label',8:'int',9:'function',10:'struct',11:'array',12:'pointer',13:'vector',14:'metadata',16:'token'}

class Type:
    __slots__=('kind','bits','elems','elem','count','size','offs','align')
    def __repr__(self):
        if self.kind=='int': return f'i{self.bits}'
        return self.kind
class Instr:
    __slots__=('op','name','ty','ops','x','line','file','lval','fn','inl')
class Block:
    __slots__=('name','instrs','idx','phis','fn','succs','nphi')
class Func:
    __slots__=('name','blocks','args','ret','module','loops','headers','vararg','_dom','params','dispatch')

class Const:
    """constant operand; kind: int, null, undef, fp, agg, func, global, expr"""
    __slots__=('kind','v','ty')
    def __init__(s,kind,v,ty): s.kind=kind; s.v=v; s.ty=ty
    def __repr__(s): return f'C({s.kind},{s.v})'
class Local:
    __slots__=('id','ty')
    def __init__(s,id,ty): s.id=id; s.ty=ty
    def __repr__(s): return f'%{s.id}'

def _str(fname, ptr):
    n = c_size_t()
    r = F(fname, c_void_p, c_void_p, POINTER(c_size_t))(ptr, byref(n))
    return ctypes.string_at(r, n.value).decode('utf8','replace') if r else ''

class Module:
    def __init__(self, path):
        self.ctx = F('LLVMContextCreate')()
        buf = c_void_p(); err = c_char_p()
        if F('LLVMCreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(c_void_p), POINTER(c_char_p))(path.encode(), byref(buf), byref(err)):
            raise RuntimeError(err.value)
        mod = c_void_p()
        if F('LLVMParseIRInContext', c_int, c_void_p, c_void_p, POINTER(c_void_p), POINTER(c_char_p))(self.ctx, buf, byref(mod), byref(err)):
            raise RuntimeError('IR parse: %r' % (err.value,))
        self.mod = mod
        self.td = F('LLVMGetModuleDataLayout', c_void_p, c_void_p)(mod)
        self._types = {}
        self._funcs = {}
        self._globs = {}
        self.valid = {}
        self._nid = 0
        self._vid = {}

    # ---- preparation
    def function_names(self, defined=True):
        f = F('LLVMGetFirstFunction', c_void_p, c_void_p)(self.mod)
        out=[]
        while f:
            if not defined or not F('LLVMIsDeclaration', c_int, c_void_p)(f):
                out.append(_str('LLVMGetValueName2', f))
            f = F('LLVMGetNextFunction', c_void_p, c_void_p)(f)
        return out
    def add_fn_attr(self, fname, attr):
        f = F('LLVMGetNamedFunction', c_void_p, c_void_p, c_char_p)(self.mod, fname.encode())
        k = F('LLVMGetEnumAttributeKindForName', c_uint, c_char_p, c_size_t)(attr.encode(), len(attr))
        a = F('LLVMCreateEnumAttribute', c_void_p, c_void_p, c_uint, c_ulonglong)(self.ctx, k, 0)
        F('LLVMAddAttributeAtIndex', None, c_void_p, c_uint, c_void_p)(f, 0xFFFFFFFF, a)
    def del_fn_attr(self, fname, attr):
        f = F('LLVMGetNamedFunction', c_void_p, c_void_p, c_char_p)(self.mod, fname.encode())
        k = F('LLVMGetEnumAttributeKindForName', c_uint, c_char_p, c_size_t)(attr.encode(), len(attr))
        F('LLVMRemoveEnumAttributeAtIndex', None, c_void_p, c_uint, c_uint)(f, 0xFFFFFFFF, k)
    def run_passes(self, pipeline):
        opts = F('LLVMCreatePassBuilderOptions')()
        for o in ('LoopUnrolling','LoopVectorization','SLPVectorization','LoopInterleaving'):
            F('LLVMPassBuilderOptionsSet'+o, None, c_void_p, c_int)(opts, 0)
        e = F('LLVMRunPasses', c_void_p, c_void_p, c_char_p, c_void_p, c_void_p)(self.mod, pipeline.encode(), None, opts)
        if e:
            raise RuntimeError('passes: ' + ctypes.string_at(F('LLVMGetErrorMessage', c_void_p, c_void_p)(e)).decode())
    def keep_out_of_line(self, fname):
        """a function under contract: not inlined, external linkage (so that no interprocedural pass specialises it)"""
        f = F('LLVMGetNamedFunction', c_void_p, c_void_p, c_char_p)(self.mod, fname.encode())
        try: self.del_fn_attr(fname,'alwaysinline')
        except Exception: pass
        self.add_fn_attr(fname,'noinline')
        if F('LLVMGetLinkage', c_int, c_void_p)(f) in (8,9): F('LLVMSetLinkage', None, c_void_p, c_int)(f, 0)
    def dump(self, path):
        err = c_char_p()
        F('LLVMPrintModuleToFile', c_int, c_void_p, c_char_p, POINTER(c_char_p))(self.mod, path.encode(), byref(err))

    # ---- types
    def type(self, t):
        r = self._types.get(t)
        if r: return r
        T = Type(); T.bits=T.count=0; T.elems=T.elem=T.offs=None; T.size=0; T.align=1
        k = TK.get(F('LLVMGetTypeKind', c_int, c_void_p)(t),'?')
        T.kind = k
        self._types[t]=T
        if k=='int':
            T.bits = F('LLVMGetIntTypeWidth', c_uint, c_void_p)(t)
        elif k=='struct':
            n = F('LLVMCountStructElementTypes', c_uint, c_void_p)(t)
            arr=(c_void_p*n)()
            F('LLVMGetStructElementTypes', None, c_void_p, c_void_p)(t, arr)
            opaque = F('LLVMIsOpaqueStruct', c_int, c_void_p)(t)
            if opaque: T.kind='opaque'; return T
            T.elems=[self.type(a) for a in arr]
            T.offs=[F('LLVMOffsetOfElement', c_ulonglong, c_void_p, c_void_p, c_uint)(self.td, t, i) for i in range(n)]
        elif k=='array':
            T.elem=self.type(F('LLVMGetElementType', c_void_p, c_void_p)(t))
            T.count=F('LLVMGetArrayLength2', c_ulonglong, c_void_p)(t)
        elif k=='vector':
            T.elem=self.type(F('LLVMGetElementType', c_void_p, c_void_p)(t))
            T.count=F('LLVMGetVectorSize', c_uint, c_void_p)(t)
        if F('LLVMTypeIsSized', c_int, c_void_p)(t):
            T.size=F('LLVMABISizeOfType', c_ulonglong, c_void_p, c_void_p)(self.td, t)
            T.align=F('LLVMABIAlignmentOfType', c_uint, c_void_p, c_void_p)(self.td, t)
        return T
    def vtype(self, v): return self.type(F('LLVMTypeOf', c_void_p, c_void_p)(v))

    # ---- operands
    def operand(self, v, locs):
        if v in locs: return locs[v]
        if F('LLVMIsAConstant', c_void_p, c_void_p)(v):
            return self.const(v)
        if F('LLVMIsAArgument', c_void_p, c_void_p)(v) or F('LLVMIsAInstruction', c_void_p, c_void_p)(v):
            l=Local(len(locs), self.vtype(v)); locs[v]=l; return l
        if F('LLVMValueIsBasicBlock', c_int, c_void_p)(v): return Const('block', v, None)
        return Const('meta', None, None)
    def const(self, v):
        ty = self.vtype(v)
        if F('LLVMIsAFunction', c_void_p, c_void_p)(v): return Const('func', _str('LLVMGetValueName2', v), ty)
        if F('LLVMIsAGlobalAlias', c_void_p, c_void_p)(v):
            return self.const(F('LLVMAliasGetAliasee', c_void_p, c_void_p)(v))
        if F('LLVMIsAGlobalVariable', c_void_p, c_void_p)(v):
            return Const('global', self.globvar(v), ty)
        if F('LLVMIsAConstantInt', c_void_p, c_void_p)(v):
            if ty.bits<=64:
                val = F('LLVMConstIntGetZExtValue', c_ulonglong, c_void_p)(v)
                return Const('int', val & ((1<<ty.bits)-1), ty)
            s = F('LLVMPrintValueToString', c_void_p, c_void_p)(v)
            txt = ctypes.string_at(s).decode().split()[-1]
            return Const('int', int(txt) & ((1<<ty.bits)-1), ty)
        if F('LLVMIsAConstantFP', c_void_p, c_void_p)(v):
            loses=c_int()
            d = F('LLVMConstRealGetDouble', ctypes.c_double, c_void_p, POINTER(c_int))(v, byref(loses))
            return Const('fp', d, ty)
        if F('LLVMIsAConstantPointerNull', c_void_p, c_void_p)(v): return Const('null', None, ty)
        if F('LLVMIsAConstantTokenNone', c_void_p, c_void_p)(v): return Const('undef', None, ty)
        if F('LLVMIsUndef', c_int, c_void_p)(v): return Const('undef', None, ty)
        if F('LLVMIsAConstantAggregateZero', c_void_p, c_void_p)(v): return Const('zero', None, ty)
        if F('LLVMIsAConstantStruct', c_void_p, c_void_p)(v) or F('LLVMIsAConstantArray', c_void_p, c_void_p)(v) or F('LLVMIsAConstantVector', c_void_p, c_void_p)(v):
            n=F('LLVMGetNumOperands', c_int, c_void_p)(v)
            return Const('agg', [self.const(F('LLVMGetOperand', c_void_p, c_void_p, c_uint)(v,i)) for i in range(n)], ty)
        if F('LLVMIsAConstantDataArray', c_void_p, c_void_p)(v) or F('LLVMIsAConstantDataVector', c_void_p, c_void_p)(v):
            if ty.kind=='array' and ty.elem.kind=='int' and ty.elem.bits==8:
                n=c_size_t(); p=F('LLVMGetAsString', c_void_p, c_void_p, POINTER(c_size_t))(v, byref(n))
                return Const('bytes', ctypes.string_at(p,n.value), ty)
            n=ty.count
            return Const('agg', [self.const(F('LLVMGetAggregateElement', c_void_p, c_void_p, c_uint)(v,i)) for i in range(n)], ty)
        if F('LLVMIsAConstantExpr', c_void_p, c_void_p)(v):
            op = OPC.get(F('LLVMGetConstOpcode', c_int, c_void_p)(v),'?')
            n=F('LLVMGetNumOperands', c_int, c_void_p)(v)
            ops=[self.const(F('LLVMGetOperand', c_void_p, c_void_p, c_uint)(v,i)) for i in range(n)]
            x=None
            if op=='gep': x=self.gep_plan(v, ops)
            if op=='icmp': x=ICMP[F('LLVMGetICmpPredicate', c_int, c_void_p)(v)]
            return Const('expr', (op, ops, x), ty)
        return Const('undef', None, ty)

    def globvar(self, v):
        name=_str('LLVMGetValueName2', v)
        if not name:
            name='.anon%x'%v
        if name not in self._globs:
            self._globs[name]=v
        return name
    def global_info(self, name):
        v=self._globs.get(name)
        if v is None:
            v=F('LLVMGetNamedGlobal', c_void_p, c_void_p, c_char_p)(self.mod, name.encode())
            if not v: return None
            self._globs[name]=v
        vt=self.type(F('LLVMGlobalGetValueType', c_void_p, c_void_p)(v))
        init=F('LLVMGetInitializer', c_void_p, c_void_p)(v)
        const=bool(F('LLVMIsGlobalConstant', c_int, c_void_p)(v))
        return vt, (self.const(init) if init else None), const, bool(F('LLVMIsThreadLocal', c_int, c_void_p)(v))

    def gep_plan(self, v, ops):
        """list of (const_offset | (operand, scale, bits))"""
        cur=F('LLVMGetGEPSourceElementType', c_void_p, c_void_p)(v)
        T=self.type(cur)
        const=0; var=[]
        for i,o in enumerate(ops[1:]):
            if i==0:
                sz=T.size
                if isinstance(o,Const) and o.kind=='int':
                    const+=_sx(o.v,o.ty.bits)*sz
                else: var.append((o,sz))
            else:
                if T.kind=='struct':
                    k=o.v; const+=T.offs[k]; T=T.elems[k]
                elif T.kind in('array','vector'):
                    T=T.elem
                    if isinstance(o,Const) and o.kind=='int': const+=_sx(o.v,o.ty.bits)*T.size
                    else: var.append((o,T.size))
                else: raise RuntimeError('gep')
        return const,var

    # ---- functions
    def func(self, name):
        if name in self._funcs: return self._funcs[name]
        f=F('LLVMGetNamedFunction', c_void_p, c_void_p, c_char_p)(self.mod, name.encode())
        if not f or F('LLVMIsDeclaration', c_int, c_void_p)(f):
            self._funcs[name]=None; return None
        fn=Func(); fn.name=name; fn.module=self; fn.loops=None; fn._dom=None; fn.dispatch=frozenset()
        locs={}
        n=F('LLVMCountParams', c_uint, c_void_p)(f)
        fn.args=[self.operand(F('LLVMGetParam', c_void_p, c_void_p, c_uint)(f,i),locs) for i in range(n)]
        fty=F('LLVMGlobalGetValueType', c_void_p, c_void_p)(f)
        fn.ret=self.type(F('LLVMGetReturnType', c_void_p, c_void_p)(fty))
        fn.vararg=bool(F('LLVMIsFunctionVarArg', c_int, c_void_p)(fty))
        # byval/sret params
        bvk=F('LLVMGetEnumAttributeKindForName', c_uint, c_char_p, c_size_t)(b'byval',5)
        fn.params=[]
        for i in range(n):
            a=F('LLVMGetEnumAttributeAtIndex', c_void_p, c_void_p, c_uint, c_uint)(f,i+1,bvk)
            fn.params.append(self.type(F('LLVMGetTypeAttributeValue', c_void_p, c_void_p)(a)) if a else None)
        bbs=[]; b=F('LLVMGetFirstBasicBlock', c_void_p, c_void_p)(f)
        bidx={}
        while b:
            bidx[b]=len(bbs); bbs.append(b)
            b=F('LLVMGetNextBasicBlock', c_void_p, c_void_p)(b)
        fn.blocks=[]
        for b in bbs:
            B=Block(); B.idx=bidx[b]; B.fn=fn; B.instrs=[]; B.nphi=0
            i=F('LLVMGetFirstInstruction', c_void_p, c_void_p)(b)
            while i:
                I=self.instr(i,locs,bidx)
                I.fn=fn
                B.instrs.append(I)
                if I.op=='phi': B.nphi+=1
                i=F('LLVMGetNextInstruction', c_void_p, c_void_p)(i)
            t=B.instrs[-1]
            B.succs=list(t.x['succs']) if isinstance(t.x,dict) and 'succs' in t.x else []
            fn.blocks.append(B)
        self._funcs[name]=fn
        return fn

    def instr(self, i, locs, bidx):
        I=Instr(); I.op=OPC.get(F('LLVMGetInstructionOpcode', c_int, c_void_p)(i),'?'); I.x=None; I.inl=None
        I.ty=self.vtype(i)
        I.lval=None
        if I.ty.kind!='void':
            I.lval=self.operand(i,locs).id
        I.line=F('LLVMGetDebugLocLine', c_uint, c_void_p)(i)
        n=c_uint(); p=F('LLVMGetDebugLocFilename', c_void_p, c_void_p, POINTER(c_uint))(i,byref(n))
        I.file=ctypes.string_at(p,n.value).decode() if p and n.value else ''
        nops=F('LLVMGetNumOperands', c_int, c_void_p)(i)
        raw=[F('LLVMGetOperand', c_void_p, c_void_p, c_uint)(i,k) for k in range(nops)]
        op=I.op
        if op=='phi':
            cnt=F('LLVMCountIncoming', c_uint, c_void_p)(i)
            I.x={}
            for k in range(cnt):
                bb=F('LLVMGetIncomingBlock', c_void_p, c_void_p, c_uint)(i,k)
                I.x[bidx[bb]]=self.operand(F('LLVMGetIncomingValue', c_void_p, c_void_p, c_uint)(i,k),locs)
            I.ops=[]
            return I
        if op in('br','switch','invoke'):
            ns=F('LLVMGetNumSuccessors', c_uint, c_void_p)(i)
            succ=[bidx[F('LLVMGetSuccessor', c_void_p, c_void_p, c_uint)(i,k)] for k in range(ns)]
            I.x={'succs':succ}
            if op=='br':
                I.ops=[self.operand(F('LLVMGetCondition', c_void_p, c_void_p)(i),locs)] if ns==2 else []
                return I
            if op=='switch':
                I.ops=[self.operand(raw[0],locs)]
                I.x['cases']=[(self.const(raw[k]).v, bidx[raw[k+1]]) for k in range(2,nops,2)]
                I.x['default']=bidx[raw[1]]
                return I
        if op in('call','invoke'):
            na=F('LLVMGetNumArgOperands', c_uint, c_void_p)(i)
            if I.x is None: I.x={}
            if op=='invoke':
                I.x['normal']=bidx[F('LLVMGetNormalDest', c_void_p, c_void_p)(i)]
                I.x['unwind']=bidx[F('LLVMGetUnwindDest', c_void_p, c_void_p)(i)]
                I.x['succs']=[I.x['normal'],I.x['unwind']]
            cv=F('LLVMGetCalledValue', c_void_p, c_void_p)(i)
            if F('LLVMIsAInlineAsm', c_void_p, c_void_p)(cv):
                I.x['callee']=Const('func','__inline_asm__',None)
            else:
                I.x['callee']=self.operand(cv,locs)
            I.ops=[self.operand(raw[k],locs) for k in range(na)]
            if op=='call' and F('LLVMGetTailCallKind', c_int, c_void_p)(i)==2: I.x['musttail']=True
            return I
        if op=='gep':
            I.ops=[self.operand(r,locs) for r in raw]
            I.x=self.gep_plan(i,I.ops); return I
        if op=='icmp': I.x=ICMP[F('LLVMGetICmpPredicate', c_int, c_void_p)(i)]
        elif op=='fcmp': I.x=F('LLVMGetFCmpPredicate', c_int, c_void_p)(i)
        elif op=='alloca':
            I.x=self.type(F('LLVMGetAllocatedType', c_void_p, c_void_p)(i))
        elif op in('extractvalue','insertvalue'):
            k=F('LLVMGetNumIndices', c_uint, c_void_p)(i); ix=F('LLVMGetIndices', POINTER(c_uint), c_void_p)(i)
            I.x=[ix[j] for j in range(k)]
        elif op=='atomicrmw':
            I.x=RMW.get(F('LLVMGetAtomicRMWBinOp', c_int, c_void_p)(i),'?')
        elif op=='landingpad':
            nc=F('LLVMGetNumClauses', c_uint, c_void_p)(i)
            I.x={'clauses':[self.const(F('LLVMGetClause', c_void_p, c_void_p, c_uint)(i,k)) for k in range(nc)],'cleanup':bool(F('LLVMIsCleanup', c_int, c_void_p)(i))}
        elif op in('load','store'):
            I.x={'ordering':F('LLVMGetOrdering', c_int, c_void_p)(i),'volatile':bool(F('LLVMGetVolatile', c_int, c_void_p)(i))}
        elif op=='shufflevector':
            k=F('LLVMGetNumMaskElements', c_uint, c_void_p)(i)
            I.x=[F('LLVMGetMaskValue', c_int, c_void_p, c_uint)(i,j) for j in range(k)]
        I.ops=[self.operand(r,locs) for r in raw]
        if op=='store': I.x['ty']=I.ops[0].ty
        return I

def _sx(v,bits):
    return v-(1<<bits) if v>>(bits-1)&1 else v

# ---------------------------------------------------------------- loops
def coro_succs(fn):
    """control flow of a split coroutine as its source has it: a suspension continues at its resume point (the resume
    function's entry only dispatches on the suspension index kept in the frame). None for other functions."""
    if not fn.name.endswith('.resume') or len(fn.args)!=1: return None
    frame=fn.args[0].id; geps={}; loc=None
    for b in fn.blocks:
        for I in b.instrs:
            if I.op=='gep' and I.ops[0].__class__ is Local and I.ops[0].id==frame and not I.x[1]: geps[I.lval]=I.x[0]
    loads={}
    for I in fn.blocks[0].instrs:
        if I.op=='load' and I.ops[0].__class__ is Local and I.ops[0].id in geps: loads[I.lval]=geps[I.ops[0].id]
    def walk(off,k):
        env={l:k for l,o in loads.items() if o==off}; b=0; seen=[]
        def v(o):
            if o.__class__ is Local: return env.get(o.id)
            return o.v if o.kind=='int' else None
        while True:
            seen.append(b)
            for I in fn.blocks[b].instrs:
                if I.op=='icmp' and I.x in('eq','ne'):
                    x,y=v(I.ops[0]),v(I.ops[1])
                    if x is not None and y is not None: env[I.lval]=int((x==y)==(I.x=='eq'))
                elif I.op in('trunc','zext'):
                    x=v(I.ops[0])
                    if x is not None: env[I.lval]=x&((1<<I.ty.bits)-1)
            t=fn.blocks[b].instrs[-1]
            if t.op=='br' and t.ops:
                c=v(t.ops[0])
                if c is None: return b,seen[:-1]
                b2=t.x['succs'][0 if c else 1]
            elif t.op=='switch':
                c=v(t.ops[0])
                if c is None: return b,seen[:-1]
                b2=next((s for x,s in t.x['cases'] if x==c),t.x['default'])
            else: return b,seen[:-1]
            if b2 in seen: return b2,seen
            b=b2
            # stop at the first block that decides nothing about the index
            t=fn.blocks[b].instrs[-1]
            if not(t.op in('br','switch') and t.ops and t.ops[0].__class__ is Local and (t.ops[0].id in env or any(I.lval==t.ops[0].id and I.op=='icmp' and any(v(o) is not None for o in I.ops if o.__class__ is Local) for I in fn.blocks[b].instrs))): return b,seen
    for off in set(loads.values()):
        b0,d=walk(off,0)
        if d: break
    else: return None
    succs=[list(b.succs) for b in fn.blocks]; disp=set(d)
    targets={}
    for b in fn.blocks:
        for I in b.instrs:
            if I.op=='store' and I.ops[1].__class__ is Local and geps.get(I.ops[1].id)==off and I.ops[0].__class__ is Const and I.ops[0].kind=='int':
                k=I.ops[0].v
                t,dd=walk(off,k); disp|=set(dd); succs[b.idx].append(t)
    for x in disp: succs[x]=[]
    succs[0]=[b0]
    fn.dispatch=frozenset(disp)
    return succs
def analyse_loops(fn):
    """natural loops: header idx -> set of block idx. Uses iterative dominators."""
    if fn.loops is not None: return fn.loops
    n=len(fn.blocks)
    succs=coro_succs(fn) or [list(b.succs) for b in fn.blocks]
    preds=[[] for _ in range(n)]
    for b in range(n):
        for s in succs[b]: preds[s].append(b)
    order=[]; seen=set()
    st=[(0,iter(succs[0]))]; seen.add(0)
    while st:
        b,it=st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s,iter(succs[s]))); break
        else:
            order.append(b); st.pop()
    rpo=order[::-1]; num={b:i for i,b in enumerate(rpo)}
    idom={0:0}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in preds[b] if p in idom]
            if not ps: continue
            d=ps[0]
            for p in ps[1:]:
                x,y=p,d
                while x!=y:
                    while num[x]>num[y]: x=idom[x]
                    while num[y]>num[x]: y=idom[y]
                d=x
            if idom.get(b)!=d: idom[b]=d; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==0: return False
            b=idom[b]
    loops={}
    for b in rpo:
        for s in succs[b]:
            if s in num and dom(s,b):
                body=loops.setdefault(s,{s})
                work=[b]
                while work:
                    x=work.pop()
                    if x in body: continue
                    body.add(x)
                    work.extend(p for p in preds[x] if p in num)
    fn.loops=loops
    return loops
