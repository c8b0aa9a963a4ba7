"""Contracts of external functions (assumed): LLVM intrinsics, C/C++ runtime, and the vc_* contract language."""
import z3, re
from .engine import *
from .engine import _sx, _rep
import kiovc.engine as E

class _PT:
    kind='pointer'; size=8
PTRTY=_PT()
T={}
ASSUMED={}   # name -> description of the assumed contract (for evidence)
def b(*names, doc=None):
    def d(f):
        for n in names:
            T[n]=f
            if doc: ASSUMED[n]=doc
        return f
    return d
PREF=[]
def pref(p,doc=None):
    def d(f):
        PREF.append((p,f)); 
        if doc: ASSUMED[p+'*']=doc
        return f
    return d
_cache={}
def lookup(n):
    if n in _cache: return _cache[n]
    r=T.get(n)
    if r is None:
        for p,f in PREF:
            if n.startswith(p): r=f; break
    _cache[n]=r
    return r

def cstr(e,st,p):
    out=b''
    for i in range(200):
        v=e.read(st,e.padd(p,i),1)
        if not isinstance(v,int): return out.decode()+'?'
        if v==0: break
        out+=bytes([v])
    return out.decode('utf8','replace')

# ------------------------------------------------------------------ contract language
def _nd(e,st,name,bits):
    v=fresh('in_'+name,bits)
    st.trace.append(('val',name,bits,v))
    return v
@b('vc_u64')
def _(e,st,I,a,n): return _nd(e,st,cstr(e,st,a[0]),64)
@b('vc_u32')
def _(e,st,I,a,n): return _nd(e,st,cstr(e,st,a[0]),32)
@b('vc_u16')
def _(e,st,I,a,n): return _nd(e,st,cstr(e,st,a[0]),16)
@b('vc_u8')
def _(e,st,I,a,n): return _nd(e,st,cstr(e,st,a[0]),8)
@b('vc_bool')
def _(e,st,I,a,n): return _nd(e,st,cstr(e,st,a[0]),1)
@b('vc_again')
def _(e,st,I,a,n):
    """one more step of an arbitrary history: the loop it controls needs no termination measure"""
    st.ghost['again']=st.ghost.get('again',0)+1
    return _nd(e,st,cstr(e,st,a[0]),1)
@b('vc_size')
def _(e,st,I,a,n):
    nm=cstr(e,st,a[0]); k=a[1]
    v=z3.ZeroExt(64-k,fresh('in_'+nm,k))
    st.trace.append(('val',nm,64,v))
    return v
@b('vc_region')
def _(e,st,I,a,n):
    nm=cstr(e,st,a[1]); size=a[0]
    if not isinstance(size,int):
        e.assume(st,z3.ULT(size,1<<46))
    arr=fresh_arr('mem_'+nm)
    o=e.new_obj(st,nm,size,'heap',('base',arr))
    st.trace.append(('region',nm,size,arr))
    return Ptr(o,0)
@b('vc_region_words')
def _(e,st,I,a,n):
    """array of 8-byte words with arbitrary content; only word-sized aligned access"""
    nm=cstr(e,st,a[1]); size=S(bv(a[0],64)*8)
    if not isinstance(size,int): e.assume(st,z3.ULT(bv(a[0],64),1<<43))
    arr=z3.Array('wmem_%s!%d'%(nm,next(E._ctr)),z3.BitVecSort(64),z3.BitVecSort(64))
    o=e.new_obj(st,nm,size,'heap',('wbase',arr))
    st.trace.append(('wregion',nm,a[0],arr))
    return Ptr(o,0)
@b('vc_free_region')
def _(e,st,I,a,n):
    pass
@b('vc_assume')
def _(e,st,I,a,n): e.assume(st,boolv(a[0]))
@b('vc_assert')
def _(e,st,I,a,n):
    e.oblige(st,boolv(a[0]),'contract',cstr(e,st,a[1]))
@b('vc_cover')
def _(e,st,I,a,n):
    nm=cstr(e,st,a[0])
    if e.checking and not e.covers.get(nm):
        ok,m=e.feas(st,z3.BoolVal(True))
        e.covers[nm]=bool(ok)
@b('vc_stop')
def _(e,st,I,a,n): raise PathEnd('stop')
@b('vc_alive')
def _(e,st,I,a,n):
    p=a[0]
    if p.obj is None: return 0
    return int(e.content(st,p.obj).alive)
@b('vc_same_object')
def _(e,st,I,a,n): return int(a[0].obj is a[1].obj)
@b('vc_inside')
def _(e,st,I,a,n):
    """[p,p+n) lies inside the live object that contains q"""
    p,q,k=a[0],a[1],a[2]
    if p.obj is None or p.obj is not q.obj: return 0
    if not e.content(st,p.obj).alive: return 0
    off=bv(p.off,64); sz=bv(p.obj.size,64); nn=bv(k,64)
    return S(z3.And(z3.ULE(nn,sz),z3.ULE(off,sz-nn)))
@b('vc_object_size')
def _(e,st,I,a,n):
    p=a[0]
    return p.obj.size if p.obj is not None else 0
@b('vc_base')
def _(e,st,I,a,n): return Ptr(a[0].obj,0)
@b('vc_pred')
def _(e,st,I,a,n):
    st.preds.append((bv(a[0],64),boolv(a[1])))
@b('vc_invariant')
def _(e,st,I,a,n):
    f=a[0].obj.extra
    if f not in st.ghost.get('invs',()): st.ghost['invs']=st.ghost.get('invs',())+(f,)
@b('vc_split')
def _(e,st,I,a,n):
    v=a[0]
    while z3.is_app(v) and v.decl().kind()==z3.Z3_OP_ZERO_EXT: v=v.arg(0)
    if z3.is_app(v) and v.decl().kind()==z3.Z3_OP_CONCAT and v.num_args()==2: v=v.arg(1)
    if z3.is_const(v) and z3.is_bv(v) and not z3.is_bv_value(v): e.smt.split=(v,a[1],a[2])
@b('vc_term')
def _(e,st,I,a,n): st.ghost['terms']=st.ghost.get('terms',())+(bv(a[0],64),)
_UF={}
@b('vc_fn')
def _(e,st,I,a,n):
    """uninterpreted 64-bit function of three 64-bit arguments"""
    nm=cstr(e,st,a[0])
    f=_UF.get(nm)
    if f is None:
        B=z3.BitVecSort(64); f=_UF[nm]=z3.Function('uf_'+nm,B,B,B,B)
    return S(f(*[bv(x if not isinstance(x,Ptr) else e.ptrint(st,x),64) for x in a[1:4]]))
@b('vc_all_bytes')
def _(e,st,I,a,n):
    """requires: forall j in [lo,hi): mn <= (unsigned char)p[j] <= mx"""
    p,lo,hi,mn,mx=a
    arr=e.base_array(st,p)
    if arr is None: raise Unsupported('vc_all_bytes on modified memory')
    P=lambda x,mn=mn,mx=mx: z3.And(z3.UGE(x,bv(mn,64) if False else z3.Extract(7,0,bv(mn,64))),z3.ULE(x,z3.Extract(7,0,bv(mx,64))))
    st.qf.append((arr,S(bv(lo,64)+bv(p.off,64)),S(bv(hi,64)+bv(p.off,64)),P)); 
@b('vc_all_name_bytes')
def _(e,st,I,a,n):
    p,lo,hi=a
    arr=e.base_array(st,p)
    if arr is None: raise Unsupported('vc_all_name_bytes on modified memory')
    R=lambda x,l,h: z3.And(z3.UGE(x,l),z3.ULE(x,h))
    P=lambda x: z3.Or(R(x,48,57),R(x,65,90),R(x,97,122),x==95)
    st.qf.append((arr,S(bv(lo,64)+bv(p.off,64)),S(bv(hi,64)+bv(p.off,64)),P))
@b('vc_ghost_ptr')
def _(e,st,I,a,n): st.ghosts.append(a[0])
@b('vc_fp')
def _(e,st,I,a,n): return None
@b('vc_is_symbolic')
def _(e,st,I,a,n): return 1

# ------------------------------------------------------------------ intrinsics
@pref('llvm.lifetime.')
def _(e,st,I,a,n):
    p=a[-1]
    if isinstance(p,Ptr) and p.obj is not None and p.obj.kind=='stack' and p.off==0:
        c=e.content(st,p.obj,True)
        if 'start' in n:
            c.alive=True; c.cells={}; c.node=('undef',p.obj.name)
        else: c.alive=False
for _n in('llvm.dbg.','llvm.experimental.noalias','llvm.donothing','llvm.prefetch','llvm.invariant','llvm.var.annotation','llvm.sideeffect','llvm.pseudoprobe'):
    @pref(_n)
    def _(e,st,I,a,n): return NULL
@b('llvm.assume')
def _(e,st,I,a,n): pass
@pref('llvm.expect')
def _(e,st,I,a,n): return a[0]
@pref('llvm.is.constant')
def _(e,st,I,a,n): return 0
@pref('llvm.objectsize')
def _(e,st,I,a,n): return (1<<I.ty.bits)-1
@pref('llvm.launder')
def _(e,st,I,a,n): return a[0]
@pref('llvm.threadlocal.address')
def _(e,st,I,a,n): return a[0]
@b('llvm.stacksave.p0')
def _(e,st,I,a,n): return NULL
@b('llvm.stackrestore.p0')
def _(e,st,I,a,n): return None
@pref('llvm.memcpy.')
def _(e,st,I,a,n): e.memcpy(st,a[0],a[1],a[2])
@pref('llvm.memmove.')
def _(e,st,I,a,n): e.memcpy(st,a[0],a[1],a[2],move=True)
@pref('llvm.memset.')
def _(e,st,I,a,n): e.memset(st,a[0],a[1],a[2])
@b('memcpy',doc='memcpy copies n bytes')
def _(e,st,I,a,n): e.memcpy(st,a[0],a[1],a[2]); return a[0]
@b('memmove',doc='memmove copies n bytes')
def _(e,st,I,a,n): e.memcpy(st,a[0],a[1],a[2],move=True); return a[0]
@b('memset',doc='memset fills n bytes')
def _(e,st,I,a,n):
    v=a[1]; v=v&255 if isinstance(v,int) else S(z3.Extract(7,0,v))
    e.memset(st,a[0],v,a[2]); return a[0]
def _mm(op):
    def g(e,st,I,a,n):
        x,y=a; w=I.ty.bits
        if isinstance(x,Ptr): x=e.ptrint(st,x)
        if isinstance(y,Ptr): y=e.ptrint(st,y)
        c={'umax':z3.UGE,'umin':z3.ULE,'smax':lambda p,q:p>=q,'smin':lambda p,q:p<=q}[op](bv(x,w),bv(y,w))
        return S(z3.If(c,bv(x,w),bv(y,w)))
    return g
for _o in('umax','umin','smax','smin'): PREF.append(('llvm.%s.'%_o,_mm(_o)))
@pref('llvm.abs.')
def _(e,st,I,a,n):
    x=bv(a[0],I.ty.bits); return S(z3.If(x<0,-x,x))
@pref('llvm.ctpop.')
def _(e,st,I,a,n):
    w=I.ty.bits; x=a[0]
    if isinstance(x,int): return bin(x).count('1')
    r=z3.BitVecVal(0,w)
    for i in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,x))
    return S(r)
@pref('llvm.ctlz.')
def _(e,st,I,a,n):
    w=I.ty.bits; x=bv(a[0],w)
    r=z3.BitVecVal(w,w)
    for i in range(w): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(w-1-i,w),r)
    return S(r)
@pref('llvm.cttz.')
def _(e,st,I,a,n):
    w=I.ty.bits; x=bv(a[0],w)
    r=z3.BitVecVal(w,w)
    for i in range(w-1,-1,-1): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(i,w),r)
    return S(r)
@pref('llvm.bswap.')
def _(e,st,I,a,n):
    w=I.ty.bits; x=bv(a[0],w)
    return S(z3.Concat(*[z3.Extract(8*i+7,8*i,x) for i in range(w//8)]))
@pref('llvm.fshl.')
def _(e,st,I,a,n):
    w=I.ty.bits; s=bv(a[2],w)%w if not isinstance(a[2],int) else a[2]%w
    if isinstance(s,int) and s==0: return a[0]
    return S((bv(a[0],w)<<s)|z3.LShR(bv(a[1],w),w-s))
@pref('llvm.fshr.')
def _(e,st,I,a,n):
    w=I.ty.bits; s=a[2]%w if isinstance(a[2],int) else z3.URem(bv(a[2],w),z3.BitVecVal(w,w))
    if isinstance(s,int) and s==0: return a[1]
    return S((bv(a[0],w)<<(w-s))|z3.LShR(bv(a[1],w),s))
def _ov(kind):
    def g(e,st,I,a,n):
        w=I.ops[0].ty.bits; x,y=bv(a[0],w),bv(a[1],w)
        u=kind[0]=='u'; ext=(lambda v:z3.ZeroExt(w,v)) if u else (lambda v:z3.SignExt(w,v))
        X,Y=ext(x),ext(y)
        o={'add':lambda p,q:p+q,'sub':lambda p,q:p-q,'mul':lambda p,q:p*q}[kind[1:]]
        r=S(o(x,y)); full=o(X,Y)
        return [r,S(full!=ext(bv(r,w)))]
    return g
for _o in('uadd','usub','umul','sadd','ssub','smul'): PREF.append(('llvm.%s.with.overflow'%_o,_ov(_o)))
@pref('llvm.usub.sat')
def _(e,st,I,a,n):
    w=I.ty.bits; x,y=bv(a[0],w),bv(a[1],w)
    return S(z3.If(z3.ULT(x,y),z3.BitVecVal(0,w),x-y))
@pref('llvm.uadd.sat')
def _(e,st,I,a,n):
    w=I.ty.bits; x,y=bv(a[0],w),bv(a[1],w)
    return S(z3.If(z3.ULT(x+y,x),z3.BitVecVal(-1,w),x+y))
@pref('llvm.ucmp.')
def _(e,st,I,a,n):
    w=I.ops[0].ty.bits; x,y=bv(a[0],w),bv(a[1],w); r=I.ty.bits
    return S(z3.If(z3.ULT(x,y),z3.BitVecVal(-1,r),z3.If(x==y,z3.BitVecVal(0,r),z3.BitVecVal(1,r))))
@pref('llvm.scmp.')
def _(e,st,I,a,n):
    w=I.ops[0].ty.bits; x,y=bv(a[0],w),bv(a[1],w); r=I.ty.bits
    return S(z3.If(x<y,z3.BitVecVal(-1,r),z3.If(x==y,z3.BitVecVal(0,r),z3.BitVecVal(1,r))))
@pref('llvm.fabs.')
def _(e,st,I,a,n): return z3.simplify(z3.fpAbs(a[0]))
@b('llvm.trap','abort','_ZSt9terminatev','__clang_call_terminate','_ZSt21__glibcxx_assert_failPKciS0_S0_','__assert_fail')
def _(e,st,I,a,n):
    e.oblige(st,False,'control','program aborts ('+n+')'); raise PathEnd('abort')
@b('exit','_exit')
def _(e,st,I,a,n): raise PathEnd('exit')

# ------------------------------------------------------------------ C++ runtime
LIM=1<<46
@b('_Znwm','_Znam','malloc',doc='operator new/malloc: fresh disjoint object of the requested size, bad_alloc for sizes >= 2^46')
def _(e,st,I,a,n):
    sz=a[0]
    if isinstance(sz,int):
        big=sz>=LIM
    else: big=e.decide_fork(st,z3.UGE(sz,LIM))
    if big:
        if n=='malloc': return NULL
        raise Throw('_ZTISt9bad_alloc')
    o=e.new_obj(st,'new',sz,'heap')
    return Ptr(o,0)
@b('_ZnwmSt11align_val_t','_ZnamSt11align_val_t',doc='aligned operator new')
def _(e,st,I,a,n): return T['_Znwm'](e,st,I,a[:1],n)
@b('_ZnwmRKSt9nothrow_t','_ZnwmSt11align_val_tRKSt9nothrow_t')
def _(e,st,I,a,n):
    o=e.new_obj(st,'new',a[0],'heap'); return Ptr(o,0)
def _free(e,st,I,a,n):
    p=a[0]
    if p.obj is None and not isinstance(p.off,int): p=e.resolve(st,p)
    if p.obj is None:
        if p.off==0: return
        e.oblige(st,False,'memory','free of invalid pointer'); raise PathEnd('x')
    c=e.content(st,p.obj,True)
    if p.obj.kind!='heap' or not c.alive:
        e.oblige(st,False,'memory','double free or free of non-heap object'); raise PathEnd('x')
    e.oblige(st,bv(p.off,64)==0,'memory','free of interior pointer')
    c.alive=False
for _n in('_ZdlPv','_ZdlPvm','_ZdaPv','_ZdaPvm','free','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t'): T[_n]=_free
ASSUMED['_ZdlPv']='operator delete/free ends the lifetime of the object'
@b('__cxa_allocate_exception')
def _(e,st,I,a,n):
    o=e.new_obj(st,'exc',a[0],'heap'); return Ptr(o,0)
@b('__cxa_free_exception')
def _(e,st,I,a,n): return None
@b('__cxa_throw')
def _(e,st,I,a,n):
    ti=a[1].obj.extra if a[1].obj is not None else '?'
    raise Throw(ti,a[0])
@b('__cxa_rethrow')
def _(e,st,I,a,n):
    if not st.excstack: e.oblige(st,False,'control','rethrow without exception'); raise PathEnd('x')
    o,ti=st.excstack[-1]
    raise Throw(ti,o)
@b('__cxa_begin_catch')
def _(e,st,I,a,n):
    st.excstack.append(st.exc if st.exc else (a[0],'?')); return a[0]
@b('__cxa_end_catch')
def _(e,st,I,a,n):
    if st.excstack: st.excstack.pop()
# std::exception_ptr: the pointer names the exception object; its dynamic type is remembered with the object
@b('_ZSt17current_exceptionv',doc='std::current_exception names the exception being handled')
def _(e,st,I,a,n):
    if not st.excstack: e.write(st,a[0],8,NULL); return
    o,ti=st.excstack[-1]
    st.ghost[('excty',o.obj.id)]=ti
    e.write(st,a[0],8,o)
for _n in('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv','_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv'):
    @b(_n,doc='std::exception_ptr reference counting (lifetime of the exception object is outside the argument)')
    def _(e,st,I,a,n): return None
@b('_ZNSt15__exception_ptr13exception_ptrC1ERKS0_','_ZNSt15__exception_ptr13exception_ptrC2ERKS0_')
def _(e,st,I,a,n): e.write(st,a[0],8,e.coerce(st,e.read(st,a[1],8),PTRTY))
@b('_ZNSt15__exception_ptr13exception_ptrD1Ev','_ZNSt15__exception_ptr13exception_ptrD2Ev')
def _(e,st,I,a,n): return None
@b('_ZNSt15__exception_ptr13exception_ptr4swapERS0_')
def _(e,st,I,a,n):
    x,y=e.read(st,a[0],8),e.read(st,a[1],8); e.write(st,a[0],8,y); e.write(st,a[1],8,x)
@b('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE',doc='std::rethrow_exception throws the named exception again')
def _(e,st,I,a,n):
    p=e.coerce(st,e.read(st,a[0],8),PTRTY)
    ti=st.ghost.get(('excty',p.obj.id)) if p.obj is not None else None
    if ti is None: e.oblige(st,False,'control','rethrow of an empty exception_ptr'); raise PathEnd('x')
    raise Throw(ti,p)
# std::filesystem::path: only the text of a path matters here; its component list (library code) is abstract
for _n in('_ZNSt10filesystem7__cxx114path14_M_split_cmptsEv','_ZNSt10filesystem7__cxx114path5_ListC1Ev','_ZNSt10filesystem7__cxx114path5_ListC1ERKS2_','_ZNSt10filesystem7__cxx114path5_ListC2ERKS2_','_ZNSt10filesystem7__cxx114path5_ListaSERKS2_','_ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE'):
    @b(_n,doc='std::filesystem::path: the component list is library code; the text of the path is verified through')
    def _(e,st,I,a,n):
        if 'ListC' in n: e.write(st,a[0],8,NULL)
        return a[0] if 'aS' in n else None
@pref('llvm.eh.typeid.for')
def _(e,st,I,a,n): return e.typeid(a[0].obj.extra)
THROWS={'_ZSt20__throw_length_errorPKc':'_ZTISt12length_error','_ZSt20__throw_out_of_rangePKc':'_ZTISt12out_of_range','_ZSt24__throw_out_of_range_fmtPKcz':'_ZTISt12out_of_range',
 '_ZSt17__throw_bad_allocv':'_ZTISt9bad_alloc','_ZSt28__throw_bad_array_new_lengthv':'_ZTISt20bad_array_new_length','_ZSt19__throw_logic_errorPKc':'_ZTISt11logic_error',
 '_ZSt25__throw_bad_function_callv':'_ZTISt17bad_function_call','_ZSt24__throw_invalid_argumentPKc':'_ZTISt16invalid_argument','_ZSt21__throw_runtime_errorPKc':'_ZTISt13runtime_error',
 '_ZSt20__throw_system_errori':'_ZTISt12system_error','_ZSt16__throw_bad_castv':'_ZTISt8bad_cast'}
for _k,_v in THROWS.items():
    def _mk(v):
        def g(e,st,I,a,n): raise Throw(v)
        return g
    T[_k]=_mk(_v)
@b('_ZNSt3_V215system_categoryEv','_ZNSt3_V216generic_categoryEv',doc='error categories are opaque immutable objects')
def _(e,st,I,a,n):
    k='cat '+n
    if k not in st.ghost: st.ghost[k]=e.new_obj(st,'category',8,'heap')
    return Ptr(st.ghost[k],0)
@b('_ZNSt12system_errorC1ESt10error_codePKc','_ZNSt12system_errorC2ESt10error_codePKc','_ZNSt12system_errorC2EiRKNSt3_V214error_categoryEPKc','_ZNSt12system_errorC1EiRKNSt3_V214error_categoryEPKc','_ZNSt12system_errorC1EiRKNSt3_V214error_categoryE','_ZNSt12system_errorC2EiRKNSt3_V214error_categoryE','_ZNSt12system_errorD1Ev','_ZNSt12system_errorD2Ev',doc='system_error construction has no other effects')
def _(e,st,I,a,n): return None
for _c in('11logic_error','12out_of_range','16invalid_argument','13runtime_error','12length_error','14overflow_error','12domain_error'):
    for _k in('C1','C2'):
        for _s in('EPKc','ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
            T['_ZNSt%s%s%s'%(_c,_k,_s)]=lambda e,st,I,a,n: None
    for _k in('D0','D1','D2'): T['_ZNSt%s%sEv'%(_c,_k)]=lambda e,st,I,a,n: None
@b('__cxa_atexit','__cxa_thread_atexit')
def _(e,st,I,a,n): return 0
@b('__cxa_guard_acquire')
def _(e,st,I,a,n):
    v=e.read(st,a[0],1)
    return 1 if isinstance(v,int) and v==0 else (0 if isinstance(v,int) else 1)
@b('__cxa_guard_release')
def _(e,st,I,a,n): e.write(st,a[0],1,1)
@b('__cxa_guard_abort')
def _(e,st,I,a,n): return None

# ------------------------------------------------------------------ C strings / memory
@b('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm',doc='std::string::_M_replace_cold (library code): in-place replacement from a source inside the string; only a source that does not overlap is supported')
def _(e,st,I,a,n):
    raise Unsupported('self-overlapping string replacement')
@b('memcmp','bcmp',doc='memcmp/bcmp: zero iff all n bytes are equal')
def _(e,st,I,a,n):
    p,q,k=a
    k=S(k) if not isinstance(k,int) else k
    if not isinstance(k,int):
        p=e.resolve(st,p); q=e.resolve(st,q)
        e.inbounds(st,p,k,'memcmp'); e.inbounds(st,q,k,'memcmp')
        # case split over small constants is not possible: uninterpreted equality with skolem witness
        r=e.fz(st,I,'memcmp',32); w=e.fz(st,I,'memcmp_w',64)
        # r != 0  ->  exists w<k with different bytes ; r == 0 -> equal at all registered ghosts
        if e.decide_fork(st,r==0):
            for g in st.ghosts:
                for (x,y) in((p,q),(q,p)):
                    if g.obj is x.obj and x.obj is not None:
                        d=S(bv(g.off,64)-bv(x.off,64))
                        bx=bv(e.read(st,g,1),8); 
                        e.assume_if(st,z3.ULT(bv(d,64),k),lambda: bx==bv(e.read(st,e.padd(y,d),1),8))
            return 0
        e.assume(st,z3.ULT(w,k))
        e.assume(st,bv(e.read(st,e.padd(p,w),1),8)!=bv(e.read(st,e.padd(q,w),1),8))
        return r
    if k==0: return 0
    e.inbounds(st,e.resolve(st,p),k,'memcmp'); e.inbounds(st,e.resolve(st,q),k,'memcmp')
    r=z3.BitVecVal(0,32)
    for i in range(k-1,-1,-1):
        x=bv(e.read(st,e.padd(p,i),1),8); y=bv(e.read(st,e.padd(q,i),1),8)
        r=z3.If(x==y,r,z3.If(z3.ULT(x,y),z3.BitVecVal(-1,32),z3.BitVecVal(1,32)))
    return S(r)
@b('memchr',doc='memchr returns the first occurrence within n bytes or null and reads no byte after the first occurrence')
def _(e,st,I,a,n):
    p,c,k=a
    c=bv(c,32); c=S(z3.Extract(7,0,c)); c=bv(c,8)
    if not isinstance(k,int):
        if e.decide_fork(st,k==0): return NULL
    elif k==0: return NULL
    p=e.resolve(st,p)
    found=e.fz(st,I,'found',1); i=e.fz(st,I,'i',64)
    if p.obj is None:
        e.oblige(st,False,'memory','memchr through null'); raise PathEnd('x')
    hit=e.decide_fork_fresh(st,found)
    arr=e.base_array(st,p)
    def no_match_before(lim):
        for g in st.ghosts:
            if g.obj is p.obj:
                d=S(bv(g.off,64)-bv(p.off,64))
                gb=bv(e.read(st,g,1),8)
                e.assume(st,z3.Implies(z3.ULT(bv(d,64),bv(lim,64)),gb!=c))
        if arr is not None:
            k_=('mc',id(I),lim if isinstance(lim,int) else lim.get_id(),S(bv(p.off,64)) if isinstance(S(bv(p.off,64)),int) else S(bv(p.off,64)).get_id())
            if k_ not in st.ghost:
                st.ghost[k_]=1
                st.qf.append((arr,p.off,S(bv(p.off,64)+bv(lim,64)),lambda x,c=c: x!=c))
    if not hit:
        no_match_before(k)
        e.inbounds(st,p,k,'memchr')
        return NULL
    e.assume(st,z3.ULT(i,bv(k,64)))
    no_match_before(i)
    # reads only up to the match
    e.inbounds(st,p,S(i+1),'memchr')
    e.assume(st,bv(e.read(st,e.padd(p,i),1),8)==c)
    return e.padd(p,i)
@b('strerror',doc='strerror returns some text')
def _(e,st,I,a,n):
    o=e.new_obj(st,'strerror',8,'heap'); e.write(st,Ptr(o,0),8,0); return Ptr(o,0)
@b('strlen',doc='strlen: index of the first NUL')
def _(e,st,I,a,n):
    p=a[0]
    for i in range(300):
        v=e.read(st,e.padd(p,i),1) if p.obj is not None else None
        if v is None: e.oblige(st,False,'memory','strlen null'); raise PathEnd('x')
        if isinstance(v,int):
            if v==0: return i
        elif isinstance(p.obj.size,int) and p.obj.size<=64:
            if e.decide_fork(st,v==0): return i
        else: break
    i=e.fz(st,I,'strlen',64)
    e.assume(st,z3.ULT(i,bv(p.obj.size,64)-bv(p.off,64)))
    e.assume(st,bv(e.read(st,e.padd(p,i),1),8)==0)
    return i
# engine helpers used above
def _dff(self,st,c):
    """decide on a completely fresh boolean: always fork"""
    k=c.get_id()
    return self.decide_fork(st,c)
Engine.decide_fork_fresh=_dff
def _assume_if(self,st,c,th):
    self.assume(st,z3.Implies(c,th()))
Engine.assume_if=_assume_if
