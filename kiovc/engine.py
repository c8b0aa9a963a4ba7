"""kiovc: verification-condition generator and checker over LLVM IR.

Forward symbolic execution of the compiled real code with
  * object/offset memory (every access carries an in-bounds/liveness obligation),
  * loops cut at their headers by invariants (inferred by Houdini over templates and the ghost predicates of the
    contract, then checked like hand-written ones; every loop also carries a termination obligation),
  * calls to functions under contract replaced by the contract,
  * exceptions, indirect calls, coroutine suspension.
No bound on inputs or iterations in proof mode.  `bmc=N` unrolls loops N times instead (used only to look for a
concrete failing input after a proof obligation failed)."""
import os, z3, time, re, sys, itertools, struct
from . import ir
from .ir import Const, Local
from .smt import Smt, STATS

M64=(1<<64)-1
TRACE=os.environ.get('KIOVC_TRACE')
class Unsupported(Exception): pass
class NeedFork(Exception):
    def __init__(s,cond): s.cond=cond
class PathEnd(Exception): pass
class Throw(Exception):
    """raised by builtins to start C++ unwinding"""
    def __init__(s,ti,obj=None): s.ti=ti; s.obj=obj
class Budget(Exception): pass

class Obj:
    __slots__=('id','name','size','kind','base','align','extra')
    _n=0
    def __init__(s,name,size,kind,align=16):
        Obj._n+=1; s.id=Obj._n; s.name=name; s.size=size; s.kind=kind; s.align=align; s.base=None; s.extra=None
    def addr(s):
        if s.base is None: s.base=z3.BitVec('addr!%s!%d'%(s.name,s.id),64)
        return s.base
    def __repr__(s): return f'<{s.name}#{s.id}>'
class Ptr:
    __slots__=('obj','off')
    def __init__(s,obj,off): s.obj=obj; s.off=off
    def __repr__(s): return f'&{s.obj}+{s.off}'
NULL=Ptr(None,0)
DANGLING=object()   # the value of a pointer to an object that was freed: indeterminate

def S(e):
    """simplify; constants to python ints"""
    if isinstance(e,int): return e
    e=z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def bv(v,bits):
    if isinstance(v,int): return z3.BitVecVal(v,bits)
    if isinstance(v,z3.BoolRef): return z3.If(v,z3.BitVecVal(1,bits),z3.BitVecVal(0,bits))
    if isinstance(v,z3.FPRef): return z3.fpToIEEEBV(v)
    return v
def boolv(v):
    if isinstance(v,bool): return z3.BoolVal(v)
    if isinstance(v,int): return z3.BoolVal(v!=0)
    if isinstance(v,z3.BoolRef): return v
    return v!=0
def same(a,b):
    if a is b: return True
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.obj is b.obj and same(a.off,b.off)
    if isinstance(a,int) or isinstance(b,int): return isinstance(a,int) and isinstance(b,int) and a==b
    if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): return a.eq(b)
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    return False

_ctr=itertools.count()
def fresh(name,bits):
    if bits==1: return z3.Bool(f'{name}!{next(_ctr)}')
    return z3.BitVec(f'{name}!{next(_ctr)}',bits)
def fresh_arr(name): return z3.Array(f'{name}!{next(_ctr)}',z3.BitVecSort(64),z3.BitVecSort(8))

class Content:
    __slots__=('cells','node','alive','ep')
    def __init__(s,node,ep): s.cells={}; s.node=node; s.alive=True; s.ep=ep
    def copy(s,ep):
        c=Content(s.node,ep); c.cells=dict(s.cells); c.alive=s.alive; return c

class Frame:
    __slots__=('fn','blk','ip','prev','env','allocas','retto','coro','contract')
    def clone(s):
        f=Frame(); f.fn=s.fn; f.blk=s.blk; f.ip=s.ip; f.prev=s.prev; f.env=dict(s.env); f.allocas=list(s.allocas); f.retto=s.retto; f.coro=s.coro; f.contract=s.contract
        return f

_ep=itertools.count(1)
class State:
    __slots__=('frames','mem','pc','ep','model','decided','trace','ghost','enter','exc','exits','ghosts','preds','depth','havoced','excstack','path','scov','coros','qf')
    def clone(s):
        n=State()
        n.frames=[f.clone() for f in s.frames]; n.mem=dict(s.mem); n.pc=list(s.pc)
        n.ep=next(_ep); s.ep=next(_ep)
        n.model=s.model; n.decided=dict(s.decided); n.trace=list(s.trace); n.ghost=dict(s.ghost)
        n.enter=s.enter; n.exc=s.exc; n.ghosts=list(s.ghosts); n.preds=list(s.preds); n.havoced=s.havoced; n.excstack=list(s.excstack)
        n.path=s.path; n.coros={k:v.clone() for k,v in s.coros.items()}; n.qf=list(s.qf)
        return n
    @property
    def fr(s): return s.frames[-1]

EXC_BASE={}
def _h(*names):
    for a,b in zip(names,names[1:]): EXC_BASE[a]=b
_h('_ZTISt12out_of_range','_ZTISt11logic_error','_ZTISt9exception')
_h('_ZTISt12length_error','_ZTISt11logic_error'); _h('_ZTISt16invalid_argument','_ZTISt11logic_error'); _h('_ZTISt12domain_error','_ZTISt11logic_error')
_h('_ZTISt13runtime_error','_ZTISt9exception'); _h('_ZTISt14overflow_error','_ZTISt13runtime_error'); _h('_ZTISt12system_error','_ZTISt13runtime_error')
_h('_ZTISt9bad_alloc','_ZTISt9exception'); _h('_ZTISt20bad_array_new_length','_ZTISt9bad_alloc'); _h('_ZTISt17bad_function_call','_ZTISt9exception')
_h('_ZTINSt10filesystem7__cxx1116filesystem_errorE','_ZTISt12system_error')
_h('_ZTISt12format_error','_ZTISt13runtime_error')
_h('_ZTISt19bad_expected_accessIvE','_ZTISt9exception')

class Stop:
    __slots__=('depth','H','L','fn')
    def __init__(s,d,H,L,fn): s.depth=d; s.H=H; s.L=L; s.fn=fn

class Obl:
    __slots__=('kind','label','where','count','failed','time','how')
    def __init__(s,kind,label,where): s.kind=kind; s.label=label; s.where=where; s.count=0; s.failed=[]; s.time=0; s.how=set()

class Engine:
    def __init__(self,module,opts=None,log=None):
        self.m=module; self.o=dict(opts or {})
        self.smt=Smt(self.o.get('inc_ms',60))
        self.gobj={}; self.fobj={}; self.gid={}
        self.obls={}
        self.covers={}
        self.log=log or (lambda *a: None)
        self.overrides=[(re.compile(k),v) for k,v in self.o.get('override',[])]
        self.ovcache={}
        self.checking=True
        self.bmc=self.o.get('bmc',0)
        self.deadline=time.time()+self.o.get('budget',600)
        self.maxstates=self.o.get('maxstates',20000)
        self.nstates=0; self.ninstr=0
        self.bounds=None
        self.funcs_seen=set(); self.externals=set(); self.assumed=set()
        self.typeids={}
        self.loopinfo=[]
        self.failures=[]
        self.inc_cond=[]
        from . import builtins as B
        self.B=B
        self.xcheck=self.o.get('cvc5',False)
    # ------------------------------------------------------------ objects
    def fptr(self,name):
        o=self.fobj.get(name)
        if o is None:
            o=Obj('fn:'+name,1,'func'); o.extra=name; self.fobj[name]=o
        return Ptr(o,0)
    def global_ptr(self,name):
        o=self.gobj.get(name)
        if o is None:
            gi=self.m.global_info(name)
            size=gi[0].size if gi else 1<<20
            if gi and gi[1] is None: size=max(size,8) if size else 1<<20
            o=Obj('@'+name,size,'global'); o.extra=name
            self.gobj[name]=o; self.gid[o.id]=name
        return Ptr(o,0)
    def content(self,st,obj,write=False):
        c=st.mem.get(obj.id)
        if c is None:
            if obj.kind=='global':
                c=Content(('undef',obj.name),st.ep)
                gi=self.m.global_info(obj.extra)
                if gi and gi[1] is not None: self.init_global(c,0,gi[1],gi[0])
                elif gi is None or gi[1] is None: c.node=('base',z3.Array('ext!'+obj.extra,z3.BitVecSort(64),z3.BitVecSort(8)))
                st.mem[obj.id]=c
                return c
            if obj.kind=='func':
                raise Unsupported('memory access to function object')
            raise Unsupported('object without content: %r'%obj)
        if write and c.ep!=st.ep:
            c=c.copy(st.ep); st.mem[obj.id]=c
        return c
    def init_global(self,c,off,k,ty):
        if k.kind=='zero' or k.kind=='null' and ty.kind!='pointer':
            if ty.size: self.zero_into(c,off,ty)
        elif k.kind=='bytes':
            if off==0 and not c.cells: c.node=('bytes',k.v)
            else:
                for i,b in enumerate(k.v): c.cells[off+i]=(1,b)
        elif k.kind=='agg':
            t=k.ty
            for i,e in enumerate(k.v):
                if t.kind=='struct': self.init_global(c,off+t.offs[i],e,t.elems[i])
                else: self.init_global(c,off+i*t.elem.size,e,t.elem)
        elif k.kind=='undef': pass
        else:
            v=self.cval(k)
            n=ty.size
            c.cells[off]=(n,v)
    def zero_into(self,c,off,ty):
        if ty.kind=='struct':
            for o,e in zip(ty.offs,ty.elems): self.zero_into(c,off+o,e)
        elif ty.kind in('array','vector'):
            if ty.count*ty.elem.size>4096:
                if off==0 and not c.cells: c.node=('zero',); return
            for i in range(ty.count): self.zero_into(c,off+i*ty.elem.size,ty.elem)
        elif ty.kind=='pointer': c.cells[off]=(8,NULL)
        elif ty.kind in('float','double'): c.cells[off]=(ty.size,z3.FPVal(0.0,z3.Float32() if ty.kind=='float' else z3.Float64()))
        elif ty.size: c.cells[off]=(ty.size,0)
    def new_obj(self,st,name,size,kind,node=None):
        o=Obj(name,size,kind)
        c=Content(node or ('undef',name),st.ep)
        st.mem[o.id]=c
        return o
    def addr_facts(self,st,obj):
        """numeric address of obj; adds range facts once per state"""
        b=obj.addr()
        key=('addr',obj.id)
        if key not in st.ghost:
            st.ghost[key]=1
            sz=bv(obj.size,64)
            st.pc.append(z3.And(z3.UGE(b,0x10000),z3.ULT(b,1<<47),(b&(obj.align-1))==0))
            if not isinstance(obj.size,int): st.pc.append(z3.ULT(sz,1<<47))
            st.model=None
        return b
    def ptrint(self,st,p):
        if not isinstance(p,Ptr): return p
        if p.obj is None: return p.off
        return S(self.addr_facts(st,p.obj)+bv(p.off,64))
    def toptr(self,st,v):
        if isinstance(v,Ptr): return v
        if v is None: return NULL
        v=S(v)
        if isinstance(v,int):
            for o in list(self.gobj.values()): pass
            return Ptr(None,v)
        # find a base
        bases=set(); stack=[v]; seen=set()
        while stack:
            e=stack.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind()==z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('addr!'):
                bases.add(e)
            if z3.is_app_of(e,z3.Z3_OP_ITE):
                pass
            stack.extend(e.children())
        if z3.is_app_of(v,z3.Z3_OP_ITE):
            c=v.arg(0)
            if self.decide_fork(st,c): return self.toptr(st,v.arg(1))
            return self.toptr(st,v.arg(2))
        for b in bases:
            off=S(v-b)
            if isinstance(off,int) or not _mentions(off,b):
                oid=int(b.decl().name().rsplit('!',1)[1])
                o=self.obj_by_id(st,oid)
                if o is not None: return Ptr(o,off)
        # look for nested ite: fork on its condition
        it=_find_ite(v)
        if it is not None and bases:
            c=it.arg(0)
            d=self.decide_fork(st,c)
            return self.toptr(st,z3.substitute(v,(it,it.arg(1) if d else it.arg(2))))
        return Ptr(None,v)
    def obj_by_id(self,st,oid):
        return ALLOBJ.get(oid)
    # ------------------------------------------------------------ solver helpers
    def feas(self,st,cond,want=False):
        r,m=self.smt.check(st.pc,[cond],want_model=True,timeout=6000)
        if r=='unknown': self.log('unknown feasibility',str(cond)[:200])
        return r!='unsat',m
    def decide(self,st,cond):
        """True/False if pc forces it, else None (both feasible)"""
        if isinstance(cond,(int,bool)): return bool(cond)
        c=z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k=c.get_id()
        if k in st.decided and st.decided[k][0].eq(c): return st.decided[k][1]
        ft=ff=None
        if st.model is not None:
            try:
                mv=st.model.eval(c,model_completion=True)
                if z3.is_true(mv): ft=True
                elif z3.is_false(mv): ff=True
            except z3.Z3Exception: pass
        if ft is None:
            ft,m=self.feas(st,c)
            if ft and m is not None and st.model is None: st.model=m
        if ff is None:
            ff,m=self.feas(st,z3.Not(c))
            if ff and m is not None and st.model is None: st.model=m
        if ft and not ff: r=True
        elif ff and not ft: r=False
        elif not ft and not ff: raise PathEnd('infeasible')
        else: return None
        st.decided[k]=(c,r)
        return r
    def assume(self,st,c):
        c=z3.simplify(c) if not isinstance(c,(int,bool)) else z3.BoolVal(bool(c))
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd('assume false')
        st.pc.append(c)
        if st.model is not None:
            try:
                if not z3.is_true(st.model.eval(c,model_completion=True)): st.model=None
            except z3.Z3Exception: st.model=None
    def decide_fork(self,st,cond):
        cond=boolv(cond)
        d=self.decide(st,cond)
        if d is None: raise NeedFork(z3.simplify(cond))
        return d
    # ------------------------------------------------------------ obligations
    def where(self,st):
        for f in reversed(st.frames):
            if f.ip<len(f.fn.blocks[f.blk].instrs):
                i=f.fn.blocks[f.blk].instrs[f.ip]
                if i.line: return f"{i.file}:{i.line}"
        return st.fr.fn.name
    def oblige(self,st,cond,kind,label=None):
        """prove cond under pc (or record failure), then assume it"""
        if isinstance(cond,(int,bool)): c=z3.BoolVal(bool(cond))
        else: c=z3.simplify(cond)
        if not self.checking:
            if z3.is_false(c): raise PathEnd('obligation false in inference')
            if not z3.is_true(c):
                self.assume(st,c)
                # keep path feasible
            return
        w=self.where(st)
        key=(kind,label,w)
        ob=self.obls.get(key)
        if ob is None: ob=self.obls[key]=Obl(kind,label,w)
        ob.count+=1
        if z3.is_true(c): ob.how.add('simplify'); return
        t=time.time()
        k=c.get_id()
        if k in st.decided and st.decided[k][0].eq(c) and st.decided[k][1]:
            ob.how.add('z3'); return
        r,m=self.smt.check(st.pc,[z3.Not(c)],want_model=True,timeout=self.o.get('obl_timeout',40000))
        if r=='unknown':
            r2=self.smt.cvc5(st.pc,[z3.Not(c)],timeout=60)
            if r2=='unsat': r='unsat'; ob.how.add('cvc5')
        elif r=='unsat':
            ob.how.add('z3')
            if self.xcheck:
                r2=self.smt.cvc5(st.pc,[z3.Not(c)],timeout=30)
                if r2=='unsat': ob.how.add('cvc5')
                elif r2=='sat': r='unknown'; ob.how.add('disagree')
        ob.time+=time.time()-t
        if r=='unsat':
            st.decided[k]=(c,True)
            return
        f={'res':r,'kind':kind,'label':label,'where':w,'cond':str(c)[:800],'trace':self.trace_of(st,m) if m is not None else None,'havoced':st.havoced,
           'stack':[self.where_frame(f) for f in st.frames]}
        if f['trace'] is not None and not st.havoced: f['trace']=self.small_trace(st,z3.Not(c),f['trace'])
        ob.failed.append(f); self.failures.append(f)
        self.log('FAILED',kind,label,w,r)
        owned=self.o.get('owned')
        if owned is None or owned(kind,label): self.nown=getattr(self,'nown',0)+1
        if self.nown_()>=self.o.get('maxfail',6): raise Budget('too many failures')
        if len(ob.failed)>8 and owned and not owned(kind,label): raise PathEnd('repeated failure')
        if z3.is_false(c): raise PathEnd('obligation false')
        self.assume(st,c)
        ok,m=self.feas(st,z3.BoolVal(True))
        if not ok: raise PathEnd('infeasible after failed obligation')
    def nown_(self): return getattr(self,'nown',0)
    def small_trace(self,st,neg,dflt):
        """look for a counterexample with small regions, so that it can be replayed natively"""
        sizes=[t[2] for t in st.trace if t[0] in('region','wregion') and not isinstance(t[2],int)]
        vals=[t[3] for t in st.trace if t[0]=='val' and t[2]>=32 and not isinstance(t[3],int)]
        for lim in (64,4096,1<<20):
            r,m=self.smt.check(st.pc,[neg]+[z3.ULE(x,lim) for x in sizes+vals],want_model=True,timeout=6000)
            if r=='sat': return self.trace_of(st,m)
        if not sizes: return dflt
        for lim in (64,4096,65536,1<<20):
            r,m=self.smt.check(st.pc,[neg]+[z3.ULE(x,lim) for x in sizes],want_model=True,timeout=6000)
            if r=='sat': return self.trace_of(st,m)
        return dflt
    def where_frame(self,f):
        b=f.fn.blocks[f.blk]; i=b.instrs[min(f.ip,len(b.instrs)-1)]
        return f"{f.fn.name} {i.file}:{i.line}"
    def trace_of(self,st,m):
        out=[]
        for t in st.trace:
            if t[0]=='val':
                v=t[3]
                if isinstance(v,int): out.append(('val',t[1],t[2],v)); continue
                mv=m.eval(bv(v,t[2]),model_completion=True)
                out.append(('val',t[1],t[2],mv.as_long() if z3.is_bv_value(mv) else 0))
            else:
                _,name,size,arr=t
                sz=size if isinstance(size,int) else m.eval(size,model_completion=True).as_long()
                data=b''
                if sz<=1<<16:
                    data=bytes((m.eval(z3.Select(arr,z3.BitVecVal(i,64)),model_completion=True).as_long() for i in range(sz)))
                out.append(('region',name,sz,data.hex()))
        return out
    # ------------------------------------------------------------ memory
    def inbounds(self,st,p,n,what):
        """n int or BV. obligation that [p,p+n) is inside a live object"""
        if isinstance(n,int) and n==0: return
        if p.obj is None:
            if not isinstance(n,int):
                if self.decide_fork(st,bv(n,64)==0): return
            if isinstance(p.off,int) or True:
                self.oblige(st,False,'memory',what+' through null or invalid pointer')
                raise PathEnd('bad pointer')
        o=p.obj
        if o.kind=='func':
            self.oblige(st,False,'memory',what+' on function'); raise PathEnd('x')
        c=self.content(st,o)
        if not c.alive:
            if not isinstance(n,int):
                if self.decide_fork(st,bv(n,64)==0): return
            self.oblige(st,False,'memory',what+' after free/end of lifetime'); raise PathEnd('dead object')
        if isinstance(p.off,int) and isinstance(n,int) and isinstance(o.size,int):
            if p.off+n<=o.size:
                self.count_obl(st,'memory',what); return
            self.oblige(st,False,'memory',what+' out of bounds'); raise PathEnd('oob')
        off=bv(p.off,64); sz=bv(o.size,64); nn=bv(n,64)
        if not isinstance(n,int):
            cond=z3.Or(nn==0,z3.And(z3.ULE(nn,sz),z3.ULE(off,sz-nn)))
        else: cond=z3.And(z3.ULE(nn,sz),z3.ULE(off,sz-nn))
        self.oblige(st,cond,'memory',what+' out of bounds')
    def count_obl(self,st,kind,label):
        if not self.checking: return
        key=(kind,label,self.where(st))
        ob=self.obls.get(key)
        if ob is None: ob=self.obls[key]=Obl(kind,label,key[2])
        ob.count+=1; ob.how.add('simplify')
    def flush(self,c):
        if c.cells:
            for off in sorted(c.cells):
                n,v=c.cells[off]; c.node=('store',c.node,off,n,v)
            c.cells={}
    def read(self,st,p,n,aspt=False):
        """raw read: returns int/BV of n bytes or Ptr"""
        o=p.obj; c=self.content(st,o)
        off=p.off
        if isinstance(off,int):
            x=c.cells.get(off)
            if x is not None and x[0]==n: return x[1]
            # overlap?
            ov=False
            for k in range(off-15,off+n):
                y=c.cells.get(k)
                if y is not None and k+y[0]>off: ov=True; break
            if not ov:
                v=self.node_read(st,c.node,off,n)
                if v is UNDEF:
                    parts=[self.node_read(st,c.node,off+j,1) for j in range(n)] if n>1 and c.node[0]!='undef' else [UNDEF]
                    if all(x is UNDEF for x in parts): v=fresh('undef',8*n)
                    else: v=S(z3.Concat(*[bv(fresh('undef',8) if x is UNDEF else self.asbits(st,x,1),8) for x in parts[::-1]]))
                    c=self.content(st,o,True); c.cells[off]=(n,v)
                elif n>1 and c.node[0] in('base',) :
                    pass
                return v
            bs=[]
            i=0
            parts=[]
            for j in range(n):
                a=off+j; found=None
                for k in range(a,a-16,-1):
                    y=c.cells.get(k)
                    if y is not None:
                        if k+y[0]>a: found=(k,y)
                        break
                if found:
                    k,y=found
                    val=self.asbits(st,y[1],y[0]); sh=a-k
                    parts.append(z3.Extract(8*sh+7,8*sh,bv(val,8*y[0])))
                else:
                    v=self.node_read(st,c.node,a,1)
                    if v is UNDEF:
                        v=fresh('undef',8); c=self.content(st,o,True); c.cells[a]=(1,v)
                    parts.append(bv(v,8))
            return S(z3.Concat(*parts[::-1]) if n>1 else parts[0])
        if c.cells:
            c=self.content(st,o,True); self.flush(c)
        v=self.node_read(st,c.node,off,n)
        if v is UNDEF:
            c=self.content(st,o,True); c.node=self.concretize_undef(c.node)
            v=self.node_read(st,c.node,off,n)
        return v
    def concretize_undef(self,node):
        k=node[0]
        if k=='undef': return ('base',fresh_arr('un_'+str(node[1])))
        if k=='store': return ('store',self.concretize_undef(node[1]))+node[2:]
        if k in('copy','fill'):
            nn=(k,self.concretize_undef(node[1]))+node[2:]
            if k=='copy': nn=nn[:4]+(self.concretize_undef(nn[4]),)+nn[5:]
            return nn
        return node
    def asbits(self,st,v,n):
        if isinstance(v,Ptr): return self.ptrint(st,v)
        if isinstance(v,z3.FPRef): return z3.fpToIEEEBV(v)
        if isinstance(v,list): raise Unsupported('aggregate bits')
        return v
    def node_read(self,st,node,i,n):
        """i int or BV; returns value or UNDEF"""
        while True:
            k=node[0]
            if k=='undef': return UNDEF
            if k=='zero': return 0
            if k=='bytes':
                b=node[1]
                if isinstance(i,int):
                    ch=b[i:i+n]
                    if len(ch)<n: return 0
                    return int.from_bytes(ch,'little')
                e=None
                lo=0; hi=len(b)-n
                if hi>2048: raise Unsupported('large const table')
                e=z3.BitVecVal(int.from_bytes(b[hi:hi+n],'little'),8*n)
                step=1
                for a in range(hi-1,-1,-1):
                    e=z3.If(i==a,z3.BitVecVal(int.from_bytes(b[a:a+n],'little'),8*n),e)
                return e
            if k=='base':
                arr=node[1]; iv=bv(i,64)
                if st.qf: self.instantiate(st,arr,iv,n)
                if n==1: return S(z3.Select(arr,iv))
                return S(z3.Concat(*[z3.Select(arr,iv+j) for j in range(n-1,-1,-1)]))
            if k=='wbase':   # word array: z3 array offset>>3 -> 64 bit, only aligned 8-byte access
                if n==8:
                    iv=bv(i,64)
                    return S(z3.Select(node[1],z3.LShR(iv,3)))
                iv=bv(i,64); w=z3.Select(node[1],z3.LShR(iv,3))
                if n<8 and _aligned(i,n):
                    return S(z3.Extract(8*n-1,0,z3.LShR(w,(iv&7)*8)))
                raise Unsupported('unaligned word-array read')
            if k=='store':
                _,par,idx,m,val=node
                d=S(bv(i,64)-bv(idx,64)) if not(isinstance(i,int) and isinstance(idx,int)) else (i-idx)&M64
                if isinstance(d,int):
                    if d==0 and n==m: return val
                    sd=d-(1<<64) if d>>63 else d
                    if sd>=m or sd<=-n: node=par; continue
                    return self.bytes_read(st,node,i,n)
                if n==m and (n==1 or (_aligned(i,n) and _aligned(idx,n))):
                    t=self.decide(st,bv(i,64)==bv(idx,64)) if self.o.get('mem_decide',True) else None
                    if t is True: return val
                    if t is False: node=par; continue
                    rest=self.node_read(st,par,i,n)
                    if isinstance(val,Ptr) or isinstance(rest,Ptr):
                        if rest is UNDEF or isinstance(rest,(Ptr,int)) or isinstance(rest,z3.ExprRef):
                            if self.decide_fork(st,bv(i,64)==bv(idx,64)): return val
                            return rest
                    if rest is UNDEF: return UNDEF
                    return S(z3.If(bv(i,64)==bv(idx,64),bv(self.asbits(st,val,m),8*m),bv(self.asbits(st,rest,n),8*n)))
                # try to decide disjointness
                dis=self.decide(st,z3.And(z3.UGE(d,m),z3.UGE(-d,n)))
                if dis is True: node=par; continue
                return self.bytes_read(st,node,i,n)
            if k in('copy','fill'):
                par,doff,ln=node[1],node[2],node[3]
                iv=bv(i,64); d=S(iv-bv(doff,64)); lv=bv(ln,64)
                inside=z3.And(z3.ULT(bv(d,64),lv),z3.UGE(lv-bv(d,64),n))
                t=self.decide(st,inside)
                if t is True:
                    if k=='fill':
                        b=node[4]
                        return _rep(b,n)
                    i=S(bv(d,64)+bv(node[5],64)); node=node[4]; continue
                # fully outside: all bytes outside
                outside=z3.Or(lv==0,z3.And(z3.UGE(bv(d,64),lv),z3.UGE(-bv(d,64),n)))
                t2=self.decide(st,outside)
                if t2 is True: node=par; continue
                if n==1:
                    a=_rep(node[4],1) if k=='fill' else self.node_read(st,node[4],S(bv(d,64)+bv(node[5],64)),1)
                    b=self.node_read(st,par,i,1)
                    if a is UNDEF or b is UNDEF: return UNDEF
                    return S(z3.If(z3.ULT(bv(d,64),lv),bv(self.asbits(st,a,1),8),bv(self.asbits(st,b,1),8)))
                if self.decide_fork(st,inside): continue
                if self.decide_fork(st,outside): continue
                return self.bytes_read(st,node,i,n)
            if k=='ite':
                t=self.decide_fork(st,node[1])
                node=node[2] if t else node[3]; continue
            raise Unsupported('node '+k)
    def instantiate(self,st,arr,iv,n):
        """universally quantified facts about the bytes of an input array, instantiated at every byte read"""
        for (a,lo,hi,p) in st.qf:
            if a.eq(arr):
                for j in range(n):
                    k=('qf',id(p),S(iv+j) if isinstance(S(iv+j),int) else S(iv+j).get_id())
                    if k in st.ghost: continue
                    x=iv+j
                    st.ghost[k]=x
                    self.assume(st,z3.Implies(z3.And(z3.ULE(bv(lo,64),x),z3.ULT(x,bv(hi,64))),p(z3.Select(arr,x))))
    def base_array(self,st,p):
        """the input array behind p if its object is unmodified"""
        c=self.content(st,p.obj)
        return c.node[1] if c.node[0]=='base' and not c.cells else None
    def bytes_read(self,st,node,i,n):
        if n==1:
            k=node[0]
            if k=='store':
                _,par,idx,m,val=node
                d=S(bv(i,64)-bv(idx,64))
                vb=bv(self.asbits(st,val,m),8*m)
                if isinstance(d,int):
                    if d<m: return S(z3.Extract(8*d+7,8*d,vb))
                    return self.node_read(st,par,i,1)
                rest=self.node_read(st,par,i,1)
                if rest is UNDEF: return UNDEF
                e=bv(self.asbits(st,rest,1),8)
                for j in range(m): e=z3.If(d==j,z3.Extract(8*j+7,8*j,vb),e)
                return S(e)
            return self.node_read(st,node,i,1)
        parts=[]
        for j in range(n):
            a=(i+j) if isinstance(i,int) else S(i+j)
            b=self.bytes_read(st,node,a,1)
            if b is UNDEF: return UNDEF
            parts.append(bv(self.asbits(st,b,1),8))
        return S(z3.Concat(*parts[::-1]))
    def write(self,st,p,n,v):
        c=self.content(st,p.obj,True)
        off=p.off
        if isinstance(off,int):
            if c.cells:
                x=c.cells.get(off)
                if x is not None and x[0]==n: c.cells[off]=(n,v); return
                for k in list(range(off-15,off+n)):
                    y=c.cells.get(k)
                    if y is not None and k+y[0]>off and k<off+n:
                        if k>=off and k+y[0]<=off+n: del c.cells[k]
                        else:
                            # split into bytes
                            b=bv(self.asbits(st,y[1],y[0]),8*y[0]); del c.cells[k]
                            for j in range(y[0]): c.cells[k+j]=(1,S(z3.Extract(8*j+7,8*j,b)))
                for k in range(off,off+n):
                    if k in c.cells: del c.cells[k]
            c.cells[off]=(n,v)
            return
        self.flush(c)
        c.node=('store',c.node,off,n,v)
    def load(self,st,p,ty,what='read'):
        k=ty.kind
        if k in('struct','array','vector'):
            n=len(ty.elems) if k=='struct' else ty.count
            out=[]
            for i in range(n):
                et=ty.elems[i] if k=='struct' else ty.elem
                o=ty.offs[i] if k=='struct' else i*et.size
                out.append(self.load(st,self.padd(p,o),et,what))
            return out
        n=ty.size
        p=self.resolve(st,p)
        self.inbounds(st,p,n,what)
        v=self.read(st,p,n)
        if v is None:      # a cell that held different objects on different iterations: any value
            v=fresh('any',8*n); self.write(st,p,n,v)
        return self.coerce(st,v,ty)
    def coerce(self,st,v,ty):
        k=ty.kind
        if k=='pointer':
            if isinstance(v,Ptr): return v
            return self.toptr(st,v)
        if k=='int':
            if isinstance(v,Ptr): v=self.ptrint(st,v)
            if isinstance(v,z3.FPRef): v=z3.fpToIEEEBV(v)
            if ty.bits==1:
                if isinstance(v,int): return v&1
                if isinstance(v,z3.BoolRef): return v
                return S((v&1)==1)
            if isinstance(v,z3.BoolRef): v=bv(v,ty.bits)
            if isinstance(v,int): return v&((1<<ty.bits)-1)
            if v.size()>ty.bits: v=S(z3.Extract(ty.bits-1,0,v))
            return v
        if k in('float','double'):
            if isinstance(v,z3.FPRef): return v
            srt=z3.Float32() if k=='float' else z3.Float64()
            if isinstance(v,int): v=z3.BitVecVal(v,32 if k=='float' else 64)
            return z3.simplify(z3.fpBVToFP(v,srt))
        raise Unsupported('load type '+k)
    def store(self,st,p,v,ty,what='write'):
        k=ty.kind
        if k in('struct','array','vector'):
            n=len(ty.elems) if k=='struct' else ty.count
            for i in range(n):
                et=ty.elems[i] if k=='struct' else ty.elem
                o=ty.offs[i] if k=='struct' else i*et.size
                self.store(st,self.padd(p,o),v[i] if v is not None else None,et,what)
            return
        p=self.resolve(st,p)
        n=ty.size
        self.inbounds(st,p,n,what)
        if p.obj.kind=='global' and self.checking:
            gi=self.m.global_info(p.obj.extra)
            if gi and gi[2]: self.oblige(st,False,'memory','write to constant')
        if v is None: v=fresh('undef',8*n)
        if k=='int':
            if ty.bits==1 or isinstance(v,z3.BoolRef): v=S(bv(v,8*n)) if not isinstance(v,int) else v
            elif not isinstance(v,(int,Ptr)) and v.size()<8*n: v=S(z3.ZeroExt(8*n-v.size(),v))
        self.write(st,p,n,v)
    def resolve(self,st,p):
        """pointer with obj None but symbolic address: try to find the object"""
        if p.obj is not None or isinstance(p.off,int): return p
        q=self.toptr(st,p.off)
        return q
    def padd(self,p,o):
        if isinstance(o,int) and o==0: return p
        if isinstance(p.off,int) and isinstance(o,int):
            r=(p.off+o)&M64
            return Ptr(p.obj,r)
        return Ptr(p.obj,S(bv(p.off,64)+bv(o,64)))
    def memcpy(self,st,dst,src,n,move=False):
        n=S(n) if not isinstance(n,int) else n
        if isinstance(n,int) and n==0: return
        if not isinstance(n,int):
            d=self.decide(st,n==0)
            if d: return
        dst=self.resolve(st,dst); src=self.resolve(st,src)
        if (dst.obj is None or src.obj is None) and not isinstance(n,int):
            if self.decide_fork(st,n==0): return
        self.inbounds(st,src,n,'copy source'); self.inbounds(st,dst,n,'copy destination')
        if dst.obj is None or src.obj is None: raise PathEnd('x')
        if not move and dst.obj is src.obj:
            d=bv(dst.off,64); s=bv(src.off,64); nn=bv(n,64)
            ov=z3.Or(d==s,nn==0,z3.And(z3.UGE(d-s,nn),z3.UGE(s-d,nn)))
            self.oblige(st,ov,'memory','memcpy ranges must not overlap')
        cs=self.content(st,src.obj)
        if isinstance(n,int) and isinstance(src.off,int) and isinstance(dst.off,int) and (n<=1024 or cs.cells):
            so,do=src.off,dst.off
            items=[]; covered=[]
            a=so; end=so+n
            # gather cells
            keys=sorted(k for k in cs.cells if k<end and k+cs.cells[k][0]>so)
            pos=so
            for k in keys:
                kn,kv=cs.cells[k]
                if k>pos: items.append(('node',pos,k-pos)); 
                if k<so or k+kn>end:
                    lo=max(k,so); hi=min(k+kn,end)
                    b=bv(self.asbits(st,kv,kn),8*kn)
                    items.append(('val',lo,hi-lo,S(z3.Extract(8*(hi-k)-1,8*(lo-k),b)))); pos=hi
                else:
                    items.append(('val',k,kn,kv)); pos=k+kn
            if pos<end: items.append(('node',pos,end-pos))
            node=cs.node
            if any(x[0]=='node' and x[2]>512 for x in items) and node[0]!='undef':
                pass
            else:
                out=[]
                for it in items:
                    if it[0]=='val': out.append((it[1],it[2],it[3]))
                    elif node[0]=='undef': out.append((it[1],it[2],None))
                    else:
                        p=it[1]; rem=it[2]
                        while rem:
                            w=8 if rem>=8 and (p%8==0 or node[0]!='wbase') else 1
                            v=self.node_read(st,node,p,w)
                            if v is UNDEF and w==8:      # partly undefined: byte by byte
                                w=1; v=self.node_read(st,node,p,1)
                            if v is UNDEF: v=None
                            out.append((p,w,v)); p+=w; rem-=w
                for (p,w,v) in out:
                    if v is None:
                        cd=self.content(st,dst.obj,True)
                        for x in range(do+p-so,do+p-so+w):
                            if x in cd.cells: del cd.cells[x]
                        continue
                    self.write(st,Ptr(dst.obj,do+(p-so)),w,v)
                return
        cs=self.content(st,src.obj,True); self.flush(cs)
        if _has_undef(cs.node): cs.node=self.concretize_undef(cs.node)
        srcnode=cs.node
        cd=self.content(st,dst.obj,True); self.flush(cd)
        cd.node=('copy',cd.node,dst.off,n,srcnode,src.off)
    def memset(self,st,dst,b,n):
        n=S(n) if not isinstance(n,int) else n
        if isinstance(n,int) and n==0: return
        if not isinstance(n,int):
            if dst.obj is None:
                if self.decide_fork(st,n==0): return
            elif self.decide(st,n==0): return
        dst=self.resolve(st,dst)
        self.inbounds(st,dst,n,'fill')
        if dst.obj is None: raise PathEnd('x')
        if isinstance(n,int) and isinstance(dst.off,int) and n<=256:
            o=dst.off; e=o+n
            while o<e:
                w=8 if e-o>=8 and o%8==0 else (4 if e-o>=4 and o%4==0 else 1)
                self.write(st,Ptr(dst.obj,o),w,_rep(b,w)); o+=w
            return
        c=self.content(st,dst.obj,True); self.flush(c)
        c.node=('fill',c.node,dst.off,n,b)
    # ------------------------------------------------------------ values
    def cval(self,k):
        kd=k.kind
        if kd=='int': return k.v
        if kd=='null': return NULL
        if kd=='func': return self.fptr(k.v)
        if kd=='global': return self.global_ptr(k.v)
        if kd=='fp': return z3.FPVal(k.v,z3.Float32() if k.ty.kind=='float' else z3.Float64())
        if kd=='undef':
            return self.undef(k.ty)
        if kd=='zero':
            return self.zero(k.ty)
        if kd=='agg': return [self.cval(e) for e in k.v]
        if kd=='bytes': return list(k.v)
        if kd=='expr':
            op,ops,x=k.v
            if op=='gep':
                p=self.cval(ops[0]); c,var=x
                if var: raise Unsupported('const gep var')
                return self.padd(p,c)
            if op in('bitcast','addrspacecast'): return self.cval(ops[0])
            if op=='inttoptr': return Ptr(None,self.cval(ops[0]))
            if op=='ptrtoint':
                p=self.cval(ops[0])
                if p.obj is None: return p.off
                return S(p.obj.addr()+bv(p.off,64))
            if op in('add','sub','trunc'):
                v=[self.cval(o) for o in ops]
                if op=='trunc': return S(z3.Extract(k.ty.bits-1,0,bv(v[0],ops[0].ty.bits)))
                return S(bv(v[0],k.ty.bits)+bv(v[1],k.ty.bits)) if op=='add' else S(bv(v[0],k.ty.bits)-bv(v[1],k.ty.bits))
            raise Unsupported('constexpr '+op)
        if kd=='meta': return None
        raise Unsupported('const '+kd)
    def undef(self,ty):
        if ty is None: return None
        if ty.kind=='int': return 0 if ty.bits==1 else fresh('undef',ty.bits)
        if ty.kind=='pointer': return NULL
        if ty.kind in('struct',): return [self.undef(e) for e in ty.elems]
        if ty.kind in('array','vector'): return [self.undef(ty.elem) for _ in range(ty.count)]
        if ty.kind in('float','double'): return z3.FPVal(0.0,z3.Float32() if ty.kind=='float' else z3.Float64())
        return None
    def zero(self,ty):
        if ty.kind=='int': return 0
        if ty.kind=='pointer': return NULL
        if ty.kind=='struct': return [self.zero(e) for e in ty.elems]
        if ty.kind in('array','vector'): return [self.zero(ty.elem) for _ in range(ty.count)]
        if ty.kind in('float','double'): return z3.FPVal(0.0,z3.Float32() if ty.kind=='float' else z3.Float64())
        return None
    def val(self,st,o):
        if o.__class__ is Local:
            return st.frames[-1].env[o.id]
        return self.cval(o)
    # ------------------------------------------------------------ running
    def initial(self,fname,args=()):
        st=State(); st.frames=[]; st.mem={}; st.pc=[]; st.ep=next(_ep); st.model=None; st.decided={}; st.trace=[]; st.ghost={}; st.enter=False
        st.exc=None; st.ghosts=[]; st.preds=[]; st.havoced=False; st.excstack=[]; st.path=(); st.coros={}; st.qf=[]
        fn=self.m.func(fname)
        if fn is None: raise Unsupported('no function '+fname)
        self.push_frame(st,fn,list(args),None)
        return st
    def push_frame(self,st,fn,args,retto):
        if len(st.frames)>self.o.get('maxdepth',200): raise Unsupported('call depth')
        f=Frame(); f.fn=fn; f.blk=0; f.ip=0; f.prev=-1; f.env={}; f.allocas=[]; f.retto=retto; f.coro=None; f.contract=None
        for a,v in zip(fn.args,args): f.env[a.id]=v
        self.funcs_seen.add(fn.name)
        st.frames.append(f)
        ir.analyse_loops(fn)
        return f
    def run_entry(self,fname):
        st=self.initial(fname)
        # vacuity guards: every cover call in the compiled body of the contract must be reached
        for blk in st.frames[-1].fn.blocks:
            for I in blk.instrs:
                if I.op in('call','invoke') and I.x['callee'].__class__ is Const and I.x['callee'].v=='vc_cover' and I.ops[0].__class__ is Const:
                    self.covers.setdefault(self.B.cstr(self,st,self.cval(I.ops[0])),False)
        self.explore([st],None)
    def explore(self,work,stop):
        back=[]; exits=[]
        while work:
            st=work.pop()
            try:
                while True:
                    ev=self.step_block(st,stop)
                    if ev is None: continue
                    k=ev[0]
                    if k=='back': back.append(st); break
                    if k=='exit': exits.append(st); break
                    if k=='loop':
                        work.extend(ev[1]); break
                    if k=='done': break
            except NeedFork as f:
                self.nstates+=1
                if TRACE: print('FORK',len(work),self.where(st),'/'.join('%s:%s'%(x.fn.name[:30],x.blk) for x in st.frames[-2:]),str(f.cond)[:150].replace('\n',' '),flush=True)
                if self.nstates>self.maxstates: raise Budget('state budget')
                if time.time()>self.deadline: raise Budget('time budget')
                b=st.clone()
                c=f.cond
                nc=z3.simplify(z3.Not(c))
                st.decided[c.get_id()]=(c,True); st.decided[nc.get_id()]=(nc,False)
                b.decided[c.get_id()]=(c,False); b.decided[nc.get_id()]=(nc,True)
                self.assume(st,c); self.assume(b,nc)
                work.append(b); work.append(st)
            except PathEnd as e:
                pass
        return back,exits
    def step_block(self,st,stop):
        """run until block change / event"""
        if stop is not None and len(st.frames)-1<stop.depth: return ('exit',)
        if not st.frames: return ('done',)
        f=st.frames[-1]
        fn=f.fn
        if st.enter:
            if stop is not None and len(st.frames)-1==stop.depth and fn is stop.fn:
                if f.blk==stop.H: return ('back',)
                if f.blk not in stop.L and f.blk not in fn.dispatch: return ('exit',)
            L=fn.loops.get(f.blk)
            if L is not None and f.prev not in L:
                return ('loop',self.handle_loop(st,f.blk,L))
            self.eval_phis(st)
        blk=fn.blocks[f.blk]
        n=len(blk.instrs)
        while True:
            I=blk.instrs[f.ip]
            self.ninstr+=1
            if self.ninstr%2000==0 and time.time()>self.deadline: raise Budget('time budget')
            r=self.exec(st,f,I)
            if r is None:
                f.ip+=1
                continue
            return None if r is True else r
    def eval_phis(self,st):
        f=st.frames[-1]; blk=f.fn.blocks[f.blk]
        if blk.nphi:
            vals=[self.val(st,I.x[f.prev]) for I in blk.instrs[:blk.nphi]]
            for I,v in zip(blk.instrs,vals): f.env[I.lval]=v
        f.ip=blk.nphi
        st.enter=False
    def jump(self,st,f,to):
        f.prev=f.blk; f.blk=to; f.ip=0; st.enter=True
        return True
    def exec(self,st,f,I):
        op=I.op
        h=self.TAB.get(op)
        if h is None: raise Unsupported('instr '+op)
        return h(self,st,f,I)
    # ---- instruction handlers
    def x_bin(self,st,f,I):
        op=I.op; bits=I.ty.bits
        if I.ty.kind=='vector':
            a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1])
            f.env[I.lval]=[self.binop(st,op,x,y,I.ty.elem.bits) for x,y in zip(a,b)]; return
        a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1])
        f.env[I.lval]=self.binop(st,op,a,b,bits)
    def binop(self,st,op,a,b,bits):
        if a is None: a=fresh('undef',bits)
        if b is None: b=fresh('undef',bits)
        if isinstance(a,int) and isinstance(b,int):
            m=(1<<bits)-1
            if op=='add': return (a+b)&m
            if op=='sub': return (a-b)&m
            if op=='mul': return (a*b)&m
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&m if b<bits else 0
            if op=='lshr': return a>>b if b<bits else 0
            if op=='ashr': return (_sx(a,bits)>>min(b,bits-1))&m
            if b==0:
                self.oblige(st,False,'arith','division by zero'); raise PathEnd('div0')
            if op=='udiv': return a//b
            if op=='urem': return a%b
            sa,sb=_sx(a,bits),_sx(b,bits)
            q=abs(sa)//abs(sb); q=-q if (sa<0)!=(sb<0) else q
            if op=='sdiv': return q&m
            if op=='srem': return (sa-q*sb)&m
        if bits==1:
            x=boolv(a); y=boolv(b)
            if op=='and': return S(z3.And(x,y))
            if op=='or': return S(z3.Or(x,y))
            if op in('xor','add','sub'): return S(z3.Xor(x,y))
            raise Unsupported('i1 '+op)
        if isinstance(a,Ptr): a=self.ptrint(st,a)
        if isinstance(b,Ptr): b=self.ptrint(st,b)
        x=bv(a,bits); y=bv(b,bits)
        if op=='add': r=x+y
        elif op=='sub': r=x-y
        elif op=='mul': r=x*y
        elif op=='and': r=x&y
        elif op=='or': r=x|y
        elif op=='xor': r=x^y
        elif op=='shl': r=x<<y
        elif op=='lshr': r=z3.LShR(x,y)
        elif op=='ashr': r=x>>y
        else:
            self.oblige(st,y!=0,'arith','division by zero')
            if op=='udiv': r=z3.UDiv(x,y)
            elif op=='urem': r=z3.URem(x,y)
            elif op=='sdiv': r=x/y
            elif op=='srem': r=z3.SRem(x,y)
            else: raise Unsupported(op)
        return S(r)
    def x_fbin(self,st,f,I):
        a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1]); rm=z3.RNE()
        g={'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[I.op]
        if self.o.get('fp_abstract'): f.env[I.lval]=z3.FP('fp!%d'%next(_ctr),a.sort()); return   # over-approximation: any value
        f.env[I.lval]=z3.simplify(g(rm,a,b))
    def x_fneg(self,st,f,I): f.env[I.lval]=z3.simplify(z3.fpNeg(self.val(st,I.ops[0])))
    def x_icmp(self,st,f,I):
        a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1])
        ty=I.ops[0].ty
        if I.ty.kind=='vector': raise Unsupported('vector icmp')
        f.env[I.lval]=self.icmp(st,I.x,a,b,ty)
    def icmp(self,st,pred,a,b,ty):
        if ty.kind=='pointer':
            if a is None or b is None: return fresh('undef',1)
            if not isinstance(a,Ptr): a=self.toptr(st,a)
            if not isinstance(b,Ptr): b=self.toptr(st,b)
            if a.obj is None and not isinstance(a.off,int): a=self.resolve(st,a)
            if b.obj is None and not isinstance(b.off,int): b=self.resolve(st,b)
            if a.obj is b.obj:
                x,y=a.off,b.off
                if self.bounds is not None and a.obj is not None: self.note_bound(x,y,64)
                if pred in('eq','ne','ult','ule','ugt','uge'):
                    return self.icmp_int(pred,x,y,64)
                return self.icmp_int(pred,self.ptrint(st,a),self.ptrint(st,b),64)
            if pred in('eq','ne'):
                # distinct objects: distinct addresses (one-past-the-end coincidence excluded, see assumptions)
                if a.obj is not None and b.obj is not None: return 0 if pred=='eq' else 1
                o,raw=(a,b) if a.obj is not None else (b,a)
                if isinstance(raw.off,int):
                    # object pointers are never null / never small constants unless offset wraps
                    if isinstance(o.off,int) or raw.off==0: return 0 if pred=='eq' else 1
            if a.obj is not None and b.obj is not None and self.content(st,a.obj).alive and self.content(st,b.obj).alive:
                # live objects do not overlap
                k=('sep',)+tuple(sorted((a.obj.id,b.obj.id)))
                if k not in st.ghost:
                    x,y=self.addr_facts(st,a.obj),self.addr_facts(st,b.obj)
                    st.ghost[k]=1
                    self.assume(st,z3.Or(z3.ULT(x+bv(a.obj.size,64),y),z3.ULT(y+bv(b.obj.size,64),x)))
            return self.icmp_int(pred,self.ptrint(st,a),self.ptrint(st,b),64)
        if isinstance(a,Ptr): a=self.ptrint(st,a)
        if isinstance(b,Ptr): b=self.ptrint(st,b)
        if a is None: a=fresh('undef',ty.bits)
        if b is None: b=fresh('undef',ty.bits)
        if self.bounds is not None: self.note_bound(a,b,ty.bits,pred[0]=='s')
        return self.icmp_int(pred,a,b,ty.bits)
    def note_bound(self,a,b,bits,signed=False):
        for bd in self.bounds:
            bd.append((a,b,bits,signed))
    def icmp_int(self,pred,a,b,bits):
        if isinstance(a,int) and isinstance(b,int):
            if pred=='eq': return int(a==b)
            if pred=='ne': return int(a!=b)
            if pred[0]=='s': a=_sx(a,bits); b=_sx(b,bits)
            p=pred[1:]
            return int(a<b if p=='lt' else a<=b if p=='le' else a>b if p=='gt' else a>=b)
        if bits==1:
            x=boolv(a); y=boolv(b)
            if pred=='eq': return S(x==y)
            if pred=='ne': return S(x!=y)
            x=bv(a,1); y=bv(b,1)
        else: x=bv(a,bits); y=bv(b,bits)
        r={'eq':lambda:x==y,'ne':lambda:x!=y,'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),
           'slt':lambda:x<y,'sle':lambda:x<=y,'sgt':lambda:x>y,'sge':lambda:x>=y}[pred]()
        return S(r)
    def x_fcmp(self,st,f,I):
        a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1]); p=I.x
        un=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
        rel={1:z3.fpEQ(a,b),2:z3.fpGT(a,b),3:z3.fpGEQ(a,b),4:z3.fpLT(a,b),5:z3.fpLEQ(a,b)}
        if p==0: r=0
        elif p==15: r=1
        elif p==7: r=S(z3.Not(un))
        elif p==8: r=S(un)
        elif p<=5: r=S(rel[p])
        elif p==6: r=S(z3.And(z3.Not(un),z3.Not(z3.fpEQ(a,b))))
        elif p==14: r=S(z3.Or(un,z3.Not(z3.fpEQ(a,b))))
        else: r=S(z3.Or(un,rel[p-8]))
        f.env[I.lval]=r
    def x_cast(self,st,f,I):
        op=I.op; v=self.val(st,I.ops[0]); src=I.ops[0].ty; dst=I.ty
        if dst.kind=='vector':
            f.env[I.lval]=[self.cast(st,op,x,src.elem,dst.elem) for x in v]; return
        f.env[I.lval]=self.cast(st,op,v,src,dst)
    def cast(self,st,op,v,src,dst):
        if v is None: return self.undef(dst)
        if op=='zext':
            if isinstance(v,int): return v
            if isinstance(v,z3.BoolRef): return S(z3.If(v,z3.BitVecVal(1,dst.bits),z3.BitVecVal(0,dst.bits)))
            return S(z3.ZeroExt(dst.bits-src.bits,v))
        if op=='sext':
            if isinstance(v,int): return _sx(v,src.bits)&((1<<dst.bits)-1)
            if isinstance(v,z3.BoolRef): return S(z3.If(v,z3.BitVecVal(-1,dst.bits),z3.BitVecVal(0,dst.bits)))
            return S(z3.SignExt(dst.bits-src.bits,v))
        if op=='trunc':
            if isinstance(v,int): return v&((1<<dst.bits)-1)
            if isinstance(v,Ptr): v=self.ptrint(st,v)
            r=S(z3.Extract(dst.bits-1,0,bv(v,src.bits)))
            if dst.bits==1: return r if isinstance(r,int) else S(r==1)
            return r
        if op=='ptrtoint':
            if isinstance(v,Ptr):
                r=self.ptrint(st,v)
                return r if dst.bits==64 else (r&((1<<dst.bits)-1) if isinstance(r,int) else S(z3.Extract(dst.bits-1,0,r)))
            return v
        if op=='inttoptr':
            return self.toptr(st,v)
        if op in('bitcast','addrspacecast'):
            if dst.kind=='int' and isinstance(v,z3.FPRef): return S(z3.fpToIEEEBV(v))
            if dst.kind in('float','double') and not isinstance(v,z3.FPRef): return self.coerce(st,v,dst)
            return v
        if op in('uitofp','sitofp'):
            srt=z3.Float32() if dst.kind=='float' else z3.Float64()
            x=bv(v,src.bits)
            if self.o.get('fp_abstract') and not z3.is_bv_value(x): return z3.FP('fp!%d'%next(_ctr),srt)
            return z3.simplify(z3.fpToFPUnsigned(z3.RNE(),x,srt) if op=='uitofp' else z3.fpSignedToFP(z3.RNE(),x,srt))
        if op in('fptoui','fptosi'):
            if self.o.get('fp_abstract'): return fresh('fpint',dst.bits)
            return S(z3.fpToUBV(z3.RTZ(),v,z3.BitVecSort(dst.bits)) if op=='fptoui' else z3.fpToSBV(z3.RTZ(),v,z3.BitVecSort(dst.bits)))
        if op in('fpext','fptrunc'):
            return z3.simplify(z3.fpFPToFP(z3.RNE(),v,z3.Float32() if dst.kind=='float' else z3.Float64()))
        raise Unsupported('cast '+op)
    def x_gep(self,st,f,I):
        p=self.val(st,I.ops[0])
        c,var=I.x
        off=c
        for o,sz in var:
            v=self.val(st,o)
            b=o.ty.bits
            if isinstance(v,int): off=off+_sx(v,b)*sz if isinstance(off,int) else off+z3.BitVecVal((_sx(v,b)*sz)&M64,64)
            else:
                x=bv(v,b)
                if b<64: x=z3.SignExt(64-b,x)
                off=(bv(off&M64,64) if isinstance(off,int) else off)+x*sz
        if isinstance(off,int): off&=M64
        if not isinstance(p,Ptr): p=self.toptr(st,p)
        f.env[I.lval]=self.padd(p,off)
    def x_load(self,st,f,I):
        p=self.val(st,I.ops[0])
        if I.x['ordering']>=2 and self.o.get('atomic'): self.o['atomic'](self,st,'load',p,I)
        f.env[I.lval]=self.load(st,p if isinstance(p,Ptr) else self.toptr(st,p),I.ty)
    def x_store(self,st,f,I):
        v=self.val(st,I.ops[0]); p=self.val(st,I.ops[1])
        if I.x['ordering']>=2 and self.o.get('atomic'): self.o['atomic'](self,st,'store',p,I)
        self.store(st,p if isinstance(p,Ptr) else self.toptr(st,p),v,I.x['ty'])
    def x_alloca(self,st,f,I):
        cnt=self.val(st,I.ops[0])
        sz=I.x.size*cnt if isinstance(cnt,int) else S(bv(cnt,64)*I.x.size)
        o=self.new_obj(st,'%s.%s'%(f.fn.name[-24:],I.lval),sz,'stack')
        ALLOBJ[o.id]=o
        f.allocas.append(o)
        f.env[I.lval]=Ptr(o,0)
    def x_select(self,st,f,I):
        c=self.val(st,I.ops[0]); a=self.val(st,I.ops[1]); b=self.val(st,I.ops[2])
        if c is None:
            c=fresh('undef',1)
            if I.ops[0].__class__ is Local: f.env[I.ops[0].id]=c
        if isinstance(c,int): f.env[I.lval]=a if c else b; return
        if same(a,b): f.env[I.lval]=a; return
        if isinstance(a,list) or isinstance(b,list) or isinstance(c,list):
            f.env[I.lval]=a if self.decide_fork(st,c) else b; return
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj and a.obj is not None:
                f.env[I.lval]=Ptr(a.obj,S(z3.If(c,bv(a.off,64),bv(b.off,64)))); return
            f.env[I.lval]=a if self.decide_fork(st,c) else b; return
        if I.ty.kind in('float','double'): f.env[I.lval]=z3.simplify(z3.If(c,a,b)); return
        if I.ty.bits==1: f.env[I.lval]=S(z3.If(c,boolv(a),boolv(b))); return
        f.env[I.lval]=S(z3.If(c,bv(a,I.ty.bits),bv(b,I.ty.bits)))
    def x_br(self,st,f,I):
        if not I.ops: return self.jump(st,f,I.x['succs'][0])
        c=self.val(st,I.ops[0])
        if c is None:   # an undetermined value: both branches, remembered while this branch is being decided
            k=('undefbr',len(st.frames),f.blk); c=st.ghost.get(k)
            if c is None: c=st.ghost[k]=fresh('undef',1)
            d=self.decide_fork(st,c); del st.ghost[k]
        elif isinstance(c,int): d=bool(c)
        else:
            if self.inc_cond: self.inc_cond[-1].append((len(st.frames)-1,f.blk,f.fn))
            d=self.decide_fork(st,c)
        return self.jump(st,f,I.x['succs'][0 if d else 1])
    def x_switch(self,st,f,I):
        v=self.val(st,I.ops[0])
        if isinstance(v,int):
            for cv,b in I.x['cases']:
                if cv==v: return self.jump(st,f,b)
            return self.jump(st,f,I.x['default'])
        if self.inc_cond: self.inc_cond[-1].append((len(st.frames)-1,f.blk,f.fn))
        bits=I.ops[0].ty.bits
        groups={}
        for cv,b in I.x['cases']: groups.setdefault(b,[]).append(cv)
        v=bv(v,bits)
        for b,cs in groups.items():
            cond=z3.Or([v==c for c in cs]) if len(cs)>1 else v==cs[0]
            if self.decide_fork(st,cond): return self.jump(st,f,b)
        return self.jump(st,f,I.x['default'])
    def x_phi(self,st,f,I): raise Unsupported('phi')
    def x_extractvalue(self,st,f,I):
        v=self.val(st,I.ops[0])
        for i in I.x: v=v[i]
        f.env[I.lval]=v
    def x_insertvalue(self,st,f,I):
        v=self.val(st,I.ops[0]); n=self.val(st,I.ops[1])
        def ins(a,ix):
            a=list(a)
            a[ix[0]]=n if len(ix)==1 else ins(a[ix[0]],ix[1:])
            return a
        f.env[I.lval]=ins(v,I.x)
    def x_extractelement(self,st,f,I):
        v=self.val(st,I.ops[0]); i=self.val(st,I.ops[1])
        if not isinstance(i,int): raise Unsupported('extractelement sym')
        f.env[I.lval]=v[i]
    def x_insertelement(self,st,f,I):
        v=list(self.val(st,I.ops[0])); i=self.val(st,I.ops[2])
        if not isinstance(i,int): raise Unsupported('insertelement sym')
        v[i]=self.val(st,I.ops[1]); f.env[I.lval]=v
    def x_shuffle(self,st,f,I):
        a=self.val(st,I.ops[0]); b=self.val(st,I.ops[1]); ab=a+b
        f.env[I.lval]=[ab[k] if k>=0 else None for k in I.x]
    def x_freeze(self,st,f,I):
        v=self.val(st,I.ops[0])
        f.env[I.lval]=self.undef(I.ty) if v is None else v
    def x_fence(self,st,f,I): pass
    def x_unreachable(self,st,f,I):
        self.oblige(st,False,'control','unreachable code / undefined behaviour reached')
        raise PathEnd('unreachable')
    def x_cmpxchg(self,st,f,I):
        p=self.val(st,I.ops[0]); exp=self.val(st,I.ops[1]); new=self.val(st,I.ops[2])
        ty=I.ops[1].ty
        if self.o.get('atomic'): self.o['atomic'](self,st,'cmpxchg',p,I)
        old=self.load(st,p,ty)
        if ty.kind=='pointer': eq=self.icmp(st,'eq',old,exp,ty)
        else: eq=self.icmp_int('eq',old if not isinstance(old,Ptr) else self.ptrint(st,old),exp,ty.bits)
        if not isinstance(eq,int): eq=int(self.decide_fork(st,eq))
        if eq: self.store(st,p,new,ty)
        f.env[I.lval]=[old,eq]
    def x_atomicrmw(self,st,f,I):
        p=self.val(st,I.ops[0]); v=self.val(st,I.ops[1]); ty=I.ty
        if self.o.get('atomic'): self.o['atomic'](self,st,'rmw',p,I)
        old=self.load(st,p,ty)
        k=I.x
        if k=='xchg': new=v
        elif k in('add','sub','and','or','xor'): new=self.binop(st,k,old,v,ty.bits)
        else: raise Unsupported('atomicrmw '+k)
        self.store(st,p,new,ty)
        f.env[I.lval]=old
    # ---- calls
    def x_ret(self,st,f,I):
        v=self.val(st,I.ops[0]) if I.ops else None
        return self.do_return(st,v)
    def do_return(self,st,v):
        f=st.frames.pop()
        self.kill_allocas(st,f)
        if not st.frames:
            self.finish(st); raise PathEnd('end')
        c=st.frames[-1]
        I=c.fn.blocks[c.blk].instrs[c.ip]
        if f.retto is not None:
            f.retto(self,st,v)
            return True
        if I.lval is not None: c.env[I.lval]=v
        if I.op=='invoke': return self.jump(st,c,I.x['normal'])
        c.ip+=1
        st.enter=False
        return True
    def kill_allocas(self,st,f):
        for o in f.allocas:
            c=self.content(st,o,True); c.alive=False
    def finish(self,st):
        self.nend=getattr(self,'nend',0)+1
        h=self.o.get('on_end')
        if h: h(self,st)
    def x_call(self,st,f,I):
        cal=I.x['callee']
        if cal.__class__ is Const and cal.kind=='func': name=cal.v
        else:
            p=self.val(st,cal) if not(cal.__class__ is Const and cal.kind=='expr') else self.cval(cal)
            if not isinstance(p,Ptr): p=self.toptr(st,p)
            if p.obj is None or p.obj.kind!='func':
                h=self.o.get('indirect')
                if h is not None:
                    r=h(self,st,p,I,[self.val(st,o) for o in I.ops])
                    if r is not NotImplemented: return self.after_call(st,f,I,r)
                self.oblige(st,False,'control','call through invalid function pointer'); raise PathEnd('badcall')
            name=p.obj.extra
        args=[self.val(st,o) for o in I.ops]
        return self.call(st,f,I,name,args)
    def override_for(self,name):
        if name in self.ovcache: return self.ovcache[name]
        r=None
        for rx,t in self.overrides:
            if rx.search(name): r=t; break
        self.ovcache[name]=r
        return r
    def call(self,st,f,I,name,args):
        if 'musttail' in I.x and self.override_for(name) is None:
            fn=self.m.func(name)
            if fn is not None and self.B.lookup(name) is None:   # the callee takes the place of this activation
                st.frames.pop(); self.kill_allocas(st,f)
                self.push_frame(st,fn,args,f.retto); st.enter=False
                return True
        ov=self.override_for(name)
        if isinstance(ov,tuple) and ov[0]=='wrap':   # the real function runs, then the environment's contract C(this, result) decides the result
            fn=self.m.func(name)
            if fn is None: raise Unsupported('no body for '+name)
            def after(eng,st2,v,a0=args[0],c=ov[1]):
                eng.push_frame(st2,eng.m.func(c),[a0,v],None); st2.enter=False
            self.externals.add('environment at '+name.split('IL')[0][:80])
            self.push_frame(st,fn,args,after)
            if len(ov)>2: self.push_frame(st,self.m.func(ov[2]),[args[0]],lambda eng,st2,v: None)   # C(this) runs first: what the environment did meanwhile
            st.enter=False
            return True
        if isinstance(ov,tuple):   # ('rec',contract): only recursive calls are replaced, the outermost call is the function under verification
            ov=ov[1] if any(fr.fn.name==name for fr in st.frames) else None
        if ov=='@noop':
            self.externals.add('@noop '+name)
            return self.after_call(st,f,I,None)
        if ov is not None and not any(fr.fn.name==ov for fr in st.frames):
            if callable(ov):
                r=self.guard(st,I,lambda: ov(self,st,I,args,name))
                if r is NotImplemented: pass
                elif isinstance(r,tuple) and r and r[0]=='UNWOUND': return True
                else: return self.after_call(st,f,I,r)
            else:
                fn=self.m.func(ov)
                if fn is None: raise Unsupported('override target missing '+ov)
                self.push_frame(st,fn,args,None); st.enter=False
                return True
        b=self.B.lookup(name)
        if b is not None:
            self.externals.add(name)
            r=self.guard(st,I,lambda: b(self,st,I,args,name))
            if isinstance(r,tuple) and r and r[0]=='UNWOUND': return True
            if isinstance(r,tuple) and r and r[0]=='CALL':
                fn=self.m.func(r[1])
                if fn is None: raise Unsupported('no body for '+r[1])
                self.push_frame(st,fn,r[2],r[3] if len(r)>3 else None); st.enter=False
                return True
            return self.after_call(st,f,I,r)
        fn=self.m.func(name)
        if fn is None:
            raise Unsupported('external function without contract: '+name)
        for k,t in enumerate(fn.params):
            if t is not None:
                o=self.new_obj(st,'byval',t.size,'stack'); ALLOBJ[o.id]=o
                self.memcpy(st,Ptr(o,0),args[k],t.size); args[k]=Ptr(o,0)
        self.push_frame(st,fn,args,None); st.enter=False
        return True
    def guard(self,st,I,g):
        try: return g()
        except Throw as t:
            if t.obj is None:
                o=self.new_obj(st,'exc',64,'heap'); ALLOBJ[o.id]=o
                t.obj=Ptr(o,0)
            st.exc=(t.obj,t.ti); self.clear_pend(st)
            self.unwind(st,first=True)
            return ('UNWOUND',)
    def fz(self,st,I,tag,bits):
        """fresh symbol that is stable when the instruction is re-executed after a fork"""
        k=('pend',id(I),tag)
        v=st.ghost.get(k)
        if v is None: v=st.ghost[k]=fresh(tag,bits)
        return v
    def clear_pend(self,st):
        for k in [k for k in st.ghost if isinstance(k,tuple) and k[0]=='pend']: del st.ghost[k]
    def after_call(self,st,f,I,r):
        self.clear_pend(st)
        if I.lval is not None: f.env[I.lval]=r
        if I.op=='invoke': return self.jump(st,f,I.x['normal'])
        return None
    # ---- exceptions
    def unwind(self,st,first=False):
        """st.frames[-1] is the frame containing the throwing call (first) -- find landing pad"""
        while True:
            if not st.frames:
                self.oblige_uncaught(st); raise PathEnd('uncaught')
            c=st.frames[-1]
            I=c.fn.blocks[c.blk].instrs[c.ip]
            if I.op=='invoke':
                lp=None
                ub=c.fn.blocks[I.x['unwind']]
                for J in ub.instrs:
                    if J.op=='landingpad': lp=J; break
                if lp is not None and (lp.x['cleanup'] or self.match(st.exc[1],lp) is not None):
                    self.jump(st,c,I.x['unwind']); return
            f=st.frames.pop(); self.kill_allocas(st,f)
            if f.retto is not None and getattr(f.retto,'on_unwind',None):
                f.retto.on_unwind(self,st)
            if not st.frames:
                # uncaught: report with the popped frame for location
                st.frames.append(f); f.ip=min(f.ip,len(f.fn.blocks[f.blk].instrs)-1)
                ti=st.exc[1]
                allow=self.o.get('may_throw',())
                if any(self.is_a(ti,a) for a in allow): raise PathEnd('thrown')
                self.oblige(st,False,'control','exception %s escapes'%ti); raise PathEnd('uncaught')
    def oblige_uncaught(self,st): pass
    def is_a(self,t,base):
        seen=0
        while t is not None and seen<20:
            if t==base: return True
            t=self.base_of(t); seen+=1
        return False
    def base_of(self,t):
        if t in EXC_BASE: return EXC_BASE[t]
        gi=self.m.global_info(t)
        if gi and gi[1] is not None and gi[1].kind=='agg' and len(gi[1].v)>=3:
            b=gi[1].v[2]
            if b.kind=='global': return b.v
        return None
    def match(self,ti,lp):
        for c in lp.x['clauses']:
            if c.kind=='null': return 0
            if c.kind=='global' and self.is_a(ti,c.v): return c.v
        return None
    def typeid(self,name):
        if name not in self.typeids: self.typeids[name]=len(self.typeids)+2
        return self.typeids[name]
    def x_landingpad(self,st,f,I):
        m=self.match(st.exc[1],I)
        sel=0 if m is None else (1 if m==0 else self.typeid(m))
        f.env[I.lval]=[st.exc[0],sel]
    def x_resume(self,st,f,I):
        fr=st.frames.pop(); self.kill_allocas(st,fr)
        if not st.frames:
            st.frames.append(fr)
            allow=self.o.get('may_throw',())
            if any(self.is_a(st.exc[1],a) for a in allow): raise PathEnd('thrown')
            self.oblige(st,False,'control','exception %s escapes'%st.exc[1]); raise PathEnd('uncaught')
        self.unwind(st)
        return True
    # ------------------------------------------------------------ loops
    def handle_loop(self,st,H,L,excl=frozenset()):
        f=st.frames[-1]; fn=f.fn; depth=len(st.frames)-1
        blk=fn.blocks[H]
        phis=blk.instrs[:blk.nphi]
        stop=Stop(depth,H,L,fn)
        I0=next((i for i in blk.instrs if i.line),blk.instrs[-1])
        where=f"{I0.file}:{I0.line}" if I0.line else fn.name
        # --- concrete unrolling while every loop-exit decision is concrete
        lim=self.o.get('unroll',1024)
        if self.bmc: return self.unroll_bmc(st,stop)
        probe=self.try_concrete(st,stop,lim)
        if probe is not None: return probe
        saved=self.checking
        # contract invariants that hold at entry are assumed while the loop is being explored; one that turns out not to be
        # inductive restarts the whole analysis of the loop without it
        assumed=()
        if self.o.get('assume_inv'):
            assumed=tuple(fn2 for fn2 in st.ghost.get('invs',()) if fn2 not in excl and self.smt.check(st.pc,[z3.Not(self.eval_pred(st,fn2))])[0]=='unsat')
        entry=[self.val(st,p.x[f.prev]) for p in phis]
        changed=[False]*len(phis); cmem={}; genobj={}
        preds_snapshot=len(st.preds)
        rounds=0
        self.bounds=self.bounds or []
        while True:
            rounds+=1
            if rounds>12: raise Unsupported('loop change set does not stabilise at '+where)
            h,hv,mv=self.make_header(st,phis,entry,changed,cmem)
            for fn2 in assumed:
                e2=z3.simplify(self.eval_pred(h,fn2))
                if not z3.is_true(e2): h.pc.append(e2); h.model=None
            if assumed and self.smt.check(h.pc,[])[0]=='unsat': return []
            self.checking=False
            bl=[]; self.bounds.append(bl)
            try: back,exits=self.explore([h.clone()],stop)
            finally:
                self.bounds.pop(); self.checking=saved
            new=False
            for b in back:
                bf=b.frames[-1]
                for k,p in enumerate(phis):
                    v=self.val(b,p.x[bf.prev])
                    if not changed[k] and not same(v,hv[k]) : changed[k]=True; new=True
                    elif changed[k] and isinstance(hv[k],Ptr) and (not isinstance(v,Ptr) or v.obj is not hv[k].obj):
                        raise Unsupported('loop-carried pointer changes object at '+where)
                for oid,c in b.mem.items():
                    hc=h.mem.get(oid)
                    if hc is None or hc is c: continue
                    ch=self.diff_content(hc,c)
                    cur=cmem.setdefault(oid,{})
                    for key in ch:
                        if key not in cur:
                            v=ch[key]
                            if isinstance(v,Ptr) and v.obj is not None and v.obj.id not in h.mem and v.obj.id in b.mem and not b.mem[v.obj.id].alive: v=DANGLING
                            cur[key]=v; new=True
                        if key=='ALIVE' and (ALLOBJ.get(oid) or self.obj_any(oid)).kind!='stack': raise Unsupported('loop frees an object at '+where)
            if not new: break
        if not self.bounds: self.bounds=None
        # --- candidates
        vars_=self.loop_vars(st,h,phis,entry,hv,changed,mv,back)
        cands=self.candidates(st,h,vars_,bl,back)
        ev={k:e for k,(w,e,hh,bs) in vars_.items()}
        hvv={k:hh for k,(w,e,hh,bs) in vars_.items()}
        def induct(cands,fixed):
            keep=self.houdini_filter(st.pc,[(c,c[1](ev,st)) for c in cands])
            while True:
                I=[c[1](hvv,h) for c in fixed+keep]
                n0=len(keep)
                for bi,b in enumerate(back):
                    bvv={k:bs[bi] for k,(w,e,hh,bs) in vars_.items()}
                    k0=keep
                    keep=self.houdini_filter(b.pc+[i for i in I if not z3.is_true(z3.simplify(i))],[(c,c[1](bvv,b)) for c in keep])
                    if os.environ.get('KIOVC_INV'):
                        for c in k0:
                            if c not in keep and (c[0].startswith('contract') or os.environ['KIOVC_INV'] in c[0]):
                                r_,m_=self.smt.check(b.pc+[i for i in I if not z3.is_true(z3.simplify(i))],[z3.Not(c[1](bvv,b))],want_model=True)
                                print('DROP',where,c[0],r_,self.where(b),[(str(d),m_[d]) for d in m_.decls() if d.arity()==0] if m_ else '',z3.simplify(c[1](bvv,b)))
                if len(keep)==n0: return keep
        # equalities between loop variables first: an alias needs no invariants of its own
        iseq=lambda c: re.match(r"^\(.*\)==\(.*\)$",c[0]) is not None and len(c[2])==2
        eqs=induct([c for c in cands if iseq(c)],[])
        alias=set()
        for c in eqs:
            a,b=c[2]
            if a not in alias and b not in alias: alias.add(b)
        rest=[c for c in cands if not iseq(c) and not (set(c[2])&alias)]
        keep=eqs+induct(rest,eqs)
        if self.o.get('lean'):   # equalities that need the other invariants
            more=induct([c for c in cands if iseq(c) and not any(c is d for d in eqs)],keep)
            keep=keep+more
        lost=[fn2 for fn2 in assumed if 'contract invariant '+fn2 not in [c[0] for c in keep]]
        if lost: self.log('redo loop',where,'without assumption',lost); return self.handle_loop(st,H,L,excl|set(lost))
        # --- final pass
        for attempt in range(6):
            h,hv2,mv2=self.make_header(st,phis,entry,changed,cmem,names=(hv,mv))
            for c in keep:
                e=c[1](hvv,h)
                e=z3.simplify(e)
                if not z3.is_true(e): h.pc.append(e)
            h.model=None
            r,m=self.smt.check(h.pc,[],want_model=True)
            if r=='unsat': return []
            h.model=m
            h.havoced=True
            nf0=len(self.failures)
            back,exits=self.explore([h.clone()],stop)
            if not (saved and self.checking): return exits
            # inductiveness (re-established on the final pass)
            vars2=self.loop_vars(st,h,phis,entry,hv,changed,mv,back)
            drop=[]
            t=time.time()
            for bi,b in enumerate(back):
                bvv={k:x[3][bi] for k,x in vars2.items()}
                inv=[(c,z3.simplify(c[1](bvv,b))) for c in keep]
                act=[(c,e) for c,e in inv if not z3.is_true(e)]
                if not act: continue
                r,_=self.smt.check(b.pc,[z3.Not(z3.And(*[e for c,e in act]))],timeout=6000)
                if r=='unsat': continue
                for c,e in act:
                    r,_=self.smt.check(b.pc,[z3.Not(e)],timeout=10000)
                    if r!='unsat' and not any(c is d for d in drop): drop.append(c)
            key=('loop','invariant preserved',where)
            ob=self.obls.setdefault(key,Obl(*key)); ob.count+=len(back); ob.time+=time.time()-t; ob.how.add('z3')
            if not drop: break
            lost=[fn2 for fn2 in assumed if 'contract invariant '+fn2 in [c[0] for c in drop]]
            if lost: self.log('redo loop',where,'without assumption',lost); return self.handle_loop(st,H,L,excl|set(lost))
            keep=[c for c in keep if not any(c is d for d in drop)]
            if attempt==5:
                fl={'res':'unknown','kind':'loop','label':'invariant preserved','where':where,'cond':str([c[0] for c in drop])[:300],'trace':None,'havoced':True,'stack':[]}
                ob.failed.append(fl); self.failures.append(fl)
            self.log('redo loop without',[c[0] for c in drop])
        self.loopinfo.append({'where':where,'fn':fn.name,'inv':[c[0] for c in keep],'changed':[p.lval for k,p in enumerate(phis) if changed[k]],'backedges':len(back)})
        if True:
            hist=all(b.ghost.get('again',0)>h.ghost.get('again',0) for b in back)
            if back and not hist and not self.o.get('noterm'):
                key=('loop','terminates',where)
                ob=self.obls.setdefault(key,Obl(*key)); ob.count+=1
                if not self.find_measure(vars2,back,hvv):
                    if not any(re.search(x,where+' '+fn.name) for x in self.o.get('noterm_loops',())):
                        fl={'res':'unknown','kind':'loop','label':'terminates','where':where,'cond':'no strictly monotone measure found','trace':None,'havoced':True,'stack':[self.where_frame(x) for x in st.frames]}
                        ob.failed.append(fl); self.failures.append(fl); self.log('FAILED termination',where)
                else: ob.how.add('z3')
        return exits
    def find_measure(self,vars_,back,hvv):
        for k,(w,e,hh,bs) in vars_.items():
            if w==1 or w is None: continue
            for rel in (lambda a,b: z3.UGT(a,b), lambda a,b: z3.ULT(a,b), lambda a,b: a>b, lambda a,b:a<b):
                ok=True
                for bi,b in enumerate(back):
                    c=rel(bv(bs[bi],w),bv(hh,w))
                    r,_=self.smt.check(b.pc,[z3.Not(c)],timeout=5000)
                    if r!='unsat': ok=False; break
                if ok: return True
        # ghost environment measure: some registered measure function
        return False
    def make_header(self,st,phis,entry,changed,cmem,names=None):
        h=st.clone()
        f=h.frames[-1]
        hv=[]
        for k,p in enumerate(phis):
            v=entry[k]
            if changed[k]:
                if names is not None: v=names[0][k]
                else: v=self.havoc_val(v,p.ty,'L%d'%p.lval)
            f.env[p.lval]=v; hv.append(v)
        mv={}
        for oid,keys in cmem.items():
            o=ALLOBJ.get(oid) or self.obj_any(oid)
            c=self.content(h,o,True)
            if 'ALL' in keys:
                key=(oid,'ALL')
                arr=names[1][key] if names is not None else fresh_arr('hav_'+o.name)
                mv[key]=arr
                if any(isinstance(x[1],Ptr) for x in c.cells.values()):
                    ptrs={a:x for a,x in c.cells.items() if isinstance(x[1],Ptr)}
                else: ptrs={}
                c.cells={}; c.node=('base',arr)
                if ptrs and not keys.get('PTRLOST'):
                    pass
                continue
            if 'ALIVE' in keys:
                c.alive=False; c.cells={}; c.node=('undef',o.name); continue
            for key,val in keys.items():
                off,n=key
                nk=(oid,off,n)
                if names is not None: v=names[1][nk]
                else:
                    old=c.cells.get(off)
                    if old is None or old[0]!=n: ov=self.read(h,Ptr(o,off),n)
                    else: ov=old[1]
                    v=None if val is DANGLING else self.havoc_mem(ov,val,n,o,off,h)
                mv[nk]=v
                self.write(h,Ptr(o,off),n,v)
        f.ip=f.fn.blocks[f.blk].nphi; h.enter=False
        if any(changed) or cmem: h.decided=dict(h.decided)
        h.model=None
        if names is None and self.o.get('assume_header'): pass
        return h,hv,mv
    def obj_any(self,oid):
        for o in self.gobj.values():
            if o.id==oid: return o
        raise Unsupported('object')
    def havoc_val(self,v,ty,name):
        if isinstance(v,Ptr):
            if v.obj is None: raise Unsupported('loop-carried null pointer')
            return Ptr(v.obj,fresh(name+'.off',64))
        if ty.kind=='int': return fresh(name,ty.bits)
        if ty.kind in('float','double'): return z3.FP(f'{name}!{next(_ctr)}',z3.Float32() if ty.kind=='float' else z3.Float64())
        raise Unsupported('havoc '+ty.kind)
    def havoc_mem(self,old,new,n,o,off,h):
        name=f'{o.name}.{off}'
        if isinstance(new,Ptr) or isinstance(old,Ptr):
            if isinstance(new,Ptr) and isinstance(old,Ptr) and new.obj is old.obj and old.obj is not None:
                return Ptr(old.obj,fresh(name+'.off',64))
            if n==8 and all(x.obj is None if isinstance(x,Ptr) else isinstance(x,(int,z3.BitVecRef)) for x in(old,new)): return fresh(name,64)
            return None   # any value whatsoever: using it as a pointer fails
        if isinstance(new,z3.FPRef): return z3.FP(f'{name}!{next(_ctr)}',new.sort())
        return fresh(name,8*n)
    def diff_content(self,a,b):
        out={}
        if a.alive!=b.alive: return {'ALIVE':'alive'}
        if a.node is not b.node:
            return {'ALL':1}
        for k,x in b.cells.items():
            y=a.cells.get(k)
            if y is None or y[0]!=x[0] or not same(x[1],y[1]): out[(k,x[0])]=x[1]
        for k,y in a.cells.items():
            if k not in b.cells and not any((k2<=k<k2+n2) for (k2,n2) in out): out[(k,y[0])]=y[1]
        return out
    def loop_vars(self,st,h,phis,entry,hv,changed,mv,back):
        vs={}
        for k,p in enumerate(phis):
            if not changed[k]: continue
            v=hv[k]; bs=[self.val(b,p.x[b.frames[-1].prev]) for b in back]
            if isinstance(v,Ptr):
                if not all(isinstance(x,Ptr) and x.obj is v.obj for x in bs): raise Unsupported('loop-carried pointer changes object')
                vs[('phi',p.lval)]=(64,entry[k].off,v.off,[x.off for x in bs]); self._vobj(vs,('phi',p.lval),v.obj)
            elif p.ty.kind=='int':
                e=entry[k]
                if e is None: e=fresh('undef',p.ty.bits)
                vs[('phi',p.lval)]=(p.ty.bits,e if not isinstance(e,Ptr) else self.ptrint(st,e),v,[x if not isinstance(x,Ptr) else self.ptrint(b,x) for x,b in zip(bs,back)])
        for key,v in mv.items():
            if key[1] in('ALL','ALIVE') or v is None: continue
            oid,off,n=key
            o=ALLOBJ.get(oid) or self.obj_any(oid)
            e=self.read(st,Ptr(o,off),n); bs=[self.read(b,Ptr(o,off),n) for b in back]
            if not isinstance(v,Ptr): e,*bs=[x.off if isinstance(x,Ptr) and x.obj is None else x for x in [e]+bs]
            if isinstance(v,Ptr):
                vs[('mem',)+key]=(64,e.off,v.off,[x.off for x in bs]); self._vobj(vs,('mem',)+key,v.obj)
            elif isinstance(v,z3.BitVecRef):
                if isinstance(e,z3.FPRef) or not all(isinstance(x,(int,z3.BitVecRef)) for x in [e]+bs): continue
                vs[('mem',)+key]=(8*n,e,v,bs)
        return vs
    def _vobj(self,vs,k,o):
        self.vobj=getattr(self,'vobj',{}); self.vobj[k]=o
    def candidates(self,st,h,vars_,bl,back):
        C=[]
        cur=[()]
        # loops in which other threads move: only equalities, bounds at entry and the contract's invariants are candidates
        lean=self.o.get('lean')=='all' or self.o.get('lean') and any(b.ghost.get('again',0)>h.ghost.get('again',0) for b in back)
        def add(name,g): C.append((name,g,cur[0]))
        hsyms={}
        for k,(w,e,hh,bs) in vars_.items():
            if isinstance(hh,z3.ExprRef): hsyms[hh.get_id()]=k
        def free_of_h(t):
            return isinstance(t,int) or not any(_mentions_id(t,set(hsyms)) for _ in (0,))
        bterms={}
        sgn=set()
        for a,b,bits,sg in bl:
            if sg: sgn.add(bits)
            for x,y in((a,b),(b,a)):
                if isinstance(x,z3.ExprRef) and not isinstance(x,z3.BoolRef) and not free_of_h(x) and free_of_h(y) and not isinstance(y,z3.BoolRef):
                    if isinstance(y,int): bterms.setdefault(bits,{})[('i',y)]=y
                    else: bterms.setdefault(bits,{})[y.get_id()]=y
        for k,(w,e,hh,bs) in vars_.items():
            cur[0]=(k,)
            if w==1:
                add(f'{k} false',lambda V,s,k=k: z3.Not(boolv(V[k]))); add(f'{k} true',lambda V,s,k=k: boolv(V[k]))
                for (K,P) in h.preds: add(f'{k} -> P',lambda V,s,k=k,P=P: z3.Implies(boolv(V[k]),P)); add(f'!{k} -> P',lambda V,s,k=k,P=P: z3.Implies(z3.Not(boolv(V[k])),P))
                continue
            E=bv(e,w)
            add(f'{k}>=entry',lambda V,s,k=k,E=E,w=w: z3.UGE(bv(V[k],w),E)); add(f'{k}<=entry',lambda V,s,k=k,E=E,w=w: z3.ULE(bv(V[k],w),E))
            if w==8: add(f'{k}<=1',lambda V,s,k=k: z3.ULE(bv(V[k],8),1))      # bool
            sg=w<64 or w in sgn
            if sg: add(f'{k}>=s entry',lambda V,s,k=k,E=E,w=w: bv(V[k],w)>=E); add(f'{k}<=s entry',lambda V,s,k=k,E=E,w=w: bv(V[k],w)<=E)
            add(f'{k}!=0',lambda V,s,k=k,w=w: bv(V[k],w)!=0)
            if sg: add(f'{k}>=s0',lambda V,s,k=k,w=w: bv(V[k],w)>=0)
            bt={} if lean and k[0]!='phi' else dict(bterms.get(w,{}))
            o=getattr(self,'vobj',{}).get(k)
            if o is not None: bt['size']=bv(o.size,64)
            if w==64:
                for ti,t in enumerate(h.ghost.get('terms',())): bt[('t',ti)]=t
            for tk,t in bt.items():
                T=bv(t,w)
                add(f'{k}<={t}'[:80],lambda V,s,k=k,T=T,w=w: z3.ULE(bv(V[k],w),T)); add(f'{k}<{t}'[:80],lambda V,s,k=k,T=T,w=w: z3.ULT(bv(V[k],w),T))
                add(f'{k}>={t}'[:80],lambda V,s,k=k,T=T,w=w: z3.UGE(bv(V[k],w),T))
                if sg:
                    add(f'{k}<=s{t}'[:80],lambda V,s,k=k,T=T,w=w: bv(V[k],w)<=T)
                    add(f'{k}>=s{t}'[:80],lambda V,s,k=k,T=T,w=w: bv(V[k],w)>=T)
                add(f'{k}-entry<=..',lambda V,s,k=k,T=T,E=E,w=w: z3.ULE(bv(V[k],w)-E,T))
                add(f'{k}!={t}'[:80],lambda V,s,k=k,T=T,w=w: bv(V[k],w)!=T)
            # alignment of the step
            steps=set()
            for b in bs:
                d=S(bv(b,w)-bv(hh,w))
                if isinstance(d,int): steps.add(min(d,(1<<w)-d))
            for s_ in steps:
                if s_ in(2,4,8,16,32,64): add(f'{k} aligned {s_}',lambda V,st_,k=k,E=E,s_=s_,w=w: ((bv(V[k],w)-E)&(s_-1))==0)
            if w==64:
                for (K,P) in h.preds:
                    add(f'K<{k}->P',lambda V,s,k=k,K=K,P=P: z3.Implies(z3.ULT(K,bv(V[k],64)),P))
                    add(f'K<={k}->P',lambda V,s,k=k,K=K,P=P: z3.Implies(z3.ULE(K,bv(V[k],64)),P))
                    add(f'K>={k}->P',lambda V,s,k=k,K=K,P=P: z3.Implies(z3.UGE(K,bv(V[k],64)),P))
                    add(f'K>{k}->P',lambda V,s,k=k,K=K,P=P: z3.Implies(z3.UGT(K,bv(V[k],64)),P))
                    add(f'K<{k}-e->P',lambda V,s,k=k,E=E,K=K,P=P: z3.Implies(z3.ULT(K,bv(V[k],64)-E),P))
                    add(f'K<{k}-1->P',lambda V,s,k=k,E=E,K=K,P=P: z3.Implies(z3.And(bv(V[k],64)!=0,z3.ULT(K,bv(V[k],64)-1)),P))
        ks=list(vars_)
        for i,a in enumerate(ks):
            wa,ea,ha,ba=vars_[a]
            if wa==1: continue
            for b in ks[i+1:]:
                wb,eb,hb,bb=vars_[b]
                if wb==1: continue
                cur[0]=(a,b)
                if lean:
                    if wa==wb and wa>8: add(f'{a}=={b}',lambda V,s,a=a,b=b,w=wa: bv(V[b],w)==bv(V[a],w))
                    if wa==wb and wa>8 and self.o['lean']=='all' and 'phi' in(a[0],b[0]):
                        add(f'{a}-e=={b}-e',lambda V,s,a=a,b=b,A=bv(ea,wa),B_=bv(eb,wa),w=wa: bv(V[a],w)-A==bv(V[b],w)-B_)
                    continue
                if wa==wb:
                    A,B_=bv(ea,wa),bv(eb,wa)
                    add(f'{a}-e=={b}-e',lambda V,s,a=a,b=b,A=A,B_=B_,w=wa: bv(V[a],w)-A==bv(V[b],w)-B_)
                    add(f'{a}+{b}==const',lambda V,s,a=a,b=b,A=A,B_=B_,w=wa: bv(V[a],w)+bv(V[b],w)==A+B_)
                    add(f'{a}<={b}',lambda V,s,a=a,b=b,w=wa: z3.ULE(bv(V[a],w),bv(V[b],w)))
                    add(f'{b}<={a}',lambda V,s,a=a,b=b,w=wa: z3.ULE(bv(V[b],w),bv(V[a],w)))
                    add(f'{a}=={b}',lambda V,s,a=a,b=b,w=wa: bv(V[b],w)==bv(V[a],w))
                    for q in (2,4,8,12,16,24,32):
                        add(f'{a}-e=={q}*({b}-e)',lambda V,s,a=a,b=b,A=A,B_=B_,w=wa,q=q: bv(V[a],w)-A==(bv(V[b],w)-B_)*q)
                        add(f'{b}-e=={q}*({a}-e)',lambda V,s,a=a,b=b,A=A,B_=B_,w=wa,q=q: (bv(V[a],w)-A)*q==bv(V[b],w)-B_)
                else:
                    lo,hi=(a,b) if wa<wb else (b,a); wl,wh=min(wa,wb),max(wa,wb)
                    El,Eh=bv(vars_[lo][1],wl),bv(vars_[hi][1],wh)
                    add(f'zext {lo}=={hi}',lambda V,s,lo=lo,hi=hi,wl=wl,wh=wh: z3.ZeroExt(wh-wl,bv(V[lo],wl))==bv(V[hi],wh))
                    add(f'trunc diff {lo}=={hi}',lambda V,s,lo=lo,hi=hi,wl=wl,wh=wh,El=El,Eh=Eh: bv(V[lo],wl)-El==z3.Extract(wl-1,0,bv(V[hi],wh)-Eh))
        cur[0]=()
        for fn in h.ghost.get('invs',()): add('contract invariant '+fn,lambda V,s,fn=fn: self.eval_pred(s,fn))
        for g in self.o.get('cands',()):
            g(self,st,h,vars_,add)
        return C
    def eval_pred(self,st,fname):
        """the value of a boolean contract function over ghost state, as a formula"""
        s=st.clone(); n0=len(s.pc); out=[]
        def ret(e,s2,v):
            out.append(z3.And(*(s2.pc[n0:]+[boolv(v)])) if len(s2.pc)>n0 else boolv(v)); raise PathEnd('pred')
        sv=(self.checking,self.bounds,self.inc_cond); self.checking=False; self.bounds=None; self.inc_cond=[]
        s.enter=False; s.model=None
        self.push_frame(s,self.m.func(fname),[],ret); s.enter=False
        try: self.explore([s],None)
        finally: self.checking,self.bounds,self.inc_cond=sv
        return z3.Or(*out) if out else z3.BoolVal(False)
    def houdini_filter(self,pc,conds):
        """conds: list of (cand,expr). returns the cands implied by pc"""
        live=[]
        for c,e in conds:
            e=z3.simplify(e)
            if z3.is_true(e): live.append((c,None)); continue
            live.append((c,e))
        while True:
            act=[e for c,e in live if e is not None]
            if not act: break
            r,m=self.smt.check(pc,[z3.Not(z3.And(*act))],want_model=True,timeout=8000)
            if r=='unsat': break
            if r=='unknown':
                # fall back to individual checks
                nl=[]
                for c,e in live:
                    if e is None: nl.append((c,e)); continue
                    r,_=self.smt.check(pc,[z3.Not(e)],timeout=3000)
                    if r=='unsat': nl.append((c,e))
                live=nl; break
            n0=len(live); nl=[]
            for c,e in live:
                if e is None or z3.is_true(m.eval(e,model_completion=True)): nl.append((c,e))
            if len(nl)==n0:
                nl=[]
                for c,e in live:
                    if e is None: nl.append((c,e)); continue
                    r,_=self.smt.check(pc,[z3.Not(e)],timeout=3000)
                    if r=='unsat': nl.append((c,e))
                live=nl; break
            live=nl
        return [c for c,e in live]
    def try_concrete(self,st,stop,lim):
        """unroll while no symbolic decision is taken on a loop-exit branch; None if the loop is not concrete"""
        saved=self.checking; self.checking=False
        cur=[st.clone()]; n=0
        try:
            while cur:
                n+=1
                if n>lim or (len(cur)>1 and n>lim//16): return None
                nxt=[]
                for c in cur:
                    h=c.clone() if n>1 else c
                    self.eval_phis(h)
                    self.inc_cond.append([])
                    try: back,ex=self.explore([h],stop)
                    finally: ic=self.inc_cond.pop()
                    # symbolic decision on a branch of this loop that can leave it?
                    for (d,b,fn) in ic:
                        if d==stop.depth and b in stop.L and any(s not in stop.L for s in fn.blocks[b].succs):
                            if n==1 and not back: continue
                            return None
                    nxt+=back
                if len(nxt)>self.o.get('concrete_states',16): return None
                cur=nxt
        except Unsupported: return None
        finally: self.checking=saved
        # concrete trip count: re-run in checking mode
        cur=[st]; exits=[]
        for k in range(n+1):
            if not cur: break
            nxt=[]
            for h in cur:
                self.eval_phis(h)
                back,ex=self.explore([h],stop); exits+=ex; nxt+=back
            cur=nxt
        if cur: raise Unsupported('loop not concrete after all')
        return exits
    def unroll_bmc(self,st,stop):
        cur=[st]; exits=[]
        for k in range(self.bmc+1):
            if not cur: break
            nxt=[]
            for h in cur:
                self.eval_phis(h)
                back,ex=self.explore([h],stop); exits+=ex; nxt+=back
            cur=nxt
        return exits

    TAB={}
for _o in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'): Engine.TAB[_o]=Engine.x_bin
for _o in('fadd','fsub','fmul','fdiv'): Engine.TAB[_o]=Engine.x_fbin
for _o in('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast','addrspacecast'): Engine.TAB[_o]=Engine.x_cast
Engine.TAB.update({'icmp':Engine.x_icmp,'fcmp':Engine.x_fcmp,'fneg':Engine.x_fneg,'gep':Engine.x_gep,'load':Engine.x_load,'store':Engine.x_store,'alloca':Engine.x_alloca,
 'select':Engine.x_select,'br':Engine.x_br,'switch':Engine.x_switch,'phi':Engine.x_phi,'extractvalue':Engine.x_extractvalue,'insertvalue':Engine.x_insertvalue,
 'extractelement':Engine.x_extractelement,'insertelement':Engine.x_insertelement,'shufflevector':Engine.x_shuffle,'freeze':Engine.x_freeze,'fence':Engine.x_fence,
 'unreachable':Engine.x_unreachable,'cmpxchg':Engine.x_cmpxchg,'atomicrmw':Engine.x_atomicrmw,'ret':Engine.x_ret,'call':Engine.x_call,'invoke':Engine.x_call,
 'landingpad':Engine.x_landingpad,'resume':Engine.x_resume})

UNDEF=object()
class _AllObj(dict):
    pass
ALLOBJ=_AllObj()
_orig_init=Obj.__init__
def _init(s,*a,**k):
    _orig_init(s,*a,**k); ALLOBJ[s.id]=s
Obj.__init__=_init
def _sx(v,bits): return v-(1<<bits) if v>>(bits-1)&1 else v
def _rep(b,n):
    if isinstance(b,int):
        return int.from_bytes(bytes([b&255])*n,'little')
    b=bv(b,8)
    return b if n==1 else S(z3.Concat(*[b]*n))
def _aligned(e,n):
    """syntactic: low log2(n) bits of e are zero"""
    if isinstance(e,int): return e%n==0
    k=n.bit_length()-1
    r=z3.simplify(z3.Extract(k-1,0,e)) if k>0 else None
    return k==0 or (z3.is_bv_value(r) and r.as_long()==0)
def _has_undef(node):
    while True:
        k=node[0]
        if k=='undef': return True
        if k in('store','fill'): node=node[1]; continue
        if k=='copy':
            if _has_undef(node[4]): return True
            node=node[1]; continue
        return False
def _mentions(e,b):
    return _mentions_id(e,{b.get_id()})
def _mentions_id(e,ids):
    st=[e]; seen=set()
    while st:
        x=st.pop()
        i=x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    return False
def _find_ite(e):
    st=[e]; seen=set()
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x,z3.Z3_OP_ITE) and z3.is_bv(x): return x
        st.extend(x.children())
    return None
