"""SMT layer.  Every query goes through a fixed portfolio, first answer wins:
  1. z3, incremental along the path (short time limit),
  2. a race of z3 (from scratch) and cvc5 with integer blasting (--solve-bv-as-int=sum: complete translation of
     bit-vectors to integers mod 2^n), joined after 2 s by cvc5 with bit-blasting and an older z3.
`unknown` from all of them counts as a failed obligation."""
import z3, time, subprocess, tempfile, os, re, selectors
STATS={'queries':0,'time':0.0,'z3':0,'cvc5':0,'cvc5_time':0.0,'unknown':0,'by':{}}
DUMP=os.environ.get('KIOVC_DUMP')
z3.set_param('timeout',0)
_pfx=os.path.join('/dev/shm' if os.path.isdir('/dev/shm') else '/tmp','kiovc%d_'%os.getpid())
class Smt:
    def __init__(self,inc_ms=60):
        self.inc=z3.Solver(); self.inc.set('timeout',inc_ms)
        self.lits=[]; self.split=None
    def _sync(self,pc):
        n=0; L=self.lits
        m=min(len(L),len(pc))
        while n<m and L[n] is pc[n]: n+=1
        if n<len(L):
            self.inc.pop(len(L)-n); del L[n:]
        for c in pc[n:]:
            self.inc.push(); self.inc.add(c); L.append(c)
    def by(self,k): STATS['by'][k]=STATS['by'].get(k,0)+1; self.last=k
    def check(self,pc,extra=(),want_model=False,timeout=20000):
        """returns (res,model) res in 'sat','unsat','unknown'"""
        t=time.time(); STATS['queries']+=1
        try:
            self._sync(pc)
            r=self.inc.check(*extra)
            if r==z3.sat: self.by('z3'); return 'sat',(self.inc.model() if want_model else None)
            if r==z3.unsat: self.by('z3'); return 'unsat',None
            if self.split is not None:
                r,m=self.cases(list(pc)+list(extra),want_model)
                if r!='unknown': self.by('z3-cases'); return r,m
            sec=max(2,timeout/1000)
            asserts=list(pc)+list(extra)
            txt=self.to_smt2(asserts)
            r,who,vals=self.race(txt,sec,asserts if want_model else None)
            if r=='unsat': self.by(who); return r,None
            if r=='sat':
                self.by(who)
                if not want_model: return r,None
                s=z3.SolverFor('QF_AUFBV'); s.set('timeout',int(timeout/2)); s.add(*asserts); s.add(*vals)
                if s.check()==z3.sat: return 'sat',s.model()
                s=z3.Solver(); s.set('timeout',int(timeout/2)); s.add(*asserts); s.add(*vals)
                if s.check()==z3.sat: return 'sat',s.model()
                return 'sat',None
            STATS['unknown']+=1; self.by('unknown')
            return 'unknown',None
        except z3.Z3Exception as e:
            if 'interrupted' in str(e) or 'timeout' in str(e) or 'canceled' in str(e): return 'unknown',None
            raise
        finally:
            dt=time.time()-t; STATS['time']+=dt
            if DUMP and dt>0.5:
                open('%s/%d_%d.smt2'%(DUMP,os.getpid(),STATS['queries']),'w').write('; %.2f %s\n'%(dt,self.last)+self.to_smt2(list(pc)+list(extra)))
    def cases(self,asserts,want_model):
        """case distinction over the declared variable (every value of its range, and the rest)"""
        var,lo,hi=self.split
        w=var.size(); s=z3.Solver(); s.set('timeout',2000)
        s.push(); s.add(*asserts); s.add(z3.Or(z3.ULT(var,lo),z3.UGT(var,hi)))
        r=s.check(); s.pop()
        if r!=z3.unsat: return 'unknown',None
        for i in range(lo,hi+1):
            c=z3.BitVecVal(i,w); dead=False; out=[]
            for a in asserts:
                b=z3.simplify(z3.substitute(a,(var,c)))
                if z3.is_false(b): dead=True; break
                if not z3.is_true(b): out.append(b)
            if dead: continue
            s=z3.SolverFor('QF_AUFBV') if False else z3.Solver(); s.set('timeout',2000); s.add(*out)
            r=s.check()
            if r==z3.unsat: continue
            if r==z3.unknown: return 'unknown',None
            if not want_model: return 'sat',None
            s.add(var==c)
            return ('sat',s.model()) if s.check()==z3.sat else ('sat',None)
        return 'unsat',None
    @staticmethod
    def to_smt2(asserts):
        s=z3.Solver(); s.add(*asserts)
        return '(set-logic ALL)\n'+s.to_smt2()
    def race(self,txt,sec,model_of):
        STATS['race']=STATS.get('race',0)+1
        consts=_consts(model_of) if model_of is not None else []
        if consts: txt=txt+'\n(get-value (%s))\n'%' '.join('|%s|'%c.decl().name() for c in consts)
        fn=_pfx+'r%d_%d.smt2'%(os.getpid(),STATS['race']); open(fn,'w').write(txt)
        ms=int(sec*1000)
        cmds=[('cvc5-int',['cvc5','--tlimit=%d'%ms,'--solve-bv-as-int=sum']+(['--produce-models'] if consts else [])+[fn],0),
              ('z3-cli',['z3-new','-T:%d'%int(sec+1),fn],0),
              ('cvc5',['cvc5','--tlimit=%d'%ms]+(['--produce-models'] if consts else [])+[fn],2),
              ('z3-4.8',['z3','-T:%d'%int(sec+1),fn],2)]
        t0=time.time(); run={}; pend=list(cmds); res=('unknown','unknown',[])
        sel=selectors.DefaultSelector(); buf={}
        try:
            while True:
                el=time.time()-t0
                for c in list(pend):
                    if el>=c[2]:
                        pend.remove(c)
                        p=subprocess.Popen(c[1],stdout=subprocess.PIPE,stderr=subprocess.DEVNULL); run[p.stdout]=(c[0],p); buf[p.stdout]=b''
                        sel.register(p.stdout,selectors.EVENT_READ)
                if not run and not pend: return res
                if el>sec+3: return res
                nxt=min([c[2] for c in pend],default=sec+3)-el
                for k,_ in sel.select(max(0.001,nxt)):
                    d=os.read(k.fd,1<<16)
                    if d: buf[k.fileobj]+=d; continue
                    sel.unregister(k.fileobj); nm,p=run.pop(k.fileobj); p.wait(); p.stdout.close()
                    ls=buf[k.fileobj].decode('utf8','replace').strip().split('\n',1); o=ls[0].strip() if ls else ''
                    if o=='unsat': return 'unsat',nm,[]
                    if o=='sat' :
                        vals=[]; d_={c.decl().name():c for c in consts}
                        for n_,v in re.findall(r'\(\|?([^\s|()]+)\|? (#b[01]+|#x[0-9a-f]+|true|false)\)',ls[1] if len(ls)>1 else ''):
                            c=d_.get(n_)
                            if c is None: continue
                            if v in('true','false'): vals.append(c==(v=='true'))
                            else: vals.append(c==z3.BitVecVal(int(v[2:],2 if v[1]=='b' else 16),c.size()))
                        return 'sat',nm,vals
        finally:
            for nm,p in run.values():
                p.kill()
            for nm,p in run.values(): p.wait(); p.stdout.close()
            sel.close()
            try: os.unlink(fn)
            except OSError: pass
    @staticmethod
    def cvc5_txt(txt,timeout,flags=(),model_of=None):
        STATS['cvc5']+=1; t=time.time()
        consts=[]
        if model_of is not None:
            consts=_consts(model_of)
            if consts: txt=txt+'\n(get-value (%s))\n'%' '.join('|%s|'%c.decl().name() for c in consts)
        fn=_pfx+str(STATS['cvc5'])+'_%d.smt2'%os.getpid()
        open(fn,'w').write(txt)
        try:
            r=subprocess.run(['cvc5','--tlimit=%d'%(timeout*1000)]+(['--produce-models'] if model_of is not None else [])+list(flags)+[fn],capture_output=True,text=True,timeout=timeout+5)
            ls=r.stdout.strip().split('\n',1); o=ls[0] if ls else ''
            vals=[]
            if o=='sat' and len(ls)>1:
                d={c.decl().name():c for c in consts}
                for nm,v in re.findall(r'\(\|?([^\s|()]+)\|? (#b[01]+|#x[0-9a-f]+|true|false)\)',ls[1]):
                    c=d.get(nm)
                    if c is None: continue
                    if v in('true','false'): vals.append(c==(v=='true'))
                    else: vals.append(c==z3.BitVecVal(int(v[2:],2 if v[1]=='b' else 16),c.size()))
            return (o if o in('sat','unsat') else 'unknown'),vals
        except subprocess.TimeoutExpired:
            return 'unknown',[]
        finally:
            try: os.unlink(fn)
            except OSError: pass
            STATS['cvc5_time']+=time.time()-t
    def cvc5(self,pc,extra,timeout=60):
        return self.cvc5_txt(self.to_smt2(list(pc)+list(extra)),timeout,['--solve-bv-as-int=sum'])[0]
def _consts(es):
    out=[]; seen=set(); st=list(es)
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED and (z3.is_bv(x) or z3.is_bool(x)): out.append(x)
        st.extend(x.children())
    return out
