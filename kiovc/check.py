"""check <property>: verify every contract of the property's groups against /repo's current sources, replay failures."""
import os, sys, re, json, time, subprocess, tempfile, shutil, hashlib, signal, multiprocessing, traceback
from . import run as R
from .registry import GROUPS, PROPS
ROOT=R.ROOT
ASAN='/usr/lib/llvm-18/lib/clang/18/lib/linux'
def entries_in(src):
    """harness entries and the cover labels lexically inside each"""
    txt=open(os.path.join(ROOT,src)).read()
    out={}
    ms=list(re.finditer(r'VC_HARNESS\s+void\s+(\w+)\s*\(',txt))
    for i,m in enumerate(ms):
        end=k=txt.index('{',m.end()); depth=0
        for t in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|//[^\n]*|[{}]',txt[k:]):
            if t.group()=='{': depth+=1
            elif t.group()=='}':
                depth-=1
                if not depth: end=k+t.end(); break
        out[m.group(1)]=sorted(set(out.get(m.group(1),[]))|set(re.findall(r'vc_cover\("([^"]*)"\)',txt[m.start():end])))
    return out
def owner(pid,grp,kind,label):
    m=re.match(r'^([A-Z]\d\d(?:,[A-Z]\d\d)*): ',label or '')
    if m: return pid in m.group(1).split(',')
    if kind in('memory','control','arith'): return pid in grp.get('safety',[]) or pid in grp.get('control',[]) and kind=='control'
    if kind=='loop': return pid in grp.get('loops',grp.get('safety',[]))
    return True
class Job:
    pass
def _spawn(job,q,idx):
    try: res=R._worker(job+(None,))
    except BaseException as x: res={'entry':job[1],'error':'internal: %r'%x,'obls':[],'covers':{},'failures':[],'stats':{},'wall':0}
    q.put((idx,res))
def run_jobs(jobs,procs,deadline,early=None,memgb=6):
    """run verification jobs in forked processes, each under a memory limit; returns results in order"""
    ctx=multiprocessing.get_context('fork')
    q=ctx.Queue(); res=[None]*len(jobs); pend=list(range(len(jobs))); live={}; hurry=None
    while pend or live:
        while pend and len(live)<procs:
            i=pend.pop(0)
            p=ctx.Process(target=_spawn,args=(jobs[i],q,i),daemon=True); p.start(); live[i]=p
        try:
            i,r=q.get(timeout=1); res[i]=r
            p=live.pop(i,None)
            if p: p.join(5)
            if early and early(i,r) and hurry is None: hurry=time.time()+45
        except Exception: pass
        now=time.time()
        for i,p in list(live.items()):
            dead=not p.is_alive()
            if dead:
                try:
                    while True:
                        k,r=q.get(timeout=0.5); res[k]=r; live.pop(k,None)
                except Exception: pass
                if res[i] is None and i in live:
                    res[i]={'entry':jobs[i][1],'error':'verifier process died','obls':[],'covers':{},'failures':[],'stats':{},'wall':0}; live.pop(i)
        if now>deadline or (hurry and now>hurry):
            for i,p in list(live.items()):
                p.terminate(); p.join(2); 
                if p.is_alive(): p.kill()
                res[i]={'entry':jobs[i][1],'error':'stopped: '+('another contract already failed' if hurry and now>hurry else 'time budget'),'skipped':bool(hurry and now>hurry),'obls':[],'covers':{},'failures':[],'stats':{},'wall':0}
                live.pop(i)
            for i in pend:
                res[i]={'entry':jobs[i][1],'error':'stopped: not started','skipped':bool(hurry and now>hurry),'obls':[],'covers':{},'failures':[],'stats':{},'wall':0}
            pend=[]
    return res
# ------------------------------------------------------------------ native replay
def native_build(grp,entry,out,fuzz=True):
    flags=[f for f in R.BASE]+grp.get('flags',[])+grp.get('native_flags',[])
    srcs=[os.path.join(ROOT,grp.get('native',grp['src'])),os.path.join(ROOT,'contracts/vc_native.cpp')]+[s if s.startswith('/') else os.path.join(ROOT,s) for s in grp.get('native_src',[])]
    objs=[]
    ps=[]
    d=os.path.dirname(out)
    for k,s in enumerate(srcs):
        o='%s.%d.o'%(out,k); objs.append(o)
        ps.append(subprocess.Popen([R.CXX]+flags+['-O1','-g','-fno-omit-frame-pointer','-fsanitize=address,fuzzer-no-link','-fsanitize-address-use-after-scope','-DVC_NATIVE=1','-DVC_ENTRY='+entry,'-c',s,'-o',o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True))
    for p in ps:
        t,_=p.communicate()
        if p.returncode: return 'native build failed: '+t[-1500:]
    cmd=[R.CXX,'-o',out]+objs+['-Wl,--whole-archive',ASAN+'/libclang_rt.asan-x86_64.a',ASAN+'/libclang_rt.asan_cxx-x86_64.a','-Wl,--no-whole-archive','-Wl,--export-dynamic',
         ASAN+'/libclang_rt.asan-preinit-x86_64.a',ASAN+'/libclang_rt.fuzzer-x86_64.a','-lpthread','-ldl','-lm','-lrt']+grp.get('native_libs',[])
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return 'native link failed: '+r.stderr[-1500:]
    return None
ENVN={'ASAN_OPTIONS':'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:abort_on_error=1:symbolize=0:detect_container_overflow=1'}
def fail_kind(out,pid,grp):
    """does this native output show a violation owned by pid?"""
    m=re.search(r'VC-ASSERT-FAILED: (.*)',out)
    if m: return ('contract: '+m.group(1)) if owner(pid,grp,'contract',m.group(1)) else None
    m=re.search(r'ERROR: (?:AddressSanitizer|libFuzzer): (.*)',out)
    if m and not re.search(r'out-of-memory|allocation-size-too-big|out of memory|requested allocation size',m.group(1)):
        if 'timeout' in m.group(1): return 'does not terminate: '+m.group(1) if owner(pid,grp,'loop','') else None
        if 'deadly signal' in m.group(1) and 'terminate called' in out: return 'uncaught exception: '+m.group(1) if owner(pid,grp,'control','') else None
        return 'memory: '+m.group(1) if owner(pid,grp,'memory','') else None
    return None
def native_one(binary,inp,pid,grp,rec=None,timeout=20):
    env=dict(os.environ,**ENVN); env['VC_PROP']=pid
    if rec: env['VC_RECORD']=rec
    try: r=subprocess.run([binary,'-timeout=10',inp],capture_output=True,text=True,env=env,timeout=timeout,errors='replace',cwd=os.path.dirname(binary))
    except subprocess.TimeoutExpired: return None,''
    out=r.stderr+r.stdout
    return (fail_kind(out,pid,grp) if r.returncode else None),out
def script(trace):
    s='VCSCRIPT\n'
    for t in trace:
        if t[0]=='val': s+='val %s %d %d\n'%(t[1],t[2],t[3])
        elif t[0]=='region': s+='region %s %d %s\n'%(t[1],t[2],re.sub('(00)+$','',t[3]) if len(t[3])%2==0 else t[3])
    return s
def find_input(pid,grp,entry,fails,d,seconds,procs,seed,log):
    """returns dict(kind, script, output) or None"""
    b=os.path.join(d,'n_'+entry)
    err=native_build(grp,entry,b)
    if err: log(err); return None
    for f in fails:
        if f.get('trace'):
            inp=os.path.join(d,'in_'+entry); open(inp,'w').write(script(f['trace']))
            k,out=native_one(b,inp,pid,grp)
            if k: return {'how':"the solver's counterexample replayed against the real code",'kind':k,'input':script(f['trace']),'output':out[-3000:]}
            log('replay of solver model: '+(re.findall(r'VC-\S+.*',out) or ['no violation'])[0])
    # directed search with the same contract as oracle
    ps=[]; env=dict(os.environ,**ENVN); env['VC_PROP']=pid
    for i in range(procs):
        wd=os.path.join(d,'f_%s_%d'%(entry,i)); os.makedirs(wd+'/c',exist_ok=True)
        extra=['-use_value_profile=1'] if i%2 else []
        ps.append((wd,subprocess.Popen([b,'-seed=%d'%(seed*100+i+1),'-max_total_time=%d'%seconds,'-timeout=10','-rss_limit_mb=3000','-max_len=%d'%(256 if i%3 else 1024),'-len_control=%d'%(0 if i%2 else 100),'-artifact_prefix=%s/'%wd,'-verbosity=0','-print_final_stats=0']+extra+[wd+'/c'],
            stdout=open(wd+'/log','w'),stderr=subprocess.STDOUT,env=env,cwd=wd)))
    t0=time.time(); found=None
    restart=0
    while time.time()-t0<seconds+5 and found is None and ps:
        time.sleep(0.3)
        for wd,p in list(ps):
            if p.poll() is not None:
                ps.remove((wd,p))
                for a in os.listdir(wd):
                    if a.startswith(('crash-','timeout-')) and found is None:
                        rec=os.path.join(wd,'rec')
                        k,out=native_one(b,os.path.join(wd,a),pid,grp,rec=rec)
                        if k:
                            tr='VCSCRIPT\n'+(open(rec).read() if os.path.exists(rec) else '')
                            si=os.path.join(wd,'script'); open(si,'w').write(tr)
                            k2,out2=native_one(b,si,pid,grp)
                            if k2: found={'how':'failing input found by running the same contract on the real code','kind':k2,'input':tr,'output':out2[-3000:]}
                            else: found={'how':'failing input found by running the same contract on the real code (raw fuzzer bytes)','kind':k,'input':open(os.path.join(wd,a),'rb').read().hex(),'output':out[-3000:]}
    for wd,p in ps:
        p.kill(); p.wait()
    return found
# ------------------------------------------------------------------
def known_findings():
    p=os.path.join(ROOT,'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
def main(argv):
    pid=argv[0]; tier='thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER')=='thorough' else 'quick'
    verbose='-v' in argv
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); P=PROPS[pid]
    d=tempfile.mkdtemp(prefix='kiovc_')
    try: return _main(pid,P,tier,seed,t0,d,verbose)
    finally: shutil.rmtree(d,ignore_errors=True)
def _main(pid,P,tier,seed,t0,d,verbose):
    def log(*a): print('#',*a,flush=True)
    total=700 if tier=='quick' else 3600*2
    jobs=[]; meta=[]; undec=[]
    kf=[f for f in known_findings()['findings'] if f['property']==pid]
    kentries={f['entry'] for f in kf}
    for g in P['groups']:
        grp=GROUPS[g]
        ll=os.path.join(d,g+'.ll')
        rc,err=R.compile_group(grp,ll)
        if rc:
            undec.append((g,grp,'*','contract file does not compile against the current source: '+err[-1500:])); continue
        ents=entries_in(grp['src'])
        sel=P.get('entries',{}).get(g)
        for e,cov in ents.items():
            if sel and not any(re.fullmatch(x,e) for x in sel): continue
            if e.startswith('K_') and e not in kentries: continue
            o=dict(grp.get('opts',{})); o.update(grp.get('entry_opts',{}).get(e,{}))
            if grp.get('setup'): o['setup']=grp['setup']
            o['budget']=P.get('budget',grp.get('budget',600)) if tier=='quick' else 5400
            if tier=='thorough': o['cvc5']=True
            o['owned']=lambda kind,label,grp=grp: owner(pid,grp,kind,label)
            jobs.append((ll,e,o)); meta.append((g,grp,e,cov))
    def early(i,r):
        g,grp,e,cov=meta[i]
        if e.startswith('K_'): return False
        return any(owner(pid,grp,f['kind'],f['label']) for f in r.get('failures',[]))
    res=run_jobs(jobs,8,t0+total-60,early)
    viol=[]; nob=0; nok=0; how={}; funcs=set(); ext=set(); smt={'queries':0,'time':0.0,'by':{}}; covers=0; loops=0; known=[]; ginf=[]
    for (g,grp,e,cov),r in zip(meta,res):
        st=r.get('stats',{})
        smt['queries']+=st.get('queries',0); smt['time']+=st.get('time',0)
        for k,v in st.get('by',{}).items(): smt['by'][k]=smt['by'].get(k,0)+v
        fails=[f for f in r.get('failures',[]) if owner(pid,grp,f['kind'],f['label'])]
        if e.startswith('K_'):
            f0=[f for f in kf if f['entry']==e][0]
            if fails or r.get('error'): known.append(f0)
            else: log('known finding no longer reproduces:',f0['what'])
            continue
        mine=[o for o in r.get('obls',[]) if owner(pid,grp,o['kind'],o['label'])]
        for o in mine:
            nob+=o['n']; nok+=o['n']-len(o['failed'])
            for h in o['how']: how[h]=how.get(h,0)+o['n']
        funcs|=set(r.get('funcs',[])); ext|=set(r.get('externals',[])); loops+=len(r.get('loops',[]))
        ginf.append({'group':g,'entry':e,'obligations':sum(o['n'] for o in mine),'paths':r.get('ends'),'wall_s':round(r.get('wall',0),1)})
        if verbose: log(e,ginf[-1],r.get('error'),r.get('covers'))
        if fails: viol.append((g,grp,e,fails))
        elif r.get('error'):
            if not r.get('skipped'): undec.append((g,grp,e,r['error']))
        else:
            cov=sorted(set(cov)|set(r.get('covers',{})))
            miss=[c for c in cov if not r.get('covers',{}).get(c)]
            covers+=len(cov)-len(miss)
            if miss: undec.append((g,grp,e,'vacuity guard not reachable: '+', '.join(miss)))
            elif not any(o['n'] for o in r.get('obls',[])): undec.append((g,grp,e,'no obligation was generated'))
    nv=0; out=[]
    if not viol and not undec and nob==0: undec.append(('-',{}, '-','no obligation at all'))
    if viol or undec:
        rdir=os.path.join(ROOT,'replays'); os.makedirs(rdir,exist_ok=True)
        viol.sort(key=lambda v: 0 if any(f.get('trace') for f in v[3]) else 1)
        left=lambda: 860-(time.time()-t0) if tier=='quick' else 3600
        done=False
        cand=[(g,grp,e,fails,None) for g,grp,e,fails in viol]+[(g,grp,e,[],err) for g,grp,e,err in undec]
        conf=[]
        for n,(g,grp,e,fails,err) in enumerate(cand):
            for f in fails[:3]: log('obligation not discharged: %s [%s] %s at %s (%s)'%(e,f['kind'],f['label'],f['where'],f['res']))
            if err: log('obligation not discharged:',e,err[:600])
        rounds=[(20,8)] if len(cand)>1 else []
        rounds.append((60,8))
        for secs,procs in rounds:
            for n,(g,grp,e,fails,err) in enumerate(cand):
                if conf or e in('*','-') or grp.get('native_off'): continue
                s=min(secs,left()-30)
                if s<5: break
                try: fi=find_input(pid,grp,e,fails,d,int(s),procs,seed,log)
                except Exception as x: log('replay machinery: %r'%x); fi=None
                if fi: conf.append((g,e,fails,err,fi))
            if conf: break
        name=os.path.join(rdir,'%s.json'%pid)
        first=conf[0] if conf else cand[0]
        data={'property':pid,'entry':first[1] if conf else first[2],'failed_obligations':[{k:f[k] for k in('kind','label','where','res','cond','trace','stack')} for c in cand for f in c[3][:5]],
              'undischarged':[{'entry':c[2],'error':c[4]} for c in cand if c[4]]}
        if conf: data.update(conf[0][4])
        json.dump(data,open(name,'w'),indent=1,default=str)
        nv=len(cand)
        print('VIOLATION property=%s replay=%s%s'%(pid,name,'' if conf else ' no-failing-input-found'),flush=True)
    for f in known: print('KNOWN-FINDING: property=%s %s'%(pid,f['what']),flush=True)
    grps=[GROUPS[g] for g in P['groups']]
    ev={'property':pid,'tier':tier,'seed':seed,'level':P.get('level','proof'),
        'coverage':{'obligations':nob,'discharged':nok,'checker_cmd':'python3-vt check.py %s (kiovc: VC generation over LLVM IR of the real sources; z3 %s, cvc5 1.1.2)'%(pid,__import__('z3').get_version_string()),
          'trusted_base':['clang++-20 front end and -O1 scalar passes (the verified text is the LLVM IR it emits from /repo)','kiovc VC generator (/verif/kiovc)','z3','cvc5','libstdc++ headers are verified through, not trusted']+P.get('trusted',[]),
          'functions_under_contract':sum([g.get('funcs',[]) for g in grps],[])+P.get('funcs',[]),
          'function_bodies_executed_by_the_verifier':len(funcs),'repo_functions':sorted(f for f in funcs if 'kio' in f or 'bitcask' in f)[:200],
          'discharged_by':how,'solver_queries':smt['queries'],'solver_time_s':round(smt['time'],1),'queries_by_backend':smt['by'],
          'vacuity_guards_reached':covers,'loops_with_inferred_invariants':loops,'entries':ginf,
          'assumed_contracts_used':sorted(x for x in ext if not x.startswith(('vc_','llvm.')))},
        'assumptions':sum([g.get('assume',[]) for g in grps],[])+P.get('assume',[])+GENERIC_ASSUMPTIONS,
        'wall_s':round(time.time()-t0,1),'violations':nv}
    if P.get('level')=='other' or P.get('bounded'): ev['coverage']['explanation']=P.get('explanation','')
    os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    json.dump(ev,open(os.path.join(ROOT,'evidence',pid+'.json'),'w'),indent=1)
    log('%s: %d obligations, %d discharged, %d entries, %.1fs'%(pid,nob,nok,len(meta),time.time()-t0))
    return 1 if nv else 0
GENERIC_ASSUMPTIONS=['operator new returns a fresh disjoint object; it throws bad_alloc only for sizes of 2^46 bytes or more','objects lie in the 47-bit user address space; distinct live objects have distinct addresses',
 'machine integers are modelled exactly (bit-vectors, with wrap-around); undefined behaviour that clang already exploited before emitting IR is outside the argument']
