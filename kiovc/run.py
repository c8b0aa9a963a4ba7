"""Driver: compile a contract file against /repo's current sources, verify its harnesses (in parallel), collect results."""
import os, sys, subprocess, tempfile, time, json, multiprocessing, traceback, shutil, re
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get('KIO_REPO','/repo')
CXX='/usr/bin/clang++-20'
BASE=['-std=gnu++23','-D_GNU_SOURCE','-DNDEBUG','-I'+REPO,'-I'+ROOT+'/contracts','-fno-access-control','-w','-gline-tables-only']
IRFLAGS=['-O1','-fno-vectorize','-fno-slp-vectorize','-fno-unroll-loops','-fno-jump-tables','-D_GLIBCXX_EXTERN_TEMPLATE=0','-DVC_VERIFY=1','-fno-discard-value-names','-S','-emit-llvm',
  '-Xclang','-no-opaque-pointers' ][:-2]
PIPE_POST='default<O1>'
def compile_ir(src,out,flags=(),raw=False):
    cmd=[CXX]+BASE+list(flags)+IRFLAGS+(['-Xclang','-disable-llvm-passes'] if raw else [])+[src,'-o',out]
    r=subprocess.run(cmd,capture_output=True,text=True)
    return r.returncode, r.stderr[-4000:]
def compile_group(grp,out):
    """compile the contract file (which includes the real sources); functions matching grp['outofline'] stay callable units"""
    ool=grp.get('outofline',[])
    rc,err=compile_ir(os.path.join(ROOT,grp['src']),out,grp.get('flags',[]),raw=bool(ool) or grp.get('raw',False))
    if rc or not ool: return rc,err
    from . import ir
    m=ir.Module(out)
    rx=[re.compile(x) for x in ool]
    for n in m.function_names():
        if any(r.search(n) for r in rx): m.keep_out_of_line(n)
    if grp.get('passes','default<O1>'): m.run_passes(grp.get('passes','default<O1>'))
    m.dump(out)
    return 0,''
def _worker(args):
    irfile,entry,opts,contracts=args
    import z3
    from . import ir, engine, smt
    t=time.time()
    res={'entry':entry,'error':None}
    try:
        sys.setrecursionlimit(20000)
        m=ir.Module(irfile)
        o=dict(opts)
        if o.get('setup'):
            import importlib
            mod=importlib.import_module(o['setup']); mod.setup(o)
        e=engine.Engine(m,o,log=(lambda *a: print('   ',entry,*a,flush=True)) if opts.get('verbose') else None)
        try: e.run_entry(entry)
        except engine.Unsupported as x: res['error']='unsupported: %s at %s'%(x,'')
        except engine.Budget as x: res['error']='budget: %s'%x
        res['obls']=[{'kind':ob.kind,'label':ob.label,'where':ob.where,'n':ob.count,'failed':ob.failed,'time':ob.time,'how':sorted(ob.how)} for ob in e.obls.values()]
        res['covers']=e.covers; res['loops']=e.loopinfo; res['funcs']=sorted(e.funcs_seen); res['externals']=sorted(e.externals)
        res['ends']=getattr(e,'nend',0); res['instrs']=e.ninstr; res['states']=e.nstates
        res['failures']=e.failures
    except Exception as x:
        res['error']='internal: '+traceback.format_exc()[-3000:]
    from . import smt
    res['stats']=dict(smt.STATS); res['wall']=time.time()-t
    return res
def verify(jobs,procs=8):
    """jobs: list of (irfile,entry,opts)"""
    if len(jobs)==1 or procs==1: return [_worker(j+(None,)) for j in jobs]
    ctx=multiprocessing.get_context('fork')
    with ctx.Pool(min(procs,len(jobs)),maxtasksperchild=1) as p:
        return p.map(_worker,[j+(None,) for j in jobs],chunksize=1)
if __name__=='__main__':
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('group'); ap.add_argument('entries',nargs='*'); ap.add_argument('-v',action='store_true'); ap.add_argument('-vv',action='store_true'); ap.add_argument('--ir'); ap.add_argument('--bmc',type=int,default=0); ap.add_argument('-j',type=int,default=8)
    ap.add_argument('--budget',type=int,default=600); ap.add_argument('--maxfail',type=int,default=6)
    a=ap.parse_args()
    sys.path.insert(0,ROOT)
    from kiovc import run as R, ir, registry, check
    d=tempfile.mkdtemp(); out=a.ir or d+'/x.ll'
    grp=registry.GROUPS[a.group]
    t=time.time(); rc,err=R.compile_group(grp,out)
    if rc: print(err); sys.exit(2)
    print('compiled %.1fs'%(time.time()-t))
    names=a.entries or list(check.entries_in(grp['src']))
    names=[n for k in names for n in ([k] if k.isidentifier() else [x for x in check.entries_in(grp['src']) if re.fullmatch(k,x)])]
    jobs=[]
    for n in names:
        o=dict(grp.get('opts',{})); o.update(grp.get('entry_opts',{}).get(n,{})); o.update({'verbose':a.v,'bmc':a.bmc,'budget':a.budget,'setup':grp.get('setup'),'maxfail':a.maxfail}); jobs.append((out,n,o))
    for r in check.run_jobs(jobs,a.j,time.time()+a.budget+60):
        nob=sum(o['n'] for o in r.get('obls',[])); nf=sum(len(o['failed']) for o in r.get('obls',[]))
        print(f"{r['entry']}: obligations={nob} failed={nf} ends={r.get('ends')} states={r.get('states')} instrs={r.get('instrs')} wall={r['wall']:.1f}s queries={r['stats'].get('queries')} smt={r['stats'].get('time',0):.1f}s {r['stats'].get('by')} error={r['error']}")
        print('   covers',r.get('covers'))
        for l in r.get('loops',[]): print('   loop',l['where'],len(l['inv']),'inv','backedges',l['backedges'], l['inv'] if a.vv else '')
        for o in r.get('obls',[]):
            for f in o['failed'][:3]: print('   FAIL',f['kind'],f['label'],f['where'],f['res'],f['cond'][:400],'\n      trace',str(f['trace'])[:600],'\n     ',f['stack'])
    shutil.rmtree(d)
