"""native_smoke.py GROUP [SECONDS] [ENTRY-REGEX]: run the contracts natively on the current sources (sanity check of the contract text)."""
import sys,os,re,tempfile,shutil
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kiovc import check,registry
g=sys.argv[1]; secs=int(sys.argv[2]) if len(sys.argv)>2 else 5; rx=sys.argv[3] if len(sys.argv)>3 else '.*'
grp=registry.GROUPS[g]
check.owner=lambda *a: True
bad=0
for e in check.entries_in(grp['src']):
    if not re.fullmatch(rx,e): continue
    d=tempfile.mkdtemp(prefix='kiovc_')
    r=check.find_input('ALL',grp,e,[],d,secs,4,1,print)
    if 'n_'+e not in os.listdir(d): bad+=1; print(e,'BUILD FAILED'); continue
    print(e,'ok' if r is None else {k:(v[-1500:] if k=='output' else v[:1500]) for k,v in r.items()}); bad+=r is not None
    shutil.rmtree(d)
sys.exit(bad)
