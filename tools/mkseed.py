#!/usr/bin/env python3
"""mkseed.py SPEC.py...: build seeded/<id> from a spec (edits, demo source, notes) and confirm the demo in scratch copies.
SPEC defines ID, PROPERTY, EDITS=[(file,old,new)], DEMO (C++ text), NEEDS, BREAKS, optional FLAGS, FILES={name:text}, SAN."""
import sys,os,subprocess,tempfile,shutil,json
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(spec,only_check=False):
    ns={'__file__':os.path.abspath(spec)}; exec(open(spec).read(),ns)
    d=os.path.join(ROOT,'seeded',ns['ID']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    s=tempfile.mkdtemp(prefix='seed_',dir='/tmp')
    try:
        for n in('a','b'):
            os.makedirs(s+'/'+n)
            for k in('kio','bitcask'): shutil.copytree('/repo/'+k,s+'/'+n+'/'+k)
        for f,o,w in ns['EDITS']:
            p=s+'/b/'+f; t=open(p).read()
            assert t.count(o)==1,(f,o,t.count(o))
            open(p,'w').write(t.replace(o,w))
        r=subprocess.run(['diff','-ruN','a','b'],cwd=s,capture_output=True,text=True)
        lines=[]
        for l in r.stdout.splitlines():
            if l.startswith('diff -ruN'): l='diff --git '+' '.join(l.split()[-2:])
            if l.startswith(('--- ','+++ ')): l=l.split('\t')[0]
            lines.append(l)
        open(d+'/patch.diff','w').write('\n'.join(lines)+'\n')
        open(d+'/demo.cpp','w').write(ns['DEMO'])
        for n,t in ns.get('FILES',{}).items():
            os.makedirs(os.path.dirname(d+'/'+n),exist_ok=True)
            open(d+'/'+n,'w').write(open(ROOT+'/'+t[1:]).read() if t.startswith('@') else t)
        cmd=ns.get('CXX','g++')+' -std=c++23 -w -g -O1 -D_GNU_SOURCE -fno-access-control '+ns.get('SAN','-fsanitize=address,undefined -fno-sanitize-recover=undefined')+' -I. -I"$here" -I"$here/shim" '+ns.get('FLAGS','')+' "$here/demo.cpp" -o "$t/demo" -lpthread '+ns.get('LIBS','')
        open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: the property holds on this tree\nhere=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d) || exit 2\ntrap \'rm -rf "$t"\' EXIT\n'+cmd+' || exit 3\nASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo" "$t"\n')
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
        res=[]
        for n in('a','b'):
            r=subprocess.run(['bash',d+'/demo.sh'],cwd=s+'/'+n,capture_output=True,text=True); res.append(r.returncode)
            if n=='a' and r.returncode or r.returncode==3: print(r.stdout[-1500:],r.stderr[-3000:])
        print(ns['ID'],'unchanged',res[0],'patched',res[1],'OK' if res[0]==0 and res[1] not in(0,3) else 'BAD')
        g=subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff'],capture_output=True,text=True)
        if g.returncode: print('apply:',g.stderr)
    finally: shutil.rmtree(s)
for a in sys.argv[1:]: run(a)
