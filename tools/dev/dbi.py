"""dbi.py FILE EDIT FN [inv] [width] : mismatches of FN between reference and edited tree"""
import sys; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/tmp')
import os; os.environ['VERIF_BUILD']='/tmp/vb'
import mt,shutil,tempfile,re
from checker import *
from relate import *
from paths import *
f,ed,fnr=sys.argv[1:4]; inv='inv' in sys.argv; show_rows='rows' in sys.argv
job=[j for j in mt.parse(f) if j[0]==ed][0]
d=tempfile.mkdtemp(prefix='mt')
shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d); shutil.copy('/repo/Cargo.lock',d)
for ff,a,b in job[2]:
    p=d+'/'+ff; s=open(p).read(); s,n=mt.edit(s,a,b); assert n==1; open(p,'w').write(s)
import extract
js=extract.extract(d,'/tmp/vt0'); shutil.rmtree(d)
open('/tmp/cur.json','w').write(js)
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
for nm in ref.fns:
    if re.search(fnr,nm) and '{closure' not in nm:
        a=canon(Paths(ref,pol,inv=inv).run(nm)); b=canon(Paths(cur,pol,inv=inv).run(nm))
        print('=====',nm,len(a),len(b))
        if show_rows:
            for x in render(a): print('REF',x[:700])
            for x in render(b): print('CUR',x[:700])
        for m in compare(a,b,5): print('-',m.text()[:1500]); print('   ref:',render([m.ref])[0][:1200] if m.ref else None)
        if 'raw' in sys.argv:
            for r in b:
                for k,v in r.mu.items():
                    if 'not' in repr(v)[:6]: print('RAW',v)
