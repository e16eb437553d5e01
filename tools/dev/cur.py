"""cur.py FILE EDITNAME FN regex width : rows of FN in the edited tree"""
import sys; sys.argv_=sys.argv
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/tmp')
import os; os.environ['VERIF_BUILD']='/tmp/vb'
import mt,shutil,tempfile,re,extract
from relate import *; from policy import *
f,n,fn,rg,w=sys.argv[1:6]
name,kind,eds=[j for j in mt.parse(f) if j[0]==n][0]
d=tempfile.mkdtemp(prefix='mt')
shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d); shutil.copy('/repo/Cargo.lock',d)
for ff,a,b in eds:
    p=d+'/'+ff; s=open(p).read(); assert s.count(a)==1,(a); open(p,'w').write(s.replace(a,b))
js=extract.extract(d,'/tmp/vt0'); shutil.rmtree(d)
open('/tmp/cur.json','w').write(js)
r=Program('/tmp/ref.json'); p=Program('/tmp/cur.json'); pol=Policy(r,p)
if len(sys.argv)>6: p=r
for l in render(canon(Paths(p,pol).run(fn))):
    if re.search(rg,l): print(l[:int(w)])
