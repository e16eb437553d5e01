import sys; sys.path.insert(0,'/verif/engine')
import time
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/ref.json')
pol=Policy(ref,cur); n=bad=0
for nm in sorted(ref.fns):
    fn=ref.fns[nm]
    if '{closure' in nm or fn.j.get('derived') or 'Debug' in nm: continue
    t=time.time()
    try:
        r0=Paths(ref,pol).run(nm)
        if not any(o.end.startswith('L') for o in r0): continue
        n+=1
        t=time.time()
        a=canon(Paths(ref,pol,inv=True).run(nm)); b=canon(Paths(cur,pol,inv=True).run(nm))
        m=compare(a,b)
        if m: bad+=1; print(nm,m[0].text()[:300])
    except Exception as e: print(nm,'ERR',repr(e)[:200])
    if time.time()-t>5: print(nm,'slow',time.time()-t)
print(n,bad)
