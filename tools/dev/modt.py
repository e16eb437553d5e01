import sys,time; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
import mods
p=Program(sys.argv[2] if len(sys.argv)>2 else '/tmp/ref.json')
t=time.time(); m=mods.mods(p); print(time.time()-t)
eff=effectful(p)
for n in sorted(p.fns):
    if len(sys.argv)>1 and not re.search(sys.argv[1],n): continue
    x=m[n]
    print(n, {k:sorted('.'.join(q) for q in v) for k,v in x.p.items()}, 'OTHER' if x.other else '', 'eff' if n in eff else '', sorted(x.dyn)[:4])
