import sys; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
import paths
p=Program('/tmp/ref.json'); pol=Policy(p,p)
hits={}
orig=paths.Paths.rvalue
def rv(self,s,r,dty=''):
    x=orig(self,s,r,dty)
    if r[0] in('ref','raw') and (len(r)<3 or r[2]) and len(r[1])>1 and x[0] not in PLACEY and x[0]!='unk':
        hits.setdefault((s.ctx.fn.name,str(r[1])),show(x)[:120])
    return x
paths.Paths.rvalue=rv
ow=paths.Paths.write
w={}
def wr(self,s,path,v,sp,fn):
    if path[0] not in PLACEY: w.setdefault((fn.name,show(path)[:100]),show(v)[:80])
    return ow(self,s,path,v,sp,fn)
paths.Paths.write=wr
for n in sorted(p.fns):
    if '{closure' in n: continue
    try: Paths(p,pol).run(n)
    except Exception as e: print(n,repr(e)[:100])
for k,v in hits.items(): print('REF',k,v)
for k,v in w.items(): print('WR',k,v)
