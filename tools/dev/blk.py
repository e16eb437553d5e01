"""blocks of the reference never visited by any path of any analysed function"""
import sys; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
import paths
p=Program('/tmp/ref.json'); pol=Policy(p,p)
seen={}
o=Paths._step
def st(self,s,work,resume=False):
    seen.setdefault(s.ctx.fn.name,set()).add(s.bb)
    return o(self,s,work,resume)
Paths._step=st
os_=Paths._stmts
def ss(self,s,b):
    seen.setdefault(s.ctx.fn.name,set()).add(s.bb); return os_(self,s,b)
Paths._stmts=ss
for n,f in p.fns.items():
    if '{closure' in n: continue
    try: Paths(p,pol).run(n)
    except Exception as e: print('ERR',n,e)
tot=0
for n,f in sorted(p.fns.items()):
    # reachable blocks ignoring cleanup
    live=set();w=[0]
    while w:
        b=w.pop()
        if b in live: continue
        live.add(b)
        w+=f.succ[b]
    miss=[b for b in sorted(live-seen.get(n,set())) if f.bbs[b]['t'][0] not in('unreachable','goto','drop') or f.bbs[b]['s']]
    if miss:
        tot+=len(miss)
        print(n,len(miss),'/',len(live),[ (f.bbs[b]['t'][0],f.bbs[b]['sp'] if 'sp' in f.bbs[b] else '') for b in miss][:6])
print(tot)
