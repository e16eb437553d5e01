import sys; sys.path.insert(0,'/verif/engine')
from checker import *; from paths import *; import relate; from relate import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
nm=[n for n in ref.fns if sys.argv[1] in n and '{closure' not in n][int(sys.argv[2]) if len(sys.argv)>2 else 0]; print(nm)
a=canon(Paths(ref,pol).run(nm)); b=canon(Paths(cur,pol).run(nm))
oc=relate.check_map
def cm(ref,cur,lmap,limit,spec=None):
    r=oc(ref,cur,lmap,limit,spec); print('CM',lmap,spec is not None and {k:{x[:40]:show(v)[:60] for x,v in d.items()} for k,d in spec.items()},len(r), r[0].text()[:300] if r and spec is not None else ''); return r
relate.check_map=cm
rl = sorted({r.start for r in a} - {'E'}); ql = sorted({r.start for r in b} - {'E'})
print(relate.paired(a,b,rl,ql))
for q in b: print(q.start,q.end,q.out.log)
