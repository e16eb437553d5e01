import sys; sys.path.insert(0,'/verif/engine')
from checker import *; from paths import *; from relate import *
from contract import callnames
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
rn=cn=sys.argv[1]
sa=True
a=canon(Paths(ref,pol).run(rn)); b=canon(Paths(cur,pol).run(cn,sa))
small = {n for pr, rows in ((ref, a), (cur, b)) for n in callnames(rows, pr) if n not in (rn, cn) and len(pr.fns[n].bbs) <= 12 and not pr.fns[n].j.get('derived')}
print(small)
p2=lambda f: pol(f) or f.name in small
a=canon(Paths(ref,p2).run(rn)); b=canon(Paths(cur,p2).run(cn,sa))
for x in render(a)[:int(sys.argv[2])]: print('REF',x[:3500])
for x in render(b)[:int(sys.argv[2])]: print('CUR',x[:3500])
print(len(compare(a,b)))
