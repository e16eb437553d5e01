import sys; sys.path.insert(0,'/verif/engine')
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
fn=sys.argv[1]; pat=sys.argv[2]
nm=[n for n in ref.fns if fn in n and '{closure' not in n][0]
for P,l in((ref,'R'),(cur,'C')):
    seen=set()
    for r in canon(Paths(P,pol).run(nm)):
        for a in r.val:
            if pat in show(a) and repr(a) not in seen:
                seen.add(repr(a)); print(l,repr(a)[:700])
