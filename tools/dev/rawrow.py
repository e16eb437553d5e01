import sys; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/tmp')
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
fn,pat=sys.argv[1:3]
inv='inv' in sys.argv
nm=[n for n in cur.fns if fn in n and '{closure' not in n][0]
seen=set()
for o in Paths(ref if 'ref' in sys.argv else cur,pol,inv=inv).run(nm):
    for c in o.val.items():
        if pat in show(c[0]) and repr(c[0]) not in seen:
            seen.add(repr(c[0])); print(show(c[0]),'\n    ',repr(c[0])[:600])
