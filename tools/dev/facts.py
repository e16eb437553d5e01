import sys; sys.path.insert(0,'/verif/engine')
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
nm=[n for n in cur.fns if n.endswith(sys.argv[1])][0]
p=Paths(cur,pol); o=p.run(nm)
for l,f in p.facts.items(): print(l,[(show(a),q) for a,q in f.items()])
for x in o:
    print(x.start,x.end,[(show(a),q) for a,q in x.val.items() if 'a1' in show(a)],[ (e[0],show(e[1]) if e[0]=='w' else [show(y) for y in e[1]]) for e in x.log])
