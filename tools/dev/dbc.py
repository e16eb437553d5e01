"""dbc.py FN INLINE,INLINE : compare with functions inlined, /tmp/cur.json"""
import sys; sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/tmp')
import contract
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); t,_,_=contract.aliases(ref,open('/tmp/cur.json').read()); cur=contract.load_program(t)
C=contract.Conformance(ref,cur)
more=frozenset(x for x in (sys.argv[2].split(',') if len(sys.argv)>2 else []) if x)
nm=[n for n in ref.fns if sys.argv[1] in n and '{closure' not in n][0]
b,x,y=C.direct(nm,nm,more)
print(nm,len(b),len(x),len(y))
pol=lambda g: C.pol(g) or g.name in more
x,y=canon(Paths(ref,pol).run(nm)),canon(Paths(cur,pol).run(nm))
for m in compare(x,y,5): print('-',m.text()[:1200])
if 'rows' in sys.argv:
    for r in render(x): print('REF',r[:900])
    for r in render(y): print('CUR',r[:900])
if 'mu' in sys.argv:
    for p,nme in ((ref,'ref'),(cur,'cur')):
        for o in Paths(p,pol).run(nm):
            print(nme,o.start,o.end,[(k,show(v)[:80]) for k,v in o.mu])
