"""mm.py FN -sA=>B.. [-inv] [N]: mismatches (cur.json vs ref) with substitutions, cut"""
import sys; sys.path.insert(0,'/verif/engine')
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
fn=sys.argv[1]; sub=[a[2:].split('=>') for a in sys.argv[2:] if a.startswith('-s')]
N=int(([a for a in sys.argv[2:] if a.isdigit()] or [2])[0])
nm=[n for n in ref.fns if fn in n and '{closure' not in n][0]
inv='-inv' in sys.argv
a=canon(Paths(ref,pol,inv=inv).run(nm)); b=canon(Paths(cur,pol,inv=inv).run(nm))
def S(x):
    for p,q in sub: x=x.replace(p,q)
    return x
print(len(a),len(b))
for m in compare(a,b,N): print('-',S(m.text())[:1800]); print('   ref:',S(render([m.ref])[0])[:1800] if m.ref else None)
