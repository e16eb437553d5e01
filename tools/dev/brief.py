"""brief.py FN SUBST(long=short ...) PATFILTER.. : effects part of rows, ref & cur"""
import sys; sys.path.insert(0,'/verif/engine')
from checker import *
from relate import *
from paths import *
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
fn=sys.argv[1]; sub=[a[2:].split('=>') for a in sys.argv[2:] if a.startswith('-s')]; pats=[a for a in sys.argv[2:] if not a.startswith('-')]
full='-full' in sys.argv
nm=[n for n in ref.fns if fn in n and '{closure' not in n][0]
for P,l in((ref,'R'),(cur,'C')):
    for x in render(canon(Paths(P,pol,inv='-inv' in sys.argv).run(nm))):
        for a,b in sub: x=x.replace(a,b)
        if all((q[1:] not in x) if q[0]=='^' else q in x for q in pats):
            print(l, x if full else x[x.index(' | ',10):])
