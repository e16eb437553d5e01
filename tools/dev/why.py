"""why.py FN : on /tmp/cur.json (left by dbi), which comparison mode accepts"""
import sys; sys.path.insert(0,'/verif/engine')
from checker import *; from paths import *; from relate import *
import contract
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json'); pol=Policy(ref,cur)
nm=sys.argv[1]
n=[0]
oc=contract.compare
def cmp(a,b,*k):
    r=oc(a,b,*k); n[0]+=1; print('compare',n[0],len(a),len(b),'->',len(r)); return r
contract.compare=cmp
f=ref.fns[nm]
sa=f.nargs>0 and f.locals[1][1]=='self'
print(len(contract.conform(ref,cur,pol,nm,nm,sa)[0]))
