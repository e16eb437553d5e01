import sys; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
p=Program('/tmp/ref.json'); pol=Policy(p,p)
o=Paths.load
def ld(self,s,pp,isref=False):
    r=o(self,s,pp,isref)
    if r[0]=='ver' and sys.argv[2] in core.show(r): 
        print('LOAD',core.show(r)); 
        for e in s.log: print('     ',e[0],[core.show(x) for x in (e[1] if e[0]=='e' else [e[1]])])
        sys.exit()
    return r
Paths.load=ld
Paths(p,pol).run(sys.argv[1])
