import sys; sys.path.insert(0,'/verif/engine')
from checker import *; from paths import *; from relate import *
ref=load(sys.argv[1]); 
print([n for n in cell_writers(ref) if 'consume' in n.lower()])
pol=Policy(ref,ref)
for r in canon(Paths(ref,pol).run('LexerATNSimulator::evaluate_predicate')):
    for e in r.ev: print(e[1],[show(x) for x in e[4]])
    print()
import paths
o=paths.Paths.cells
def cells(self,name,r,f,args,tys):
    x=o(self,name,r,f,args,tys)
    if 'consume' in name: print(name,r,f and f.name,[show(a) for a in args],tys,[show(y) for y in x], 'LexerATNSimulator' in cell_types(self.prog), ref.adts.keys() if 0 else '')
    return x
paths.Paths.cells=cells
Paths(ref,pol).run('LexerATNSimulator::evaluate_predicate')
