import sys; sys.path.insert(0,'/verif/engine')
from relate import *; from policy import *
p=Program('/tmp/ref.json'); pol=Policy(p,p)
rows=canon(Paths(p,pol).run(sys.argv[1]))
for l in render(rows): print(l[:int(sys.argv[2]) if len(sys.argv)>2 else 600])
for m in compare(rows,rows): print(m.text()[:300]); print(render([m.ref]), m.ref.val)
