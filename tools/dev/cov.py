import sys,re,json
sys.path[:0]=['/verif/engine','/verif/spec']
from core import Program
import props
P=Program('/tmp/ref.json')
def rx(g): return re.compile('.*'.join(re.escape(x) for x in g.split('*'))+r'\Z')
cov={}
for p in props.PROPS:
    for g in p['fns']:
        m=[n for n in P.fns if rx(g).match(n) and '{closure' not in n]
        if not m: print('NOMATCH',p['id'],g)
        for n in m: cov.setdefault(n,set()).add(p['id'])
un=[n for n in sorted(P.fns) if n not in cov and '{closure' not in n and 'Debug' not in n]
print(len(cov),len(un))
for n in un: print('  ',n, 'derived' if P.fns[n].j.get('derived') else '')
