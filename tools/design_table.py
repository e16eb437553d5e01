"""prints the per-property table of DESIGN.md from spec/props.py and seeded/"""
import sys, os, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/spec', H + '/engine']
import props, contract
ref = contract.load_reference()
print('| Property | What is analysed | Functions (quick) | Extra rules | Planted bugs |')
print('|---|---|---|---|---|')
seeds = {}
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append(os.path.basename(os.path.dirname(m)))
for p in props.PROPS:
    n, _ = contract.members(ref, p['fns'])
    print('| %s %s | %s | %d | %s | %s |' % (p['id'], p['title'], '; '.join('%s (`%s`)' % (a, b) for a, b in p['mech']), len(n),
          ', '.join(p['rules']) or '–', ', '.join(seeds.get(p['id'], [])) or '–'))
