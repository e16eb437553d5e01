from relate import *
from policy import *
import json, core
from contract import conform
_c={}
def load(p):
    if p not in _c: _c[p]=Program(p)
    return _c[p]
def run_all(refp, curjs):
    """every function of the reference, compared as check.py does it"""
    import contract
    ref = load(refp)
    text, ren, fren = contract.aliases(ref, curjs)
    cur = contract.load_program(text)
    conf = contract.Conformance(ref, cur)
    names = {n for n, f in ref.fns.items() if not contract.skip(n, f) and not f.j.get('derived')}
    pairs, lost = conf.targets(names)
    out = ['%s MISSING' % n.replace(' ', '_') for n in lost]
    for rn, cn in pairs:
        bad, a, b = conf.check(rn, cn)
        out += ['%s %s' % (rn.replace(' ', '_'), m) for m in bad[:1]]
    return out


def run_rules(refp, curjs):
    import rules, tempfile, os
    ref = load(refp)
    f = tempfile.NamedTemporaryFile('w', delete=False, suffix='.json')
    f.write(curjs)
    f.close()
    cur = Program(f.name)
    os.unlink(f.name)
    return ['RULE:%s %s: %s' % (r, k, t) for r in ('lock_protocol', 'send_sync', 'hash_eq', 'determinism', 'unsafe_forms') for k, t in getattr(rules, r)(ref, cur)[0]]
