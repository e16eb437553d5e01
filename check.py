#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current source.

Exit 0: held on everything analysed.  Exit 1: a VIOLATION line was printed.
"""
import sys, os, time, json, fnmatch
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'spec')]
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')


def known(pid):
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid):
            key, text = l[len('finding: property=%s ' % pid):].split(' | ', 1)
            out.append((key.strip(), text.strip()))
    return out


def decide(pid, tier, text=None, ref=None):
    """-> (violations [(key, text)], coverage)"""
    import props, contract, rules
    p = next(x for x in props.PROPS if x['id'] == pid)
    ref = ref or contract.load_reference()
    text, ren, fren = contract.aliases(ref, text)
    cur = contract.load_program(text)
    conf = contract.Conformance(ref, cur)
    names, empty = contract.members(ref, p['fns'])
    vio = [('anchor %s' % g, 'the reviewed reference has no function matching %s' % g) for g in empty]
    if tier == 'thorough':
        names = conf.reachable(names)
    pairs, lost = conf.targets(names)
    for n in lost:
        vio.append(('lost %s' % n, '%s: the operation %s no longer exists and nothing stands in for it' % (ref.fns[n].j['span'], n)))
    ra = rb = 0
    for rn, cn in pairs:
        bad, a, b = conf.check(rn, cn)
        ra += a
        rb += b
        if bad:
            vio.append(('contract %s' % rn, bad[0]))
    cov = dict(functions=len(pairs), contract_paths=ra, current_paths=rb, renamed=len(ren) + len(fren), rules={})
    for r in p['rules']:
        bad, c = getattr(rules, r)(ref, cur)
        cov['rules'][r] = c
        vio += bad
    return vio, cov, [c for _, c in pairs]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import extract, props
    if pid == 'setup':
        print(extract.driver())
        return
    try:
        text = extract.extract(REPO)
    except extract.ExtractError as e:
        print('cannot analyse the tree: %s' % e)
        sys.exit(2)
    vio, cov, fns = decide(pid, tier, text)
    listed = known(pid)
    new, old = [], []
    for k, t in vio:
        hit = [x for x in listed if x[0] == k]
        (old if hit else new).append((k, t) if not hit else hit[0])
    for k, t in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, t)) if (k, t) in old else None
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    p = next(x for x in props.PROPS if x['id'] == pid)
    nob = cov['functions'] + sum(c.get('obligations', 0) for c in cov['rules'].values())
    doc = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
               coverage=dict(explanation='Static analysis of the type-checked MIR of /repo\'s current source. Rule: every control-flow path of every listed function must have the conditions, ordered effects, loop state and result its reviewed contract gives for those conditions'
                             + ('; plus the rules ' + ', '.join(p['rules']) if p['rules'] else '') + '.',
                             functions_analysed=cov['functions'], paths_compared=cov['current_paths'], contract_paths=cov['contract_paths'],
                             obligations=nob, rules=cov['rules'], functions=fns),
               wall_s=round(time.time() - T0, 2), violations=len(new), assumptions=props.ASSUMPTIONS)
    json.dump(doc, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d paths against %d contract paths, %d obligations, %d violation(s), %.1f s'
          % (pid, cov['functions'], cov['current_paths'], cov['contract_paths'], nob, len(new), time.time() - T0))
    if new:
        rp = os.path.join(ev, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, t in new:
                f.write('%s\n    %s\n' % (k, t))
        for k, t in new[:8]:
            print('  %s' % t[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)


if __name__ == '__main__':
    main()
