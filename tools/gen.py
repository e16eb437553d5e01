"""Write properties.jsonl and MANIFEST.json from spec/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'spec'))
import props

def prop(p):
    return dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], state=p['state'], observe_at=p['observe'], hook_needed=None))

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS + props.NA:
        f.write(json.dumps(prop(p)) + '\n')

TECH = 'path-sensitive dataflow over the type-checked MIR: every path of the property\'s functions is compared (conditions, ordered effects, loop state, result) with its reviewed contract'
checks = []
for p in props.PROPS:
    t = TECH
    if p['rules']:
        t += '; rules: ' + ', '.join(props.RULE_TEXT[r] for r in p['rules'])
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                       technique=t, level='other',
                       level_note='Static: decides every control-flow path of the listed functions without running them; sound up to the assumptions listed in the evidence (library models, reviewed contracts); values are provenance terms, loops are cut at their heads with their carried state compared.'))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
               not_applicable=[dict(property=p['id'], reason=props.NA_REASON[p['id']]) for p in props.NA]),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
