import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
TECH = ("solver-based: path-complete symbolic execution of the real Python "
        "functions, SMT (z3) obligations over all inputs within bounds, "
        "counterexamples replayed on the real code")
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
              quantifier=dict(over=p['over'], text=p['text']),
              why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in PROPS:
    if p['module']:
        checks.append(dict(property=p['id'],
            quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % p['id'],
            thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
            technique=TECH, level='other',
            level_note=('bounded symbolic execution + SMT over real arithmetic; bounds, stubs and solver '
                        'statistics are in the evidence file. ' + p['note']).strip(),
            evidence_file='evidence/%s.json' % p['id']))
    else:
        na.append(dict(property=p['id'], reason=p['na']))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/verif\'); import symex.z3load as z; z.load() if hasattr(z, \'load\') else None"',
    checks=checks, not_applicable=na,
    notes='Generated by tools/mkprops.py. Every check executes the current /repo source symbolically; nothing is cached between runs.'),
    open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump({p['id']: p['module'] for p in PROPS if p['module']},
          open(V + '/checks/index.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
