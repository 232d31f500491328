"""Writes MANIFEST.json: every property with a check module is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(V, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', i.lower() + '.py')):
        t = TECH.get(i, TECH['default'])
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % i,
                           thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t[0], level='model_checking', level_note=t[1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/selftest.py', checks=checks, not_applicable=na,
         notes='No hooks are needed: every check drives the public API of /repo/src directly (sys.path), so it always sees the working tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
