"""Regenerate MANIFEST.json from the list of implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {f[:-3].upper() for f in os.listdir(os.path.join(V, 'harness/checks')) if f.startswith('c') and f.endswith('.py')}
SPECS = json.load(open(os.path.join(V, 'harness/specs.json')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in have and i in SPECS:
        m['checks'].append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification checked with TLC, trace validation of the real code (%s)' % SPECS[i]['spec'],
            level='model_checking', level_note=SPECS[i]['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
