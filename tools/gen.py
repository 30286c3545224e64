#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p.get('observe'):
            a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = dict(props.NA)
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'MG_VERIF', 'enable': 'no hooks are needed: the checks compile the unmodified sources', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in props.P if p['id'] not in na],
     'not_applicable': [{'property': k, 'reason': v} for k, v in props.NA]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
print(len(props.P), 'properties,', len(m['checks']), 'checks')

rows = []
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s |' % (d, j['property'], j['what_it_breaks']))
t = open(H + '/DESIGN.in.md').read().replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NA@@', '\n'.join('* **%s** %s: %s' % (p['id'], p['title'], na[p['id']]) for p in props.P if p['id'] in na))
open(V + '/DESIGN.md', 'w').write(t)
