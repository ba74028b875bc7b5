#!/usr/bin/env python3
import json, os, sys
V = '/verif'
sys.path[:0] = [V + '/vf', V + '/props']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
from claims import CLAIMS, NA
checks = []
for p in props:
    if p['id'] in CLAIMS:
        c = CLAIMS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique='contract-based deductive verification (CBMC, function contracts on the real source)',
            level=c.get('level', 'proof'), level_note=c['note']))
na = [dict(property=p['id'], reason=NA[p['id']]) for p in props if p['id'] not in CLAIMS]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'na')
