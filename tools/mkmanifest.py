#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
checks_, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        checks_.append(dict(property=p, quick_cmd='python3 check.py %s' % p,
                            thorough_cmd='VERIF_TIER=thorough python3 check.py %s --thorough' % p,
                            technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=p, reason='no check built yet'))
m = dict(version=1, setup_cmd='true', checks=checks_, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
