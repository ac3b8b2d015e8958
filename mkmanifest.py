#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.REGISTRY (development helper)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
TECH = checks.TECHNIQUE
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[],
         notes='No hooks in /repo: monitors interpose system calls at link time, inject scheduling points through a forced include, and observe the public API.')
for p in props:
    i = p['id']
    if i in checks.REGISTRY:
        t, n = TECH[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s thorough' % i,
                                technique=t, level=checks.LEVEL[i], level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=checks.NOT_YET.get(i, 'check under construction')))
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
