#!/usr/bin/env python3
"""writes MANIFEST.json from the check modules and properties.jsonl"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V, V + '/lib']
na = json.load(open(V + '/tools/not_applicable.json'))
checks, missing = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
        m = importlib.import_module('checks.' + p.lower())
        checks.append(dict(property=p, quick_cmd='./run ' + p, thorough_cmd='./run %s thorough' % p, technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        missing.append(dict(property=p, reason=na.get(p, 'no check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='./run setup', hooks=dict(guard='VERIF_HOOKS', enable='no hooks are needed: the checks build unmodified sources and use only public interfaces', source_commits=[]),
               checks=checks, not_applicable=missing,
               notes='run PROP [quick|thorough] runs a check (tier also from VERIF_TIER), run replay FILE replays a violation'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(missing), 'not claimed')
