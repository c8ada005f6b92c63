#!/usr/bin/env python3
"""Writes MANIFEST.json from configs.CLAIMED (kept next to the plans so both stay in step)."""
import json, sys, subprocess, os
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import configs
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 /verif/check.py setup', checks=[], not_applicable=[], hooks=dict(guard=configs.GUARD, enable='-D' + configs.GUARD, source_commits=configs.HOOK_COMMITS))
for i in ids:
    if i in configs.CLAIMED:
        c = configs.CLAIMED[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 /verif/check.py run ' + i, thorough_cmd='VERIF_TIER=thorough python3 /verif/check.py run ' + i, technique=c['technique'], level=c.get('level', 'model_checking'), level_note=c['note'], evidence_file='/verif/evidence/%s.json' % i))
    else: m['not_applicable'].append(dict(property=i, reason=configs.NOT_CLAIMED.get(i, 'no check built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
