#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property the analyser has one for, the rest is not applicable."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
have = set(l.split()[0] for l in subprocess.run([here + '/bin/disko-verify', '-list'], capture_output=True, text=True).stdout.split('\n') if l)
import na
checks, nas = [], []
for p in props:
    i = p['id']
    if i in have and i not in na.NA:
        t, n = na.tech(i)
        checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='./run.sh ' + i,
                           technique=t, level='other', level_note=n))
    else:
        nas.append(dict(property=i, reason=na.NA.get(i, na.TODO)))
m = dict(version=1, setup_cmd='./build.sh', checks=checks, not_applicable=nas)
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
