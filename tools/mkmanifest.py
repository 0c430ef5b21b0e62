#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, the registry in absint/main.py and the reasons below."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/absint')
import main
NA = {
 'C34': 'timing: run time on hardware is not visible in the source; the iteration bounds that are visible are claimed under C32',
}
checks = []; na = []
for l in open(R + '/properties.jsonl'):
    d = json.loads(l); i = d['id']
    if i in main.PROPS:
        mod, kw = main.PROPS[i]
        meta = main.META[i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=meta[0], level=meta[1], level_note=meta[2]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='python3 absint/selfcheck.py', checks=checks, not_applicable=na)
with open(R + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
