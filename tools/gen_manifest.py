#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the harnesses that exist.
import json, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
LEVEL_NOTE = {}
exec(open('tools/level_notes.py').read())
checks = []; na = []
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    if glob.glob('harness/%s*.cpp' % i):
        seq = i in SEQ
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique=('explicit-state model checking of the real code: exhaustive enumeration of operation sequences' if seq else
                       'stateless model checking of the real code: exhaustive schedule enumeration (DPOR and preemption bounding) under a controlled scheduler'),
            level='model_checking', level_note=LEVEL_NOTE.get(i, DEFAULT)))
    else: na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na)
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks;', [x['property'] for x in na])
