#!/usr/bin/python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import registry
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p['id'])
    if c:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                           thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                           technique=c['technique'], level='model_checking', level_note=c['note']))
    else:
        na.append(dict(property=p['id'], reason=registry.NOT_APPLICABLE.get(p['id'], 'no check has been built yet') if hasattr(registry, 'NOT_APPLICABLE') else 'no check has been built yet'))
m = dict(version=1, setup_cmd='python3 lib/setup.py', hooks=dict(guard='none', enable='no hooks: every check drives the public interface only', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
