#!/usr/bin/python3
"""editprop.py ID FIELD: replaces title or statement by stdin (development helper)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
L = [json.loads(l) for l in open(p)]
for x in L:
    if x['id'] == sys.argv[1]:
        x[sys.argv[2]] = ' '.join(sys.stdin.read().split())
open(p, 'w').write(''.join(json.dumps(x) + '\n' for x in L))
