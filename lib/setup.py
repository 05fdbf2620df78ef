#!/usr/bin/python3
"""Builds the explorer and the project's libraries and harnesses once, so that the checks find them in the cache."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, registry
from concurrent.futures import ThreadPoolExecutor
seen, jobs = set(), []
for pid, c in registry.CHECKS.items():
    for r in c['runs']('quick'):
        k = (r['src'], r.get('variant', 'std'), tuple(r.get('flags', ()))) if r['kind'] == 'cpp' else ('py', r.get('module'))
        if k in seen:
            continue
        seen.add(k)
        if r['kind'] == 'cpp':
            jobs.append(lambda r=r: build.harness(r['src'], r.get('variant', 'std'), r.get('flags', ())))
        elif r.get('module'):
            jobs.append(build.python_module)
for v in sorted({r.get('variant', 'std') for c in registry.CHECKS.values() for r in c['runs']('quick') if r['kind'] == 'cpp'}):
    build.library(v)
with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
    for f in [ex.submit(j) for j in jobs]:
        f.result()
print('built', len(jobs), 'harnesses')
