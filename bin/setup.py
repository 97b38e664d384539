#!/usr/bin/env python3
"""Pre-builds the library variants and the harnesses (the checks rebuild whatever changed)."""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from registry import CHECKS

def one(j):
    pid, kind, what, variant, extra = j
    try:
        if kind == 'python':
            vbuild.build_python(variant)
        elif kind == 'main':
            vbuild.build(None, variant, extra, with_main=what)
        else:
            vbuild.build(what, variant, extra)
    except vbuild.BuildError as e:
        return 'setup: %s %s' % (pid, e)

jobs = {}
for pid, c in CHECKS.items():
    for s in c['harnesses']:
        v, x = s.get('variant', 'plain'), tuple(s.get('extra', ()))
        if s.get('python'):
            jobs[('python', s['python'], v, x)] = pid
        else:
            jobs[('harness', s['harness'], v, x)] = pid
        for m in s.get('programs', {}).values():
            jobs[('main', m, v, x)] = pid
jobs = [(p,) + k for k, p in jobs.items()]
# the first job of a variant builds the library of it (in parallel); then the harnesses are built side by side
first, rest, seen = [], [], set()
for j in jobs:
    (rest if j[3] in seen else first).append(j)
    seen.add(j[3])
errs = [e for e in map(one, first) if e]
if not errs:
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(one, rest) if e]
for e in errs:
    print(e)
if errs:
    sys.exit(1)
print('setup done')
