#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    if not os.path.exists('checks/%s.py' % p.lower()):
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('checks.' + p.lower())
    checks.append({'property': p,
                   'quick_cmd': 'python3 run.py %s quick' % p,
                   'thorough_cmd': 'python3 run.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': m.TECHNIQUE, 'level': m.LEVEL, 'level_note': m.LEVEL_NOTE})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
           'not_applicable': na,
           'notes': 'No hooks in /repo: the checks compile the sources of the working tree '
                    'themselves (sanitized, pattern-initialised and plain builds) and interpose '
                    'at link, preload and system call level.'},
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'open')
