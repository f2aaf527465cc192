#!/usr/bin/env python3
"""Builds every flavour once so that problems show early; every check builds
what it needs again when the tree changed."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
sys.path.insert(0, here)
from vlib import build
want = {}
for f in sorted(os.listdir('checks')):
    if f.startswith('c') and f.endswith('.py'):
        m = importlib.import_module('checks.' + f[:-3])
        for fl, what in m.BUILD.items():
            want.setdefault(fl, set()).update(what)
for fl, what in want.items():
    r = build.get(fl, sorted(what))
    print(fl, sorted(what), 'ok')
