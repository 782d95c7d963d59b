#!/usr/bin/env python3
"""Setup: nothing to compile. Loads the library through the seams and checks
that the simulator is deterministic for a few runs of every check."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import engine, seams  # noqa: E402

lib = seams.load()
assert seams.HASH.active, 'CausetEvent defines its own hash'
with open(os.path.join(V, 'MANIFEST.json')) as f:
    ids = [c['property'] for c in json.load(f)['checks']]
for pid in ids:
    prop = importlib.import_module('dst.props.' + pid.lower())
    a = engine.determinism_sample(lib, prop, 1, 4)
    b = engine.determinism_sample(lib, prop, 1, 4)
    if a != b:
        print('warning: %s is not deterministic' % pid)
print('seams installed, %d checks loaded' % len(ids))
