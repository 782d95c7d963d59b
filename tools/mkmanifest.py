#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python check.py '
DST = 'deterministic simulation with fault injection: '
BUILT = {
    'C01': 'seeded multi-client histories, seeded set-iteration order, '
           'refinement against a poset model',
    'C02': 'seeded histories with partially cached links and cache resets, '
           'refinement against the covering relation',
    'C03': 'seeded histories and set-iteration orders, queries against '
           'their definitions on the model',
    'C04': 'seeded interleaving of suspended path generators with queries, '
           'against independent enumeration',
    'C05': 'seeded histories over causets sharing events, set-algebra model',
    'C06': 'simulated disk with open/write/close/read errors, torn and '
           'short I/O at seeded bytes, round-trip and durability checks',
    'C07': 'seeded file corruption and matrix streams against an '
           'independent parser and closure',
    'C08': 'seeded embedding histories against independent spacetime '
           'causality',
    'C09': 'simulated generator with extreme draws, seeded turn-taking, '
           'membership and reproducibility checks',
    'C10': 'seeded sprinkling campaigns against the exact marginal laws',
    'C11': 'seeded histories with a failure injected at every draw, '
           'accounting model',
    'C12': 'exceptions injected at seeded executed lines, histories '
           'continued and compared with the model',
    'C13': 'seeded bytecode-level thread scheduler over real threads, '
           'answers compared with the model',
    'C14': 'recording axes with injected drawing errors, seeded frame '
           'orders, frame model',
}
BUILT['C19'] = ('seeded interleaving of suspended antipath generators and '
                'distance queries, against neighbour graphs of the model')
BUILT['C15'] = ('seeded histories over shapes with failing drawing calls, '
                'failing draws and interrupts, against independent geometry')
BUILT['C16'] = ('seeded constructor histories with interrupts and changed '
                'results, in seeded hash orders, against documented posets')
BUILT['C20'] = ('seeded histories of scheme changes and lookups with '
                'failures and interrupts, against independent tables')
BUILT['C18'] = ('seeded histories of cones with failing draws, failing opacity '
                'functions and interrupts, against independent null curves')
BUILT['C17'] = ('seeded call histories with failing callbacks, interrupts and '
                'changed error states, against exact values')
BUILT['C21'] = ('seeded event histories with failing iterables, drawing calls '
                'and interrupts, against a record per event')
BUILT['C22'] = ('seeded bytecode-level interleavings and nested calls of '
                'independent clients, against each client alone')
NA = {}
NOTE = ('Seeded search: a clean run is evidence over the explored runs, not '
        'a proof. Trusts the reference model in /verif/dst and the seams '
        'listed in the evidence; every failure is replayed exactly in a '
        'fresh process.')
built = [p for p in BUILT if os.path.exists(
    os.path.join(V, 'dst', 'props', p.lower() + '.py'))]
m = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python tools/selfcheck.py',
    hooks=dict(guard='CAUSETS_DST_UNUSED',
               enable='no hooks were needed in /repo: every seam is '
                      'installed from outside (module loading, '
                      'CausetEvent.__hash__, numpy.random.default_rng, '
                      'open, sys.settrace, matplotlib axes)',
               source_commits=[]),
    checks=[dict(property=p, quick_cmd=PY + p,
                 thorough_cmd=PY + p + ' --tier thorough',
                 evidence_file='evidence/%s.json' % p,
                 technique=DST + BUILT[p], level='exploration',
                 level_note=NOTE) for p in sorted(built)],
    not_applicable=[dict(property=p, reason=r) for p, r in NA.items()] +
    [dict(property=p, reason='check not built yet') for p in BUILT
     if p not in built])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
