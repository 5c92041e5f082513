#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of implemented checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
NA = {'N01': 'A statistical statement about real-valued estimation accuracy over unbounded runs: an explicit-state TLA+ model has neither '
             'reals nor noise distributions, and any bound checked on traces would only repeat the existing trajectory tests. The deterministic '
             'ingredients of accuracy (integration, covariance, update direction, bookkeeping) are covered by K, C, U and W.'}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
suites = {'D': 'loader', 'W': 'window', 'K': 'propagator', 'A': 'attitude', 'C': 'covariance', 'U': 'update', 'S': 'system', 'G': 'geometry', 'F': 'config', 'M': 'maths'}
checks, na = [], []
for p in props:
    i = p['id']
    try:
        mod = importlib.import_module('suite_' + suites[i[0]])
    except (KeyError, ImportError):
        mod = None
    if hasattr(mod, 'check_' + i):
        tech, note = NOTE[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                           technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by replaying TLC-generated and random scenarios into the '
               'real classes and validating the recorded traces with TLC. No hooks in /repo: harnesses compile the sources as they are.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
