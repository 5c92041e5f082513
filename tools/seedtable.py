#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| Planted change | Needs | Caught by |', '|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s |' % (i, m['needs'], m['property'] + (' ' + m['note'] if m.get('note') else '')))
rows.append('<!-- /seeds -->')
t = open(V + '/DESIGN.md').read()
if '@SEEDS@' in t:
    t = t.replace('@SEEDS@', '\n'.join(rows))
else:
    t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '\n'.join(rows), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
