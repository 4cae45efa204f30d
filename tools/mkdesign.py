#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, the registry and the planted changes."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import registry as G
T = open(os.path.join(V, 'tools', 'design.in.md')).read()
N = os.path.join(V, 'tools', 'design.numeric.md')
T = T.replace('NUMERIC_SECTION', open(N).read() if os.path.exists(N) else '')
T = T.replace('NA_SECTION', '\n'.join('* %s: %s' % (k, G.NA[k]) for k in sorted(G.NA)))
L = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    L.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], G.MISSED.get(os.path.basename(os.path.dirname(d)), m['property'])))
T = T.replace('SEED_TABLE', '\n'.join(L))
open(os.path.join(V, 'DESIGN.md'), 'w').write(T)
