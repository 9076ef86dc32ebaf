#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (between the markers) from checks.py, properties.jsonl, the evidence of the last runs and seeded/."""
import json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from checks import CHECKS
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
def section():
    o = []
    for i in sorted(CHECKS):
        c = CHECKS[i]; o.append('### %s — %s\n' % (i, props[i]['title']))
        if os.path.exists(V + '/design/%s.md' % i): o.append(open(V + '/design/%s.md' % i).read().strip() + '\n')
        for h in c['harnesses']: o.append('- `%s` (%d cases%s): %s. Bounds: %s.' % (h['name'], len(list(h.get('cases', [0]))), ', thorough %d' % len(list(h['tcases'])) if 'tcases' in h else '', h.get('what', ''), h['bounds']))
        if c.get('outside'): o.append('- Outside: %s.' % c['outside'])
        o.append('')
    return '\n'.join(o)
def bugs():
    o = ['| planted change | property | needs | breaks |', '|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d)); o.append('| %s | %s | %s | %s |' % (d.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
    return '\n'.join(o) + '\n'
t = open(V + '/DESIGN.md').read()
for name, text in (('properties', section()), ('planted', bugs())):
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + text + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
