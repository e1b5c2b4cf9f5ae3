#!/usr/bin/env python3
"""Generates DESIGN.md from DESIGN.tmpl.md, the checks, findings and planted bugs."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from checks_data import CHECKS, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
s = open(os.path.join(V, 'tools', 'DESIGN.tmpl.md')).read()
out = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        continue
    out.append('### %s %s\n\n%s Code: %s. Why beyond tests: %s\n' % (p['id'], p['title'], c['note'], ', '.join('`%s`' % f for f in p['anchors']['files']), p['why_tests_cant']))
s = s.replace('@@PROPS@@', '\n'.join(out).rstrip())
s = s.replace('@@NA@@', '\n'.join('* %s %s: %s' % (p['id'], p['title'], NA.get(p['id'], 'not built yet')) for p in props if p['id'] not in CHECKS) or 'None.')
fx, kn = [], []
for l in open(os.path.join(V, 'known-findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fx.append('* %s `%s` %s' % m.groups())
    m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)', l)
    if m:
        kn.append('* %s (`%s`) %s' % m.groups())
s = s.replace('@@FIXED@@', '\n'.join(fx)).replace('@@KNOWN@@', '\n'.join(kn) or 'None.')
res = {}
rp = os.path.join(V, 'tools', 'bugresults.json')
if os.path.exists(rp):
    res = json.load(open(rp))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    i = os.path.basename(d)
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), res.get(i, '(not run)')))
s = s.replace('@@BUGS@@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
