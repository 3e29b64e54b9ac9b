#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json.
Usage: bugtable.py [RESULTS]  (RESULTS: lines "id property caught-at-run")"""
import json, glob, os, sys, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        w = l.split(None, 2)
        if len(w) == 3:
            t = w[2]
            m = re.search(r'run(\d+)\.json', t)
            k = re.search(r'KIND +([a-z-]+):', t) or re.search(r'\b(not-linearizable|wrong-result|data-race|deadlock|panic|crash|stuck)\b', t)
            res[w[0]] = ('run %s%s' % (m.group(1), ', ' + k.group(1) if k else '')) if m else 'missed'
            res[w[0]] = res[w[0]].replace('|', '/')
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()
old = dict(re.findall(r'^\| ([a-z0-9-]+) \| C\d\d \| ([^|]*) \|', text, re.M))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s; needs %s |' % (i, d['property'], res.get(i, old.get(i, '?')), d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
rows.sort(key=lambda r: r.split('|')[2] + r)
a, b = '<!-- bugs -->', '<!-- /bugs -->'
table = a + '\n| planted bug | check | found (seed 1) | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + b
if a in text:
    text = text[:text.index(a)] + table + text[text.index(b) + len(b):]
else:
    text += '\n## Planted bugs\n\n' + table + '\n'
open(path, 'w').write(text)
