#!/usr/bin/env python3
"""Refreshes the generated lists of DESIGN.md: repaired defects and planted bugs."""
import re, os, glob, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixes = []
for l in open(ROOT + '/known_findings.txt'):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', l)
    if m: fixes.append(m.groups())
fixes.sort()
F = '\n'.join(['| property | commit | what failed |', '|---|---|---|'] + ['| %s | %s | %s |' % f for f in fixes])
rows = []; C = json.load(open(ROOT + '/tools/caught.json'))
for d in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    j = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['what_it_breaks'], j['needs'], C.get(i, '')))
S = '\n'.join(['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|'] + rows)
p = ROOT + '/DESIGN.md'; s = open(p).read()
for name, text in (('fixes', F), ('seeds', S)):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, text, name), s, flags=re.S)
open(p, 'w').write(s)
