#!/usr/bin/env python3
"""tools/mkdesign.py [results]: fills the tables of DESIGN.md, between their markers.
results has lines "ID CAUGHT|MISSED ..." of tools/trybugs.sh."""
import json, re, subprocess, sys, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
s = open('DESIGN.md').read()
def table(name, rows):
    global s
    body = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, '\n'.join(rows), name)
    if '<!-- %s -->' % name in s:
        s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name), lambda m: body, s, flags=re.S)
    else:
        assert name in s, name
        s = s.replace(name, body, 1)
rows = []
for l in open('properties.jsonl'):
    p = json.loads(l)
    try:
        b = json.load(open('evidence/%s.json' % p['id']))['coverage']['bounds']
    except FileNotFoundError:
        b = ['(run the check)']
    rows.append('* **%s** %s. ' % (p['id'], p['title']) + '; '.join(b) + '.')
table('BOUNDS_TABLE', rows)
rows = ['* %s `%s` %s' % (f['property'], f['commit'], f['what']) for f in json.load(open('known_findings.json'))['findings']]
table('FIXES_TABLE', rows)
old = dict(re.findall(r'^\| (\S+) \| \S+ \| ([^|]*) \|', s, flags=re.M))
res = {}
if len(sys.argv) > 1:
    for l in open(sys.argv[1]):
        f = l.split()
        if len(f) > 1 and f[1] in ('CAUGHT', 'MISSED'):
            res[f[0]] = f[1]
rows = ['| planted bug | property | caught by its check | needs |', '|---|---|---|---|']
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    r = {'CAUGHT': 'yes', 'MISSED': 'no'}.get(res.get(d), old.get(d, '?').strip())
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], r, m['needs'].replace('|', '/')))
table('SEEDS_TABLE', rows)
rows = []
sys.path.insert(0, 'tools')
for f in sorted(os.listdir('tools/refactors')):
    if f.endswith('.py'):
        ids = re.findall(r"^ref\('([a-z0-9-]+)'", open('tools/refactors/' + f).read(), flags=re.M)
        rows.append('* %s: %s' % (f, ', '.join(dict.fromkeys(ids))))
table('REFACTORS_TABLE', rows)
open('DESIGN.md', 'w').write(s)
