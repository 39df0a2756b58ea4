#!/usr/bin/env python3
"""writes DESIGN.md from docs/DESIGN.in.md, the contracts, known_findings.txt and seeded/"""
import ast, json, os, re, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
how = {}
cur = None
for l in open(V + '/docs/props.md'):
    m = re.match(r'(C\d\d): *(.*)', l)
    if m:
        cur = m.group(1); how[cur] = m.group(2).strip()
    elif cur and l.strip():
        how[cur] += ' ' + l.strip()
out = []
for p in props:
    i = p['id']
    f = '%s/contracts/%s.py' % (V, i.lower())
    out.append('### %s %s\n' % (i, p['title']))
    out.append(how.get(i, '') + '\n')
    if os.path.exists(f):
        t = ast.parse(open(f).read())
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
                out.append('Assumed, besides section 2:\n')
                out += ['* ' + x for x in ast.literal_eval(n.value)]
                out.append('')
fix = []
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fix.append('| %s | %s | %s |' % m.groups())
seed = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = {}
if os.path.exists(V + '/docs/caught.json'):
    caught = json.load(open(V + '/docs/caught.json'))
for s in sorted(os.listdir(V + '/seeded')):
    d = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seed.append('| %s | %s | %s | %s | %s |' % (s, d['property'], d['what_it_breaks'], d['needs'], caught.get(s, d['property'])))
t = open(V + '/docs/DESIGN.in.md').read()
for k, v in (('PROPTABLE', '\n'.join(out)), ('FIXTABLE', '\n'.join(fix)), ('SEEDTABLE', '\n'.join(seed)), ('MUTLOG', open(V + '/docs/mutlog.md').read())):
    t = t.replace(k, v)
open(V + '/DESIGN.md', 'w').write(t)
