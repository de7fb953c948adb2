#!/usr/bin/env python3
# fills the tables of DESIGN.md from known_findings.json and seeded/*/meta.json
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(V + '/known_findings.json')); p = V + '/DESIGN.md'; t = open(p).read()
def fill(name, body):
    global t
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    assert a in t and b in t, name
    t = t[:t.index(a) + len(a)] + '\n' + body + '\n' + t[t.index(b):]
fill('findings', '| id | what fails |\n|---|---|\n' + '\n'.join(f"| `{f['id']}` | {f['what']} |" for f in d['findings']))
fx = {}
for f in d['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f); fx.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
fill('fixed', f"{len(d['fixed'])} repairs:\n\n| property | repaired (commit, what failed) |\n|---|---|\n" + '\n'.join(f"| {k} | " + '; '.join(f'`{c}` {w}' for c, w in fx[k]) + ' |' for k in sorted(fx)))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = json.load(open(m)); rows.append((s['property'], os.path.basename(os.path.dirname(m)), s))
def cut(x): return re.sub(r'\s+', ' ', x).replace('|', '/')
fill('planted', '| planted bug | breaks, and what it needs | caught by |\n|---|---|---|\n' + '\n'.join(f"| `{i}` | {cut(s['what_it_breaks'])} — {cut(s['needs'])} | {', '.join(s.get('caught_by', [pr]))} |" for pr, i, s in sorted(rows, key=lambda r: (r[0], r[1]))))
open(p, 'w').write(t)
