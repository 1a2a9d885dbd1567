#!/usr/bin/env python3
# Writes DESIGN.md from doc/, the comments of the harnesses and the planted bugs.
import re, glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
rd = lambda f: open(V + '/doc/' + f).read()
out = rd('1head.md') + rd('2props.md') + '\n' + rd('3defects.md')
out += '## 4. Harnesses and bounds\n\n`q`/`t`: time limit in seconds in the quick and thorough tier (a complete run is usually far shorter).\n\n'
hs = []
for f in sorted(glob.glob(V + '/harness/*/*.go') + glob.glob(V + '/harness/*/h/*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)^func (C\d\d_\w+)\(\)', open(f).read(), re.M):
        doc, opts = [], ''
        for l in m.group(1).splitlines():
            if l.startswith('//vp:'): opts += ' ' + l[5:]
            else: doc.append(l[2:].strip())
        o = dict(x.split('=', 1) for x in opts.split() if '=' in x)
        hs.append((m.group(2), ' '.join(x for x in doc if x), o))
for n, d, o in sorted(hs):
    t = 't ' + o.get('thorough', '60')
    if o.get('tier') != 'thorough': t = 'q ' + o.get('quick', '60') + ', ' + t
    out += f'* `{n}` ({t}): {d}\n'
out += '\n## 5. Planted bugs\n\nIn `seeded/`, written from the properties and the code, each with a demonstration. All were run against the checks;\n"first missed" tells that the check was extended because of it.\n\n| bug | property | needs | result |\n|---|---|---|---|\n'
res = dict(l.rstrip('\n').split('\t') for l in open(V + '/doc/bugs.tsv'))
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); n = f.split('/')[-2]
    out += f"| {n} | {d['property']} | {d['needs'].replace('|', chr(92) + '|')} | {res.get(n, 'not run')} |\n"
open(V + '/DESIGN.md', 'w').write(out)
