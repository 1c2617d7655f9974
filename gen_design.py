#!/usr/bin/env python3
"""Puts DESIGN.md together."""
import json, re, glob, os
V = os.path.dirname(os.path.abspath(__file__))
exec(open(V + '/design/props.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
doc = {}
for f in sorted(glob.glob(V + '/harness/h/*.go')):
    s = open(f).read()
    for m in re.finditer(r'((?:^// .*\n)*)^func (H_(C\d\d)_\w+)\(\)', s, re.M):
        d = ' '.join(l[3:] for l in m.group(1).strip().split('\n') if l)
        d = re.sub(r'^H_\w+:? ?', '', d)
        doc.setdefault(m.group(3), []).append((m.group(2), d))
na = {x['property']: x['reason'] for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']}
o = open(V + '/design/head.md').read()
for p in props:
    o += '### %s — %s\n\n' % (p['id'], p['title'])
    if p['id'] in na:
        o += 'Not applicable: %s\n\n' % na[p['id']]
        continue
    how, bounds, why = D[p['id']]
    o += '%s\n\n*Bounds.* %s\n\n*Beyond tests.* %s\n\n*Harnesses.* ' % (how, bounds, why)
    o += '; '.join('`%s`: %s' % (n[2:], d.rstrip('.')) if d else '`%s`' % n[2:] for n, d in doc.get(p['id'], [])) + '.\n\n'
o += open(V + '/design/tail.md').read()
o += '\n## 7. Planted bugs and what catches them\n\n'
o += 'Each is in `seeded/`, made by `seedgen/gen.py` from `seedgen/specs.py` (build, the 61 tests and the\ndemonstration with and without the patch are confirmed in a scratch copy) and run against its property\'s quick\ncheck by `seedgen/catch.py`.\n\n| bug | needs | quick check |\n|---|---|---|\n'
caught = {}
for l in open(V + '/design/caught.txt'):
    w = l.split()
    if len(w) > 1: caught[w[0]] = ' '.join(w[1:])
for id in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % id))
    o += '| %s | %s | %s |\n' % (id, m['needs'].replace('|', '/'), caught.get(id, 'not yet run'))
open(V + '/DESIGN.md', 'w').write(o)
