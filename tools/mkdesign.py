#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.head.md, the modules' RULE/ASSUMPTIONS and tools/design.tail.md."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
notes = {}
cur = None
for l in open(R + '/tools/design.notes.md'):
    if l.startswith('## C'):
        cur = l[3:6]
        notes[cur] = ''
    elif cur:
        notes[cur] += l
out = [open(R + '/tools/design.head.md').read()]
out.append('\n## How each property is decided\n')
for p in P:
    m = importlib.import_module('vp.props.' + p['id'].lower())
    out.append('\n### %s %s\n' % (p['id'], p['title']))
    out.append('- **Generated / oracle / non-trivial rule**: %s.' % m.RULE)
    out.append('- **Bounds**: %d cases quick, %d thorough.' % (m.COUNT['quick'], m.COUNT['thorough']))
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('- **Assumptions**: %s.' % '; '.join(m.ASSUMPTIONS))
    out.append('- **Why tests cannot**: %s' % p['why_tests_cant'])
    n = notes.get(p['id'], '').strip()
    if n:
        out.append('- **Notes**: ' + n)
out.append('\n' + open(R + '/tools/design.tail.md').read())
res = {}
if os.path.exists(R + '/tools/catch.txt'):
    for l in open(R + '/tools/catch.txt'):
        w = l.split()
        res[w[0]] = (w[1].rstrip(':'), w[2])
out.append('\n## Planted bugs and the checks that catch them\n\nResults of `tools/bugs.py check` (quick tier, seed 1), recorded in `tools/catch.txt`; regenerate with `python3 tools/bugs.py check > tools/catch.txt`.\n')
out.append('| planted bug | needs | caught by |\n|---|---|---|')
for b in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(R + '/seeded/%s/meta.json' % b))
    k, v = res.get(b, (m['property'], 'not run'))
    out[-1] += '\n| %s | %s | %s |' % (b, m['needs'].replace('|', '/'), k if v == 'CAUGHT' else '%s: %s' % (k, v.lower()))
out.append('')
open(R + '/DESIGN.md', 'w').write('\n'.join(out))
