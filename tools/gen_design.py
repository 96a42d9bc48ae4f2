#!/usr/bin/env python3
"""Assembles DESIGN.md: design/head.md, one entry per property (from props.py, properties.jsonl), design/tail.md, the catch matrix."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props as PR
def fixes():
    r = ['| property | commit | what failed |', '|---|---|---|']
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            r.append(f'| {m.group(1)} | `{m.group(2)}` | {m.group(3)} |')
    return '\n'.join(r)
P = {d['id']: d for d in map(json.loads, open(V + '/properties.jsonl'))}
o = [open(V + '/design/head.md').read().rstrip(), '']
notes = {}
nf = V + '/design/notes.md'
if os.path.exists(nf):
    for m in re.finditer(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', open(nf).read(), re.M | re.S):
        notes[m.group(1)] = m.group(2).strip()
for k, c in PR.PROPS.items():
    d = P[k]
    o += [f'### {k} {d["title"]}', '', c['note'], '']
    o.append('* Roots: ' + ', '.join(f'`{r}`' for r in c['roots'][:40]) + '.')
    o.append('* Builds: ' + '; '.join(f'`{x}`' for x in c.get('variants', ['simd'])) + '.')
    if c.get('assume'):
        o.append('* Domain: ' + '; '.join(c['assume']) + '.')
    if c.get('trusted'):
        o.append('* Trusted besides the base: ' + '; '.join(c['trusted']) + '.')
    o.append('* Out of reach of the tests: ' + d['why_tests_cant'] + '.')
    if k in notes:
        o.append(notes[k])
    o.append('')
o.append(open(V + '/design/tail.md').read().rstrip().replace('@@MATRIX@@', open(V + '/design/matrix.md').read().rstrip()).replace('@@FIXES@@', fixes()))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
