#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = []
for i in ids:
    if i not in P.PROPS: continue
    c = P.PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i} --tier quick',
        'thorough_cmd': f'python3 check.py {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deductive verification (Verus contracts on mechanically extracted /repo/src), concrete replay of rejected obligations',
        'level': 'proof',
        'level_note': c['note'] + (' Bounded only: ' + '; '.join(c['bounded']) + '.' if c.get('bounded') else '') + ' Trusted: see evidence trusted_base.',
        'theorems': c['roots'],
    })
na = [{'property': i, 'reason': P.NOT_APPLICABLE.get(i, P.PENDING)} for i in ids if i not in P.PROPS]
json.dump({'version': 1, 'setup_cmd': 'tools/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Known findings and repairs: known_findings.txt. Design: DESIGN.md.'}, open(f'{V}/MANIFEST.json', 'w'), indent=1)
