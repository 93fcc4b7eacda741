#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/props.py, for the properties in properties.jsonl."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vp.props import PROPS

ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s quick' % i,
            'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': p['technique'],
            'level': p.get('level', 'proof'),
            'level_note': p['level_note'],
        })
        if p.get('theorems'):
            checks[-1]['theorems'] = p['theorems']
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
json.dump({
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {
        'guard': '--cfg wasmtimer_verif',
        'enable': 'RUSTFLAGS="--cfg wasmtimer_verif --cfg vh_<group>..." WASMTIMER_VERIF_DIR=/verif/hooks (vp/native.py)',
        'source_commits': [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('verification hook')],
    },
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Every check rebuilds what it needs from /repo; setup_cmd has nothing to do.',
}, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)

# The table of DESIGN.md.
titles = {p['id']: p['title'] for p in (json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl')))}
path = os.path.join(VERIF, 'DESIGN.md')
lines = open(path).read().split('\n')
rows = ['| %s %s | %s | %s. %s |' % (c['property'], titles[c['property']], c['level'], c['technique'], c['level_note']) for c in checks]
at = lines.index('| property | level | decided by |')
end = next(i for i in range(at, len(lines)) if not lines[i].startswith('|'))
lines[at + 2:end] = rows
open(path, 'w').write('\n'.join(lines))
