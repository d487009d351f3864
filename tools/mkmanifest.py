#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness directives, properties.jsonl and notes.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/notes.json'))
have = {}
for f in glob.glob(V + '/harness/**/*.go', recursive=True):
    for l in open(f):
        if l.startswith('//verif:harness '):
            for p in re.search(r'prop=(\S+)', l).group(1).split(','):
                have.setdefault(p, []).append(l)
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in notes.get('not_claimed', {}):
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': notes['technique'].get(i, notes['technique']['default']),
            'level': 'model_checking',
            'level_note': notes['level'].get(i, '') + ' ' + notes['level']['default'],
        })
        checks[-1]['level_note'] = checks[-1]['level_note'].strip()
    else:
        na.append({'property': i, 'reason': notes.get('not_claimed', {}).get(i, 'no check yet: work in progress')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
if notes.get('notes'):
    m['notes'] = notes['notes']
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
