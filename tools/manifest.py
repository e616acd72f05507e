#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property with a check, the rest is listed
as not (yet) claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; '
REPLAY = T + 'TLC-enumerated plans replayed into the library and recorded traces judged by TLC'
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
            n = NOTES[p]
            checks.append({
                'property': p,
                'quick_cmd': '/opt/venv/bin/python check.py ' + p,
                'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python check.py ' + p,
                'evidence_file': 'evidence/%s.json' % p,
                'technique': T + n[0],
                'level': 'model_checking',
                'level_note': n[1]})
        else:
            na.append({'property': p, 'reason': 'Not claimed: its check is not built yet.'})
    m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo are needed. See DESIGN.md; known findings in KNOWN_FINDINGS.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
