"""Writes the sections of DESIGN.md on findings and planted bugs from the files."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Genuine defects'
LATE = {}
for l in open(os.path.join(HERE, 'tools', 'missed.txt')):
    k, _s, v = l.strip().partition(' ')
    if k:
        LATE[k] = v

out = [MARK + '\n', 'From `KNOWN_FINDINGS.txt`; "fixed" ones are repaired in /repo, "known" ones recorded.\n']
for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
    if not l.startswith('#') and l.strip():
        out.append('* ' + l.strip())
out += ['\n## Planted bugs\n',
        'Each is in `seeded/<id>` and is caught (exit 1) by the check of its property in the quick tier. '
        'The last column says what was strengthened where the check missed it at first.\n',
        '| id | check | needs | missed at first |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), LATE.get(d, '')))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read().split(MARK)[0].rstrip() + '\n\n' + '\n'.join(out) + '\n'
open(p, 'w').write(s)
