"""Lets TLC judge recorded cases and gives back the first mismatch of each."""
import json
import os
import tempfile

from . import tlc


class Verdict(object):
    def __init__(self):
        self.states = self.transitions = self.cases = self.events = 0
        self.mismatches = []     # dicts: case, ev, clause, exp, got

    def first_per_case(self):
        best = {}
        for m in self.mismatches:
            k = m['case']
            if k not in best or m['ev'] < best[k][0]['ev']:
                best[k] = [m]
            elif m['ev'] == best[k][0]['ev']:
                if m not in best[k]:
                    best[k].append(m)
        return best


def judge(cases, module='VerifyJudge', timeout=800, shards=None, env=None):
    """
    cases: JSON-able dicts, each with an "id". One TLC worker is faster than
    several here, so big sets are cut and judged side by side instead.
    """
    cases = list(cases)
    v = Verdict()
    v.cases = len(cases)
    v.events = sum(len(c.get('evs', ())) for c in cases)
    if not cases:
        return v
    if shards is None:
        shards = max(1, min(7, len(cases) // 250, len(cases)),
                     min(7, v.events // 1200, len(cases)))
    paths, jobs = [], []
    try:
        for k in range(shards):
            fd, path = tempfile.mkstemp(prefix='cases-', suffix='.ndjson')
            paths.append(path)
            with os.fdopen(fd, 'w') as f:
                for c in cases[k::shards]:
                    f.write(json.dumps(c))
                    f.write('\n')
            e = {'CASES': path}
            e.update(env or {})
            jobs.append(((module, module + '.cfg'),
                         {'env': e, 'timeout': timeout, 'workers': 1, 'heap': '3g'}))
        results = tlc.run_many(jobs, shards)
    finally:
        for p in paths:
            os.unlink(p)
    for r in results:
        if r.violation:
            raise tlc.TLCError('judge stopped: ' + r.violation + '\n' + r.output[-2000:])
        v.states += r.states
        v.transitions += r.transitions
        for tag, val in r.records:
            if tag == 'MM':
                v.mismatches.append(val)
    return v
