import json
import random

from harness import env, par, single, tlc, trust
from harness.env import scale
from harness.histcheck import cfg_text, count_verdicts, enumerate_and_replay, random_cases


def replay(cid, plan, conf):
    return trust.keys(cid, plan, env.SEED, 1)


def run(ck):
    cases = []
    for rep in range(scale(2, 12)):
        cases += enumerate_and_replay(
            ck, 'GenKeys', [{'Emit': True}],
            ['OnlyAuthentic', 'CertWins', 'AuthenticAccepted'], Rep(rep))
    cases += random_cases(ck, {'sig': scale(500, 8000)})
    count_verdicts(ck, cases)
    ck.judge(cases)
    # single receipts, several by one verifier: genuine ones, altered copies of these, the genuine ones again
    r = tlc.run_many([(('GenKeys', cfg_text({'Emit': True}, ['OnlyAuthentic'])), {'workers': 4})], 1)[0]
    ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
    random.Random('c06/%s' % env.SEED).shuffle(ps)
    singles = par.pmap(single.planned, [('s%d' % i, p, env.SEED) for i, p in enumerate(ps[:scale(250, 3000)])])
    for c in singles:
        c['evs'] = [e for e in c['evs'] if e['t'] == 'check']
        ck.count('single_checks', sum(len(e['runs']) for e in c['evs']))
    ck.judge(singles, lambda m, c: True, 'CheckJudge')


class Rep(object):
    def __init__(self, n):
        self.n = n

    def __call__(self, cid, plan, conf):
        return trust.keys('%s/%d' % (cid, self.n), plan, env.SEED, 1)
