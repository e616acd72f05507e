import json
import random

from harness import env, par, single, tlc
from harness.env import scale
from harness.histcheck import cfg_text

SAME = ['alg', 'zda', 'reg', 'id', 'ts', 'sum', 'ctr', 'chain', 'sig', 'serial']
# flaws every representation can show
NOTOKENS = ('<nopad>', '<newline>')


def run(ck):
    rng = random.Random('c21/%s' % env.SEED)
    a, b = tlc.run_many([(('GenKeys', cfg_text({'Emit': True}, ['OnlyAuthentic', 'AuthenticAccepted'])), {'workers': 2}),
                         (('GenForm', cfg_text({'Parts': SAME, 'Two': False, 'Emit': True}, [])), {'workers': 2})], 2)
    ck.add_tlc(a, 'keys')
    ck.add_tlc(b, 'forms')
    ps = sorted((v for t, v in a.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
    ck.count('key_plans', len(ps))
    rng.shuffle(ps)
    cases = par.pmap(single.planned, [('k%d/%d' % (i, k), p, env.SEED) for k in range(scale(3, 8))
                                      for i, p in enumerate(ps[:scale(450, 10 ** 6)])])
    fs = sorted((v for t, v in b.records if t == 'PLAN' and v['rep'] == 'qr'),
                key=lambda v: json.dumps(v, sort_keys=True))
    fs = [p for p in fs if p['set'][0][1] not in NOTOKENS
          and not p['set'][0][1].startswith((' ', '{a}')) and not p['set'][0][1].endswith((' ', '{a}'))]
    cases += par.pmap(single.flawed, [('f%d/%d' % (i, k), p, env.SEED) for k in range(scale(3, 8))
                                      for i, p in enumerate(fs)])
    hosts = par.pmap(single.host, [('h%d' % i, env.SEED) for i in range(scale(60, 600))])
    cases += hosts
    ck.count('flawed_receipts', len(fs))
    ck.count('hosts', len(hosts))
    for c in cases:
        for e in c['evs']:
            ck.count(e['t'] + '_events')
            if e['t'] == 'check':
                ck.count('checks_accept' if e['runs'][0]['ok'] else 'checks_reject', len(e['runs']))
    ck.sample([[e['runs'][0]['rep'], e['runs'][0]['exc'][:1]] for e in cases[0]['evs'] if e['t'] == 'check'])
    ck.judge(cases, lambda m, c: True, 'CheckJudge')
