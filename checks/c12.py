import json
import random

from harness import env, forms, par, tlc
from harness.env import scale
from harness.histcheck import cfg_text

PARTS = ['zda', 'reg', 'id', 'ts', 'sum', 'ctr', 'sig', 'serial', 'alg']


def run(ck):
    rng = random.Random('c12/%s' % env.SEED)
    r = tlc.run('GenPaths', cfg_text({'Parts': PARTS, 'Two': False, 'Emit': True,
                                      'MaxPath': scale(3, 4)}, [], 'PSpec'))
    ck.add_tlc(r, 'paths')
    ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
    ck.count('plans_enumerated', len(ps))
    # every path and every content, many combinations
    rng.shuffle(ps)
    seen, first, rest = set(), [], []
    for p in ps:
        k = [json.dumps(p['path']), json.dumps(p['set']) + p['path'][0] + p['path'][-1]]
        (rest if seen.issuperset(k) else first).append(p)
        seen.update(k)
    ps = (first + rest)[:max(len(first), scale(900, 12000))]
    jobs = [('w%d' % i, p['path'], env.SEED, p['set']) for i, p in enumerate(ps)]
    # longer ones
    jobs += [('l%d' % i, [rng.choice(forms.REPS) for _ in range(rng.randint(4, 8))], env.SEED)
             for i in range(scale(300, 5000))]
    cases = par.pmap(forms.roundtrip, jobs)
    ck.count('receipts_converted', len(cases))
    ck.count('conversions', sum(1 for c in cases for e in c['evs'] if e['t'] == 'write'))
    ck.count('hashes', sum(1 for c in cases for e in c['evs'] if e['t'] == 'hash'))
    ck.sample({'path': jobs[0][1], 'texts': [bytes(e['text']).decode('utf-8') for e in cases[0]['evs']
                                            if e['t'] != 'hash']})
    ck.judge(cases, lambda m, c: True, 'FormJudge')
