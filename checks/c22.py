import json
import random

from harness import docs, env, par, tlc
from harness.env import scale
from harness.histcheck import cfg_text


def run(ck):
    confs = [dict(Certs=['bare', 'chain'], Orders=['SZR', 'SRZ', 'RZS'], MaxRecs=2, MaxGroups=2, TwoFlaws=False, Emit=True),
             dict(Certs=['none', 'chain'], Orders=scale(['RSZ'], ['RSZ', 'SZR']), MaxRecs=1, MaxGroups=2, TwoFlaws=True, Emit=True),
             dict(Certs=['none', 'rootless'], Orders=['SZR', 'SRZ', 'RZS'], MaxRecs=2, MaxGroups=scale(1, 2), TwoFlaws=False, Emit=True)]
    jobs = [(('DepFlaws', cfg_text(c, ['Sane'])), {'workers': 2}) for c in confs]
    jobs.append((('StateFlaws', cfg_text({'MaxRegs': 3, 'Emit': True}, [])), {'workers': 1}))
    rs = tlc.run_many(jobs, 3)
    rng = random.Random('c22/%s' % env.SEED)
    todo, total = [], 0
    for n, (c, r) in enumerate(zip(confs, rs)):
        ck.add_tlc(r, 'flaws%d' % n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        rng.shuffle(ps)
        # every place of a flaw at least once, then a selection
        seen, first, rest = set(), [], []
        for p in ps:
            key = json.dumps([sorted([f['w'], f['g'], f['e']] for f in p['flaws']),
                              len(p['shape'])] + [p['shape'][f['g'] - 1]['o'] for f in p['flaws'] if f['g']])
            (rest if key in seen else first).append(p)
            seen.add(key)
        ps = (first + rest)[:scale(700, 12000)]
        todo += [('f%d-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps)]
    cases = par.pmap(docs.flawed, todo)
    cases = [c for c in cases if c['evs']]
    ck.count('flawed_documents_enumerated', total)
    ck.count('flawed_documents_replayed', len(cases))
    ck.add_tlc(rs[-1], 'stateflaws')
    ps = sorted((v for t, v in rs[-1].records), key=lambda v: json.dumps(v, sort_keys=True))
    states = par.pmap(docs.state_cases, [('s%d-%d' % (i, k), p, env.SEED) for i, p in enumerate(ps)
                                         for k in range(scale(2, 10))])
    ck.count('saved_states', sum(len(c['evs']) for c in states))
    ck.count('reads', sum(len(c['evs']) for c in cases))
    ck.sample({'flaws': cases[0]['flaws'], 'read': cases[0]['evs'][0]})
    ck.judge(cases + states, lambda m, c: True, 'ReaderJudge')
