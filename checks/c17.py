import json
import random

from harness import env, forms, par, tlc
from harness.env import scale
from harness.histcheck import cfg_text

PARTS = ['alg', 'zda', 'reg', 'id', 'ts', 'sum', 'ctr', 'chain', 'sig', 'serial', 'head', 'shape']
READING = ('refused', 'accepted', 'not-a-receipt-error', 'wrong-error')


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run(ck):
    rng = random.Random('c17/%s' % env.SEED)
    rs = tlc.run_many([(('GenForm', cfg_text({'Parts': PARTS, 'Two': two, 'Emit': True}, [])),
                        {'workers': 4}) for two in (False, True)], 2)
    jobs = []
    for n, r in enumerate(rs):
        ck.add_tlc(r, ['single', 'double'][n])
        ps = sorted((v for t, v in r.records if t == 'PLAN'),
                    key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_enumerated', len(ps))
        if n:
            rng.shuffle(ps)
            ps = ps[:scale(1500, 60000)]
        else:
            ps = ps * scale(2, 20)
        ck.count('texts_planned', len(ps))
        jobs += [('p%d-%d' % (n, i), c, env.SEED) for i, c in enumerate(chunks(ps, 1))]
    cases = par.pmap(forms.planned, jobs)
    ed = par.pmap(one_edit, [(rep, lev, i) for i in range(scale(20, 400)) for rep, lev in
                             [('jws', 'text'), ('jws', 'payload'), ('qr', 'text'), ('ocr', 'text'),
                              ('csv', 'text')]])
    for c in ed:
        cases += c
    ck.count('texts_edited', sum(len(c) for c in ed))
    for c in cases:
        ck.count('accepted' if c['evs'][0]['ok'] else 'refused')
    ck.sample({'text': bytes(cases[0]['evs'][0]['text']).decode('utf-8', 'replace'),
               'ok': cases[0]['evs'][0]['ok'], 'exc': cases[0]['evs'][0]['exc'][:1]})
    ck.judge(cases, lambda m, c: m['clause'] in READING, 'FormJudge')


def one_edit(rep, lev, i):
    c = forms.edits('e-%s-%s-%d' % (rep, lev, i), rep, env.SEED, 15, lev)
    return [{'id': '%s/%d' % (c['id'], k), 'evs': [e]} for k, e in enumerate(c['evs'])]
