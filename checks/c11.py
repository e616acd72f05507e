import json
import random

from harness import docs, env, par, tlc
from harness.env import scale
from harness.histcheck import cfg_text

INV = ['KeepsContract', 'Bounded', 'RightSoFar', 'OnlyStreamGivesUp', 'PartsOK', 'Plan']


def conf(**kw):
    c = dict(Orders=docs.ORDERS, CertChoices=['none', 'chain'], MaxRecs=2, MaxGroups=2,
             Chunks=[0, 1, 2, 3], Kinds=['dict', 'file', 'stream', 'certless'], Emit=True)
    c.update(kw)
    return c


def run(ck):
    confs = [conf(Orders=scale(['SZR', 'SRZ', 'RZS'], docs.ORDERS)),
             conf(CertChoices=['bare', 'long', 'rootless'], MaxGroups=1, MaxRecs=3)]
    if not env.THOROUGH:
        confs.append(conf(CertChoices=['none'], MaxRecs=1, Chunks=[0, 1, 2]))
    else:
        confs.append(conf(CertChoices=['none', 'chain', 'bare'], Orders=['SZR', 'RSZ'], MaxGroups=3,
                          MaxRecs=1))
    rs = tlc.run_many([(('DepReader', cfg_text(c, INV)), {'workers': 4}) for c in confs], 3)
    rng = random.Random('c11/%s' % env.SEED)
    jobs, total = [], 0
    for n, (c, r) in enumerate(zip(confs, rs)):
        ck.add_tlc(r, 'reader%d' % n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v))
        total += len(ps)
        rng.shuffle(ps)
        jobs += [('d%d-%d' % (n, i), p, env.SEED, [0, 1, 2, 3])
                 for i, p in enumerate(ps[:scale(250, 3000)])]
    cases = par.pmap(docs.enumerated, jobs)
    ck.count('documents_enumerated', total)
    ck.count('documents_replayed', len(cases))
    rnd = par.pmap(docs.randomised, [('r%d' % i, env.SEED, i % 10 == 0)
                                     for i in range(scale(200, 4000))])
    ck.count('random_documents', len(rnd))
    ck.count('reads', sum(len(c['evs']) for c in cases + rnd))
    ck.sample({'document': cases[-1]['doc'], 'reads': cases[-1]['evs'][:3]})
    ck.judge(cases + rnd, lambda m, c: True, 'ReaderJudge')
