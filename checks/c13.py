import json
import random

from harness import env, par, tlc, tools
from harness.env import scale
from harness.histcheck import cfg_text

INV = ['RightSoFar', 'Merged', 'SplitOK', 'MergeUndoesSplit', 'Idempotent', 'Plan']
STREAM = ['SeesJoined', 'EndsRight', 'Plan']


def run(ck):
    rng = random.Random('c13/%s' % env.SEED)
    confs = [dict(CertChoices=['none', 'bare', 'short'], MaxRecs=scale(1, 2), MaxGroups=2, MaxDocs=2, Chunks=scale([1, 2], [1, 2, 9]), Emit=True),
             dict(CertChoices=['bare', 'short', 'rootless', 'turned', 'long', 'none', 'chain', 'own', 'twice',
                              'twin', 'twins'], MaxRecs=scale(1, 2), MaxGroups=2, MaxDocs=1,
                  Chunks=[1, 2, 3], Emit=True),
             dict(CertChoices=['bare', 'short'], MaxRecs=2, MaxGroups=scale(3, 4), MaxDocs=1, Chunks=[2, 3], Emit=True)]
    sconf = dict(CertChoices=['bare', 'short', 'twin'], MaxRecs=scale(1, 2), MaxStart=3, MaxGroups=3, MaxSteps=scale(5, 6), Emit=True)
    jobs = [(('DepTools', cfg_text(c, INV)), {'workers': 2}) for c in confs]
    jobs += [(('DepStream', cfg_text(dict(sconf, Joining=j), STREAM)), {'workers': 2}) for j in (True, False)]
    # longer behaviours
    jobs += [(('DepStream', cfg_text(dict(sconf, MaxStart=3, MaxGroups=6, MaxSteps=18, MaxRecs=2, Joining=True, CertChoices=['none', 'bare', 'short', 'twin']), STREAM)),
              {'workers': 1, 'simulate': scale(500, 10000), 'depth': 20, 'seed': env.SEED})]
    rs = tlc.run_many(jobs, 6)
    todo, total = [], 0
    for n, r in enumerate(rs[:3]):
        ck.add_tlc(r, 'tools%d' % n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        rng.shuffle(ps)
        todo += [('t%d-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:scale(180, 5000)])]
    cases = par.pmap(tools.planned, todo)
    ck.count('plans_enumerated', total)
    rnd = par.pmap(tools.randomised, [('r%d' % i, env.SEED) for i in range(scale(120, 4000))])
    ck.count('random_documents', len(rnd))
    cases += rnd
    todo = []
    for n, r in enumerate(rs[3:]):
        ck.add_tlc(r, 'stream%d' % n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('stream_behaviours', len(ps))
        rng.shuffle(ps)
        todo += [('s%d-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:scale(700, 20000)])]
    streams = par.pmap(tools.streamed, todo)
    for c in cases + streams:
        for e in c['evs']:
            ck.count(e['t'] + '_events')
    ck.sample({'docs': cases[0]['docs'], 'events': [[e['t'], e['ok']] for e in cases[0]['evs']]})
    ck.sample(todo[-1][1]['script'])
    late, same = [], []

    def mine(m, c):
        if m['clause'] in ('extract-late-certificates', 'extract-same-serial'):
            (late if 'late' in m['clause'] else same).append(m)
            return False
        return True
    ck.judge(cases + streams, mine, 'ToolsJudge')
    if late and not ck.finding('extract-late', 'cert_extract.py leaves out the certificates of a group that stand after '
                               'receipts at which a chunk (RKSV_DEP_CHUNKSIZE) ends'):
        ck.violation('extract-late-certificates', late[0])
    if same and not ck.finding('extract-same-serial', 'cert_extract.py keeps only the last of several certificates that have '
                               'the same serial'):
        ck.violation('extract-same-serial', same[0])
