import json
import random

from harness import demos, env, par, registers, tlc
from harness.env import scale
from harness.histcheck import cfg_text

INV = ['Valid', 'Agree', 'Counts', 'Restored', 'Plan']
BASE = dict(Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'P', 'N', 'B'], Devs=['ok', 'failed', 'raises'], Bads=['id', 'reply'],
            IsClosed=False, InCluster=False, Restarts=True, Depth=4, Emit=True)


def conf(**kw):
    return cfg_text(dict(BASE, **kw), INV)


def run(ck):
    rng = random.Random('c15/%s' % env.SEED)
    # the first receipt is nearly fixed, so one step more than it seems
    names = ['open', 'closed', 'faults', 'long', 'sim']
    jobs = [(('GenRegister', conf(Depth=scale(3, 4), Amts=['Z', 'P', 'B'], Bads=['reply'])), {'workers': 2}),
            (('GenRegister', conf(Depth=scale(3, 4), IsClosed=True, InCluster=True, Amts=['Z', 'P', 'C'], Devs=['ok', 'ok2', 'failed'],
                                  Bads=['reply'])), {'workers': 2}),
            (('GenRegister', conf(Depth=2, Amts=['Z', 'P'], Bads=registers.BADS)), {'workers': 1}),
            # the failure protocol, deeper
            (('GenRegister', conf(Depth=scale(5, 8), Kinds=['STD', 'REV'], Amts=['Z', 'P'], Devs=['ok', 'failed'], Bads=[],
                                  Restarts=False)), {'workers': 2}),
            (('GenRegister', conf(Depth=14, Devs=['ok', 'ok2', 'failed', 'raises'], Amts=['Z', 'P', 'N', 'C', 'B'], Bads=registers.BADS)),
             {'workers': 1, 'simulate': scale(150, 5000), 'depth': 15, 'seed': env.SEED})]
    rs = tlc.run_many(jobs, 5)
    todo = []
    for n, r, k in zip(names, rs, (scale(500, 12000), scale(500, 12000), 10 ** 6, scale(400, 10000), 10 ** 6)):
        ck.add_tlc(r, n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_' + n, len(ps))
        rng.shuffle(ps)
        todo += [('%s-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:k])]
    cases = par.pmap(registers.planned, todo)
    cases += par.pmap(registers.randomised, [('r%d' % i, env.SEED) for i in range(scale(400, 12000))])
    for c in cases:
        for e in c['evs']:
            ck.count('restart' if e['t'] != 'make' else ('made_' if e['done'] else 'refused_') + (e['bad'] or e['dev']))
    ck.sample([{k: e.get(k) for k in ('t', 'g', 'req', 'dev', 'bad', 'done')} for e in cases[-1]['evs'][:6]])
    ck.judge(cases, lambda m, c: True, 'RegisterJudge')
    ds = par.pmap(demos.run, [('demo-%d' % i, [0, 1, 2, 3, rng.randint(4, 40)][i % 5], i // 5 % 2 == 0, i < 5)
                              for i in range(scale(20, 200))])
    ck.count('demo_registers', len(ds))
    ck.judge(ds, lambda m, c: m['clause'] in ('made', 'rules'))
