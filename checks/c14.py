import json
import random

from harness import env, par, stores, tlc
from harness.env import scale
from harness.histcheck import cfg_text

INV = ['Maps', 'LastWins', 'SameKey', 'NormalForm', 'LoadIdem', 'Plan']
CMDS = ['create', 'list', 'add-C1', 'add-C2', 'add-CN', 'add-bad', 'key-a', 'key-0A', 'key-S', 'key-bad', 'del-a', 'del-0A',
        'del-S', 'set', 'set2', 'set-none', 'set-bad', 'unset', 'show', 'export', 'import', 'import-bad', 'usage', 'lost',
        'spoilt']


def tool_cfg(cmds, steps, emit=True):
    return cfg_text(dict(Cmds=cmds, MaxSteps=steps, Emit=emit), ['StoreIsMap', 'Plan']) + 'PROPERTY FailKeeps\nPROPERTY Local\n'


def run(ck):
    rng = random.Random('c14/%s' % env.SEED)
    confs = [dict(Ids=scale(['0A', 'S:1'], ['a', '0A', 'S:1']), CertNames=['C1', 'CN'], MaxSteps=3, Reloads=['json', 'ini'], Emit=True),
             dict(Ids=scale(['-a', '10'], ['-a', '10', 'zz']), CertNames=scale(['C1x', 'C2'], ['C1', 'C2', 'C1x']), MaxSteps=3, Reloads=['json', 'ini'], Emit=True)]
    jobs = [(('GenStore', cfg_text(c, INV)), {'workers': 2}) for c in confs]
    jobs.append((('GenStore', cfg_text(dict(Ids=['a', '0A', '-a', '10', 'S:1', 'zz'], CertNames=['C1', 'C2', 'CN', 'C1x'], MaxSteps=12,
                                            Reloads=['json', 'ini'], Emit=True), INV)),
                 {'workers': 1, 'simulate': scale(300, 6000), 'depth': 13, 'seed': env.SEED}))
    jobs.append((('GenContainer', cfg_text(dict(MaxEntries=2, MaxFlaws=2, Emit=True), ['Plan'])), {'workers': 1}))
    jobs.append((('GenKeyTool', tool_cfg(CMDS, scale(3, 4), not env.THOROUGH)), {'workers': 2}))
    jobs.append((('GenKeyTool', tool_cfg(CMDS, 10)), {'workers': 1, 'simulate': scale(150, 4000), 'depth': 11, 'seed': env.SEED}))
    rs = tlc.run_many(jobs, 6)
    names = ['store0', 'store1', 'storesim', 'container', 'tool', 'toolsim']
    plans = []
    for n, r in zip(names, rs):
        ck.add_tlc(r, n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_' + n, len(ps))
        rng.shuffle(ps)
        plans.append(ps)
    cases = []
    for n, ps, k in ((0, plans[0], scale(900, 15000)), (1, plans[1], scale(900, 15000)), (2, plans[2], scale(300, 6000))):
        cases += par.pmap(stores.planned, [('s%d-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:k])])
    # containers with one flaw all, twice; those with two in part
    one = [p for p in plans[3] if sum(x['flaw'] != '-' for x in p['entries']) < 2]
    two = [p for p in plans[3] if sum(x['flaw'] != '-' for x in p['entries']) == 2]
    todo = [('k%d-%d' % (k, i), p, env.SEED) for k in range(scale(4, 40)) for i, p in enumerate(one)]
    todo += [('kk%d' % i, p, env.SEED) for i, p in enumerate(two[:scale(300, 5000)])]
    cases += par.pmap(stores.container, todo)
    ck.count('containers', len(todo))
    cases += par.pmap(stores.randomised, [('r%d' % i, env.SEED) for i in range(scale(500, 12000))])
    tool = par.pmap(stores.tool_planned, [('t%d' % i, p, env.SEED) for i, p in
                                          enumerate(plans[4][:scale(500, 0)] + plans[5][:scale(150, 4000)])])
    tool += par.pmap(stores.tool_random, [('tr%d' % i, env.SEED) for i in range(scale(120, 3000))])
    for c in tool:
        for e in c['evs']:
            ck.count('cmd_' + e['cmd'] + ('' if e['ok'] else '_refused'))
    ck.sample([{k: e[k] for k in ('t', 's', 'id', 'key', 'cert', 'ok', 'get')} for e in cases[0]['evs']])
    ck.sample([e['argv'] for e in tool[0]['evs']])
    ck.judge(cases + tool, lambda m, c: True, 'StoreJudge')
