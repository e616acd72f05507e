import json
import random

from harness import env, par, scenario, tlc
from harness.env import scale
from harness.histcheck import cfg_text

INV = ['Complete', 'OneRegister', 'References', 'ByDevice', 'Verifies']
BASE = dict(Depth=4, Kinds=['STD'], Amts=['Z'], Devs=[0], Sigs=['ok'], News=['no', 'dep', 'cluster'], ClosedOnes=True,
            GroupedOnes=False, Emit=True)


def conf(**kw):
    c = dict(BASE, **kw)
    inv = c.pop('inv', INV)
    t = cfg_text({k: v for k, v in c.items() if k not in ('ClosedOnes', 'GroupedOnes')}, inv)
    for k in ('ClosedOnes', 'GroupedOnes'):
        t += 'CONSTANT %s = {%s}\n' % (k, 'TRUE, FALSE' if c[k] is None else str(c[k]).upper())
    return t


def run(ck):
    rng = random.Random('c24/%s' % env.SEED)
    every = dict(Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'P', 'N'], Sigs=['ok', 'failed'])
    jobs = [(('GenScenario', conf(Depth=scale(5, 6))), {'workers': 3}),
            (('GenScenario', conf(Depth=scale(4, 5), Devs=[0, 1], GroupedOnes=True)), {'workers': 3}),
            (('GenScenario', conf(Depth=scale(5, 7), Devs=[0, 1], ClosedOnes=False, GroupedOnes=None, News=['no', 'dep'])), {'workers': 2}),
            (('GenScenario', conf(Depth=scale(3, 4), News=['no', 'dep'], ClosedOnes=None, **every)), {'workers': 2}),
            (('GenScenario', conf(Depth=12, Devs=[0, 1], ClosedOnes=None, GroupedOnes=None, inv=[], **every)),
             {'workers': 1, 'simulate': scale(25, 120), 'depth': 13, 'seed': env.SEED})]
    rs = tlc.run_many(jobs, 5)
    todo, dev = [], []
    for n, r, k in zip(['order', 'groups', 'open', 'kinds', 'long'], rs,
                       [scale(372, 10 ** 5), scale(300, 8000), scale(250, 6000), scale(250, 6000), scale(150, 3000)]):
        ck.add_tlc(r, n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_' + n, len(ps))
        rng.shuffle(ps)
        todo += [('%s-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:k])]
        dev += [('d%s-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:scale(150, 3000)])]
    cases = par.pmap(scenario.planned, todo)
    cases += par.pmap(scenario.deviating, dev)
    for c, _h in cases:
        ck.count('receipts', len(c['ins']))
        ck.count('deps', len(c['deps']))
    ck.sample({'id': cases[0][0]['id'], 'ins': [[i['new'], i['cont'], i['dev'], i['kind']] for i in cases[0][0]['ins']]})
    slipped = {}

    def relevant(m, c):
        if m['clause'] != 'references-slip':
            return True
        slipped[c['id']] = c
        return False
    ck.judge([c for c, _h in cases], relevant, 'ScenarioJudge')
    ck.count('slipped_references', len(slipped))
    if slipped and not ck.finding('new-register-after-continue', 'run_test.py: in a scenario that starts a new register '
                                  'after continuing an older one, later DEPs refer to the wrong previous DEP'):
        ck.violation('a DEP refers to the wrong previous DEP after a new register', slipped[sorted(slipped)[0]])
    # where the references are wrong the receipts are taken for other registers'
    ck.judge([h for c, h in cases if h and c['id'] not in slipped], lambda m, c: m['clause'] == 'rules')
