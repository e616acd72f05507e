import json
import random

from harness import env, par, remote, tlc
from harness.env import scale
from harness.histcheck import cfg_text

from .c15 import INV

FAILS = sorted(remote.FAILS)
BASE = dict(Kinds=['STD', 'DUM', 'REV'], Amts=['Z', 'P'], Devs=['ok'] + FAILS, Bads=[], IsClosed=False, InCluster=False,
            Restarts=True, Depth=4, Emit=True)


def conf(**kw):
    return cfg_text(dict(BASE, **kw), INV)


def run(ck):
    rng = random.Random('c23/%s' % env.SEED)
    names = ['open', 'cluster', 'long', 'sim']
    jobs = [(('GenRegister', conf(Depth=3)), {'workers': 2}),
            (('GenRegister', conf(Depth=3, IsClosed=True, InCluster=True, Kinds=['STD', 'REV'], Amts=['Z', 'N'],
                                  Devs=['ok', 'ok2', 'down', 'altered'])), {'workers': 1}),
            (('GenRegister', conf(Depth=scale(5, 8), Kinds=['STD', 'REV'], Devs=['ok', 'down'], Restarts=False)), {'workers': 2}),
            (('GenRegister', conf(Depth=14, Devs=['ok', 'ok2', 'raises'] + FAILS, Amts=['Z', 'P', 'N', 'C'])),
             {'workers': 1, 'simulate': scale(150, 5000), 'depth': 15, 'seed': env.SEED})]
    rs = tlc.run_many(jobs, 4)
    todo = []
    for n, r, k in zip(names, rs, (scale(500, 8000), scale(300, 8000), scale(250, 6000), 10 ** 6)):
        ck.add_tlc(r, n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_' + n, len(ps))
        rng.shuffle(ps)
        todo += [('%s-%d' % (n, i), p, env.SEED) for i, p in enumerate(ps[:k])]
    # every failure of the service in every kind of receipt, both ways
    step = lambda kind, amt, dev: {'what': 'receipt', 'kind': kind, 'amt': amt, 'dev': dev, 'bad': '', 'ok': True}
    for real in (False, True):
        for cls in FAILS:
            for m in (remote.REAL if real else remote.FAILS)[cls]:
                for kind, amt in (('STD', 'P'), ('STD', 'Z'), ('DUM', 'Z'), ('REV', 'N')):
                    if real and kind != 'STD' and not env.THOROUGH:
                        continue
                    p = {'closed': False, 'cluster': False,
                         'script': [step('STD', 'Z', 'ok'), step('STD', 'P', 'ok'), step(kind, amt, cls), step('REV', 'N', cls),
                                    step('STD', 'P', 'ok'), step('STD', 'Z', 'ok'), step('STD', 'P', 'ok')]}
                    todo.append(('m-%s-%s-%s%s-%s' % (real, m, kind, amt, cls), p, env.SEED, real, m))
    cases = par.pmap(remote.planned, todo)
    cases += par.pmap(remote.randomised, [('r%d' % i, env.SEED) for i in range(scale(150, 4000))])
    cases += par.pmap(remote.randomised, [('real%d' % i, env.SEED, True) for i in range(scale(24, 150))])
    for c in cases:
        for e in c['evs']:
            ck.count('service_' + e['mode'] if e['t'] == 'make' else 'restart')
    ck.sample([{k: e.get(k) for k in ('t', 'req', 'dev', 'mode', 'done')} for e in cases[-1]['evs'][:6]])
    ck.judge(cases, lambda m, c: True, 'RegisterJudge')
