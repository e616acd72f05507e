import json
import random

from harness import derive, env, judge, par, tlc
from harness.env import scale
from harness.histcheck import cfg_text, conf, count_verdicts


def derived(cid, plan, c):
    return derive.derived(cid, plan, c, env.SEED)


def arbitrary(cid, plan, c):
    return derive.arbitrary(cid, plan, c, env.SEED)


def mine(m, case):
    ev = case['evs'][m['ev'] - 1]
    if ev['kind'] in ('update', 'arb'):
        return True
    # what comes after starting from an arbitrary receipt
    return case['evs'][0]['kind'] == 'arb' and not m['clause'].startswith('alt')


def run(ck):
    rng = random.Random('c16/%s' % env.SEED)
    k = dict(Kinds=['STD', 'DUM', 'REV'], Sigs=['ok', 'failed'])
    good = [conf(Depth=3, **k), conf(Depth=3, HasKey=False, **k),
            conf(Depth=3, Amts=['P', 'N', 'Z'], InCluster=True, IsClosed=True, Kinds=['STD', 'REV'],
                 Sigs=['ok', 'failed'])]
    if env.THOROUGH:
        good.append(conf(Depth=4, **k))
    bad = [conf(Depth=2, Chains=['good', 'bad'], Tcs=['right', 'wrong'], Ids=['fresh', 'dup'],
                Regs=['same', 'other'], Zdas=['keep', 'flip'], Tss=['up', 'down'], **dict(k, Sigs=['ok', 'failed', 'bad'])),
           conf(Depth=2, HasKey=False, IsClosed=True, InCluster=True, Chains=['good', 'bad'],
                Ids=['fresh', 'dup'], Regs=['same', 'other'], Zdas=['keep', 'flip'],
                Tss=['up', 'down'], **dict(k, Sigs=['ok', 'failed', 'bad']))]
    design = conf(Depth=scale(2, 3), Emit=False, **k)
    jobs = [(('GenHistory', cfg_text(c, [])), {'workers': 2}) for c in good + bad]
    jobs.append((('GenHistory', cfg_text(design, ['DeriveAgrees', 'SuffixAccepted'])), {'workers': 2}))
    rs = tlc.run_many(jobs, 4)
    ck.add_tlc(rs.pop(), 'design')
    dj, aj, total = [], [], 0
    for n, (c, r) in enumerate(zip(good + bad, rs)):
        ck.add_tlc(r, 'history%d' % n)
        ps = sorted((v for _t, v in r.records), key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        rng.shuffle(ps)
        if n < len(good):
            ps = [p for p in ps if p['ok']]
            dj += [('u%d-%d' % (n, i), p, c) for i, p in enumerate(ps[:scale(300, 8000)])]
        aj += [('a%d-%d' % (n, i), p, c) for i, p in enumerate(ps[:scale(110, 3000)])]
    cases = par.pmap(derived, dj)
    ck.count('plans_enumerated', total)
    ck.count('derived_states', len(cases))
    if cases:
        ck.sample({'plan': dj[0][1], 'events': [e['kind'] for e in cases[0]['evs']]})
    suffixes = [c for g in par.pmap(arbitrary, aj) for c in g]
    ck.count('starts_from_a_receipt', len(suffixes))
    cases += suffixes
    count_verdicts(ck, cases)
    ck.judged(judge.judge(cases), cases, mine)
