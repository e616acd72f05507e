import collections
import json
import random

from harness import env, judge, par, resume, tlc
from harness.env import scale
from harness.histcheck import cfg_text, conf, count_verdicts, random_cases


def replay(cid, plan, c):
    return resume.replay(cid, plan, c, env.SEED, scale(6, 16))


def state(cid, plan):
    return resume.state(cid, plan, env.SEED)


def run(ck):
    rng = random.Random('c09/%s' % env.SEED)
    k = dict(Kinds=['STD', 'DUM', 'REV'], Sigs=['ok', 'failed'], Ids=['fresh', 'dup'],
             Chains=['good', 'bad'], Tcs=['right', 'wrong'], Tss=['up', 'down'])
    confs = [conf(Depth=2, Amts=['P'], **k),
             conf(Depth=2, InCluster=True, IsClosed=True, Amts=['P'], **k),
             conf(Depth=scale(4, 5), Kinds=['STD', 'REV'], Sigs=['ok', 'failed'])]
    jobs = [(('GenHistory', cfg_text(c, ['SplitAgrees'] if n == 1 else [])), {'workers': 2})
            for n, c in enumerate(confs)]
    jobs.append((('GenState', cfg_text({'MaxRegs': 2, 'Emit': True}, ['RoundTrip'])), {'workers': 2}))
    rs = tlc.run_many(jobs, 4)
    states = sorted((v for t, v in rs[-1].records), key=lambda v: json.dumps(v, sort_keys=True))
    ck.add_tlc(rs[-1], 'states')
    jobs, total = [], 0
    for n, (c, r) in enumerate(zip(confs, rs)):
        ck.add_tlc(r, 'history%d' % n)
        ps = sorted((v for t, v in r.records), key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        # accepted histories have the most to get wrong
        rng.shuffle(ps)
        ps.sort(key=lambda v: not v['ok'] and rng.random() < .6)
        jobs += [('d%d-%d' % (n, i), p, c) for i, p in enumerate(ps[:scale(130, 4000)])]
    groups = par.pmap(replay, jobs)
    cases = [c for g in groups for c in g]
    ck.count('plans_enumerated', total)
    ck.count('plans_replayed', len(groups))
    ck.count('divisions_replayed', len(cases))
    ck.sample({'plan': jobs[0][1], 'divisions': [[len(e['groups']) for e in c['evs']
                                                 if e['kind'] == 'verify'] for c in groups[0]]})
    rng.shuffle(states)
    shapes = par.pmap(state, [('s%d' % i, p) for i, p in enumerate(states[:scale(400, 5000)])])
    ck.count('state_shapes', len(shapes))
    rnd = random_cases(ck, {'none': scale(60, 1000), 'restore': scale(60, 1000),
                            'cluster': scale(60, 1000), 'counter': scale(60, 1000)}, {'modes': 0})
    count_verdicts(ck, cases)
    everything = cases + shapes + rnd
    v = judge.judge(everything)
    # outcomes of one history that depend on where it was divided
    byp = collections.defaultdict(list)
    for c in cases:
        byp[c['pair']].append(c)
    uneven = {p for p, cs in byp.items() if len({json.dumps(c['outcome'], sort_keys=True)
                                                for c in cs}) > 1}
    reload_only = lambda m, c: (c['evs'][m['ev'] - 1]['kind'] == 'reload'
                                or c.get('pair') in uneven)
    ck.judged(v, everything, reload_only)

