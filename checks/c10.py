from harness import derive, env, par, plans, trust
from harness.env import scale
from harness.histcheck import count_verdicts, enumerate_and_replay, random_cases

ALL = ['start', 'startreg', 'cont', 'contdup', 'startdup', 'contbad', 'startbad']


def conf(**k):
    c = {'Depth': 3, 'Idxs': [99, 98, 0, 1, 2, 3], 'Shapes': ALL, 'IsClosed': True,
         'MaxRej': 1, 'Emit': True}
    c.update(k)
    return c


def replay(cid, plan, c):
    return trust.cluster(cid, plan, c['IsClosed'], env.SEED, 1)


def beside(cid, n):
    """A register whose start receipt is not known is not followed by another."""
    p = [dict(plans.GOOD, amt=a) for a in 'ZPNP'[:n]]
    return derive.arbitrary(cid, {'p': p}, {'IsClosed': True, 'HasKey': n % 2, 'InCluster': False},
                            env.SEED)


def selection(m, case):
    ev = case['evs'][m['ev'] - 1]
    return case['evs'][0]['kind'] != 'arb' or (ev['kind'] == 'verify' and ev['idx'] != 0)


def run(ck):
    confs = [conf(Depth=2, MaxRej=2, Shapes=['start', 'cont', 'startbad', 'startdup', 'startreg']),
             conf(Depth=4, Shapes=['start', 'cont', 'contbad', 'contdup', 'startdup'],
                  Idxs=[99, 0, 1, 2]),
             conf(Depth=3, Idxs=[99, 0, 1], IsClosed=False, MaxRej=2,
                  Shapes=['start', 'cont', 'startbad']),
             conf(Depth=3, Idxs=[99, 0, 1], MaxRej=2, Shapes=['start', 'cont', 'startother']),
             conf(Depth=3, Idxs=[99, 0, 1], IsClosed=False, MaxRej=2, Shapes=['start', 'cont', 'startother'])]
    if env.THOROUGH:
        confs += [conf(Depth=4, MaxRej=2), conf(Depth=5, Shapes=['start', 'cont', 'contbad'],
                                               Idxs=[99, 0, 1, 2, 3, 4])]
    cases = enumerate_and_replay(ck, 'GenCluster', confs,
                                 ['Untouched', 'ChainOfStarts', 'Gapless', 'ClosedOnly'],
                                 replay, limit=scale(500, 12000))
    cases += random_cases(ck, {'cluster': scale(500, 8000)})
    count_verdicts(ck, cases)
    cases += [x for g in par.pmap(beside, [('b%d' % i, 1 + i % 4) for i in range(scale(40, 400))]) for x in g]
    ck.judge(cases, selection)
