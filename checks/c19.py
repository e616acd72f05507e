import random
from concurrent.futures import ThreadPoolExecutor

from harness import env, par, tlc, usedids
from harness.env import scale
from harness.histcheck import cfg_text, count_verdicts, random_cases

INV = ['UniqueExact', 'NaturalExact', 'NeverTwice', 'LikeOneByOne']


def gen(kind, depth, size, emit, trackers=2):
    return dict(Kind=kind, Depth=depth, Size=size, Emit=emit, Trackers=trackers)


def spread(rng, plans):
    """In an order that has every sequence of operations (with an ID or the empty one) early."""
    groups = {}
    rng.shuffle(plans)
    for p in plans:
        groups.setdefault(tuple((o['op'], o['op'] == 'add' and not o['id']) for o in p['ops']), []).append(p)
    groups = list(groups.values())
    rng.shuffle(groups)
    return [g[i] for i in range(max(map(len, groups), default=0)) for g in groups if i < len(g)]


def run(ck):
    rng = random.Random('c19/%s' % env.SEED)
    confs = [gen('U', scale(3, 4), 3, True), gen('N', scale(3, 4), 6, True),
             gen('U', 3, scale(1, 2), True, 3), gen('N', 3, scale(1, 3), True, 3),
             gen('U', scale(4, 5), scale(3, 4), False, 3), gen('N', scale(4, 5), scale(4, 7), False, 3)]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(tlc.run_many, [(('GenUsedIds', cfg_text(c, INV)), {'workers': 2}) for c in confs], 6)
        rnd = par.pmap(usedids.randomised, [('%s-%d' % (k, i), k, env.SEED) for k in 'UN'
                                            for i in range(scale(120, 4000))])
        rnd += par.pmap(usedids.many, [('%s-many-%d' % (k, i), k, env.SEED) for k in 'UN'
                                       for i in range(scale(8, 200))])
        # whole verifications with either tracking
        hs = random_cases(ck, {'cont': scale(60, 1500), 'cluster': scale(60, 1500), 'none': scale(30, 500)},
                          {'modes': 3, 'natural': .8})
        rs = fut.result()
    jobs = []
    for r, c in zip(rs, confs):
        ck.add_tlc(r, '%s%d' % (c['Kind'], c['Depth']))
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=repr)
        ck.count('plans_enumerated', len(ps))
        ps = spread(rng, ps)
        jobs += [('%s-%d' % (p['kind'].lower(), i), p, env.SEED) for i, p in enumerate(ps[:scale(1200, 25000)])]
    cases = par.pmap(usedids.replay, jobs)
    ck.count('plans_replayed', len(cases))
    ck.count('random_sequences', len(rnd))
    ck.sample({'plan': jobs[0][1], 'answers': cases[0]['evs'][-1]['trk']})
    ck.judge(cases + rnd, lambda m, c: True, 'UsedJudge')
    count_verdicts(ck, hs)
    ck.judge(hs)
