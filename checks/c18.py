import random
from concurrent.futures import ThreadPoolExecutor

from harness import env, errors, tlc
from harness.env import scale
from harness.histcheck import cfg_text


def gen(**kw):
    c = dict(MaxN=4, Faults=['sig'], Initial=errors.INITIAL, Follow=errors.FOLLOW, Third=errors.THIRD,
             Second=errors.SECOND, Chunks=[0, 1, 2, 3], Procs=[1, 2, 3], Lossy=[], Stuck=[],
             Run=False, Emit=False)
    c.update(kw)
    return c


def job(c, inv=(), spec='Spec', extra=''):
    return (('GenErrors', cfg_text(c, inv, spec) + extra), {'workers': 2})


def run(ck):
    rng = random.Random('c18/%s' % env.SEED)
    small = dict(Faults=['sig', 'chain'], Second=['sig'], MaxN=scale(3, 4), Run=True)
    inv = ['Truthful', 'InOrder']
    design = [job(gen(Faults=errors.FAULTS, MaxN=scale(4, 5), Emit=True)),
              job(gen(**small), inv),
              job(gen(**small), (), 'Fair', 'PROPERTY Ends\n'),
              # the properties of the design notice a fault that is not handed on faithfully
              job(gen(Lossy=['chain'], **small), inv),
              job(gen(Stuck=['chain'], **small), (), 'Fair', 'PROPERTY Ends\n')]
    cls = sorted(errors.classes())
    ck.count('exception_classes', len(cls))
    k = scale(8, 60)
    tjobs = [('t-%s.%s-%d' % (m.split('.')[-1], n, i), m, n, env.SEED, i < scale(3, 10))
             for m, n in cls for i in range(k)]
    ojobs = [('o-%d' % i, env.SEED) for i in range(scale(300, 4000))]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(tlc.run_many, design, 4)
        rs = fut.result()
    for r, name in zip(rs[:3], ['plans', 'failing', 'ending']):
        ck.add_tlc(r, name)
    for r, name in zip(rs[3:], ['a lossy', 'a stuck']):
        ck.count('tlc_broken_design_states', r.states)
        if not r.violation:
            ck.errors.append('the properties of the design do not notice %s fault' % name)
    ps = sorted((v for t, v in rs[0].records if t == 'PLAN'), key=repr)
    ck.count('plans_enumerated', len(ps))
    # every fault class in every place, the rest chosen
    want, left, per = [], [], {}
    rng.shuffle(ps)
    for p in ps:
        key = tuple((x['at'], x['f']) for x in p['at'][:1]) + (len(p['at']),)
        per[key] = per.get(key, 0) + 1
        (want if per[key] <= scale(2, 30) else left).append(p)
    want += left[:scale(250, 4000)]
    rjobs = [('p-%d' % i, p, env.SEED) for i, p in enumerate(want)]
    ck.count('plans_replayed', len(want))
    cases = errors.fork_map(errors._runs, rjobs, 8, 3000 if env.THOROUGH else 200, ck.errors)
    ck.sample({'plan': want[0], 'observed': [e['obs']['exc'][:1] for e in cases[0]['evs'] if 'obs' in e]})
    t = errors.fork_map(errors._transfers, tjobs, 8, 3000 if env.THOROUGH else 200, ck.errors)
    o = errors.fork_map(errors._odds, ojobs, 8, 3000 if env.THOROUGH else 200, ck.errors)
    some = [p for p in want if p['n'] >= 2 and p['at']]
    sjobs = [('s-%s%d' % (m, i), m, some[(i * 7 + 1) % len(some)], env.SEED)
             for m in ('spawn', 'forkserver') for i in range(scale(4, 40))]
    s = errors.fork_map(errors._spawned, sjobs, 8, 3000 if env.THOROUGH else 200, ck.errors)
    for kind, part in (('runs', cases), ('transfers', t), ('unusual', o), ('spawned', s)):
        ck.count(kind, len(part))
    cases += t + o + s
    for c in cases:
        for e in c['evs']:
            if 'obs' in e:
                ck.count('verdicts_accept' if e['obs']['ok'] else 'verdicts_reject')
    ck.judge(cases, lambda m, c: True, 'ErrorJudge')
