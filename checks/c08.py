import multiprocessing
import random
from concurrent.futures import ThreadPoolExecutor

from harness import derive, env, hist, par, plans, rich, tlc, world as w
from harness.env import scale
from harness.histcheck import cfg_text, conf, count_verdicts, random_cases

BASE = dict(MaxTail=1, ChunkSizes=[0, 1, 2, 3], Procs=[1, 2, 3], Pipe=True, Emit=False)


def replay(cid, plan, c):
    return plans.replay(cid, plan, c, env.SEED, 'all')


def midway(cid, plan, c):
    return derive.arbitrary(cid, plan, c, env.SEED, modes=3)


def differs(m, case):
    """Some mode gave another outcome than going through in order."""
    ev = case['evs'][m['ev'] - 1]
    if ev['kind'] != 'verify':
        return False
    o = ev['obs']
    for a in ev['alts']:
        if a['ok'] != o['ok'] or (a['ok'] and (a['has'], a['st']) != (o['has'], o['st'])):
            return True
        if not a['ok'] and 'RKSVException' not in a['exc']:
            return 'RKSVException' in o['exc']
    return False


def job(c, inv=(), spec='PSpec', extra='', workers=2):
    return (('Pipeline', cfg_text(c, inv, spec) + extra), {'workers': workers, 'timeout': 3000})


def run(ck):
    rng = random.Random('c08/%s' % env.SEED)
    k3 = ['STD', 'DUM', 'REV']
    gen = dict(BASE, Pipe=False, Emit=True)
    confs = [conf(Depth=3, Kinds=k3, Sigs=['ok', 'failed'], Ids=['fresh', 'dup'],
                  Chains=['good', 'bad'], Tcs=['right', 'wrong'], **gen),
             conf(Depth=4, Kinds=['STD', 'REV'], Amts=['P', 'Z'], Sigs=['ok', 'failed'],
                  **dict(gen, MaxTail=2)),
             conf(Depth=4, HasKey=False, Kinds=['STD'], Amts=['P', 'Z'], Sigs=['ok', 'failed', 'bad'],
                  Ids=['fresh', 'dup'], IsClosed=True, InCluster=True, **dict(gen, MaxTail=0))]
    # the design: every schedule gives the outcome of going through in order
    design = [job(conf(Depth=scale(2, 3), Kinds=scale(['STD', 'REV'], k3), Amts=scale(['P'], ['Z', 'P']),
                       Sigs=['ok', 'failed'], Chains=['good', 'bad'], Ids=['fresh', 'dup'],
                       Tcs=['right', 'wrong'], **BASE), ['SameOutcome', 'NoLostError'], workers=4),
              job(conf(Depth=scale(1, 2), Kinds=['STD'], Amts=['P'], Sigs=['ok', 'failed'],
                       Chains=['good', 'bad'], **BASE), (), 'Fair', 'PROPERTY Ends\n')]
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(tlc.run_many, design, 2)
        # the histories to replay in all modes
        jobs, mid, total = [], [], 0
        for n, (c, r) in enumerate(zip(confs, tlc.run_many([job(c) for c in confs], 3))):
            ck.add_tlc(r, 'plans%d' % n)
            ps = [v for t, v in r.records if t == 'PLAN']
            ps.sort(key=lambda p: repr(sorted(p.items())))
            total += len(ps)
            rng.shuffle(ps)
            jobs += [('p%d-%d' % (n, i), p, c) for i, p in enumerate(ps[:scale(130, 3000)])]
            if n:
                mid += [('m%d-%d' % (n, i), p, c) for i, p in enumerate(ps[:scale(70, 1500)])]
        cases = par.pmap(replay, jobs)
        starts = [x for g in par.pmap(midway, mid) for x in g]
        ck.count('starts_from_a_receipt', len(starts))
        ck.count('plans_enumerated', total)
        ck.count('plans_replayed', len(cases))
        ck.sample({'plan': jobs[0][1], 'modes': [a['mode'] for a in cases[0]['evs'][-1]['alts']][:6]})
        cases += starts
        cases += random_cases(ck, {'none': scale(40, 600), 'cont': scale(60, 1500),
                                   'restore': scale(60, 1500), 'counter': scale(60, 1500),
                                   'cluster': scale(60, 1500), 'sig': scale(40, 600)}, {'modes': 6, 'natural': .25})
        count_verdicts(ck, cases)
        cases += real_pool(ck, rng)
        for r, name in zip(fut.result(), ['schedules', 'progress']):
            ck.add_tlc(r, name)
    ck.judge(cases, relevant=differs)
    certless_groups(ck, rng)


def real_pool(ck, rng):
    """Some histories with worker processes."""
    out = []
    ctx = multiprocessing.get_context('fork')
    for i in range(scale(24, 150)):
        focus = rng.choice(['none', 'cont', 'restore', 'counter', 'sig', 'chain'])
        with ctx.Pool(3) as pool:
            out.append(rich.make('pool-%d' % i, env.SEED, focus,
                                 {'modes': 0, 'realpool': pool, 'nregs': 1}))
    ck.count('worker_process_histories', len(out))
    return out


def certless_groups(ck, rng):
    """Several groups without certificates: whether the second one is noticed."""
    m = rich.Maker('certless', env.SEED, 'none', {'mode': 'store', 'nregs': 1, 'n': 4,
                                                  'closed': True})
    from harness import scen
    reg = scen.Reg('REG', m.devs[0].setup, 8)
    items = [j for j, _d in m.build(reg, 4, {})]
    groups = [(None, [], items[:1]), (None, [], items[1:])]
    verdicts = {}
    for mode in [('dep',)] + [('par', 'dict', c, 1, None) for c in (0, 1, 2, 3)]:
        case = hist.Case('certless', m.env)
        _v, e = case._run(mode, groups, case.state, None)
        verdicts[repr(mode)] = e is None
    if len(set(verdicts.values())) > 1:
        what = ('a DEP of several groups without certificates is rejected or accepted '
                'depending on the chunk size')
        if not ck.finding('certless-groups', what):
            ck.violation(what, {'verdicts': verdicts, 'groups': hist.dep_json(groups)})
