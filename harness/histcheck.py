"""What the checks of the history properties have in common."""
import json
import random
from concurrent.futures import ThreadPoolExecutor

from . import env
from . import par
from . import plans
from . import rich
from . import tlc

INVARIANTS = ['CounterIsSum', 'NeedMeaning', 'StartIsFirst', 'UniqueIds', 'Monotone',
              'DeriveAgrees', 'TamperEvident', 'SuffixAccepted', 'SplitAgrees']

BASE = {
    'Depth': 2, 'FreeFirst': False, 'HasKey': True, 'IsClosed': False,
    'InCluster': False, 'Kinds': ['STD'], 'Amts': ['Z', 'P'], 'Sigs': ['ok'],
    'Chains': ['good'], 'Tcs': ['right'], 'Ids': ['fresh'], 'Regs': ['same'],
    'Zdas': ['keep'], 'Tss': ['up'], 'MaxDev': 1, 'TailOnly': False, 'Start': 'blank', 'Emit': True,
}


def cfg_text(conf, invariants=INVARIANTS, spec='Spec'):
    out = ['SPECIFICATION ' + spec]
    for k, v in conf.items():
        if isinstance(v, bool):
            t = 'TRUE' if v else 'FALSE'
        elif isinstance(v, (list, tuple, set)):
            t = '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + '}'
        elif isinstance(v, str):
            t = '"%s"' % v
        else:
            t = str(v)
        out.append('CONSTANT %s = %s' % (k, t))
    out += ['INVARIANT ' + i for i in invariants]
    return '\n'.join(out) + '\n'


def conf(**kw):
    c = dict(BASE)
    c.update(kw)
    return c


def run(ck, confs, foci, limit=None, modes=1, opts=None, design=None):
    """
    Enumerates the plans of every configuration with TLC and replays them, all
    of them or a seeded selection of `limit` per configuration; adds random
    histories (foci: name -> how many); lets TLC judge everything. The design
    invariants are checked on the configuration `design` (default: the first).
    """
    rng = random.Random('sel/%s/%s' % (env.SEED, ck.prop))
    tjobs = [(('GenHistory', cfg_text(c, [])), {'workers': 2}) for c in confs]
    tjobs.append((('GenHistory', cfg_text(dict(design or confs[0], Emit=False))),
                  {'workers': 4}))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(tlc.run_many, tjobs, 4)
        jobs = [('r-%s-%d' % (f, i), env.SEED, f, opts) for f in sorted(foci)
                for i in range(foci[f])]
        rnd = par.pmap(rich.make, jobs)
        results = fut.result()
    ck.add_tlc(results.pop(), 'design')
    ck.count('random_histories', len(rnd))
    jobs, total = [], 0
    for n, (c, r) in enumerate(zip(confs, results)):
        ck.add_tlc(r, 'history%d' % n)
        ps = sorted((v for t, v in r.records if t == 'PLAN'),
                    key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        if limit and len(ps) > limit:
            rng.shuffle(ps)
            ps = ps[:limit]
        for i, p in enumerate(ps):
            jobs.append(('x%d-%d' % (n, i), p, c, env.SEED, modes))
    cases = par.pmap(plans.replay, jobs)
    ck.count('plans_enumerated', total)
    ck.count('plans_replayed', len(cases))
    if cases:
        m = len(cases) // 2
        ck.sample({'plan': jobs[m][1], 'case': cases[m]['id'],
                   'observed': [(e['obs']['exc'] or ['accepted'])[0]
                                for e in cases[m]['evs']]})
    cases += rnd
    for c in cases:
        for e in c['evs']:
            if e['kind'] == 'verify':
                ck.count('verdicts_accept' if e['obs']['ok'] else 'verdicts_reject',
                         1 + len(e['alts']))
    ck.judge(cases)
    return cases


def enumerate_and_replay(ck, module, confs, invariants, replay, limit=None, times=1):
    """
    Enumerates the plans of `module` for every configuration (checking the
    invariants of the design on the way) and replays all of them, or a seeded
    selection, several times if asked to (what a plan leaves open is drawn anew).
    """
    rng = random.Random('sel/%s/%s/%s' % (env.SEED, ck.prop, module))
    res = tlc.run_many([((module, cfg_text(c, invariants)), {'workers': 4}) for c in confs], 3)
    jobs, total = [], 0
    for n, (c, r) in enumerate(zip(confs, res)):
        ck.add_tlc(r, '%s%d' % (module, n))
        ps = sorted((v for t, v in r.records if t == 'PLAN'),
                    key=lambda v: json.dumps(v, sort_keys=True))
        total += len(ps)
        if limit and len(ps) > limit:
            rng.shuffle(ps)
            ps = ps[:limit]
        jobs += [('%s%d-%d%s' % (module[3].lower(), n, i, '+' * k), p, c) for k in range(times)
                 for i, p in enumerate(ps)]
    cases = par.pmap(replay, jobs)
    ck.count('plans_enumerated', total)
    ck.count('plans_replayed', len(cases))
    if cases:
        m = len(cases) // 2
        ck.sample({'module': module, 'plan': jobs[m][1],
                   'observed': [(e['obs']['exc'] or ['accepted'])[0]
                                for e in cases[m]['evs'] if 'obs' in e]})
    return cases


def random_cases(ck, foci, opts=None):
    jobs = [('r-%s-%d' % (f, i), env.SEED, f, opts) for f in sorted(foci)
            for i in range(foci[f])]
    rnd = par.pmap(rich.make, jobs)
    ck.count('random_histories', len(rnd))
    return rnd


def count_verdicts(ck, cases):
    for c in cases:
        for e in c['evs']:
            if e['kind'] == 'verify':
                ck.count('verdicts_accept' if e['obs']['ok'] else 'verdicts_reject',
                         1 + len(e['alts']))
