import json
import random
from concurrent.futures import ThreadPoolExecutor

from harness import cli, clitool, env, errors, tlc
from harness.env import scale
from harness.histcheck import cfg_text, conf, count_verdicts

INV_T = ['FailingLeaves', 'OthersStay', 'OrderStays', 'UsedStay', 'OnlyField', 'ReadableStays']


def differing(m, case):
    """Only what the tools do differently from the library."""
    return bool(case['evs'][m['ev'] - 1].get('differs'))


def run(ck):
    rng = random.Random('c20/%s' % env.SEED)
    vc = dict(Registers=2, Parts=2, Depth=scale(3, 4), Pars=scale([999, 2], [999, 1, 2]), Chunks=scale([999, 0, 2], [999, 0, 1, 3]), Emit=True)
    tool = [dict(Depth=d, Rich=r, Emit=e) for d, r, e in ((2, True, True), (scale(2, 3), False, scale(False, True)))]
    k = dict(Kinds=['STD', 'DUM', 'REV'], Sigs=['ok', 'failed'])
    hist = [conf(Depth=2, **k), conf(Depth=2, HasKey=False, **k)]
    vd = dict(vc, Registers=scale(2, 3), Depth=scale(5, 7), Pars=[999], Chunks=[999, 1], Emit=False)
    jobs = [(('GenVerifyCli', cfg_text(vc, [])), {'workers': 4}),
            (('GenVerifyCli', cfg_text(vd, ['OptionsDoNotMatter']) + 'PROPERTY OneStep\n'), {'workers': 4})]
    jobs += [(('GenStateTool', cfg_text(c, INV_T)), {'workers': 4}) for c in tool]
    jobs += [(('GenHistory', cfg_text(c, [])), {'workers': 2}) for c in hist]
    rs = tlc.run_many(jobs, 6)
    plans = []
    for r, name in zip(rs, ['verify', 'design', 'tool0', 'tool1', 'history0', 'history1']):
        ck.add_tlc(r, name)
        ps = sorted((v for t, v in r.records if t == 'PLAN'), key=lambda v: json.dumps(v, sort_keys=True))
        ck.count('plans_enumerated', len(ps))
        rng.shuffle(ps)
        if name != 'design':
            plans.append(ps)
    todo = []
    # some with each option combination, and all of the shorter ways to start
    strata = {}
    for p in plans[0]:
        l = p['runs'][-1]
        strata.setdefault(json.dumps([[r['d'] for r in p['runs'][:-1]], l['d'], l['o']['state'], l['o']['sel'],
                                      l['o']['reg']], sort_keys=True), []).append(p)
    vp = [ps[0] for k, ps in sorted(strata.items())]
    ck.count('ways_to_select', len(vp))
    vp = sorted(vp + plans[0][:scale(100, 7000)], key=lambda p: len(p['runs']))
    todo += [('cluster', ('v%d' % i, p, env.SEED)) for i, p in enumerate(vp)]
    todo += [('cluster', ('w%d' % i, p, env.SEED, True)) for i, p in enumerate(plans[0][-scale(6, 60):])]
    tp = plans[1][:scale(700, 10 ** 6)] + plans[2][:scale(0, 20000)]
    todo += [('editing', ('e%d' % i, p, env.SEED)) for i, p in enumerate(tp)]
    todo += [('editing', ('s%d' % i, p, env.SEED, True)) for i, p in enumerate(plans[1][-scale(8, 80):])]
    todo += [('editing_long', ('l%d' % i, env.SEED, rng.choice([8, 20, 40]))) for i in range(scale(60, 2000))]
    todo += [('reading', ('r%d' % i, env.SEED)) for i in range(scale(150, 4000))]
    todo += [('reading', ('q%d' % i, env.SEED, True)) for i in range(scale(4, 40))]
    for n, (c, ps) in enumerate(zip(hist, plans[3:])):
        todo += [('arbitrary', ('a%d-%d' % (n, i), p, c, env.SEED)) for i, p in enumerate(ps[:scale(25, 600)])]
        if n == 0:
            todo += [('derived', ('d%d-%d' % (n, i), p, c, env.SEED))
                     for i, p in enumerate([p for p in ps if p['ok']][:scale(60, 1500)])]
    for f, k in (('cont', scale(50, 1500)), ('cluster', scale(50, 1500)), ('none', scale(20, 500)),
                 ('sig', scale(20, 500)), ('chain', scale(20, 500))):
        todo += [('history', ('h-%s-%d' % (f, i), env.SEED, f, {'modes': 1, 'natural': .2})) for i in range(k)]
    rng.shuffle(todo)
    cases = errors.fork_map(clitool.everything, todo, procs=8, limit=7200 if env.THOROUGH else 500, late=ck.errors)
    ck.count('histories', len([c for c in cases if c['recs']]))
    ck.count('verify_runs', sum(1 for c in cases for e in c['cli']['evs'] if e['t'] == 'verify'))
    ck.count('edits', sum(1 for c in cases for e in c['cli']['evs'] if e['t'] == 'edit'))
    ck.count('receipt_files', sum(1 for c in cases for e in c['cli']['evs'] if e['t'] in ('lines', 'convert')))
    hs = [c for c in cases if c['recs']]
    count_verdicts(ck, hs)
    ck.sample({'case': cases[0]['id'], 'runs': [e.get('argv') for e in cases[0]['cli']['evs']][:6]})
    tools = [dict(c.pop('cli')) for c in cases]
    ck.judge([c for c in tools if c['evs']], lambda m, c: True, 'CliJudge')
    ck.judge(hs, differing)
    for name in ('run_test.py', 'test_verify.py'):
        starting(ck, name)


def starting(ck, name):
    """Whether a tool gets as far as reading its arguments."""
    with cli.scratch():
        r = cli.spawn(name, ['open', 'nofile.json', 'x', 'y', '8'])
    if b'nofile.json' in r.err or b'sage' in r.out + r.err:
        return
    text = r.err.decode('utf-8', 'replace').strip().split('\n')[-1]
    if not ('install()' in text and ck.finding(name + '-start', '%s does not start on Python 3.11 and later' % name)):
        ck.violation('start', {'tool': name, 'error': text})
