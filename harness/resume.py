"""Histories verified in one go and in every division into consecutive DEPs."""
import itertools
import random

from . import hist
from . import plans
from . import scen
from . import world as w

from librksv import verification_state


def partitions(n):
    """All ways to cut n receipts into consecutive nonempty parts."""
    for cuts in itertools.product([False, True], repeat=n - 1):
        out, a = [], 0
        for i, c in enumerate(cuts):
            if c:
                out.append((a, i + 1))
                a = i + 1
        out.append((a, n))
        yield out


def outcome(case):
    last = [e for e in case['evs'] if e['kind'] == 'verify']
    if any(not e['obs']['ok'] for e in last):
        return ['rejected']
    o = last[-1]['obs']
    return ['accepted', o['has'], o['st']]


def replay(cid, plan, conf, seed, limit=8):
    """-> cases: the whole and its divisions"""
    rng = random.Random('%s/%s' % (seed, cid))
    closed = conf['IsClosed']
    mode = rng.choice(['store', 'cert'])
    sp = plans.Spec(rng, closed, True, mode)
    env = hist.Env(sp.store, sp.base.aes if conf['HasKey'] else None, sp.keys)
    width = rng.choice([5, 8, 8, 16])
    used = set()
    pre = []
    if conf['InCluster']:
        r0 = scen.Reg('REG', sp.base, width)
        plans.add_step(rng, r0, sp, dict(plans.GOOD), used)
        pre = r0.jws
        reg = scen.Reg('REG', sp.base, width, prev_start=pre[0])
        reg.ts = plans._ts_of(pre[0])
    else:
        reg = scen.Reg('REG', sp.base, width)
    for p in plan['p']:
        plans.add_step(rng, reg, sp, p, used)
    recs = list(reg.jws)
    pl = {'ok': plan['ok'], 'faults': sorted(plan['faults'])}
    parts = list(partitions(len(recs)))
    if len(parts) > limit:
        parts = [parts[0], parts[-1]] + rng.sample(parts[1:-1], limit - 2)
    out = []
    for n, part in enumerate(parts):
        case = hist.Case('%s/%d' % (cid, n), env)
        if pre:
            case.verify([(sp.cert, sp.chain, pre)])
            if rng.random() < .5:
                case.reload()
        idx = None
        for a, b in part:
            gs = [(sp.cert, sp.chain, recs[a:b])]
            if mode == 'cert' and b - a > 1 and rng.random() < .3:
                gs = [(sp.cert, sp.chain, recs[a:a + 1]), (sp.cert, sp.chain, recs[a + 1:b])]
            k = {'plan': pl} if len(part) == 1 else {}
            main = ('dep',) if rng.random() < .7 else plans.random_mode(rng, b - a)
            ok = case.verify(gs, idx, main=main, **k)
            if not ok:
                break
            idx = 1 if pre else 0
            if len(part) > 1 and rng.random() < .9:
                case.reload()
        d = case.dump()
        d['pair'] = cid
        d['outcome'] = outcome(d)
        out.append(d)
    return out


def state(cid, plan, seed):
    """Builds a state of the given shape and reloads it, twice."""
    rng = random.Random('%s/%s' % (seed, cid))
    env = hist.Env([], None, ['K1'])
    case = hist.Case(cid, env)
    natural = plan['ids'].startswith('natural')
    backend = (verification_state.UsedReceiptIdsSortedNatural if natural
               else verification_state.UsedReceiptIdsUnique)
    st = verification_state.ClusterState(backend)
    s = type('S', (), {'zda': 'AT0', 'serial': 'U:AT1-1', 'aes': b'1' * 32})
    for i, r in enumerate(plan['regs']):
        c = verification_state.CashRegisterState()
        reg = scen.Reg('R', s, 8)

        def jws(n):
            return w.jws_of(reg.fields('%s%d' % (n, i), 'STD', [0] * 5), 'K1')
        if r['start']:
            c.startReceiptJWS = jws('s')
        if r['last']:
            c.lastReceiptJWS = jws('l') if rng.random() < .7 or not r['start'] else c.startReceiptJWS
        c.needRestoreReceipt = r['need']
        if r['next']:
            c.chainNextTo = w.b64(rng.getrandbits(64).to_bytes(8, 'big'))
        c.lastTurnoverCounter = {'zero': 0, 'pos': rng.randint(1, 10 ** 6), 'neg': -rng.randint(1, 10 ** 6),
                                 'huge': 2 ** 127 - rng.randint(1, 99),
                                 'hugeneg': -2 ** 127 + rng.randint(0, 99)}[r['tc']]
        st.cashRegisters.append(c)
    used = {'none': [], 'naturalempty': [], 'one': ['1'], 'odd': [u'\xe4"\\ {', ' ', '0'],
            'many': [str(k) for k in range(rng.choice([30, 30, 70, 300]))],
            'natural': ['a9', 'a10']}[plan['ids']]
    for rid in used:
        st.usedReceiptIds.add(rid)
    case.start_from(st)
    if not natural:
        # what was put in, not what it says is in it
        case.init['used'] = sorted(used)
    case.reload()
    case.reload()
    return case.dump()
