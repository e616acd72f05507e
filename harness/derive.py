"""Deriving states without verification, and starting from any receipt."""
import random

from . import hist
from . import plans
from . import scen
from . import world as w


def setting(cid, plan, conf, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    mode = rng.choice(['store', 'cert'])
    sp = plans.Spec(rng, conf['IsClosed'], True, mode)
    env = hist.Env(sp.store, sp.base.aes if conf['HasKey'] else None, sp.keys)
    width = rng.choice([5, 8, 8, 16])
    sp.huge = rng.random() < .25
    used, pre = set(), []
    if conf['InCluster']:
        r0 = scen.Reg('REG', sp.base, width)
        plans.add_step(rng, r0, sp, dict(plans.GOOD), used)
        pre = r0.jws
        reg = scen.Reg('REG', sp.base, width, prev_start=pre[0])
        reg.ts = plans._ts_of(pre[0])
    else:
        reg = scen.Reg('REG', sp.base, width)
    return rng, sp, env, used, pre, reg


def derived(cid, plan, conf, seed, make=hist.Case):
    """The state after updating a register with the receipts, which verify."""
    rng, sp, env, used, pre, reg = setting(cid, plan, conf, seed)
    for p in stretched(rng, plan['p']):
        plans.add_step(rng, reg, sp, p, used)
    recs = list(reg.jws)
    case = make(cid, env)
    n = 0
    if pre:
        case.verify([(sp.cert, sp.chain, pre)])
        n = 1
    start = rng.randint(0, len(recs))
    if start:
        # the first part is verified, the rest only derived
        case.verify([(sp.cert, sp.chain, recs[:start])], n)
    else:
        case.grow()
    rest = recs[start:]
    while rest:
        k = rng.randint(1, len(rest))
        case.update([(sp.cert, sp.chain, part) for part in
                     plans.split(rng, rest[:k], rng.randint(1, 3))], n)
        if rng.random() < .3:
            case.reload()
        rest = rest[k:]
    # the derived state has to do for what follows
    case.set_ids([w.fields_of(j)['id'] for j in pre + recs])
    for _ in range(2):
        d = rng.choice([{}, {}, {'tc': 'wrong'}, {'sig': 'failed'}, {'chain': 'bad'}, {'kind': 'REV'}])
        plans.add_step(rng, reg, sp, dict(plans.GOOD, amt=rng.choice('PZ'), **d), used)
        if not case.verify([(sp.cert, sp.chain, reg.jws[-1:])], n):
            break
    return case.dump()


def stretched(rng, steps):
    """The same with many receipts without a counter in a row, now and then."""
    working = 0
    while working < len(steps) and steps[working]['sig'] == 'ok':
        working += 1
    if not working or rng.random() < .85:
        return steps
    at = rng.randint(1, working)
    return steps[:at] + [dict(plans.GOOD, kind=rng.choice(['REV', 'REV', 'REV', 'DUM']), amt=rng.choice('PNZ'))
                         for _ in range(rng.randint(5, 40))] + steps[at:]


def another(rng, case, sp, reg, used):
    """Another register of the cluster, which needs a start receipt before it."""
    regs = case.state.cashRegisters
    r = scen.Reg('REG', sp.base, reg.width, prev_start=regs[-1].startReceiptJWS if regs else None)
    r.ts = reg.ts
    plans.add_step(rng, r, sp, dict(plans.GOOD), used)
    case.verify([(sp.cert, sp.chain, r.jws)], rng.choice([None, None, len(regs), 7]))


def arbitrary(cid, plan, conf, seed, make=hist.Case, modes=1):
    """Verifies the rest of a history from each of its receipts on."""
    rng, sp, env, used, pre, reg = setting(cid, plan, conf, seed)
    for p in plan['p']:
        plans.add_step(rng, reg, sp, p, used)
    recs = list(reg.jws)
    out = []
    for at in range(len(recs)):
        f = w.fields_of(recs[at])
        std = f['ctr'] not in (w.b64(b'TRA'), w.b64(b'STO'))
        if conf['HasKey'] and not std:
            continue
        start = at == 0 and rng.random() < .7
        case = make('%s/%d' % (cid, at), env)
        case.arb(recs[at], start)
        if rng.random() < .4:
            case.reload()
        rest = recs[at:]
        done = []
        for part in plans.split(rng, rest, rng.choice([1, 1, 2])):
            done += part
            if plan.get('ok') and rng.random() < .15:
                # derived instead of verified
                case.update([(sp.cert, sp.chain, x) for x in plans.split(rng, part, rng.randint(1, 2))], 0)
                case.set_ids([w.fields_of(j)['id'] for j in done])
                continue
            if rng.random() < .15:
                another(rng, case, sp, reg, used)
            ms = [plans.random_mode(rng, len(part)) for _ in range(modes)]
            if modes > 1:
                # every receipt a package of its own
                ms.append(ms[0][:2] + (1, rng.randint(2, 4)) + ms[0][4:])
            if not case.verify([(sp.cert, sp.chain, part)], 0, modes=ms):
                break
        if rng.random() < .3:
            another(rng, case, sp, reg, used)
        out.append(case.dump())
    return out
