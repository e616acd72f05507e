"""Replays the plans of GenTrust, GenKeys and GenCluster."""
import random

from . import hist
from . import plans
from . import scen
from . import world as w


class Simple(object):
    """What scen.Reg needs to know to fill in a receipt."""

    def __init__(self, zda, serial, aes=None):
        self.zda = zda
        self.serial = serial
        self.aes = aes


def opt_modes(rng, n, k):
    return [plans.random_mode(rng, n) for _ in range(k)]


# --------------------------------------------------------------------------
# GenTrust

def stretched(rng, stats, links):
    """The same chain with more certificates nobody stores in between, now and then."""
    if len(stats) < 2 or rng.random() < .9:
        return stats, links
    at = rng.randint(1, len(stats) - 1)
    k = rng.randint(1, 18)
    return stats[:at] + ['absent'] * k + stats[at:], links[:at] + ['ok'] * k + links[at:]


def trust(cid, plan, seed, modes=1):
    rng = random.Random('%s/%s' % (seed, cid))
    stats, links = stretched(rng, plan['stats'], plan['links'])
    n = len(stats)
    base = rng.getrandbits(rng.choice([8, 32, 60, 150, 158, 160, 200])) + 2
    closed = rng.random() < .25
    certs = []
    # certificates of authorities may have other kinds of keys
    names = ['T0'] + [rng.choice(['T%d', 'T%d', 'RSA%d', 'P384%d'] + ['ED%d'] * (links[i - 1] == 'broken')) % i
                      for i in range(1, n)]
    for i in range(n):
        # the last one is an anchor or signed by somebody unknown
        if i == n - 1:
            signer = rng.choice([names[i], 'TX'])
            issuer = None
        elif links[i] == 'ok':
            # what the certificates call themselves is of no interest
            signer, issuer = names[i + 1], rng.choice([None, None, None, 'somebody', 'cert of ' + names[i]])
        else:
            signer = 'TX'
            if names[i + 1].startswith('RSA'):
                signer = rng.choice(['TX', 'RSA3' if names[i + 1] != 'RSA3' else 'TX'])
            elif names[i + 1].startswith('ED'):
                signer = names[i + 1]
            elif rng.random() < .2:
                signer = 'ED9'
            # also what calls itself issued by the next one, or by itself
            issuer = rng.choice(['cert of ' + names[i + 1], 'cert of ' + names[i], None])
        certs.append(w.cert(names[i], base + 17 * i, signer, issuer=issuer))
    # the same one twice: it does not sign itself
    for i in range(n - 1):
        if links[i] == 'broken' and stats[i] == stats[i + 1] and certs[i].signer == 'TX' \
                and (i + 2 == n or links[i + 1] == 'broken') and rng.random() < .5:
            certs[i + 1] = certs[i]
            break
    store, keys = [], names + ['TY', 'TX']
    for i, c in enumerate(certs):
        if c in certs[:i]:
            continue
        if stats[i] == 'stored':
            store.append((c.keyid, c.key, c))
        elif stats[i] == 'bare':
            # the very key of the certificate, or another one
            store.append((c.keyid, rng.choice([c.key, 'TY']), None))
        elif stats[i] == 'collides':
            how = rng.choice(['key', 'tag', 'signer'])
            if how == 'key':
                o = w.cert('TY', c.serial)
            elif how == 'tag':
                o = w.cert(c.key, c.serial, c.signer, tag='2')
            else:
                o = w.cert(c.key, c.serial, 'TY', tag='3')
            store.append((o.keyid, o.key, o))
    # something else that is trusted
    extra = w.cert('TA', base + 5)
    store.append((extra.keyid, 'TA', extra))
    keys.append('TA')
    # a trusted certificate with the serial of the first one, seen before
    twin = None
    if stats[0] in ('absent', 'bare') and rng.random() < .5:
        twin = w.cert('TW', certs[0].serial, 'TA', subject=rng.choice(['cert of T0', None]))
        keys.append('TW')
    rng.shuffle(store)
    env = hist.Env(store, None, keys)
    case = hist.Case(cid, env)
    zda = 'AT0' if closed else 'AT1'
    form = rng.choice(['hex', 'HEX', 'dec', 'neg', 'pad'])
    good = Simple(zda, 'U:ATU1-1' if closed else scen.serial_text(rng, extra.serial, form))
    mine = Simple(zda, 'U:ATU1-2' if closed else scen.serial_text(rng, certs[0].serial, form))
    reg = scen.Reg('REG', mine, 8)
    shape = rng.choice(['one', 'one', 'first', 'second', 'resumed'])

    def recs(setup, key, k):
        out = []
        for _ in range(k):
            reg.s = setup
            first = reg.first
            cents = [0] * 5 if first else plans.amounts(rng, 'P')
            reg.ts += 1
            jws = w.jws_of(reg.fields('i%d' % reg.n, 'STD', cents), key)
            reg.append(jws, 'STD', cents, False)
            out.append(jws)
        return out

    pl = {'ok': plan['ok'], 'faults': sorted(plan['faults'])}
    if shape in ('second', 'resumed'):
        if twin:
            # trusted by its last certificate or by one in between
            a = (twin, rng.choice([[extra], [extra, w.cert('TX', base + 7)], [extra, extra]]), recs(mine, 'TW', rng.randint(1, 2)))
        else:
            # its chain is of no interest, even if it names what comes later
            a = (extra, rng.choice([[], [], certs[:1], certs[1:], certs, certs[::-1]]),
                 recs(good, 'TA', rng.randint(1, 2)))
    b = (certs[0], certs[1:], recs(mine, 'T0', rng.randint(1, 2)))
    if shape == 'first':
        c = (extra, [], recs(good, 'TA', 1))
        case.verify([b, c], modes=opt_modes(rng, 2, modes), plan=pl)
    elif shape == 'second':
        case.verify([a, b], modes=opt_modes(rng, 2, modes), plan=pl)
    elif shape == 'resumed':
        case.verify([a])
        case.verify([b], 0, modes=opt_modes(rng, 2, modes), plan=pl)
    else:
        case.verify([b], modes=opt_modes(rng, 2, modes), plan=pl)
    return case.dump()


# --------------------------------------------------------------------------
# GenKeys

SERIALS = [1234, 10, 99, 1000, 31, 20171, 9007199254740993, 123456789012345678901234]


def keys_env(rng, p):
    """The store, group certificate and designation a plan of GenKeys asks for.
    -> (store, group cert or None, chain, designation, zda)"""
    text = '%d' % rng.choice(SERIALS)
    hexn, decn = int(text, 16), int(text, 10)
    if p['closed']:
        idh = rng.choice(['U:ATU12345678-1234', 'S:123456789-K', 'G:1234567890123-0'])
        serial = idh
        hexn = 77
    else:
        idh = '%x' % hexn
        serial = rng.choice(['', '', '-']) + rng.choice(['', '', '0', '000']) + text
    ident = {'H': idh, 'D': '%x' % decn}
    num = {'H': hexn, 'D': decn}
    store = []
    for slot, c in (('H', p['hex']), ('D', p['dec'])):
        if c == 'none':
            continue
        k = 'K1' if c.endswith('1') else 'K2'
        if c.startswith('key'):
            store.append((ident[slot], k, None))
        else:
            store.append((ident[slot], k, w.cert(k, num[slot], tag='s')))
    anchor = w.cert('KA', hexn + 3)
    store.append((anchor.keyid, 'KA', anchor))
    store.append(('U:ATU5-init', 'KA', None))
    g = None
    if p['group'] != 'none':
        n = {'hex': hexn, 'dec': decn, 'other': hexn + 11}[p['group']]
        if n == decn and p['group'] == 'other':
            n += 1
        g = w.cert('K1', n * rng.choice([1, 1]), 'KA', tag='g')
    # similar key IDs that the receipt does not designate, with another key
    if rng.random() < .7:
        for d in {idh.upper(), idh.lower(), idh.swapcase(), idh.split('-')[0], idh + ' ', ' ' + idh, '0' + idh,
                  idh.replace(':', ''), idh[:-1], idh + '0', idh.split(':')[-1], '', serial.lower(), serial.upper()}:
            if d not in ident.values() and d not in [x[0] for x in store] and rng.random() < .7 \
                    and (p['closed'] or d not in w.serial_readings(serial)):
                store.append((d, 'KX', None))
    rng.shuffle(store)
    zda = 'AT0' if p['closed'] else rng.choice(['AT1', 'AT77', 'DE3'])
    return store, g, [anchor] if g else [], serial, zda, anchor


KEYNAMES = ['K1', 'K2', 'KX', 'KA']


def sign_as(rng, f, signer, right='K1'):
    if signer == 'failed':
        return w.jws_of(f, 'FAIL')
    if signer != '-':
        return w.jws_of(f, signer)
    sp = type('S', (), {'key': staticmethod(lambda z: right), 'keys': [right]})
    while True:
        j = alter(rng, w.jws_of(f, right))
        if j:
            return j


def alter(rng, jws, how=None):
    """Alters one field, or the signature, of a signed receipt."""
    f = w.fields_of(jws)
    how = how or rng.choice(['sig'] * 6 + ['zda', 'reg', 'id', 'ts', 'a1', 'a2', 'a3', 'a4',
                                           'a5', 'ctr', 'a1zero'])
    g = dict(f)
    if how == 'sig':
        return scen.tamper_sig(rng, jws)
    if how == 'zda':
        if f['zda'] == 'AT0':
            return None
        g['zda'] = f['zda'] + '1'
    elif how == 'reg':
        g['reg'] = f['reg'] + ' '
    elif how == 'id':
        g['id'] = f['id'] + rng.choice('xX0')
    elif how == 'ts':
        g['ts'] = f['ts'][:-1] + ('1' if f['ts'][-1] != '1' else '2')
    elif how == 'a1zero':
        if f['a1'] != '0,00':
            return None
        g['a1'] = '-0,00'
    elif how[0] == 'a':
        g[how] = w.amount(w.as_cents(f[how]) + rng.choice([1, 100, -1]))
    elif how == 'ctr':
        g['ctr'] = w.b64(rng.getrandbits(64).to_bytes(8, 'big'))
    elif how == 'serial':
        g['serial'] = '0' + f['serial']
    if g == f:
        return None
    return scen.resign_payload(jws, **g)


def keys(cid, plan, seed, modes=1):
    rng = random.Random('%s/%s' % (seed, cid))
    p = plan['p']
    store, g, chain, serial, zda, anchor = keys_env(rng, p)
    env = hist.Env(store, None, KEYNAMES)
    case = hist.Case(cid, env)
    mine = Simple(zda, serial)
    init = Simple(zda, 'U:ATU5-init' if p['closed'] else anchor.keyid)
    reg = scen.Reg(rng.choice(['REG', 'K 1']), init, 8)
    later = rng.random() < .5
    if later:
        jws = w.jws_of(reg.fields('i0', 'STD', [0] * 5), 'KA')
        reg.append(jws, 'STD', [0] * 5, False)
        case.verify([(None, [], [jws])])
        faults = plan['later']
    else:
        faults = plan['faults']
    reg.s = mine
    reg.ts += 1
    cents = plans.amounts(rng, rng.choice('PNCZ')) if later else [0] * 5
    kind = rng.choice(['STD', 'DUM', 'REV']) if later else 'STD'
    f = reg.fields('i1', kind, cents)
    right = 'K1'
    if g is None:
        for slot in ('hex', 'dec'):
            if p[slot] != 'none':
                right = 'K1' if p[slot].endswith('1') else 'K2'
                break
    if p['signer'] == '-' and not later:
        # altered content must not break another rule
        jws = scen.tamper_sig(rng, w.jws_of(f, right))
    elif p['signer'] == '-':
        jws = sign_altered(rng, f, right)
    else:
        jws = sign_as(rng, f, p['signer'])
    pl = {'ok': not faults, 'faults': sorted(faults)}
    case.verify([(g, chain, [jws])], 0 if later else None,
                modes=opt_modes(rng, 1, modes), plan=pl)
    return case.dump()


def sign_altered(rng, f, right):
    """A receipt with the right fields whose signature is for other ones."""
    other = None
    while other is None:
        other = alter(rng, w.jws_of(f, right))
    if other.rsplit('.', 1)[0] == w.jws_of(f, right).rsplit('.', 1)[0]:
        return other        # only the signature was changed
    g = w.fields_of(other)
    sig = w.jws_of(g, right).rsplit('.', 1)[1]
    return w.jws_of(f, right).rsplit('.', 1)[0] + '.' + sig


# --------------------------------------------------------------------------
# GenCluster

def cluster(cid, plan, closed, seed, modes=1):
    rng = random.Random('%s/%s' % (seed, cid))
    aes = rng.getrandbits(256).to_bytes(32, 'big')
    serials = ['%x' % (rng.getrandbits(50) + 1), 'U:ATU12345678-K']
    serial = serials[bool(closed)]
    env = hist.Env([(serial, 'K1', None)], aes, ['K1', 'KX'])
    if any(c['s'] == 'startother' for c in plan['p']):
        env = hist.Env([(x, 'K1', None) for x in serials], aes, ['K1', 'KX'])
    case = hist.Case(cid, env)
    s = Simple('AT0' if closed else 'AT1', serial, aes)
    width = rng.choice([5, 8, 8, 16])
    name = rng.choice(['REG', u'K\xe4sse 7'])
    factor = rng.choice([1, 100, 12345])
    count = [0]
    tss = [0]

    def rec(reg, n, rid=None, chain=None):
        count[0] += 1
        tss[0] += rng.choice([0, 1, 60])
        cents = [0] * 5
        if n:
            cents[rng.randrange(5)] = n * factor
        f = reg.fields(rid or 'id%d' % count[0], 'STD', cents, tss[0], chain=chain)
        jws = w.jws_of(f, 'K1')
        reg.append(jws, 'STD', cents, False)
        return jws

    for call in plan['p'][:-1] if plan['p'][-1]['s'] == 'end' else plan['p']:
        st = case.state
        r = call['r']
        regs = st.cashRegisters
        used = sorted(case.abstract(st)['used'])
        start = last = None
        tc = 0
        if 0 < r <= len(regs):
            start = regs[r - 1].startReceiptJWS
        cont = r < len(regs) and regs[r].lastReceiptJWS
        if r < len(regs):
            tc = regs[r].lastTurnoverCounter
        sh = call['s']
        dup = rng.choice(used) if used else 'idx'
        if sh.startswith('start'):
            reg = scen.Reg(name, s if sh != 'startother' else
                           Simple('AT1' if closed else 'AT0', serials[not closed], aes),
                           width, None if sh == 'startreg' else start)
            rs = [rec(reg, 0, dup if sh == 'startdup' else None)]
            if sh == 'start':
                rs.append(rec(reg, 5))
            elif sh == 'startbad':
                rs.append(rec(reg, 1, chain=scen.bad_chain(rng, reg)))
        else:
            reg = scen.Reg(name, s, width, cont or None)
            reg.tc = tc
            reg.first = False
            rs = [rec(reg, 3 if sh != 'contbad' else 2, dup if sh == 'contdup' else None)]
            if sh == 'contbad':
                rs.append(rec(reg, 1, chain=scen.bad_chain(rng, reg)))
        idx = None if call['idx'] == w.NOIDX else call['idx']
        case.verify([(None, [], rs)], idx, modes=opt_modes(rng, len(rs), modes),
                    plan={'ok': call['ok'], 'faults': sorted(call['faults'])})
        if rng.random() < .15:
            case.reload()
    return case.dump()
