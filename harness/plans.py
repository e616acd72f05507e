"""Turns plans enumerated by GenHistory into concrete histories."""
import random

from . import hist
from . import scen
from . import world as w

from librksv import verification_state, verify

PARSERS = ['dict', 'full', 'file', 'textfile', 'stream']


def random_mode(rng, n=6):
    pool = None
    nprocs = rng.choice([1, 1, 2, 3, 4, 4, 9])
    if rng.random() < .5:
        pool = (rng.choice(['fifo', 'lifo', 'a', 'b']), rng.random() < .5)
    chunk = rng.choice([0, 1, 2, 3, n, n + 1, 100000])
    return ('par', rng.choice(PARSERS), chunk, nprocs, pool)


def amounts(rng, cls):
    """Five sums in cents of a class: Zero, Positive, Negative, Cancelling."""
    big = rng.choice([1, 100, 10 ** 4, 10 ** 6])
    if cls == 'Z':
        return [0] * 5
    v = [0] * 5
    if cls == 'C':
        i, j = rng.sample(range(5), 2)
        a = rng.randint(1, 999) * big
        v[i], v[j] = a, -a
        return v
    for i in rng.sample(range(5), rng.randint(1, 5)):
        v[i] = rng.randint(1, 999) * big // rng.choice([1, 3])
    if not any(v):
        v[0] = 1
    if cls == 'N':
        v = [-x for x in v]
    return v


class Spec(object):
    """How the receipts of one case are signed and designated."""

    def __init__(self, rng, closed, aes, mode):
        self.open = scen.Setup(rng, False, aes, 'cert' if mode == 'cert' else 'store',
                               rng.choice(['hex', 'HEX', 'neg', 'dec', 'pad', 'negdec']),
                               key='K1', intermediates=rng.choice([0, 0, 1, 2]) if mode == 'cert' else 0)
        self.closed = scen.Setup(rng, True, aes, 'store', key='K0')
        self.mode = mode
        self.base = self.closed if closed else self.open
        self.huge = False
        self.open.aes = self.closed.aes = self.base.aes
        store = list(self.open.store)
        if mode == 'cert':
            self.cert, self.chain = self.open.cert, self.open.chain
        else:
            store += self.closed.store
            self.cert, self.chain = None, []
        self.store = store
        self.keys = self.open.keynames + ['K0', 'KX']

    def side(self, zda):
        return self.closed if zda == 'AT0' else self.open

    def key(self, zda):
        if self.mode == 'cert':
            return 'K1'     # the group's certificate is used for everything
        return self.side(zda).key


def add_step(rng, reg, sp, p, used, make_only=False):
    """Makes the receipt a plan step asks for and appends it. -> JWS"""
    zda = sp.base.zda
    if p['zda'] == 'alt' and zda != 'AT0':
        zda = 'DE2' if zda != 'DE2' else 'AT2'
    elif p['zda'] == 'flip':
        zda = 'AT7' if zda == 'AT0' else 'AT0'
    if p['ts'] == 'up':
        ts = reg.ts + rng.choice([1, 1, 11, 59, 86400, 31536000])
    elif p['ts'] == 'eq':
        ts = reg.ts
    else:
        ts = reg.ts - rng.choice([1, 1, 10, 3600, 86400 * 40, 86400 * 366, 86400 * 365 * 11, 86400 * 365 * 30])
    rid = None
    if p['id'] == 'dup' and used:
        rid = scen.bad_id(rng, used)
    else:
        while rid is None or rid in used:
            rid = fresh_id(rng, used)
    regid = reg.reg
    if p['reg'] == 'other':
        regid = rng.choice([reg.reg + 'X', reg.reg[:-1], reg.reg.swapcase(),
                            reg.reg + ' ', ' ' + reg.reg])
        if regid == reg.reg or not regid:
            regid = reg.reg + 'y'
    cents = amounts(rng, p['amt']) if isinstance(p['amt'], str) else p['amt']
    if sp.huge:
        cents = enlarge(rng, cents, reg.width)
    counter = None
    if p['tc'] == 'wrong':
        counter = wrong_counter(rng, reg, sum(cents))
    chain = None
    if p['chain'] == 'bad':
        chain = scen.bad_chain(rng, reg, p.get('how'))
        if chain == reg.next_chain(regid):
            chain = scen.BADCHAIN
    f = reg.fields(rid, p['kind'], cents, ts, regid, zda, sp.side(zda).serial,
                   chain, counter)
    if p['sig'] == 'failed':
        jws = w.jws_of(f, 'FAIL')
    elif p['sig'] == 'ok':
        jws = w.jws_of(f, sp.key(zda))
    else:
        jws = bad_signature(rng, f, sp, zda)
    reg.ts = max(reg.ts, ts)
    reg.append(jws, p['kind'], cents, p['sig'] == 'failed')
    used.add(rid)
    return jws


def fresh_id(rng, used):
    n = len(used)
    return rng.choice(['%d' % (n + 1), 'B%d' % n, 'b%d' % n, '%d ' % n, u'\xe4%d' % n,
                       '0%d' % n, 'CASHBOX-%d#' % rng.randint(0, 10 ** 6), '%x' % rng.getrandbits(64),
                       ' %d' % n, u'\ufeff%d' % n, u'a\u0308%d' % n, u'\ufb01%d\n' % n, '{%d}' % n, '%%s%d' % n, '"%d\\' % n, u'%d\x00' % n,
                       u'\u0660%d' % n, '-%d' % n, '%s%d' % ('long ' * rng.choice([51, 52, 250, 250, 1300, 2500]), n), '%d.0' % n, u'\U0001f9fe%d' % n])


def wrong_counter(rng, reg, total):
    opts = [lambda c: c + 1, lambda c: c - 1, lambda c: c + 100, lambda c: -c,
            lambda c: c - total, lambda c: c + total, lambda c: total, lambda c: 0,
            lambda c: c ^ (1 << 32), lambda c: c ^ (1 << (8 * reg.width - 1)) if c >= 0 else c + 1,
            lambda c: c * 10, lambda c: c + 2 ** 31]
    lim = 1 << (8 * reg.width - 1)

    def pick(c):
        vals = [v for v in (o(c) for o in opts) if v != c and -lim <= v < lim]
        return rng.choice(vals) if vals else c + 1
    return pick


def bad_signature(rng, f, sp, zda):
    how = rng.choice(['sig', 'sig', 'key', 'field', 'field'])
    good = w.jws_of(f, sp.key(zda))
    if how == 'sig':
        return scen.tamper_sig(rng, good)
    if how == 'key':
        return w.jws_of(f, rng.choice([k for k in sp.keys if k != sp.key(zda)]))
    # the signature is one for other content
    g = dict(f)
    k = rng.choice(['id', 'ts', 'a1', 'a5', 'reg', 'ctr', 'zda'])
    if k == 'id':
        g['id'] += '1'
    elif k == 'ts':
        g['ts'] = g['ts'][:-1] + ('1' if g['ts'][-1] != '1' else '2')
    elif k in ('a1', 'a5'):
        g[k] = w.amount(w.as_cents(g[k]) + 100)
    elif k == 'reg':
        g['reg'] += 'q'
    elif k == 'ctr':
        g['ctr'] = w.b64(b'\x07' * 8)
    else:
        g['zda'] = 'AT0' if zda != 'AT0' else 'AT5'
    sig = w.jws_of(g, sp.key(zda)).rsplit('.', 1)[1]
    return good.rsplit('.', 1)[0] + '.' + sig


def enlarge(rng, cents, width):
    """Amounts near what a counter of this width can hold, sign kept."""
    lim = (1 << (8 * width - 1)) // 120
    m = max(abs(c) for c in cents)
    if not m:
        return cents
    f = rng.choice([lim // m, max(1, lim // m // rng.choice([3, 10 ** 3, 10 ** 6]))])
    odd = 0 if sum(cents) == 0 else rng.choice([0, 1, -1])
    out = [c * max(f, 1) for c in cents]
    i = max(range(5), key=lambda k: abs(out[k]))
    out[i] += odd if abs(out[i]) > 1 else 0
    return out


GOOD = {'kind': 'STD', 'amt': 'Z', 'sig': 'ok', 'chain': 'good', 'tc': 'right',
        'id': 'fresh', 'reg': 'same', 'zda': 'keep', 'ts': 'up'}


def split(rng, xs, parts):
    """Cuts a list at random places into at most `parts` nonempty pieces."""
    if len(xs) <= 1 or parts <= 1:
        return [xs]
    cuts = sorted(rng.sample(range(1, len(xs)), min(parts - 1, len(xs) - 1)))
    out, a = [], 0
    for c in cuts + [len(xs)]:
        out.append(xs[a:c])
        a = c
    return out


def all_modes(rng, n):
    """Every chunk size with every number of packages, varying the rest."""
    out = []
    for chunk in list(range(0, min(n, 5) + 1)) + ([n + 1] if n < 5 else [n - 1, n, 100000]):
        for nprocs in (1, 2, 3):
            pool = rng.choice([None, ('fifo', False), ('lifo', False), ('lifo', True), ('a', True)])
            out.append(('par', rng.choice(PARSERS), chunk, nprocs, pool))
        if chunk and n > 4:
            # everything at once
            out.append(('par', rng.choice(PARSERS), chunk, n + 3, rng.choice([('fifo', False), ('lifo', True), ('a', True)])))
    return out


def replay(cid, plan, conf, seed, modes=1):
    """conf: HasKey, IsClosed, InCluster as in the configuration of GenHistory."""
    rng = random.Random('%s/%s' % (seed, cid))
    closed = conf['IsClosed']
    mode = rng.choice(['store', 'cert'])
    sp = Spec(rng, closed, True, mode)
    gen_aes = sp.base.aes
    env = hist.Env(sp.store, gen_aes if conf['HasKey'] else None, sp.keys)
    case = hist.Case(cid, env)
    width = rng.choice([5, 6, 8, 8, 8, 12, 16])
    sp.huge = rng.random() < .25
    regid = scen.reg_name(rng)
    used = set()
    r0 = None
    nxt = None
    start = conf.get('Start', 'blank')
    if start != 'blank':
        nxt = rng.choice([w.chain_of(regid), w.chain_of('r%d' % rng.randint(0, 99)), scen.BADCHAIN,
                          w.b64(rng.getrandbits(64).to_bytes(8, 'big'))])
    mid = None
    if start == 'mid':
        # a register that has its start receipt already
        mid = scen.Reg(regid, sp.base, width)
        add_step(rng, mid, sp, dict(GOOD), used)
        s0 = verification_state.ClusterState()
        verify.verifyDEP(hist.dep_json([(sp.cert, sp.chain, mid.jws)]), env.keystore(),
                         env.aeskey, s0)
        s0.cashRegisters[0].chainNextTo = nxt
        case.start_from(s0)
    if conf['InCluster']:
        r0 = scen.Reg(regid, sp.base, width)
        add_step(rng, r0, sp, dict(GOOD), used)
        for _ in range(rng.randint(0, 2)):
            add_step(rng, r0, sp, dict(GOOD, amt='P'), used)
        # the second register is not bound to the dates of the first, only to
        # that of its start receipt
        case.verify([(sp.cert, sp.chain, r0.jws)])
        if rng.random() < .3:
            case.reload()
    reg = scen.Reg(regid, sp.base, width, prev_start=r0.jws[0] if r0 else None,
                   ts=1 if r0 else 0)
    if r0:
        reg.ts = 11 + 31536000 + 86400
        reg.ts = _ts_of(r0.jws[0])
    idx = None
    if start == 'next':
        if r0:
            # the chaining value is set between two verifications
            case.configure_next(nxt, new=True)
        else:
            s0 = verification_state.ClusterState()
            s0.addNewCashRegister()
            s0.cashRegisters[0].chainNextTo = nxt
            case.start_from(s0)
        idx = 1 if r0 else 0
    elif mid:
        reg = mid
        reg.jws = []
        idx = 0
    reg.chain_next = nxt
    for p in plan['p']:
        add_step(rng, reg, sp, p, used)
    extra = 0 if plan['ok'] or 'tail' in plan else rng.choice([0, 0, 1, 2])
    for _ in range(extra):
        add_step(rng, reg, sp, dict(GOOD, amt=rng.choice('ZP')), used)
    recs = reg.jws
    pl = {'ok': plan['ok'], 'faults': sorted(plan['faults'])}
    if modes == 'all':
        mk = lambda k: all_modes(rng, k)
    else:
        mk = lambda k: [random_mode(rng, k) for _ in range(modes)]
    shape = rng.random()
    groups = 1
    if mode == 'cert' and shape < .5:
        groups = rng.randint(1, 3)
    if shape > .75 and len(recs) > 1:
        a, b = split(rng, recs, 2)
        ok = case.verify([(sp.cert, sp.chain, a)], idx, modes=())
        if rng.random() < .4:
            case.reload()
        idx = rng.choice([0]) if not r0 else 1
        case.verify([(sp.cert, sp.chain, b)], idx, modes=mk(len(b)))
    else:
        gs = [(sp.cert, sp.chain, part) for part in split(rng, recs, groups)]
        case.verify(gs, idx, modes=mk(len(recs)), plan=pl)
    return case.dump()


def _ts_of(jws):
    import datetime
    t = datetime.datetime.strptime(w.fields_of(jws)['ts'], '%Y-%m-%dT%H:%M:%S')
    return int((t - datetime.datetime(2016, 3, 11, 23, 59, 50)).total_seconds())
