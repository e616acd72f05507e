"""Requests to cash registers, planned and random, recorded."""
import datetime
import fractions
import random

from . import env
from . import forms
from . import plans
from . import scen
from . import world as w

from librksv import cashreg, sigsys

DEVICE_DOWN = [RuntimeError, ValueError, OSError, KeyError, TypeError, MemoryError]


class Raising(sigsys.SignatureSystemI):
    """A device that breaks down, or returns nothing a receipt could be made of."""

    def __init__(self, zda, serial, what):
        self.zda = zda
        self.serial = serial
        self.what = what

    def sign(self, data, algorithm):
        if isinstance(self.what, type):
            raise self.what('device')
        return self.what


def cents_of(x):
    """The cents stated for a sum: the nearest ones."""
    return round(fractions.Fraction(x) * 100)


class Reg(object):
    def __init__(self, rid, width, ps):
        self.rid = rid
        self.width = width
        self.ps = ps            # index of the start receipt before, or 0
        self.obj = None
        # the failure protocol
        self.first, self.prev_failed, self.need = True, False, False
        self.sum = 0


class Bench(object):
    """Cash registers, their devices and the record of what they did."""

    def __init__(self, cid, seed, closed, widths=(8,), cluster=False):
        self.rng = rng = random.Random('%s/%s' % (seed, cid))
        self.cid = cid
        self.closed = closed
        mk = lambda key: scen.Setup(rng, closed, key=key, tag=key, serial_form=rng.choice(
            ['hex', 'HEX', 'neg', 'pad', 'dec']))
        self.setups = [mk('K1'), mk('K2')]
        while self.setups[1].store[0][0] == self.setups[0].store[0][0] or self.ambiguous():
            self.setups[1] = mk('K2')
        self.aes = self.setups[0].aes
        self.recs = []
        self.texts = {}
        self.evs = []
        self.used = []
        self.ids = set()
        self.t = rng.randrange(10 ** 8)
        rid = rng.choice([scen.reg_name(rng), scen.reg_name(rng), forms.random_id(rng).replace('_', '-')])
        self.regs = []
        for i, width in enumerate(widths):
            self.regs.append(Reg(rid if cluster else rid + 'abc'[i], width,
                                 0 if not cluster else 1 if i == 0 else None))
        if cluster:
            # the register before has made its start receipt
            r = scen.Reg(rid, self.setups[0], ts=self.t)
            jws = w.jws_of(r.fields('before', 'STD', [0] * 5), 'K1')
            self.note(jws)
            self.used.append('before')
            self.ids.add('before')
        for g in self.regs:
            self.open(g)
        self.begin = [self.state(g) for g in self.regs]

    def ambiguous(self):
        """Whether a serial could denote the other key, too."""
        if self.closed:
            return False
        have = [s.store[0][0] for s in self.setups]
        for i, s in enumerate(self.setups):
            h, d = w.serial_readings(s.serial)
            if have[1 - i] in (h, d) or (h != d and have[i] == h and have[i] == d):
                return True
        return False

    def open(self, g):
        last, tc = None, 0
        if g.obj is not None:
            last, tc = g.obj.lastReceiptSig, g.obj.turnoverCounter
        elif g.ps:
            last = self.recs_text[g.ps - 1]
        if g.width == 8 and self.rng.random() < .5:
            g.obj = cashreg.CashRegister(g.rid, last, tc, self.aes)
        else:
            g.obj = cashreg.CashRegister(g.rid, last, tc, self.aes, g.width)

    @property
    def recs_text(self):
        return [t for t, _ in self.recs]

    def note(self, jws):
        if jws not in self.texts:
            try:
                f = w.facts(jws, ['K1', 'K2'], self.aes)
            except Exception:
                f = w.facts(jws, [], None, malf=['x'])
            self.recs.append((jws, f))
            self.texts[jws] = len(self.recs)
        return self.texts[jws]

    def state(self, g):
        last = g.obj.lastReceiptSig
        tc = g.obj.turnoverCounter
        return {'last': 0 if last is None else self.texts.get(last, -1),
                'tc': w.limbs(tc) if isinstance(tc, int) else repr(tc),
                'size': g.obj.turnoverCounterSize}

    def fresh(self):
        while True:
            r = self.rng.random()
            i = forms.random_id(self.rng).replace('_', '-') if r < .3 else plans.fresh_id(self.rng, self.ids) if r < .6 else \
                '%s%d' % (self.rng.choice(['', 'R', u'\xe4']), len(self.ids))
            if i not in self.ids:
                self.ids.add(i)
                return i

    def request(self, n, kind, sums, dev='ok', which=0, bad='', device=None, rid=None, step=None):
        """n: number of the register; which: number of the device's key"""
        rng = self.rng
        g = self.regs[n]
        s = self.setups[which]
        zda, serial = s.zda, s.serial
        rid = rid if rid is not None else self.fresh()
        self.t += rng.choice([0, 0, 1, 60, 86400]) if step is None else step
        when = datetime.datetime(2016, 3, 11, 23, 59, 50) + datetime.timedelta(seconds=self.t)
        req = {'id': rid, 'ts': when.strftime('%Y-%m-%dT%H:%M:%S'), 'kind': kind, 'amt': [], 'zda': zda,
               'serial': serial, 'key': 'K%d' % (which + 1)}
        if rng.random() < .3:
            when = when.replace(microsecond=rng.randrange(10 ** 6))
        if rng.random() < .1:
            # local time that knows where it is
            when = when.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=rng.randint(-11, 12))))
        try:
            req['amt'] = [w.limbs(cents_of(x)) for x in sums]
        except Exception:
            req['amt'] = [w.limbs(0)] * 5
        sums = list(sums)
        prefix, key = 'R1', self.aes
        if bad == 'id':
            rid = rng.choice(['', '_', 'a_b', None, 5, b'id', u'a\ud800', ['x']])
        elif bad == 'sum':
            sums[rng.randrange(5)] = rng.choice([float('nan'), float('inf'), -float('inf'), None, '1', '1.00', [1.0]])
        elif bad == 'time':
            when = rng.choice([None, req['ts'], 1457740790, ''])
        elif bad == 'prefix':
            prefix = rng.choice(['R2', 'r1', '', 'AT0', None, 'R1 '])
        elif bad == 'key':
            key = rng.choice([None, b'', b'\0' * 31, b'\0' * 33, b'\0' * 16, '0' * 32])
        elif bad == 'device':
            zda, serial = rng.choice([
                ('', serial), (None, serial), ('AT', serial), ('AT1-', serial), ('at1', serial), (zda, ''), (zda, None),
                (zda, 'zz'), (zda, '-'), (zda, serial + '_'), (zda, ' ' + serial),
                ('AT1' if self.closed else 'AT0', serial)])
        elif bad == 'reply':
            device = Raising(zda, serial, rng.choice([None, '', 'x', 'a.b', 'a.b.c.d', b'a.b.c', 7, ['a', 'b', 'c'], '..x..']))
        if device is None:
            if dev == 'raises':
                device = Raising(zda, serial, rng.choice(DEVICE_DOWN))
            elif dev == 'failed':
                device = sigsys.SignatureSystemBroken(zda, serial)
            else:
                device = sigsys.SignatureSystemWorking(zda, serial, w.priv_pem('K%d' % (which + 1)))
        ev = {'t': 'make', 'g': n + 1, 'req': req, 'dev': dev, 'bad': bad, 'done': False, 'x': 0, 'same': True,
              'width': 0, 'exc': []}
        g.obj.key = key
        rec = None
        try:
            kw = {}
            if kind == 'DUM' or rng.random() < .3:
                kw['dummy'] = kind == 'DUM'
            if kind == 'REV' or rng.random() < .3:
                kw['reversal'] = kind == 'REV'
            rec = g.obj.receipt(prefix, rid, when, *(sums + [device]), **kw)
            ev['done'] = True
        except Exception as e:
            ev['exc'] = forms.mro(e)
        g.obj.key = self.aes
        if ev['done']:
            jws = g.obj.lastReceiptSig
            if isinstance(jws, str):
                known = jws in self.texts
                ev['x'] = self.note(jws)
                ev['same'] = not known and rec.toJWSString('R1') == jws
                f = self.recs[ev['x'] - 1][1]
                if not f['malf'] and f['kind'] == 'STD':
                    ev['width'] = width_of(jws)
            else:
                ev['same'] = False
        ev['after'] = [self.state(x) for x in self.regs]
        self.evs.append(ev)
        return ev

    def did(self, g, kind, sums, failed):
        """The protocol after a receipt that should have been made."""
        zero = not any(cents_of(x) for x in sums)
        if not failed:
            g.need = (not g.first) and not (kind == 'STD' and zero) and (g.prev_failed or g.need)
        g.prev_failed = failed
        g.first = False
        if kind != 'DUM':
            g.sum += sum(cents_of(x) for x in sums)

    def restart(self, n):
        self.open(self.regs[n])
        self.evs.append({'t': 'restart', 'g': n + 1, 'after': [self.state(x) for x in self.regs]})

    def case(self):
        recs = [dict(f) for _, f in self.recs]
        times = sorted(set([r['ts'] for r in recs] + [e['req']['ts'] for e in self.evs if e['t'] == 'make']))
        rank = {t: i for i, t in enumerate(times)}
        for r in recs:
            r['ts'] = rank[r['ts']]
        evs = []
        for e in self.evs:
            if e['t'] == 'make':
                e = dict(e, req=dict(e['req'], ts=rank[e['req']['ts']]))
            evs.append(e)
        regs = []
        for g, b in zip(self.regs, self.begin):
            regs.append({'reg': g.rid, 'regHash': w.chain_of(g.rid), 'last': b['last'], 'tc': b['tc'], 'size': g.width,
                         'lim': w.limbs(1 << (8 * g.width - 1)), 'ps': g.ps or 0})
        return {'id': self.cid, 'recs': recs, 'regs': regs, 'used': self.used, 'evs': evs,
                'env': {'hasKey': True, 'keyOK': True,
                        'store': [{'id': i, 'key': k, 'cert': c.facts() if c else w.NOCERT}
                                  for s in self.setups for i, k, c in s.store]}}


def width_of(jws):
    import base64
    return len(base64.b64decode(w.fields_of(jws)['ctr']))


# --------------------------------------------------------------------------

def planned(cid, plan, seed):
    b = Bench(cid, seed, plan['closed'], (5,), plan['cluster'])
    rng = b.rng
    for st in plan['script']:
        if st['what'] == 'restart':
            b.restart(0)
            continue
        a = st['amt']
        sums = {'Z': [0.0] * 5, 'P': [1.0, 0.0, .07, 0.0, 0.0], 'N': [0.0, -2.5, 0.0, 0.0, 0.0],
                'C': [3.0, 0.0, 0.0, 0.0, -3.0], 'B': [0.0, 0.0, 0.0, 4000300000.0, 0.0]}[a]
        if rng.random() < .5:
            sums = scaled(rng, a)
        dev = 'ok' if st['dev'] == 'ok2' else st['dev']
        rid = None
        b.request(0, st['kind'], sums, dev, int(st['dev'] == 'ok2'), st['bad'], rid=rid)
    return b.case()


def scaled(rng, a):
    """Other sums of the same kind."""
    out = [0.0] * 5
    if a == 'Z':
        return [rng.choice([0.0, -0.0, 0]) for _ in out]
    if a == 'C':
        c = rng.randint(1, 10 ** 10)
        i, j = rng.sample(range(5), 2)
        out[i], out[j] = c / 100.0, -c / 100.0
        return out
    if a == 'B':
        out[rng.randrange(5)] = (4 * 10 ** 11 + rng.randrange(10 ** 9)) / 100.0
        return out
    sign = 1 if a == 'P' else -1
    for i in rng.sample(range(5), rng.randint(1, 5)):
        out[i] = sign * amount(rng)
    return out


def amount(rng):
    c = rng.choice([1, 7, 10, 33, 99, 100, 999, 12345, rng.randrange(1, 10 ** 6), rng.randrange(1, 10 ** 8)])
    return rng.choice([c / 100.0, float(c), c])


BADS = ['id', 'sum', 'time', 'prefix', 'key', 'device', 'reply']


def randomised(cid, seed, steps=30):
    rng = random.Random('shape/%s/%s' % (seed, cid))
    cluster = rng.random() < .3
    closed = cluster or rng.random() < .4
    widths = tuple(rng.choice([5, 5, 6, 7, 8, 8, 9, 15, 16]) for _ in range(rng.choice([1, 1, 2])))
    if cluster:
        widths = widths[:1]
    b = Bench(cid, seed, closed, widths, cluster)
    rng = b.rng
    fails = rng.choice([.1, .3, .6])
    bads = rng.choice([0, .15, .4])
    pretty = rng.choice(['cents', 'cents', 'fine', 'large'])
    for _ in range(steps):
        n = rng.randrange(len(b.regs))
        g = b.regs[n]
        r = rng.random()
        if r < .08:
            b.restart(n)
            continue
        kind = rng.choice(['STD', 'STD', 'STD', 'DUM', 'REV'])
        sums = scaled(rng, rng.choice('ZPPPNC'))
        if pretty == 'fine':
            # fractions of cents are stated as the nearest cents
            sums = [x + rng.choice([0, .001, -.003, .0049, rng.uniform(-.004, .004)]) for x in sums]
        lim = 1 << (8 * g.width - 1)
        if pretty == 'large' or rng.random() < .1:
            # up to the limit of the counter
            room = rng.choice([lim - 1 - g.sum, -lim - g.sum, lim - g.sum, -lim - 1 - g.sum, rng.randrange(-lim, lim) - g.sum,
                               rng.randrange(-lim, lim)])
            sums = [0.0] * 5
            if rng.random() < .6 and abs(room) < 10 ** 15:
                sums[rng.randrange(5)] = room / 100.0
            else:
                sums[rng.randrange(5)] = float(room // 100)
        if rng.random() < bads:
            bad = rng.choice(BADS)
            if bad == 'key':
                kind = 'STD'
            b.request(n, kind, sums, 'ok', 0, bad)
            continue
        if rng.random() < .08:
            b.request(n, kind, sums, 'raises', 0)
            continue
        dev = 'failed' if rng.random() < fails else 'ok'
        if g.first:
            kind, sums, dev = 'STD', [0.0] * 5, 'ok'
        elif g.need:
            kind, sums, dev = 'STD', scaled(rng, 'Z'), 'ok'
        zero = not any(cents_of(x) for x in sums)
        after = g.sum + sum(cents_of(x) for x in sums)
        ev = b.request(n, kind, sums, dev, rng.randrange(2))
        if kind != 'STD' or -lim <= after < lim:
            b.did(g, kind, sums, dev == 'failed')
    return b.case()
