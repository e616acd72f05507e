"""
Random histories of registers and clusters: several signature devices, groups,
DEPs and registers, valid by construction except for the deviations put in.
What is a violation and which is decided by the specification alone.
"""
import copy
import random
import re

from . import hist
from . import plans
from . import scen
from . import world as w

DEVS = {
    'chain':   ['chain', 'remove', 'swap', 'dupl', 'replace', 'insert', 'firstchain'],
    'counter': ['tc', 'tc', 'tcreg', 'amtfield'],
    'restore': ['restore', 'restore', 'norestore'],
    'initial': ['initial'],
    'cont':    ['id', 'reg', 'zda', 'ts', 'id', 'xid'],
    'sig':     ['sig', 'sig', 'serial', 'unstored', 'otherkey'],
    'cluster': ['cluchain', 'xid', 'cluopen', 'idx', 'blank', 'clureg', 'cluts'],
    'none':    ['none'],
}
ALL = sorted(set(sum(DEVS.values(), [])))


class Device(object):
    def __init__(self, rng, closed, mode, n, aes):
        self.key = 'D%d' % n
        form = rng.choice(['hex', 'hex', 'HEX', 'neg', 'dec', 'pad', 'negdec'])
        self.setup = scen.Setup(rng, closed, aes is not None, mode, form, self.key,
                                rng.choice([0, 0, 1, 2, 3]) if mode == 'cert' and not closed else 0)
        self.setup.aes = aes
        if closed and mode == 'store':
            self.setup.serial = '%s-D%d' % (self.setup.serial.split('-')[0], n)
            self.setup.store = [(self.setup.serial, self.key, None)]


class Maker(object):
    def __init__(self, cid, seed, focus, opts=None):
        self.rng = rng = random.Random('%s/%s/%s' % (seed, cid, focus))
        o = opts or {}
        self.o = o
        self.cid = cid
        self.focus = focus
        self.nregs = o.get('nregs') or (rng.choice([1, 1, 1, 2, 3]) if focus != 'cluster'
                                        else rng.choice([2, 2, 3, 4]))
        self.closed = o['closed'] if 'closed' in o else (
            True if self.nregs > 1 else rng.random() < .35)
        self.mode = o.get('mode') or rng.choice(['store', 'store', 'cert'])
        self.aes = rng.getrandbits(256).to_bytes(32, 'big')
        self.has_key = rng.random() < .85 or focus == 'counter'
        if focus == 'counter' and rng.random() < .07:
            self.has_key = False
        self.devs = [Device(rng, self.closed, self.mode, i, self.aes)
                     for i in range(rng.choice([1, 1, 2, 3]))]
        store, keys = [], []
        for d in self.devs:
            for ent in d.setup.store:
                if ent[0] not in [s[0] for s in store]:
                    store.append(ent)
            keys += d.setup.keynames
        self.keys = keys + ['KX']
        rng.shuffle(store)
        given = self.aes if self.has_key else None
        if self.has_key and rng.random() < (.05 if focus == 'counter' else .01):
            # a key that is not one of 256 bits
            given = rng.choice([b'', b'', self.aes[:16], self.aes[:31], self.aes + b'\0', self.aes * 2])
        self.env = hist.Env(store, given, self.keys)
        self.width = rng.choice([8, 8, 8, 5, 6, 7, 9, 12, 16])
        self.natural = rng.random() < o.get('natural', 0)
        self.idstyle = rng.randrange(5)
        self.lastid = ''
        self.idn = rng.choice([0, 7, 97, 10 ** 9 - 2])
        self.regid = scen.reg_name(rng)
        self.used = set()
        self.big = rng.random() < .3
        self.huge = rng.random() < (.3 if focus == 'counter' else .05)

    # one receipt: -> (jws, device number)
    def receipt(self, reg, dev, kind, cents, sig='ok', **k):
        rng = self.rng
        st = self.devs[dev].setup
        zda = k.pop('zda', st.zda)
        rid = k.pop('rid', None)
        while rid is None:
            rid = self.next_id() if self.natural else plans.fresh_id(rng, self.used)
            if rid in self.used:
                rid = None
        self.lastid = rid
        ts = k.pop('ts', None)
        if ts is None:
            reg.ts += rng.choice([0, 1, 1, 5, 60, 3600, 86400, 2678400])
            ts = reg.ts
        serial = k.pop('serial', st.serial)
        key = k.pop('key', self.devs[dev].key)
        f = reg.fields(rid, kind, cents, ts, k.pop('regid', None), zda, serial,
                       k.pop('chain', None), k.pop('counter', None))
        if rng.random() < .02:
            i = rng.randint(1, 5)
            if f['a%d' % i] == '0,00':
                f['a%d' % i] = '-0,00'
        f.update(k)
        if sig == 'failed':
            jws = w.jws_of(f, 'FAIL')
        elif sig == 'ok':
            jws = w.jws_of(f, key)
        else:
            sp = type('S', (), {'key': staticmethod(lambda z: key), 'keys': self.keys})
            jws = plans.bad_signature(rng, f, sp, zda)
        reg.append(jws, kind, cents, sig == 'failed')
        self.used.add(rid)
        return jws

    def next_id(self):
        """The next one in the natural order, in one of several styles."""
        rng = self.rng
        self.idn += rng.choice([1, 1, 1, 2, 11])
        n = self.idn
        return ['%d' % n, rng.choice(['R%d', 'r%d', 'R0%d']) % n,
                'k%d-%d' % (n // 10, n % 10), '%s%02d x' % ('abcdefghijklm'[min(n // 100, 12)], n % 100)
                if n < 1300 else 'm%d x' % n, '%d/%d' % (2016, n)][self.idstyle]

    def out_of_order_id(self):
        """Not after the last one in the natural order, or just so."""
        rng = self.rng
        last = self.lastid or '1'
        opts = [last, last.swapcase(), last.upper(), '0' + last, last + ' ', last + '0', last + 'a',
                last[:-1], last[1:], 'A' + last, re.sub('[0-9]+', lambda m: '0' + m.group(), last),
                re.sub('[0-9]+', lambda m: str(max(int(m.group()) - 1, 0)), last),
                re.sub('[0-9]+', lambda m: '9', last), re.sub('[0-9]', '', last)]
        return rng.choice(opts) or '0'

    def cents(self, kindcls=None):
        rng = self.rng
        cls = kindcls or rng.choice('PPPNCZ')
        v = plans.amounts(rng, cls)
        if self.huge and cls != 'Z':
            return plans.enlarge(rng, v, self.width)
        if self.big and cls != 'Z':
            m = {5: 7, 6: 10 ** 3, 7: 10 ** 5, 8: 10 ** 6}.get(self.width, 10 ** 9)
            v = [x * m for x in v]
            if rng.random() < .5 and v[0]:
                v[0] += rng.choice([1, -1, 33])
        return v

    def valid_step(self, reg, rate):
        """(kind, cents, sig) obeying the protocol."""
        rng = self.rng
        if reg.first:
            return 'STD', [0] * 5, 'ok'
        if reg.need:
            if rng.random() < .5:
                return 'STD', [0] * 5, 'ok'
            return 'STD', [0] * 5, 'ok'
        r = rng.random()
        kind = rng.choice(['STD', 'STD', 'STD', 'DUM', 'REV'])
        if r < rate:
            return kind, self.cents(), 'failed'
        return kind, self.cents(), 'ok'

    def build(self, reg, n, dev_at):
        """Appends n receipts, deviating as dev_at {position: deviation} says.
        -> [(jws, device)]"""
        rng = self.rng
        rate = rng.choice([0, .2, .5])
        out = []
        dev = rng.randrange(len(self.devs))
        for i in range(n):
            if rng.random() < .3:
                dev = rng.randrange(len(self.devs))
            d = dev_at.get(i)
            kind, cents, sig = self.valid_step(reg, rate)
            k = {}
            st = self.devs[dev].setup
            if d == 'chain' or d == 'firstchain' or d == 'cluchain':
                k['chain'] = scen.bad_chain(rng, reg)
            elif d == 'tc':
                kind = 'STD' if not reg.first else kind
                k['counter'] = plans.wrong_counter(rng, reg, sum(cents))
            elif d == 'tcreg':
                # counts what must not count, or the other way around
                prev = [x for x in (w.fields_of(j) for j in reg.jws)]
                extra = sum(sum(w.as_cents(p['a%d' % q]) for q in range(1, 6))
                            for p in prev if p['ctr'] in (w.b64(b'TRA'), w.b64(b'STO')))
                k['counter'] = (lambda c: c + (extra or 7)) if rng.random() < .5 else (lambda c: c - (extra or 3))
                kind = 'STD'
            elif d == 'amtfield':
                k['a%d' % rng.randint(1, 5)] = w.amount(rng.choice([1, -1, 10000, 123]))
            elif d == 'restore':
                pass
            elif d == 'initial':
                kind = rng.choice(['STD', 'DUM', 'REV'])
                cents = self.cents(rng.choice('ZPNC'))
                sig = rng.choice(['ok', 'failed', 'ok'])
            elif d in ('id', 'xid') and self.used:
                pool = self.used
                if d == 'xid' and getattr(self, 'other_ids', None):
                    pool = self.other_ids
                k['rid'] = scen.bad_id(rng, pool)
                if self.natural and rng.random() < .7:
                    k['rid'] = self.out_of_order_id()
            elif d == 'reg' or d == 'clureg':
                k['regid'] = rng.choice([self.regid + 'X', self.regid + ' ',
                                         self.regid.swapcase() + '', ' ' + self.regid])
            elif d == 'zda' or d == 'cluopen':
                k['zda'] = 'AT3' if self.closed else 'AT0'
                k['serial'] = ('%x' % 77) if self.closed else 'U:ATU1-K1'
            elif d == 'ts' or d == 'cluts':
                k['ts'] = reg.ts - rng.choice([1, 2, 60, 10 ** 7])
            elif d == 'sig':
                sig = 'bad'
            elif d == 'serial':
                k['serial'] = rng.choice(['1f' + st.serial.strip('-'), st.serial[:-1].strip('-') or '1', 'abc123', '99']) \
                    if not self.closed else 'U:XX-9'
            elif d == 'otherkey':
                k['key'] = rng.choice(self.keys)
            elif d == 'altzda' and not self.closed:
                k['zda'] = rng.choice(['AT1', 'DE9', 'AT99'])
            if d == 'restore' and not reg.first and not reg.need:
                if not reg.prev_failed:
                    out.append((self.receipt(reg, dev, rng.choice(['STD', 'DUM', 'REV']),
                                             self.cents(), 'failed'), dev))
                out.append((self.receipt(reg, dev, rng.choice(['STD', 'DUM', 'REV']),
                                         self.cents('P'), 'ok'), dev))
            if reg.need and d == 'restore':
                kind, cents, sig = rng.choice([
                    ('STD', self.cents('P'), 'ok'), ('DUM', [0] * 5, 'ok'),
                    ('REV', [0] * 5, 'ok'), ('STD', [0] * 5, 'failed'),
                    ('STD', self.cents('N'), 'failed'), ('REV', self.cents('N'), 'ok'),
                    ('STD', self.cents('C'), 'ok')])
            if d == 'norestore' and not reg.first:
                # force the situation: fail, then sign with turnover twice
                out.append((self.receipt(reg, dev, 'STD', self.cents('P'), 'failed'), dev))
                out.append((self.receipt(reg, dev, rng.choice(['STD', 'DUM', 'REV']),
                                         self.cents('P'), 'ok'), dev))
                if rng.random() < .7:
                    out.append((self.receipt(reg, dev, rng.choice(['STD', 'DUM', 'REV']),
                                             self.cents(rng.choice('PZ')),
                                             rng.choice(['ok', 'failed'])), dev))
                continue
            if not self.closed and d is None and rng.random() < .05:
                k['zda'] = rng.choice(['AT1', 'DE9', 'AT99'])
            out.append((self.receipt(reg, dev, kind, cents, sig, **k), dev))
        return out

    def structural(self, items, d):
        rng = self.rng
        items = list(items)
        if d == 'remove' and len(items) > 1:
            del items[rng.randrange(len(items) - 1)]
        elif d == 'swap' and len(items) > 1:
            i = rng.randrange(len(items) - 1)
            items[i], items[i + 1] = items[i + 1], items[i]
        elif d == 'dupl':
            i = rng.randrange(len(items))
            items.insert(rng.randint(i, len(items)), items[i])
        elif d == 'insert' and len(items) > 1:
            i = rng.randrange(1, len(items))
            prev = items[i - 1][0]
            f = dict(w.fields_of(prev), id='ins%d' % rng.randint(0, 99), ctr=w.b64(b'TRA'),
                     chain=w.chain_of(prev))
            for q in range(1, 6):
                f['a%d' % q] = '0,00'
            items.insert(i, (w.jws_of(f, self.devs[items[i - 1][1]].key), items[i - 1][1]))
        elif d == 'replace':
            i = rng.randrange(len(items))
            jws, dev = items[i]
            f = w.fields_of(jws)
            how = rng.choice(['amt', 'resign', 'ts', 'unsign'])
            if how == 'amt':
                f['a%d' % rng.randint(1, 5)] = w.amount(rng.randint(-10 ** 5, 10 ** 5))
            elif how == 'ts':
                f['ts'] = f['ts'][:-1] + rng.choice('0123456789')
            if how == 'unsign' or jws.endswith(w.FAILSIG):
                new = w.jws_of(f, 'FAIL')
            else:
                new = w.jws_of(f, self.devs[dev].key)
            items[i] = (new, dev)
        return items

    def groups(self, items):
        """Groups of a DEP: by device in certificate mode."""
        rng = self.rng
        if self.mode == 'store':
            gs = [(None, [], [j for j, _d in items])]
        else:
            gs = []
            for j, d in items:
                st = self.devs[d].setup
                if not gs or gs[-1][0] is not st.groupcert or rng.random() < .1:
                    gs.append((st.groupcert, st.groupchain, []))
                gs[-1][2].append(j)
        if rng.random() < .06:
            # an empty group in between
            st = rng.choice(self.devs).setup
            at = rng.randint(0, len(gs))
            if self.mode == 'cert':
                gs.insert(at, (st.groupcert, st.groupchain, []))
        return gs

    def modes(self, n, k):
        rng = self.rng
        out = [plans.random_mode(rng, n) for _ in range(k)]
        if self.o.get('realpool'):
            out.append(('par', rng.choice(plans.PARSERS), rng.choice([0, 1, 1, 2, 3]),
                        rng.choice([1, 2, 3]), self.o['realpool']))
        return out

    def make(self):
        rng = self.rng
        case = self.o.get('case', hist.Case)(self.cid, self.env, natural=self.natural)
        kinds = DEVS[self.focus] if self.focus in DEVS else ALL
        nd = rng.choice([0, 1, 1, 1, 1, 2]) if self.focus != 'none' else 0
        devs = [rng.choice(kinds if rng.random() < .9 else ALL) for _ in range(nd)]
        nmodes = self.o.get('modes', 1)
        # registers and their receipts
        regs, deps = [], []
        total = [rng.choice([1, 2, 3, 4, 5, 6, 8, 12]) for _ in range(self.nregs)]
        if rng.random() < .02:
            # a long one
            total[rng.randrange(self.nregs)] = rng.choice([40, 70, 130])
        if 'n' in self.o:
            total = [self.o['n']] * self.nregs
        place = {}
        for d in devs:
            r = rng.randrange(self.nregs)
            pos = rng.randrange(total[r])
            if d in ('initial', 'firstchain'):
                pos = 0
            if d in ('cluchain', 'cluopen', 'clureg', 'cluts') and self.nregs > 1:
                r = rng.randrange(1, self.nregs)
                pos = 0
            if d == 'cluopen' and rng.random() < .5:
                r = 0
            place.setdefault(r, {})[pos] = d
        self.other_ids = None
        prev = None
        for r in range(self.nregs):
            reg = scen.Reg(self.regid, self.devs[0].setup, self.width, prev,
                           ts=plans._ts_of(prev) if prev else rng.randint(0, 10 ** 6))
            if r:
                self.other_ids = set(self.used)
            items = self.build(reg, total[r], place.get(r, {}))
            for d in place.get(r, {}).values():
                if d in ('remove', 'swap', 'dupl', 'insert', 'replace'):
                    items = self.structural(items, d)
            prev = reg.jws[0]
            regs.append(items)
        # events
        queue = [plans.split(rng, items, rng.choice([1, 1, 2, 3])) for items in regs]
        started = 0
        cursor = [0] * self.nregs
        nev = 0
        while any(cursor[r] < len(queue[r]) for r in range(self.nregs)) and nev < 14:
            ready = [r for r in range(min(started + 1, self.nregs)) if cursor[r] < len(queue[r])]
            if not ready:
                break
            r = ready[0] if rng.random() < .6 else rng.choice(ready)
            part = queue[r][cursor[r]]
            idx = r
            if r == started:
                idx = rng.choice([None, None, r])
            if 'idx' in devs and rng.random() < .3:
                idx = rng.choice([-1, r + 1, self.nregs + 1, 0, None, 99])
            if 'blank' in devs and rng.random() < .4:
                # an attempt that fails first
                bad = self.structural(part, rng.choice(['remove', 'swap', 'replace']))
                case.verify(self.groups(bad), idx)
                nev += 1
                if idx is None and len(case.state.cashRegisters) > r:
                    idx = r
            ok = case.verify(self.groups(part), idx,
                             modes=self.modes(len(part), nmodes))
            nev += 1
            if not ok and rng.random() < .7:
                break
            cursor[r] += 1
            if r == started:
                started += 1
            if rng.random() < .2:
                case.reload()
                nev += 1
        out = case.dump()
        out['tags'] = {'focus': self.focus, 'devs': devs, 'mode': self.mode,
                       'closed': self.closed, 'regs': self.nregs, 'natural': self.natural}
        return out


def make(cid, seed, focus, opts=None):
    return Maker(cid, seed, focus, opts).make()
