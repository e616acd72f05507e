"""
Builds concrete receipt histories: valid ones by keeping track of what a
register has to state next, with deviations put in on purpose.
"""
import base64
import random

from . import world as w

# what sha256 of nothing in particular gives: a chaining value nobody expects
BADCHAIN = w.b64(b'\0' * 8)


class Setup(object):
    """Key material and designations used by the receipts of a case."""

    def __init__(self, rng, closed, aes=True, mode='store', serial_form='hex',
                 key='K1', intermediates=0, tag=''):
        self.closed = closed
        self.mode = mode              # 'store': no certificate in the DEP
        self.key = key
        self.keynames = [key]
        self.aes = rng.getrandbits(256).to_bytes(32, 'big') if aes else None
        self.zda = 'AT0' if closed else 'AT%d' % rng.randint(1, 99)
        self.chain = []
        if closed:
            self.serial = rng.choice(['U:ATU1234567%d-K1' % rng.randint(0, 9),
                                      'S:12345678%d-k%d' % (rng.randint(0, 9), rng.randint(0, 99)),
                                      'G:1234567890123-1', 'U:DE9-0'])
            num = rng.getrandbits(60) + 1
            self.cert = w.cert(key, num, tag=tag) if mode == 'cert' else None
            self.store = [(self.serial, key, None)]
            if mode == 'cert':
                self.store = [(self.cert.keyid, key, self.cert)]
        else:
            num = rng.choice([rng.getrandbits(62) + 1, rng.getrandbits(20) + 1,
                              rng.getrandbits(120) + 1, rng.randint(1, 9), rng.getrandbits(rng.choice([159, 160, 200])) + 1])
            top = key
            names = ['%s-I%d' % (key, i) for i in range(intermediates)]
            signers = names + ['%s-I%d' % (key, intermediates)]
            if intermediates:
                self.cert = w.cert(key, num, signers[0], tag)
                for i, n in enumerate(names):
                    last = i == len(names) - 1
                    self.chain.append(w.cert(n, num + 1000 + i,
                                             None if last else signers[i + 1], tag))
            else:
                self.cert = w.cert(key, num, tag=tag)
            self.keynames += names
            anchor = self.chain[-1] if self.chain else self.cert
            self.serial = serial_text(rng, num, serial_form)
            if mode == 'cert':
                self.store = [(anchor.keyid, anchor.key, anchor)]
            else:
                self.store = [(self.cert.keyid, key,
                               self.cert if rng.random() < .5 else None)]
        self.groupcert = self.cert if mode == 'cert' else None
        self.groupchain = self.chain if mode == 'cert' else []


def serial_text(rng, num, form):
    if form == 'hex':
        return '%x' % num
    if form == 'HEX':
        return '%X' % num
    if form == 'neg':
        return '-%x' % num
    if form == 'pad':
        return '00%x' % num
    if form == 'dec':
        return '%d' % num
    if form == 'negdec':
        return '-%d' % num
    raise ValueError(form)


class Reg(object):
    """A register and what the next receipt has to state."""

    def __init__(self, reg_id, setup, width=8, prev_start=None, ts=0, chain_next=None):
        self.reg = reg_id
        self.s = setup
        self.width = width
        self.last = prev_start        # JWS the next receipt is chained to
        self.chain_next = chain_next
        self.first = True
        self.tc = 0
        self.ts = ts
        self.n = 0
        self.jws = []
        self.prev_failed = False
        self.need = False
        self.pending_start = None

    def copy(self):
        r = Reg.__new__(Reg)
        r.__dict__.update(self.__dict__)
        r.jws = list(self.jws)
        return r

    def fields(self, rid, kind, cents, ts=None, reg=None, zda=None, serial=None,
               chain=None, counter=None, width=None):
        reg = self.reg if reg is None else reg
        s = self.s
        total = sum(cents)
        ctr = self.tc if kind == 'DUM' else self.tc + total
        if counter is not None:
            ctr = counter(ctr)
        if kind == 'DUM':
            enc = w.b64(b'TRA')
        elif kind == 'REV':
            enc = w.b64(b'STO')
        elif s.aes is None:
            enc = w.b64(b'\1' * (width or self.width))
        else:
            enc = w.enc_counter(s.aes, reg, rid, ctr, width or self.width)
        if chain is None:
            chain = self.next_chain(reg)
        f = {'alg': 'R1', 'zda': zda or s.zda, 'reg': reg, 'id': rid,
             'ts': stamp(self.ts if ts is None else ts), 'ctr': enc,
             'serial': serial or s.serial, 'chain': chain}
        for i in range(5):
            f['a%d' % (i + 1)] = w.amount(cents[i])
        return f

    def next_chain(self, reg=None):
        if self.chain_next:
            return self.chain_next
        return w.chain_of(self.last if self.last else (reg or self.reg))

    def append(self, jws, kind, cents, failed):
        std_null = kind == 'STD' and not any(cents)
        if not failed:
            self.need = (not self.first) and not std_null and (self.prev_failed or self.need)
        self.prev_failed = failed
        self.first = False
        self.last = jws
        self.chain_next = None
        self.jws.append(jws)
        self.n += 1
        if kind != 'DUM':
            self.tc += sum(cents)


def stamp(n):
    """A time stamp n seconds after a fixed moment."""
    import datetime
    t = datetime.datetime(2016, 3, 11, 23, 59, 50) + datetime.timedelta(seconds=n)
    return t.strftime('%Y-%m-%dT%H:%M:%S')


ODD_REGS = [' R', 'R ', '  ', 'R\n', u'\ufeffR', u'A\u0308', u'\xc4', u'\ufb01', u'\u212a', u'\U0001f9fe', '{}', '%s', '"', '\\',
            'a;b', "'", '0', '-1', 'None', 'R.1', 'x' * 300, u'\xa0x', '\x00', 'AT0', 'R1', '+/=', u'\u0130I']


def reg_name(rng):
    """An ID of a register: anything but an underscore may be in it."""
    if rng.random() < .6:
        return rng.choice(['REG', 'CASHBOX-DEMO-1', 'Kasse 1', u'K\xe4\xdfe', 'r'])
    return rng.choice(ODD_REGS)


# --------------------------------------------------------------------------
# deviating values

def bad_chain(rng, reg, how=None):
    """A chaining value that is not the right one."""
    right = reg.next_chain()
    raw = base64.b64decode(right)
    opts = {
        'zero': BADCHAIN,
        'flip': w.b64(bytes(b ^ (1 << rng.randrange(8)) if i == k else b
                            for k in [rng.randrange(8)] for i, b in enumerate(raw))),
        'rev': w.b64(raw[::-1]),
        'regid': w.chain_of(reg.reg),
        'tail': w.b64(w.sha(reg.last if reg.last else reg.reg)[-8:]),
        'payload': w.chain_of(reg.last.rsplit('.', 1)[0] if reg.last else reg.reg + ' '),
        'prevprev': w.chain_of(reg.jws[-2]) if len(reg.jws) > 1 else None,
        'start': w.chain_of(reg.jws[0]) if reg.jws else None,
        'case': w.b64(base64.b64decode(right.swapcase())),
        # the receipt before, where another value is configured
        'last': w.chain_of(reg.last) if reg.last else None,
    }
    names = sorted(k for k, v in opts.items() if v and v != right
                   and len(base64.b64decode(v)) == 8)
    if how not in names and 'last' in names and rng.random() < .3:
        how = 'last'
    return opts[how if how in names else rng.choice(names)]


def bad_id(rng, used):
    return rng.choice(sorted(used))


def tamper_sig(rng, jws, how=None):
    """Invalidate the signature of a signed receipt without leaving the form."""
    head, pay, sig = jws.split('.')
    raw = bytearray(w.unb64u(sig))
    how = how or rng.choice(['bit', 'zero', 'swap', 'short', 'empty', 'long', 'der'])
    if how == 'bit':
        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
    elif how == 'zero':
        raw = bytearray(64)
    elif how == 'swap':
        raw = raw[32:] + raw[:32]
    elif how == 'short':
        raw = raw[:-1]
    elif how == 'empty':
        raw = bytearray()
    elif how == 'long':
        raw += b'\0'
    elif how == 'der':
        from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature
        raw = bytearray(encode_dss_signature(int.from_bytes(raw[:32], 'big'),
                                             int.from_bytes(raw[32:], 'big')))
    return '.'.join([head, pay, w.b64u(bytes(raw))])


def resign_payload(jws, **changes):
    """Change fields after signing: the old signature stays."""
    f = w.fields_of(jws)
    f.update(changes)
    head, _p, sig = jws.split('.')
    return '.'.join([head, w.b64u(w.payload(f).encode('utf-8')), sig])
