"""Receipt texts, well-formed and not, and recorded readings of them."""
import base64
import hashlib
import random
import re

from . import scen
from . import world as w

from librksv import receipt as librec

REPS = ['jws', 'qr', 'ocr', 'csv']
READ = {'jws': 'fromJWSString', 'qr': 'fromBasicCode', 'ocr': 'fromOCRCode', 'csv': 'fromCSV'}
WRITE = {'jws': 'toJWSString', 'qr': 'toBasicCode', 'ocr': 'toOCRCode', 'csv': 'toCSV'}
STD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
URL = STD[:-2] + '-_'
B32 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'


def codes(s):
    if isinstance(s, bytes):
        return list(s)
    return list(s.encode('utf-8', 'surrogatepass'))


def mro(e):
    return [c.__name__ for c in type(e).__mro__ if c not in (object, BaseException, Exception)]


# --------------------------------------------------------------------------
# recording

def describe(rec, prefix):
    return {
        'alg': codes(prefix), 'zda': codes(rec.zda), 'reg': codes(rec.registerId),
        'id': codes(rec.receiptId), 'ts': codes(rec.dateTimeStr),
        'sums': [codes(getattr(rec, 'sum%sStr' % x)) for x in 'ABCDE'],
        'ctr': codes(rec.encTurnoverCounter), 'serial': codes(rec.certSerial),
        'chain': codes(rec.previousChain), 'sig': codes(rec.signature),
        'header': codes(rec.header),
        'time': codes(rec.dateTime.isoformat()),
        'amounts': [codes(('%.2f' % getattr(rec, 'sum' + x)).replace('.', ',')) for x in 'ABCDE'],
        'dummy': rec.isDummy(), 'reversal': rec.isReversal(),
        'failed': rec.isSignedBroken(), 'null': rec.isNull()}


_count = [0]


def read(rep, text, expect=''):
    """-> event, receipt or None, prefix"""
    _count[0] += 1
    ev = {'t': 'read', 'rep': rep, 'text': codes(text), 'expect': expect, 'ok': False,
          'exc': [], 'got': {}, 'sound': _count[0] % 16 == 0}
    try:
        rec, prefix = getattr(librec.Receipt, READ[rep])(text)
    except Exception as e:
        ev['exc'] = mro(e)
        return ev, None, None
    ev['ok'] = True
    ev['got'] = describe(rec, prefix)
    return ev, rec, prefix


def write(rec, prefix, rep):
    ev = {'t': 'write', 'rep': rep, 'ok': False, 'exc': [], 'text': []}
    text = None
    try:
        text = getattr(rec, WRITE[rep])(prefix)
        ev['ok'] = True
        ev['text'] = codes(text)
    except Exception as e:
        ev['exc'] = mro(e)
    return ev, text


def urlhash(rec, prefix, qr):
    """qr: the QR text, made independently of the library"""
    return {'t': 'hash', 'qr': codes(qr), 'sha': list(hashlib.sha256(qr.encode('utf-8')).digest()),
            'out': codes(rec.toURLHash(prefix))}


# --------------------------------------------------------------------------
# making texts

class Parts(object):
    """What a receipt text consists of; chunks of bytes still to be encoded."""

    def __init__(self, rng, closed=None):
        self.rng = rng
        self.alg = 'R1'
        self.closed = rng.random() < .4 if closed is None else closed
        self.zda = 'AT0' if self.closed else 'AT%d' % rng.randint(1, 20)
        self.reg = rng.choice(['REG', 'K 1', u'K\xe4\xdfe 7', 'a-b.c', '{"x"}', u'\U0001f9fe'])
        self.id = rng.choice(['1', 'id-77', u'\u20ac', '00', '%d' % rng.getrandbits(40)])
        self.ts = scen.stamp(rng.randrange(10 ** 8))
        self.sums = [w.amount(rng.choice([0, 0, 1, -1, 100, 12345, -99999, rng.getrandbits(60)]))
                     for _ in range(5)]
        self.ctr = rng.choice([rand(rng, rng.choice([5, 8, 8, 16])), rand(rng, 8), b'TRA', b'STO'])
        self.serial = (rng.choice(['U:ATU12345678-K0', 'S:123456789', 'G:1234567890123-1'])
                       if self.closed else '%x' % rng.getrandbits(60))
        self.chain = rand(rng, 8)
        self.sig = rng.choice([rand(rng, 64)] * 3 + [w.FAILTEXT])
        self.mods = {}
        self.head = w.HEADER
        self.headmod = ''
        self.shape = ''

    def enc(self, rep, part):
        rng = self.rng
        data = getattr(self, part)
        mod = self.mods.get(part, '')
        if rep == 'ocr':
            s, alpha, per = base64.b32encode(data).decode(), B32, 5
        elif rep == 'jws' and part == 'sig':
            s, alpha, per = w.b64u(data), URL, 6
        else:
            s, alpha, per = w.b64(data), STD, 6
        body, pad = s.rstrip('='), s[len(s.rstrip('=')):]
        k = rng.randrange(1, len(body)) if len(body) > 1 else 0
        if mod == 'nopad':
            return body
        if mod == 'morepad':
            return s + rng.choice(['=', '==', '====', '========'])
        if mod == 'bits':
            unused = (len(body) * per) % 8
            assert unused
            return body[:-1] + alpha[alpha.index(body[-1]) + rng.randrange(1, 1 << unused)] + pad
        if mod in ('illegal', 'otheralphabet'):
            if mod == 'illegal':
                bad = ['!', '*', u'\xe9', '%', '\x00', ':', u'\uff21', u'\u212a'] + (
                    ['0', '1', '8', '9', 'a', 'z', '+', '/'] if rep == 'ocr' else
                    ['+', '/'] if alpha is URL else ['-'])
            else:
                bad = ['a', '+', '/', '-'] if rep == 'ocr' else ['+', '/'] if alpha is URL else ['-']
            return body[:k] + rng.choice(bad) + body[k + 1:] + pad
        if mod == 'space':
            return body[:k] + rng.choice([' ', '\t', '\n', u'\xa0']) + body[k:] + pad
        if mod == 'inner':
            return rng.choice([body[:k] + '=' + body[k:] + pad, body[:k] + '=' + body[k + 1:] + pad,
                               '=' + s])
        if mod == 'cut':
            return s[:-1] if pad else body[:len(body) - len(body) % 4 + 1] if len(body) % 4 else body[:-3]
        if mod == 'padonly':
            return '=' * (8 if rep == 'ocr' else 4)
        if mod == 'newline':
            return s + '\n'
        return s

    def elements(self, rep):
        return ['', '%s-%s' % (self.alg, self.zda), self.reg, self.id, self.ts] + self.sums + [
            self.enc(rep, 'ctr'), self.serial, self.enc(rep, 'chain')]

    def text(self, rep):
        rng = self.rng
        e = self.elements(rep)
        sep = ';' if rep == 'csv' else '_'
        if rep != 'jws':
            e.append(self.enc(rep, 'sig'))
        sh = self.shape
        first = 1 if rep == 'csv' else 0
        i = rng.randrange(2, len(e))
        if sh == 'nolead':
            del e[first]
        elif sh == 'lead':
            e.insert(first, '')
        elif sh == 'drop':
            del e[i]
        elif sh == 'dup':
            e.insert(i, e[i])
        elif sh == 'extra':
            e.append(rng.choice(['x', '0,00', e[-1]]))
        elif sh == 'trail':
            e.append('')
        elif sh == 'joined':
            e[i - 1:i + 1] = [e[i - 1] + rng.choice(['-', ',', ' ', '']) + e[i]]
        elif sh == 'nodash':
            e[1] = e[1].replace('-', rng.choice(['', ' ', ':', u'\u2010']))
        elif sh == 'twodash':
            e[1] = rng.choice(['-' + e[1], e[1] + '-', e[1] + '-AT1', e[1].replace('-', '--')])
        elif sh == 'empty':
            e = ['', ''] if rng.random() < .3 else []
        elif sh == 'wrongsep':
            sep = rng.choice([',', '|', '-', '\t', ' '] + (['_'] if rep == 'csv' else [';']))
        elif sh == 'sepin':
            e[rng.choice([2, 3])] += '_' + rng.choice(['', 'x'])
        p = sep.join(e[first:])
        if rep != 'jws':
            return p
        p = p.encode('utf-8')
        if sh == 'payloadutf8':
            k = p.index(b'_', 2) + 1
            p = p[:k] + rng.choice([b'\xff', b'\x80', b'\xc0\x80', b'\xed\xa0\x80', b'\xe2\x82',
                                    b'\xf5\x80\x80\x80', b'\xf0\x80\x80\x80', b'\xe0\x80\x80',
                                    b'\xf4\x90\x80\x80', b'\xc3']) + p[k:]
        if sh in ('payloadbits', 'payloadpad') and len(p) % 3 == 0:
            k = p.index(b'_', 2) + 1
            p = p[:k] + b'x' + p[k:]
        b = w.b64u(p)
        if sh == 'payloadbits':
            unused = (len(b) * 6) % 8
            b = b[:-1] + URL[URL.index(b[-1]) + rng.randrange(1, 1 << unused)]
        elif sh == 'payloadpad':
            b += '=' * (-len(b) % 4)
        elif sh == 'payloadillegal':
            k = rng.randrange(len(b))
            b = b[:k] + rng.choice(['+', '/', '=', ' ', '\n', u'\xe4', '~']) + b[k:]
        head = self.head if isinstance(self.head, bytes) else self.head.encode('utf-8')
        h = w.b64u(head)
        if self.headmod == 'pad':
            h += '='
        elif self.headmod == 'illegal':
            k = rng.randrange(len(h))
            h = h[:k] + rng.choice('+/= !') + h[k:]
        elif self.headmod == 'bits':
            h = w.b64u(head + b' ')[:-1] + 'J'
        elif self.headmod == 'newline':
            h += '\n'
        segs = [h, b, self.enc(rep, 'sig')]
        if sh == 'onlyhead':
            segs = segs[:1]
        elif sh == 'moresegs':
            segs.insert(rng.randint(0, 3), rng.choice(['', 'AAAA', segs[2]]))
        elif sh == 'lesssegs':
            del segs[rng.randrange(3)]
        return '.'.join(segs)


def rand(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


HEADS = {'none': '{"alg":"none"}', 'hs256': '{"alg":"HS256"}', 'order': '{"typ":"JWT","alg":"ES256"}',
         'typ': '{"alg":"ES256","typ":"JWT"}', 'spaced': '{"alg": "ES256"}', 'notutf8': b'\xff\xfe{}',
         'lead': ' {"alg":"ES256"}', 'tail': '{"alg":"ES256"} ', 'line': '{"alg":"ES256"}\n',
         'bom': u'\ufeff{"alg":"ES256"}'}


def unescape(tok):
    return re.sub(r'\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), tok)


def put(parts, part, tok):
    rng = parts.rng
    m = re.match('^<(.*)>$', tok)
    name = m.group(1) if m else None
    if part in ('ctr', 'chain', 'sig'):
        n = re.match(r'^len(\d+)$', name)
        if n:
            setattr(parts, part, rand(rng, int(n.group(1))))
            if parts.sig == b'TRA':
                raise AssertionError
        elif name in ('TRA', 'STO', 'tra'):
            setattr(parts, part, name.encode())
        elif name == 'STOx':
            setattr(parts, part, b'STO\0')
        elif name == 'fail':
            parts.sig = w.FAILTEXT
        else:
            setattr(parts, part, rand(rng, 64 if part == 'sig' else 8))
            parts.mods[part] = name
    elif part == 'head':
        if name in HEADS:
            parts.head = HEADS[name]
        elif name is None:
            parts.head = tok
        elif name != 'same':
            parts.headmod = name
    elif part == 'shape':
        parts.shape = '' if name == 'same' else name
    elif part == 'sum':
        i = rng.randrange(5)
        while i in parts.mods.setdefault('sums', []):
            i = rng.randrange(5)
        parts.mods['sums'].append(i)
        parts.sums[i] = unescape(tok)
    elif part == 'serial':
        if tok.startswith('@'):
            parts.closed, parts.zda, tok = True, 'AT0', tok[1:]
        else:
            parts.closed, parts.zda = False, 'AT1'
        parts.serial = unescape(tok)
    elif part == 'zda':
        parts.closed, parts.zda, parts.serial = False, unescape(tok), '1f'
    else:
        setattr(parts, part, unescape(tok))


def planned(cid, plans, seed):
    """A case reading the texts of several plans of GenForm."""
    rng = random.Random('%s/%s' % (seed, cid))
    evs = []
    for p in plans:
        parts = Parts(rng)
        if rng.random() < .02:
            parts.reg, parts.id = random_id(rng), random_id(rng, .6)
        elif rng.random() < .02:
            parts.reg = random_id(rng, 1)
        if p['rep'] == 'csv':
            parts.reg, parts.id = parts.reg.replace(';', ','), parts.id.replace(';', ',')
        if rng.random() < .25:
            # a good one with the same content first
            evs.append(read(p['rep'], parts.text(p['rep']), 'ok')[0])
        # the system type is set by either of these, the serial knows best
        for part, tok in sorted(p['set'], key=lambda x: x[0] == 'serial'):
            put(parts, part, tok)
        vague = p['rep'] == 'csv' and any(
            t.startswith((' ', '{a}')) or t.endswith((' ', '{a}', '<newline>')) for _, t in p['set'])
        both = {'zda', 'serial'} <= set(x[0] for x in p['set'])
        text = parts.text(p['rep'])
        evs.append(read(p['rep'], text, '' if vague or both else 'ok' if p['ok'] else 'bad')[0])
    return {'id': cid, 'evs': evs}


SUBST = u'0159aAfFgzZ_-,;:.=+/ \t\n@T\x00\xe4\u0661\uff11'


def edits(cid, rep, seed, n, level='text'):
    """Readings of texts one edit away from a well-formed one."""
    rng = random.Random('%s/%s' % (seed, cid))
    parts = Parts(rng)
    base = parts.text(rep)
    evs = [read(rep, base, 'ok')[0]]
    inner = rep == 'jws' and level == 'payload'
    t = w.unb64u(base.split('.')[1]).decode('utf-8') if inner else base
    for _ in range(n):
        s = t
        for _ in range(rng.choice([1, 1, 1, 1, 2])):
            k = rng.randrange(len(s) + 1)
            how = rng.choice(['sub', 'sub', 'ins', 'del', 'swap', 'dup', 'case'])
            ch = rng.choice(SUBST)
            if how == 'ins' or k == len(s):
                s = s[:k] + ch + s[k:]
            elif how == 'sub':
                s = s[:k] + ch + s[k + 1:]
            elif how == 'del':
                s = s[:k] + s[k + 1:]
            elif how == 'dup':
                s = s[:k] + s[k] + s[k:]
            elif how == 'case':
                s = s[:k] + s[k].swapcase() + s[k + 1:]
            elif k + 1 < len(s):
                s = s[:k] + s[k + 1] + s[k] + s[k + 2:]
        if inner:
            a = base.split('.')
            s = '.'.join([a[0], w.b64u(s.encode('utf-8')), a[2]])
        evs.append(read(rep, s)[0])
    return {'id': cid, 'evs': evs}


def roundtrip(cid, path, seed, toks=()):
    """Converts one receipt along the path of representations."""
    rng = random.Random('%s/%s' % (seed, cid))
    parts = Parts(rng)
    if rng.random() < .5:
        parts.reg = random_id(rng)
        parts.id = random_id(rng)
    if not parts.closed:
        parts.serial = rng.choice(['-', '', '0', '00']) + parts.serial
        if rng.random() < .3:
            parts.serial = parts.serial.upper()
    if rng.random() < .1:
        i = rng.randrange(5)
        parts.sums[i] = '-0,00'
    for part, tok in toks:
        put(parts, part, tok)
    if 'csv' in path:
        parts.reg = parts.reg.replace(';', ',')
        parts.id = parts.id.replace(';', ',')
    qr = parts.text('qr')
    evs = []
    text = parts.text(path[0])
    for i, rep in enumerate(path):
        ev, rec, prefix = read(rep, text, 'ok')
        evs.append(ev)
        if rec is None:
            break
        evs.append(urlhash(rec, prefix, qr))
        # written again in any other form on the side
        if rng.random() < .3:
            evs.append(write(rec, prefix, rng.choice(REPS[:3]))[0])
        if i + 1 < len(path):
            ev, text = write(rec, prefix, path[i + 1])
            evs.append(ev)
            if text is None:
                break
    return {'id': cid, 'evs': evs}


def random_id(rng, long=.02):
    plain = u'abzAZ019 -.,:;=+/|"\\\'\x7f\xe4\u20ac\u4e2d\U0001f600'
    # what normalisation, case folding or cleaning up would change
    odd = u'a\u0308e\u0301\ufb01\u2460\u212b\u212a\u0130\u0131\u017f\u200b\u200d\ufeff\xad\xa0\u2028\x85\x00\x01\x1b\t\u202e\uff11\u0661\xb2&<>%'
    alpha = rng.choice([plain, plain + odd])
    if rng.random() < long:
        # longer than any buffer somebody thought of
        return (rng.choice(['long-', u'\xe4/', '7', 'x y']) * 4500)[:rng.choice([257, 257, 300, 1100, 1100, 4400])] + rng.choice(u'x9\xdf')
    return ''.join(rng.choice(alpha)
                   for _ in range(rng.randint(0, 12))).strip() + rng.choice(u'x9\xdf')
