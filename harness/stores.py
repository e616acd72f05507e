"""Key stores, key containers and key_store.py: recorded operations."""
import base64
import configparser
import copy
import io
import json
import os
import random

from cryptography import x509
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import serialization

from . import cli
from . import docs
from . import forms
from . import unusable
from . import world as w

from librksv import key_store, utils

IDS = {'a': 'a', '0A': '0A', '-a': '-a', '10': '10', 'S:1': 'S:1', 'zz': 'zz', 'none': ''}
PARSE = 'KeyStoreParseException'
NO = '-'


def codes(s):
    return [ord(c) for c in s]


_made = {}


def odd_cert(key, serial, tag=''):
    """A certificate with a serial that is not positive (its signature is wrong then)."""
    ident = (key, serial, tag)
    if ident in _made:
        return _made[ident]
    if serial > 0:
        c = w.cert(key, serial, tag=tag)
    else:
        size = 1
        while not -(1 << (8 * size - 1)) <= serial < 1 << (8 * size - 1):
            size += 1
        want = serial.to_bytes(size, 'big', signed=True)
        # another one of the same length
        stand = (0x5a,) + (0x5b,) * (size - 1)
        o = w.cert(key, int.from_bytes(bytes(stand), 'big'), tag=tag)
        der = base64.b64decode(o.line)
        mark = b'\x02' + bytes([size]) + bytes(stand)
        i = der.index(mark)
        der = der[:i] + b'\x02' + bytes([size]) + want + der[i + len(mark):]
        c = w.Cert(key, serial, key, x509.load_der_x509_certificate(der, default_backend()))
    assert c.obj.serial_number == serial, (c.obj.serial_number, serial)
    _made[ident] = c
    return c


class Names(object):
    def __init__(self):
        self.keys, self.certs = {}, {}     # name -> object
        self.bykey, self.bycert = {}, {}

    def key(self, name):
        if name not in self.keys:
            self.keys[name] = w.pub(name)
            self.bykey[w.key_line(name)] = name
        return self.keys[name]

    def cert(self, name, c):
        if c.line in self.bycert:
            return c
        self.certs[name] = c
        self.bycert[c.line] = name
        self.key(c.key)
        return c

    def key_name(self, k):
        if k is None:
            return NO
        try:
            der = k.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)
            return self.bykey.get(w.b64(der), '?')
        except Exception:
            return '?'

    def cert_name(self, c):
        if c is None:
            return NO
        try:
            return self.bycert.get(w.b64(c.public_bytes(serialization.Encoding.DER)), '?')
        except Exception:
            return '?'


def standard():
    n = Names()
    for k in ('K1', 'K2', 'K3'):
        n.key(k)
    n.cert('C1', odd_cert('K1', 10))
    n.cert('C2', odd_cert('K2', 16))
    n.cert('CN', odd_cert('K3', -10))
    n.cert('C1x', odd_cert('K2', 10))
    return n


def contents(names, store):
    return [{'id': codes(i), 'key': names.key_name(store.getKey(i)), 'cert': names.cert_name(store.getCert(i))}
            for i in list(store.getKeyIds())]


def entry(i, key, cert=NO):
    return {'id': codes(i), 'key': key, 'cert': cert}


def exc_facts(e):
    m = forms.mro(e)
    return {'ok': False, 'lib': PARSE in m, 'exc': m[0]}


FINE = {'ok': True, 'lib': True, 'exc': ''}


def ini_config():
    c = configparser.RawConfigParser()
    c.optionxform = str
    return c


def ini_able(i):
    """Whether the INI format can hold the ID at all."""
    body = i
    for pre in ('S:', 'U:', 'G:'):
        body = body.replace(pre, '.')
    if body != i and len(body) > 1:
        body = body.lstrip('.')
    return bool(body) and body.isprintable() and body.strip() == body and not set(body) & set('=:;#[]%') \
        and (i != body or not set(body) & set(' \u00a0'))


class Log(object):
    """Two real stores and what was done to them."""

    def __init__(self, cid, names, probes, rng):
        self.case = {'id': cid, 'evs': []}
        self.names, self.rng = names, rng
        self.st = [key_store.KeyStore(), key_store.KeyStore()]
        self.probes = set(probes)
        self.look('new', FINE)

    def look(self, t, facts, **kw):
        get = [contents(self.names, s) for s in self.st]
        miss = []
        for s in self.st:
            ids = set(s.getKeyIds())
            self.probes |= ids
            for i in sorted(self.probes - ids):
                if s.getKey(i) is not None or s.getCert(i) is not None:
                    miss.append(codes(i))
        self.case['evs'].append(dict({'t': t, 's': 1, 'id': [], 'key': NO, 'cert': NO, 'get': get, 'miss': miss},
                                     **dict(facts, **kw)))

    def do(self, t, s, i='', key=NO, cert=NO):
        rng, st = self.rng, self.st[s - 1]
        names = self.names
        facts = FINE
        try:
            if t == 'key':
                if rng.random() < .5:
                    st.putKey(i, names.key(key), None)
                else:
                    st.putPEMKey(i, w.key_pem(key))
            elif t == 'cert':
                i = names.certs[cert].keyid
                st.putPEMCert(names.certs[cert].pem())
            elif t == 'certas':
                st.putKey(i, names.key(key), names.certs[cert].obj)
            elif t == 'del':
                st.delKey(i)
            elif t == 'copy':
                self.st[1] = copy.deepcopy(self.st[0])
            elif t == 'json':
                aes = rng.choice([None, b'', os.urandom(32), b'x' * 31])
                data = st.writeStoreToJson(None if aes is None else w.b64(aes))
                if rng.random() < .7:
                    data = json.loads(json.dumps(data, sort_keys=rng.random() < .5))
                self.aes(aes, data)
                self.st[s - 1] = key_store.KeyStore.readStoreFromJson(data)
            elif t == 'ini':
                c = ini_config()
                st.writeStore(c)
                if rng.random() < .7:
                    f = io.StringIO()
                    c.write(f)
                    c = ini_config()
                    c.read_string(f.getvalue())
                self.st[s - 1] = key_store.KeyStore.readStore(c)
        except Exception as e:
            facts = exc_facts(e)
        self.look(t, facts, s=s, id=codes(i), key=key, cert=cert)

    def aes(self, want, data):
        try:
            got = utils.loadKeyFromJson(data)
            got = NO if got is None else w.b64(got)
        except Exception as e:
            got = forms.mro(e)[0]
        self.case['evs'].append({'t': 'aes', 'want': NO if want is None else w.b64(want), 'got': got})


def planned(cid, script, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    names = standard()
    log = Log(cid, names, list(IDS.values()) + ['A', 'zzz', '-10', '010', 's;1'], rng)
    for x in script:
        log.do(x['op'], x['s'], IDS[x['id']], x['key'], x['cert'])
    return log.case


def spellings(rng, serial):
    h = '%x' % abs(serial)
    return rng.choice([h, h.upper(), '0' + h, '-' + h, '-00' + h.upper(), '%d' % serial, '%d' % abs(serial),
                       ''.join(rng.choice([c, c.upper()]) for c in h)])


def random_pool(rng, names):
    serials = [rng.choice([1, 0, 10, 16, 17, 255, rng.getrandbits(31), rng.getrandbits(64) + 1, rng.getrandbits(159) + 1,
                           rng.getrandbits(rng.choice([160, 200])) + 1])
               for _ in range(4)]
    for n, s in enumerate(serials):
        names.cert('R%d' % n, odd_cert(rng.choice(['K1', 'K2', 'K3', 'K4']), s))
        if rng.random() < .4:
            names.cert('N%d' % n, odd_cert('K5', -s - (s == 0), tag='n'))
        if rng.random() < .4:
            # what reads the same in decimal
            names.cert('D%d' % n, odd_cert('K4', int('%x' % s, 10) if ('%x' % s).isdigit() and s else s + 1, tag='d'))
    ids = []
    for s in serials:
        ids += [spellings(rng, s) for _ in range(3)]
    ids += [rng.choice(['S:', 'U:', 'G:']) + rng.choice(['123', 'ATU1-a', 'x;y', 'S:1', 'U:S:1', 'ATUS:1']) for _ in range(2)]
    ids += [rng.choice(['', 'zz', 'xyz', ' a', 'a ', '0x10', '1_0', '+10', '--10', '-', '\u0663', '\u00e9',
                        's1', 'U', 'a-b', '10\n', forms.random_id(rng)]) for _ in range(3)]
    return ids


def randomised(cid, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    names = Names()
    for k in ('K1', 'K2', 'K3', 'K4', 'K5'):
        names.key(k)
    ids = random_pool(rng, names)
    clean = [i for i in ids if ini_able(i)] or ['a']
    if rng.random() < .4:
        ids = clean
    log = Log(cid, names, ids, rng)
    certs = sorted(names.certs)
    for _ in range(rng.randint(4, 14)):
        s = rng.choice([1, 1, 2])
        op = rng.choice(['key', 'key', 'cert', 'cert', 'certas', 'del', 'del', 'copy', 'json', 'json', 'ini'])
        held = list(log.st[s - 1].getKeyIds())
        if op == 'key':
            log.do('key', s, rng.choice(ids), rng.choice(['K1', 'K2', 'K3']))
        elif op == 'cert':
            log.do('cert', s, cert=(c := rng.choice(certs)), key=names.certs[c].key)
            log.case['evs'][-1]['id'] = codes(names.certs[c].keyid)
        elif op == 'certas':
            c = rng.choice(certs)
            log.do('certas', s, rng.choice(ids), names.certs[c].key, c)
        elif op == 'del':
            log.do('del', s, rng.choice(held + ids[:3] if held else ids))
        elif op == 'ini':
            if all(ini_able(i) for i in held):
                log.do('ini', s)
        else:
            log.do(op, s)
    return log.case


# --------------------------------------------------------------------------
# containers

def junk(rng, word):
    return rng.choice([None, True, 0, 17, 1.5, [], [word], {}, {'x': word}])


def bad_material(rng, flaw, kind, names, cname, kname):
    good = names.certs[cname].line if kind == 'cert' else w.key_line(kname)
    if flaw == 'mat-garbage':
        return rng.choice(['', 'AAAA', 'not base64!', 'x', good[::-1], '\u00e9', good[:40] + '*' + good[41:], good[4:],
                           '-----BEGIN CERTIFICATE-----', '\n', good[:-8] + '\u20ac'])
    if flaw == 'mat-cut':
        return good[:rng.choice([4, 8, len(good) // 8 * 4, len(good) - 8])]
    if flaw == 'mat-unusable':
        n = rng.choice(['expl', 'odd', 'pss'])
        return unusable.CERTS[n] if kind == 'cert' else unusable.KEYS[n]
    if flaw == 'mat-swapped':
        return w.key_line(kname) if kind == 'cert' else names.certs[cname].line
    raise ValueError(flaw)


def container_entry(rng, names, n, x):
    """-> outer ID, value, facts"""
    kind, flaw = x['kind'], x['flaw']
    cname = rng.choice(sorted(names.certs))
    kname = names.certs[cname].key if kind == 'cert' else rng.choice(['K1', 'K2', 'K3'])
    if kind == 'cert':
        outer = spellings(rng, rng.choice([names.certs[cname].serial, rng.getrandbits(40)]))
        outer = {'id-nohex': rng.choice(['S:12', 'g', 'abcx', '12-3', '1.5', '\u0661\u0662', '\uff11', 'a\u0301']),
                 'id-empty': rng.choice(['', '-']), 'id-sign': rng.choice(['+', '--', '- ']) + outer.lstrip('-'),
                 'id-space': rng.choice([' %s', '%s ', '%s\n', '\t%s', '1 %s', '1_%s', '%s\r', '%s\u00a0']) % outer.lstrip('-'),
                 'id-prefix': rng.choice(['0x%s', '0X%s', '0o%s', 'x%s']) % outer.lstrip('-')}.get(flaw, outer)
    else:
        outer = rng.choice(['S:%d', 'U:ATU%d', 'G:%d', '%d', 'key %d', '\u00e9%d', '0x%d', '-%d']) % (n * 7 + rng.randint(0, 5))
        if flaw == '-' and rng.random() < .1:
            outer = rng.choice(['', ' ', 'a\nb'])
    inner, f_inner = outer, codes(outer)
    dev = f_dev = 'CERTIFICATE' if kind == 'cert' else 'PUBLIC_KEY'
    mat = names.certs[cname].line if kind == 'cert' else w.key_line(kname)
    f_mat = kind
    gone = None
    if flaw == 'inner-missing':
        gone, f_inner = 'id', [-1]
    elif flaw == 'inner-mistyped':
        inner, f_inner = rng.choice([junk(rng, outer), int(outer) if outer.isascii() and outer.isdigit() else 12, [outer]]), [-2]
    elif flaw in ('inner-differs', 'inner-case'):
        alts = [outer + '0', '0' + outer, '', ' ' + outer, outer + ' ', '-' + outer, outer.lstrip('-'), outer.lstrip('0'),
                names.certs[cname].keyid]
        if flaw == 'inner-case':
            alts = [outer.upper(), outer.lower(), outer.swapcase()] + alts[:2]
        inner = rng.choice([a for a in alts if a != outer])
        f_inner = codes(inner)
    elif flaw == 'dev-missing':
        gone, f_dev = 'signatureDeviceType', 'missing'
    elif flaw == 'dev-mistyped':
        dev, f_dev = rng.choice([junk(rng, dev), [dev]]), 'mistyped'
    elif flaw == 'dev-unknown':
        dev, f_dev = rng.choice(['', 'KEY', 'CERT', 'PRIVATE_KEY', 'CERTIFICATE,PUBLIC_KEY', 'cert']), 'other'
    elif flaw == 'dev-case':
        dev = rng.choice([dev.lower(), dev.title(), dev + ' ', ' ' + dev, dev + '\n'])
        f_dev = 'other'
    elif flaw == 'dev-swapped':
        dev = f_dev = 'PUBLIC_KEY' if kind == 'cert' else 'CERTIFICATE'
    elif flaw == 'mat-missing':
        gone, f_mat = 'signatureCertificateOrPublicKey', 'missing'
    elif flaw == 'mat-mistyped':
        mat, f_mat = rng.choice([junk(rng, mat), [mat]]), 'mistyped'
    elif flaw.startswith('mat-'):
        mat = bad_material(rng, flaw, kind, names, cname, kname)
        f_mat = {'mat-garbage': 'garbage', 'mat-cut': 'garbage', 'mat-unusable': 'unusable',
                 'mat-swapped': 'key' if kind == 'cert' else 'cert'}[flaw]
    value = {'id': inner, 'signatureDeviceType': dev, 'signatureCertificateOrPublicKey': mat}
    if gone:
        del value[gone]
    if rng.random() < .3:
        value['comment'] = junk(rng, 'x')
    if flaw == 'entry-mistyped':
        value, f_inner = rng.choice([None, [], [value], 'x', 5, True, mat, list(value)]), [-1]
    items = list(value.items()) if isinstance(value, dict) else None
    if items:
        rng.shuffle(items)
        value = dict(items)
    return outer, value, {'outer': codes(outer), 'inner': f_inner, 'dev': f_dev, 'mat': f_mat,
                          'key': kname, 'cert': cname if kind == 'cert' else NO}


def container(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    names = standard()
    names.cert('CB', odd_cert('K2', rng.getrandbits(140) + 5))
    cpmap, facts = {}, []
    for n, x in enumerate(plan['entries']):
        for _ in range(50):
            o, v, f = container_entry(rng, names, n, x)
            if o not in cpmap:
                break
        else:
            continue
        cpmap[o] = v
        facts.append(f)
    root = {'certificateOrPublicKeyMap': cpmap}
    if rng.random() < .5:
        root['base64AESKey'] = w.b64(os.urandom(32))
    r = plan['root']
    if r == 'map-missing':
        del root['certificateOrPublicKeyMap']
        if rng.random() < .4:
            root[rng.choice(['certificateorpublickeymap', 'certificateOrPublicKeyMap ', 'x'])] = cpmap
    elif r == 'map-mistyped':
        root['certificateOrPublicKeyMap'] = rng.choice([None, [], [cpmap], list(cpmap.items()), 'x', 1, False])
    elif r == 'root-mistyped':
        root = rng.choice([None, [], [root], 'x', 'certificateOrPublicKeyMap', 1, False, ['certificateOrPublicKeyMap']])
    ev = dict(FINE, t='load', root=r, entries=facts, out=[])
    try:
        st = key_store.KeyStore.readStoreFromJson(root)
        ev['out'] = contents(names, st)
    except Exception as e:
        ev.update(exc_facts(e))
    return {'id': cid, 'evs': [ev]}


# --------------------------------------------------------------------------
# the command line tool

def seen(names, path):
    """What a key store file holds, read without the library."""
    try:
        with open(path, 'rb') as f:
            raw = f.read()
    except OSError:
        return {'there': False, 'good': False, 'raw': '', 'store': [], 'aes': NO}
    out = {'there': True, 'good': False, 'raw': '%x' % hash(raw), 'store': [], 'aes': NO}
    try:
        d = json.loads(raw.decode('utf-8'))
        store = []
        for i, v in d['certificateOrPublicKeyMap'].items():
            if v['id'] != i:
                raise ValueError('id')
            text = v['signatureCertificateOrPublicKey']
            if v['signatureDeviceType'] == 'CERTIFICATE':
                c = names.bycert[text]
                store.append(entry(i, names.certs[c].key, c))
            elif v['signatureDeviceType'] == 'PUBLIC_KEY':
                store.append(entry(i, names.bykey[text]))
            else:
                raise ValueError('device')
        if 'base64AESKey' in d:
            out['aes'] = w.b64(base64.b64decode(d['base64AESKey'], validate=True))
        out.update(good=True, store=store)
    except Exception:
        pass
    return out


def seen_ini(names, text):
    c = ini_config()
    c.read_string(text)
    out = []
    for sec in ('certificates', 'public_keys'):
        for i, v in c.items(sec):
            for a, b in (('s;', 'S:'), ('u;', 'U:'), ('g;', 'G:')):
                i = i.replace(a, b)
            if sec == 'certificates':
                n = names.bycert.get(v, '?')
                out.append(entry(i, names.certs[n].key if n in names.certs else '?', n))
            else:
                out.append(entry(i, names.bykey.get(v, '?')))
    return out


def ini_text(names, entries):
    """entries: [(id, key name or None, cert name or None)]"""
    enc = lambda i: i.replace('S:', 's;').replace('U:', 'u;').replace('G:', 'g;')
    return '[certificates]\n%s\n[public_keys]\n%s\n' % (
        '\n'.join('%s = %s' % (enc(i), names.certs[c].line) for i, k, c in entries if c),
        '\n'.join('%s = %s' % (enc(i), w.key_line(k)) for i, k, c in entries if not c))


SPOILT = [b'', b'{', b'[]', b'{}', b'{"certificateOrPublicKeyMap": []}', b'null', b'\xff\xfe{',
          b'{"certificateOrPublicKeyMap": {"S:1": {"id": "S:2", "signatureDeviceType": "PUBLIC_KEY", '
          b'"signatureCertificateOrPublicKey": ""}}}',
          b'{"certificateOrPublicKeyMap": {"zz": {"id": "zz", "signatureDeviceType": "CERTIFICATE", '
          b'"signatureCertificateOrPublicKey": "AAAA"}}}']


class Tool(object):
    def __init__(self, cid, rng, path='keys.json'):
        self.rng, self.path = rng, path
        self.names = standard()
        self.case = {'id': cid, 'evs': []}
        self.aeskeys = {'A1': w.b64(bytes(rng.getrandbits(8) for _ in range(32))), 'A2': w.b64(bytes(range(32)))}

    def event(self, cmd, argv, stdin=b'', **kw):
        before = seen(self.names, self.path)
        out = cli.run('key_store.py', argv, stdin, variables={'PYTHONIOENCODING': 'utf-8'})
        ev = {'t': 'cli', 'cmd': cmd, 'arg': 'good', 'id': [], 'key': NO, 'cert': NO, 'aes': '', 'ids': [],
              'input': [], 'ok': out.ok, 'before': before, 'after': seen(self.names, self.path), 'argv': argv[1:],
              'planned': ''}
        ev.update(kw)
        self.case['evs'].append(ev)
        return out, ev

    def bad_pem(self, good):
        lines = good.splitlines()
        r = self.rng.random()
        if r < .3:
            return '\n'.join(lines[:2] + lines[-1:]) + '\n'
        if r < .6:
            return '\n'.join(lines[1:-1])
        return self.rng.choice(['', 'x', good.replace('BEGIN', 'BEGIM')])

    def step(self, x):
        rng, p, names = self.rng, self.path, self.names
        cmd, bad = x['cmd'], x['arg'] == 'bad'
        i = IDS.get(x['id'], x['id'])
        if cmd == 'lost':
            if os.path.exists(p):
                os.unlink(p)
        elif cmd == 'spoilt':
            with open(p, 'wb') as f:
                f.write(rng.choice(SPOILT))
        elif cmd in ('create', 'list'):
            out, ev = self.event(cmd, [p, cmd])
            if cmd == 'list' and ev['ok']:
                ev['ids'] = [codes(l) for l in out.text().splitlines()]
        elif cmd == 'addcert':
            c = names.certs[x['what']]
            text = self.bad_pem(c.pem()) if bad else c.pem()
            if bad and rng.random() < .3:
                text = w.key_pem('K1')
            with open('in.pem', 'w') as f:
                f.write(text)
            name = 'in.pem' if not bad or rng.random() < .8 else 'nofile.pem'
            self.event(cmd, [p, 'add', name], arg=x['arg'], id=codes(c.keyid), key=c.key, cert=x['what'])
        elif cmd == 'addkey':
            text = self.bad_pem(w.key_pem(x['what'])) if bad else w.key_pem(x['what'])
            if bad and rng.random() < .3:
                text = names.certs['C1'].pem()
            with open('in.pem', 'w') as f:
                f.write(text)
            self.event(cmd, [p, 'add', 'in.pem', i], arg=x['arg'], id=codes(i), key=x['what'])
        elif cmd == 'del':
            self.event(cmd, [p, 'del', i], id=codes(i))
        elif cmd == 'setaes':
            if not x['what'] and not bad:
                self.event(cmd, [p, 'setSymmetricKey'], rng.choice([b'', b'\n', b'  \n']))
            else:
                k = self.aeskeys[x['what']]
                line = rng.choice(['@' + k, k[:-2], k[:10] + '!' + k[10:], '\u00e9' + k]) if bad else k
                line = rng.choice(['%s\n', '%s', ' %s \n', '%s\nmore\n']) % line
                self.event(cmd, [p, 'setSymmetricKey'], line.encode('utf-8'), arg=x['arg'], aes=k)
        elif cmd == 'delaes':
            self.event(cmd, [p, 'delSymmetricKey'])
        elif cmd == 'showaes':
            out, ev = self.event(cmd, [p, 'showSymmetricKey'])
            t = out.text().strip()
            ev['aes'] = NO if t.startswith('No ') else t
        elif cmd == 'export':
            held = seen(names, p)
            if all(ini_able(''.join(map(chr, y['id']))) for y in held['store']):
                out, ev = self.event(cmd, [p, 'toLegacyIni'])
                if ev['ok']:
                    try:
                        ev['input'] = seen_ini(names, out.text())
                    except Exception:
                        ev['input'] = [entry('?', '?')]
        elif cmd == 'import':
            es = x.get('entries') or [('S:1', 'K2', None)]
            text = ini_text(names, es)
            if bad:
                text = rng.choice(['x', text.replace('public_keys]', 'public_keys'), text.replace('MF', 'NF'),
                                   text.replace(w.key_line('K2'), names.certs['C1'].line),
                                   '[certificates]\na = %s\n' % w.key_line('K1')])
            self.event(cmd, [p, 'fromLegacyIni'], text.encode('utf-8'), arg=x['arg'],
                       input=[entry(a, names.certs[c].key if c else b, c or NO) for a, b, c in es])
        elif cmd == 'usage':
            self.event(cmd, rng.choice([[], [p], [p, 'frob'], [p, 'create', 'x'], [p, 'add'], [p, 'del'], [p, 'list', 'x'],
                                        [p, 'add', 'in.pem', 'a', 'b'], [p, 'del', 'a', 'b'], [p, 'Create']]))
        else:
            raise ValueError(cmd)


def tool_planned(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    with cli.scratch():
        t = Tool(cid, rng)
        for x in plan['script']:
            t.step(x)
        # the plan and the judge have to see the same commands done
        want = [o for x, o in zip(plan['script'], plan['ok']) if x['cmd'] not in ('lost', 'spoilt')]
        if len(want) == len(t.case['evs']):
            for ev, o in zip(t.case['evs'], want):
                ev['planned'] = 'yes' if o else 'no'
        return t.case


def tool_random(cid, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    ids = ['a', '0A', '10', 'S:1', 'U:ATU123-4', 'G:99', 'zz', 'k1', '-a', 'A']
    with cli.scratch():
        t = Tool(cid, rng, rng.choice(['keys.json', 'k\u00e9ys', 'a b.json']))
        t.names.cert('CB', odd_cert('K3', -(rng.getrandbits(90) + 1)))
        certs = sorted(t.names.certs)
        for n in range(rng.randint(5, 16)):
            cmd = rng.choice(['addcert', 'addcert', 'addkey', 'addkey', 'del', 'del', 'list', 'setaes', 'delaes', 'showaes',
                              'export', 'import', 'usage', 'create', 'lost', 'spoilt'] if n else ['create', 'import'])
            if n and cmd in ('create', 'import', 'lost', 'spoilt') and rng.random() < .6:
                cmd = 'list'
            x = {'cmd': cmd, 'id': '', 'what': '', 'arg': 'good'}
            if cmd in ('addcert', 'addkey', 'setaes', 'import') and rng.random() < .15:
                x['arg'] = 'bad'
            if cmd == 'addcert':
                x['what'] = rng.choice(certs)
            elif cmd == 'addkey':
                x.update(id=rng.choice(ids), what=rng.choice(['K1', 'K2', 'K3']))
            elif cmd == 'del':
                held = [''.join(map(chr, y['id'])) for y in seen(t.names, t.path)['store']]
                x['id'] = rng.choice(held * 2 + ids[:3])
            elif cmd == 'setaes':
                x['what'] = rng.choice(['A1', 'A2'])
            elif cmd == 'import' and x['arg'] == 'good':
                x['entries'] = [(i, rng.choice(['K1', 'K2']), None) for i in rng.sample(ids[2:8], rng.randint(0, 3))]
                held = {i for i, _, _ in x['entries']}
                for c in rng.sample(certs, rng.randint(not held, 3)):
                    if t.names.certs[c].keyid not in held:
                        held.add(t.names.certs[c].keyid)
                        x['entries'].append((t.names.certs[c].keyid, None, c))
            t.step(x)
        return t.case
