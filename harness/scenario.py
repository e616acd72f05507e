"""Scenario specifications given to runTest, and what it makes of them."""
import base64
import datetime
import hashlib
import json
import random
import re

from . import env as _env  # noqa: F401
from . import hist
from . import plans
from . import scen
from . import world as w
from .forms import mro

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec
from cryptography.hazmat.primitives.asymmetric.utils import encode_dss_signature

from librksv import key_store, run_test

ABSENT = 999
AMOUNTS = ['taxSetNormal', 'taxSetErmaessigt1', 'taxSetErmaessigt2', 'taxSetNull', 'taxSetBesonders']
OVER = {'zda': 'zda', 'reg': 'registerId', 'id': 'receiptId', 'ts': 'dateTime', 'a1': 'sumA', 'a2': 'sumB', 'a3': 'sumC',
        'a4': 'sumD', 'a5': 'sumE', 'ctr': 'encTurnoverCounter', 'serial': 'certSerial', 'chain': 'previousChain',
        'alg': 'algorithmPrefix', 'hdr': 'header', 'sig': 'signature', 'jws': 'jwsOverride', 'tc': 'turnoverCounter',
        'size': 'turnoverCounterSize'}
NO = {'has': False, 'serial': w.NONE, 'fp': w.NONE, 'key': w.NONE, 'signer': w.NONE, 'dec': w.NONE}


class Names(object):
    """Names of the public keys that turn up."""

    def __init__(self):
        self.keys = {}          # name -> public key
        self.by = {}

    def add(self, key, name=None):
        b = key.public_bytes(serialization.Encoding.DER, serialization.PublicFormat.SubjectPublicKeyInfo)
        if b not in self.by:
            self.by[b] = name or 'X%d' % len(self.by)
            self.keys[self.by[b]] = key
        return self.by[b]

    def signed(self, name, data, der):
        try:
            self.keys[name].verify(der, data, ec.ECDSA(hashes.SHA256()))
            return True
        except InvalidSignature:
            return False


class Cert(object):
    def __init__(self, line, names):
        self.der = base64.b64decode(line)
        self.line = line
        self.obj = x509.load_der_x509_certificate(self.der, default_backend())
        self.key = names.add(self.obj.public_key())

    def known(self, names):
        o = self.obj
        signer = [n for n in sorted(names.keys) if names.signed(n, o.tbs_certificate_bytes, o.signature)]
        return {'has': True, 'serial': '%x' % abs(o.serial_number), 'fp': hashlib.sha256(self.der).hexdigest()[:16],
                'key': self.key, 'signer': signer[0] if signer else w.NONE, 'dec': '%d' % abs(o.serial_number)}

    def plain(self, names):
        f = self.known(names)
        del f['dec']
        return f


class Given(hist.Env):
    """The circumstances are the generated container."""

    def __init__(self, ks, aes, entries):
        hist.Env.__init__(self, [], aes)
        self.ks, self.entries = ks, entries

    def facts(self):
        return {'hasKey': True, 'keyOK': True, 'store': self.entries}

    def keystore(self):
        return key_store.KeyStore.readStoreFromJson(self.ks)

    def container(self):
        return self.ks


class Group(object):
    """A certificate of a group, for hist.Case."""

    def __init__(self, cert, names):
        self.line = cert.line
        self.f = cert.plain(names)

    def facts(self):
        return self.f


def rest_of(jws):
    h, _p, s = jws.split('.')
    return w.unb64u(h).decode('utf-8'), s


def observe(jws, names, aes):
    blank = {k: '' for k in w.FIELDS}
    o = {'ok': False, 'jws': jws, 'f': blank, 'hdr': '', 'sig': '', 'kind': '', 'dec': w.NONE, 'width': 0, 'failed': False,
         'signer': w.NONE, 'hash': w.chain_of(jws), 'regHash': '', 'open': False}
    try:
        f = w.fields_of(jws)
        o['hdr'], o['sig'] = rest_of(jws)
        o['f'] = f
        o['regHash'] = w.chain_of(f['reg'])
        o['open'] = re.match('AT[1-9][0-9]{0,2}$', f['zda']) is not None
        o['failed'] = o['sig'] == w.FAILSIG
        o['ok'] = True
    except Exception:
        return o
    try:
        ctr = base64.b64decode(f['ctr'], validate=True)
        o['kind'] = {b'TRA': 'DUM', b'STO': 'REV'}.get(ctr, 'STD')
        if o['kind'] == 'STD' and ctr:
            o['width'] = len(ctr)
            o['dec'] = w.limbs(int.from_bytes(w.aesctr(aes, f['reg'], f['id'], ctr), 'big', signed=True))
    except Exception:
        pass
    try:
        raw = w.unb64u(o['sig'])
        if len(raw) == 64:
            der = encode_dss_signature(int.from_bytes(raw[:32], 'big'), int.from_bytes(raw[32:], 'big'))
            data = jws.rsplit('.', 1)[0].encode()
            o['signer'] = ([n for n in sorted(names.keys) if names.signed(n, data, der)] + [w.NONE])[0]
    except Exception:
        pass
    return o


# --------------------------------------------------------------------------

class Spec(object):
    """A scenario specification and what is expected to be known about it."""

    def __init__(self, rng, closed, grouped, ndev, plain=False):
        self.rng = rng
        self.closed, self.grouped = closed, grouped
        self.aes = rng.getrandbits(256).to_bytes(32, 'big')
        self.company = rng.choice(['U:ATU12345678', 'S:123456789', 'G:1234567890123'])
        self.box = rng.choice([scen.reg_name(rng), 'CASHBOX-DEMO-1'])
        self.size = rng.choice([8, 8, 8, 5, 6, 7, 9, 12, 16])
        self.how = rng.choice(['spec', 'arg', 'both'] if self.size != 8 else ['spec', 'arg', 'both', ''])
        self.decimal = rng.random() < .3
        self.incl = rng.random() < .3
        self.names = Names()
        self.keymat, self.devs, self.trust = [], [], []
        same = self.same = rng.random() < .2
        for i in range(ndev):
            key = 'K0' if same else 'K%d' % i
            d = {'key': key, 'chain': 0, 'failAt': 0, 'collide': False, 'omitSign': False, 'omitRoot': False}
            serial = rng.getrandbits(rng.choice([4, 40, 64, 150])) * 8 + (0 if same else i) + 2
            if same and i:
                c = w.cert(key, self.serial0)
            else:
                c = w.cert(key, serial)
                self.serial0 = serial
            self.names.add(w.pub(key), key)
            d.update(fp=c.fp[:16], serial=c.keyid, decimal='%d' % c.serial)
            self.keymat.append((w.key_pem(key) if closed else c.pem(), w.priv_pem(key)))
            if grouped and not closed:
                d['chain'] = rng.choice([0, 0, 1, 2, 3])
            elif closed and rng.random() < .2:
                d['given'] = rng.randint(1, 2)          # without effect
            self.devs.append(d)
        self.ins = []
        self.t = rng.randrange(10 ** 7)
        self.used = set()

    def trusting(self, what, i):
        """A deviation of a device's certificates."""
        d = self.devs[i]
        if what == 'fail':
            d['chain'] = max(d['chain'], 1)
            d['failAt'] = self.rng.randint(1, d['chain'])
        else:
            d[what] = True

    def add(self, x, total=False):
        rng = self.rng
        cents = [0] * 5
        if x['a'] != 'Z':
            for k in rng.sample(range(5), rng.randint(1, 5)):
                cents[k] = (1 if x['a'] == 'P' else -1) * rng.choice([1, 7, 99, 100, 12345, rng.randrange(1, 10 ** 7)])
        self.t += rng.choice([0, 1, 60, 86400])
        when = datetime.datetime(2016, 3, 11, 23, 59, 50) + datetime.timedelta(seconds=self.t)
        ts = when.strftime('%Y-%m-%dT%H:%M:%S')
        while True:
            i = plans.fresh_id(rng, self.used)
            if '_' not in i and i:
                break
        self.used.add(i)
        ins = {'new': x['new'], 'cont': x['cont'], 'dev': x['dev'], 'sig': x['sig'], 'kind': x['kind'],
               'amt': [w.limbs(c) for c in cents], 'a': [w.amount(c) for c in cents], 'id': i, 'ts': ts, 'total': '',
               'over': []}
        j = {'signatureDeviceDamaged': x['sig'] == 'failed', 'receiptIdentifier': i, 'dateToUse': ts,
             'usedSignatureDevice': x['dev'],
             'simplifiedReceipt': {a: rng.choice([c / 100.0, c // 100]) if c % 100 == 0 else c / 100.0
                                   for a, c in zip(AMOUNTS, cents)}}
        zero = not any(cents)
        ty = {'DUM': ['TRAINING_BELEG'], 'REV': ['STORNO_BELEG'],
              'STD': ['STANDARD_BELEG', None] + (['START_BELEG', 'NULL_BELEG', 'JAHRESBELEG'] if zero else [])}
        t = rng.choice(ty[x['kind']])
        if t:
            j['typeOfReceipt'] = t
        if x['new'] != 'no':
            j['beginNewDEP'] = 'NEW_CLUSTER_DEP' if x['new'] == 'cluster' else 'NEW_CONTINUED_DEP'
            if x['cont'] != ABSENT:
                j['continueRegister'] = x['cont']
        elif rng.random() < .2:
            j['beginNewDEP'] = 'NO_NEW_DEP'
        if total:
            v = rng.choice([1.5, -3.25, 12, 0.07])
            j['annotateTurnoverCounter'] = v
            ins['total'] = repr(v)
        self.ins.append((ins, j))

    def deviate(self, n, f):
        """Says something else in field f of instruction n."""
        rng = self.rng
        ins, j = self.ins[n]
        if f in [x for x, _v in ins['over']]:
            return
        v = {'zda': ['AT0', 'AT7', 'at77', 'AT7-7', ''], 'reg': ['CASHBOX-X', u'\xe4', ''], 'id': ['other', '', ins['id'] + 'x'],
             'ts': ['2015-12-31T00:00:00', '2016-03-11 03:57:08', ''], 'ctr': ['AAAAAAAA', 'VFJB', 'U1RP', '', 'x'],
             'serial': ['DEADBEEF', 'U:ATU12345678-K0', '', '-5'], 'chain': ['MTIzNDU2Nzg=', '', '==', w.chain_of('x')],
             'alg': ['R2', 'X', 'R1'], 'hdr': ['{"alg":"ES512"}', '{}', 'x'], 'sig': [w.b64u(b'\1' * 64), 'abc&', '', 'ab=='],
             'jws': ['a.b.c', 'x', '..'], 'tc': [0, 7, -100, 10 ** 9], 'size': [5, 7, 8, 12, 16]}
        for a in ('a1', 'a2', 'a3', 'a4', 'a5'):
            v[a] = ['00,00', '', '1.200,34', '5,00', '-0,01']
        if f == 'zda':      # a dash would not be read as part of it
            v[f].remove('AT7-7')
        val = rng.choice(v[f])
        j.setdefault('override', {})[OVER[f]] = val
        ins['over'].append([f, w.limbs(val) if f == 'tc' else val])

    def json(self):
        rng = self.rng
        s = {'cashBoxId': self.box, 'base64AesKey': w.b64(self.aes), 'companyID': self.company,
             'simulationRunLabel': 'x', 'numberOfSignatureDevices': len(self.devs),
             'cashBoxInstructionList': [j for _i, j in self.ins]}
        if self.how in ('spec', 'both'):
            s['turnoverCounterSize'] = self.size if self.how == 'spec' else 16 if self.size == 8 else 8
        d = self.devs
        for k, n in (('chain', 'certChainLength'), ('failAt', 'certChainFailure'), ('collide', 'certChainSerialCollision'),
                     ('omitSign', 'omitSignCert'), ('omitRoot', 'omitRootCert')):
            if any(x[k] for x in d) or (k == 'chain' and any('given' in x for x in d)) or rng.random() < .2:
                s[n] = [x.get('given', x[k]) if k == 'chain' else x[k] for x in d]
        for k, n in ((self.grouped, 'multipleGroups'), (self.decimal, 'decimalSerial'), (self.incl, 'includePublicKey')):
            if k or rng.random() < .2:
                s[n] = bool(k)
        return json.loads(json.dumps(s))

    def facts(self):
        return {'closed': self.closed, 'grouped': self.grouped, 'decimal': self.decimal, 'incl': self.incl,
                'company': self.company, 'box': self.box, 'size': self.size, 'aes': w.b64(self.aes)}


def generate(spec):
    """-> (result or None, exception)"""
    s = spec.json()
    size = spec.size if spec.how in ('arg', 'both') else None
    before = json.dumps(s)
    random.seed(spec.rng.random())
    if size is None and spec.rng.random() < .5:
        return hist.call(lambda: run_test.runTest(s, list(spec.keymat), spec.closed)) + (json.dumps(s) == before,)
    return hist.call(lambda: run_test.runTest(s, list(spec.keymat), spec.closed, size)) + (json.dumps(s) == before,)


def case(cid, spec, valid, must=None, verify=True):
    """Generates, records, and has the DEPs verified. valid: they keep all rules."""
    v, e, _same = generate(spec)
    out = {'id': cid, 'conf': spec.facts(), 'ins': [i for i, _j in spec.ins], 'done': e is None, 'exc': mro(e) if e else [],
           'devs': [{k: x for k, x in d.items() if k != 'given'} for d in spec.devs],
           'deps': [], 'recs': [], 'store': [], 'aes': ''}
    if e is not None:
        return out, None
    deps, ks = json.loads(json.dumps(v))
    names = spec.names
    raw = []
    for d in deps:
        gs = []
        for g in d['Belege-Gruppe']:
            c = g['Signaturzertifikat']
            gs.append((Cert(c, names) if c else None, [Cert(x, names) for x in g['Zertifizierungsstellen']],
                       g['Belege-kompakt']))
        raw.append(gs)
    entries, stored = [], []
    for i, x in sorted(ks['certificateOrPublicKeyMap'].items()):
        line = x['signatureCertificateOrPublicKey']
        c = None
        if x['signatureDeviceType'] == 'CERTIFICATE':
            c = Cert(line, names)
            key = c.key
        else:
            key = names.add(serialization.load_der_public_key(base64.b64decode(line), default_backend()))
        stored.append((i, key, c))
    for i, key, c in stored:
        out['store'].append({'id': i, 'key': key, 'cert': c.known(names) if c else NO})
        entries.append({'id': i, 'key': key, 'cert': c.plain(names) if c else w.NOCERT})
    out['aes'] = ks.get('base64AESKey', '')
    for d, gs in zip(deps, raw):
        t = d.get('Umsatz-gesamt')
        out['deps'].append({
            'cont': d.get('Fortgesetztes-DEP', False), 'prev': d.get('Vorheriges-DEP', ABSENT),
            'total': '' if t is None else repr(t),
            'groups': [{'cert': c.known(names) if c else NO, 'chain': [x.known(names) for x in ch], 'n': len(rs)}
                       for c, ch, rs in gs]})
        for _c, _ch, rs in gs:
            for r in rs:
                o = observe(r, names, spec.aes)
                out['recs'].append(o)
                if o['signer'] != w.NONE:
                    w._signed[r] = o['signer']
    if not verify:
        return out, None
    # as a verifier does that gets them one after the other
    c = hist.Case(cid + '-v', Given(ks, spec.aes, entries))
    found, regs = [], 0
    for n, (d, gs) in enumerate(zip(deps, raw)):
        idx = regs
        if d.get('Fortgesetztes-DEP'):
            p = d.get('Vorheriges-DEP', ABSENT)
            if p >= len(found):
                break
            idx = found[p]
        else:
            regs += 1
        found.append(idx)
        ok = c.verify([(Group(x, names) if x else None, [Group(y, names) for y in ch], rs) for x, ch, rs in gs],
                      idx)
        if valid:
            c.evs[-1]['must'] = []
        elif must and n in must:
            c.evs[-1]['must'] = must[n]
        if not ok:
            break
    return out, c.dump()


# --------------------------------------------------------------------------

def planned(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    spec = Spec(rng, plan['closed'], plan['grouped'], max([x['dev'] for x in plan['script']]) + rng.choice([1, 1, 2]))
    total = rng.random() < .4
    n = len(plan['script'])
    for k, x in enumerate(plan['script']):
        spec.add(x, total and (k == n - 1 or plan['script'][k + 1]['new'] != 'no') and rng.random() < .7)
    return case(cid, spec, True)


FAULTS = {'fail': ['CertificateChainBrokenException'], 'collide': ['CertificateSerialCollisionException'],
          'omitRoot': ['UntrustedCertificateException', 'NoPublicKeyException']}


def deviating(cid, plan, seed):
    """With a deviation of a receipt or of the certificates of a device."""
    rng = random.Random('%s/%s' % (seed, cid))
    ndev = max([x['dev'] for x in plan['script']]) + 1
    spec = Spec(rng, plan['closed'], plan['grouped'], ndev)
    for x in plan['script']:
        spec.add(x)
    must = None
    if rng.random() < .4:
        what = rng.choice(['fail', 'collide', 'omitSign', 'omitRoot'])
        i = rng.randrange(ndev)
        if what == 'fail' and (spec.closed or not spec.grouped):
            what = 'omitSign'
        if what == 'collide' and spec.same and ndev > 1:
            what = 'omitRoot'
        spec.trusting(what, i)
    else:
        for _ in range(rng.choice([1, 1, 2])):
            spec.deviate(rng.randrange(len(spec.ins)), rng.choice(sorted(OVER)))
    return case(cid, spec, False, must, verify=False)
