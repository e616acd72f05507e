"""
Keys, certificates and receipts, made and read independently of the library
under test (only the `cryptography` package is shared).

facts() turns a JWS into the record the specification (RKSVCore) works on.
"""
import base64
import datetime
import hashlib

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.backends import default_backend
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, rsa
from cryptography.hazmat.primitives.asymmetric.utils import (
    decode_dss_signature, encode_dss_signature)
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from cryptography.x509.oid import NameOID

from . import rsakeys

NONE = '-'
NOIDX = -99
HEADER = '{"alg":"ES256"}'
FAILTEXT = b'Sicherheitseinrichtung ausgefallen'
BASE = 10 ** 8


def limbs(n):
    out = []
    for _ in range(4):
        out.append(n % BASE)
        n //= BASE
    out.append(n)
    return out


def unlimbs(l):
    return sum(v * BASE ** i for i, v in enumerate(l))


def b64u(b):
    return base64.urlsafe_b64encode(b).decode().rstrip('=')


def unb64u(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def b64(b):
    return base64.b64encode(b).decode()


def sha(s):
    return hashlib.sha256(s.encode('utf-8')).digest()


def chain_of(text):
    return b64(sha(text)[:8])


FAILSIG = b64u(FAILTEXT)


# --------------------------------------------------------------------------
# keys and certificates

_privs = {}
_rsa = {}


def priv(name):
    """A P-256 key, the same one for the same name in every run."""
    if name not in _privs:
        d = int.from_bytes(hashlib.sha256(b'key ' + name.encode()).digest(), 'big')
        d = d % (2 ** 255) + 1
        _privs[name] = ec.derive_private_key(d, ec.SECP256R1(), default_backend())
    return _privs[name]


def pub(name):
    if name.startswith('RSA'):
        return rsa_priv(name).public_key()
    if name.startswith('P384'):
        return p384_priv(name).public_key()
    if name.startswith('ED'):
        return anypriv(name).public_key()
    return priv(name).public_key()


def rsa_priv(name):
    if name not in _rsa:
        if name in rsakeys.PEM:
            _rsa[name] = serialization.load_pem_private_key(rsakeys.PEM[name].encode(), None, default_backend())
        else:
            _rsa[name] = rsa.generate_private_key(65537, 2048, default_backend())
    return _rsa[name]


def p384_priv(name):
    if name not in _rsa:
        d = int.from_bytes(hashlib.sha384(b'key ' + name.encode()).digest(), 'big')
        _rsa[name] = ec.derive_private_key(d % (2 ** 380) + 1, ec.SECP384R1(),
                                           default_backend())
    return _rsa[name]


def anypriv(name):
    if name.startswith('RSA'):
        return rsa_priv(name)
    if name.startswith('P384'):
        return p384_priv(name)
    if name.startswith('ED'):
        return ed25519.Ed25519PrivateKey.from_private_bytes(hashlib.sha256(name.encode()).digest())
    return priv(name)


def key_pem(name):
    return anypriv(name).public_key().public_bytes(
        serialization.Encoding.PEM,
        serialization.PublicFormat.SubjectPublicKeyInfo).decode()


def key_line(name):
    return ''.join(key_pem(name).splitlines()[1:-1])


def priv_pem(name):
    return anypriv(name).private_bytes(
        serialization.Encoding.PEM, serialization.PrivateFormat.TraditionalOpenSSL,
        serialization.NoEncryption()).decode()


class Cert(object):
    """A certificate together with what is true about it."""

    def __init__(self, key, serial, signer, obj):
        self.key = key
        self.serial = serial
        self.signer = signer
        self.obj = obj
        der = obj.public_bytes(serialization.Encoding.DER)
        self.fp = hashlib.sha256(der).hexdigest()
        self.line = b64(der)

    @property
    def keyid(self):
        return '%x' % abs(self.serial)

    def facts(self):
        return {'has': True, 'serial': self.keyid, 'fp': self.fp[:16],
                'key': self.key, 'signer': self.signer}

    def pem(self):
        return self.obj.public_bytes(serialization.Encoding.PEM).decode()


NOCERT = {'has': False, 'serial': NONE, 'fp': NONE, 'key': NONE, 'signer': NONE}
_certs = {}


VALID = [(datetime.datetime(2020, 1, 1), 20000), (datetime.datetime(2020, 1, 1), 20000),
         (datetime.datetime(1999, 5, 3), 1000), (datetime.datetime(2012, 12, 12), 1),
         (datetime.datetime(2068, 2, 29), 400)]


def cert(key, serial, signer=None, tag='', subject=None, issuer=None):
    """
    A certificate for `key` with the given serial, really signed by the key
    `signer` (by itself if None). tag distinguishes otherwise equal ones.
    """
    signer = signer or key
    subject = subject or 'cert of ' + key
    issuer = issuer or 'cert of ' + signer
    ident = (key, serial, signer, tag, subject, issuer)
    if ident not in _certs:
        # nobody asks when a certificate is valid
        since, days = VALID[hashlib.sha256(repr(ident).encode()).digest()[0] % len(VALID)]
        name = lambda n: x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, n)])
        b = (x509.CertificateBuilder()
             .subject_name(name(subject + tag)).issuer_name(name(issuer))
             .not_valid_before(since)
             .not_valid_after(since + datetime.timedelta(days))
             .serial_number(1).public_key(pub(key)))
        # it would not take more than 159 bits
        b._serial_number = serial
        # one with an 'ED' key is none the library can check
        alg = hashes.SHA256()
        if signer.startswith('RSA'):
            alg = [hashes.SHA256(), hashes.SHA512(), hashes.SHA384()][serial % 3]
        elif signer.startswith('P384'):
            alg = hashes.SHA384()
        elif signer.startswith('ED'):
            alg = None
        obj = b.sign(anypriv(signer), alg, default_backend())
        _certs[ident] = Cert(key, serial, signer if alg else 'nobody', obj)
    return _certs[ident]


# --------------------------------------------------------------------------
# receipts

def es256(data, key):
    der = priv(key).sign(data, ec.ECDSA(hashes.SHA256()))
    r, s = decode_dss_signature(der)
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def es256_ok(data, sig, key):
    if len(sig) != 64:
        return False
    der = encode_dss_signature(int.from_bytes(sig[:32], 'big'),
                               int.from_bytes(sig[32:], 'big'))
    try:
        pub(key).verify(der, data, ec.ECDSA(hashes.SHA256()))
        return True
    except InvalidSignature:
        return False


def aesctr(key, reg, rid, data):
    iv = hashlib.sha256(reg.encode('utf-8') + rid.encode('utf-8')).digest()[:16]
    e = Cipher(algorithms.AES(key), modes.CTR(iv), default_backend()).encryptor()
    return e.update(data) + e.finalize()


def enc_counter(key, reg, rid, value, width):
    lim = 1 << (8 * width - 1)
    value = (value + lim) % (2 * lim) - lim
    return b64(aesctr(key, reg, rid, value.to_bytes(width, 'big', signed=True)))


def amount(cents):
    s = '-' if cents < 0 else ''
    c = abs(cents)
    return '%s%d,%02d' % (s, c // 100, c % 100)


FIELDS = ['alg', 'zda', 'reg', 'id', 'ts', 'a1', 'a2', 'a3', 'a4', 'a5', 'ctr',
          'serial', 'chain']


def payload(f):
    return '_%s-%s_%s' % (f['alg'], f['zda'], '_'.join(f[k] for k in FIELDS[2:]))


_signed = {}   # signing input + signature of receipts signed here -> key


def jws_of(f, signer, header=HEADER):
    """The JWS for the fields, signed by the named key or 'FAIL'ed."""
    body = b64u(header.encode()) + '.' + b64u(payload(f).encode('utf-8'))
    if signer == 'FAIL':
        return body + '.' + FAILSIG
    sig = b64u(es256(body.encode(), signer))
    jws = body + '.' + sig
    if len(_signed) > 200000:
        _signed.clear()
    _signed[jws] = signer
    return jws


def split_payload(p):
    s = p.split('_')
    assert len(s) == 13 and s[0] == '' and s[1].count('-') == 1
    alg, zda = s[1].split('-')
    return dict(zip(FIELDS, [alg, zda] + s[2:]))


def fields_of(jws):
    return split_payload(unb64u(jws.split('.')[1]).decode('utf-8'))


def signer_of(jws, keys):
    """The key that signed exactly this text, among the given ones."""
    if jws in _signed:
        return _signed[jws]
    body, sig = jws.rsplit('.', 1)
    try:
        raw = unb64u(sig)
    except Exception:
        return NONE
    for k in keys:
        if not k.startswith(('RSA', 'P384', 'ED')) and es256_ok(body.encode(), raw, k):
            return k
    return NONE


def as_cents(s):
    return int(s.replace(',', ''))


HEXDIGITS = set('0123456789abcdefABCDEF')


def serial_readings(s):
    t = s[1:] if s.startswith('-') else s
    h = d = NONE
    if t and set(t) <= HEXDIGITS:
        h = '%x' % int(t, 16)
        if set(t) <= set('0123456789'):
            d = '%x' % int(t, 10)
    return h, d


def facts(jws, keys, aeskey, malf=None):
    """What the specification needs to know about this very text."""
    if malf:
        return {'hash': NONE, 'regHash': NONE, 'reg': NONE, 'id': NONE, 'ts': '',
                'zda': 'AT1', 'kind': 'STD', 'amt': [limbs(0)] * 5, 'chain': NONE,
                'dec': NONE, 'failed': False, 'signer': NONE, 'serial': NONE,
                'asHex': NONE, 'asDec': NONE, 'malf': list(malf)}
    f = fields_of(jws)
    ctr = base64.b64decode(f['ctr'])
    kind = {b'TRA': 'DUM', b'STO': 'REV'}.get(ctr, 'STD')
    dec = NONE
    if kind == 'STD' and aeskey is not None and len(aeskey) == 32:
        dec = limbs(int.from_bytes(aesctr(aeskey, f['reg'], f['id'], ctr), 'big',
                                   signed=True))
    h, d = (NONE, NONE) if f['zda'] == 'AT0' else serial_readings(f['serial'])
    failed = jws.rsplit('.', 1)[1] == FAILSIG
    return {'hash': chain_of(jws), 'regHash': chain_of(f['reg']), 'reg': f['reg'],
            'id': f['id'], 'ts': f['ts'], 'zda': f['zda'], 'kind': kind,
            'amt': [limbs(as_cents(f['a%d' % i])) for i in range(1, 6)],
            'chain': f['chain'], 'dec': dec, 'failed': failed,
            'signer': NONE if failed else signer_of(jws, keys),
            'serial': f['serial'], 'asHex': h, 'asDec': d, 'malf': []}
