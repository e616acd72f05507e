"""Checks of single receipts, URL hashes and receipt host lookups, recorded."""
import base64
import contextlib
import gettext
import hashlib
import io
import json
import os
import random
import runpy
import sys

from . import env as _env
from . import forms
from . import hist
from . import plans
from . import scen
from . import trust
from . import world as w

from librksv import depparser, receipt as librec, url_receipt_helpers, verify_receipt

VERIFY = {'jws': 'verifyJWS', 'qr': 'verifyBasicCode', 'ocr': 'verifyOCRCode', 'csv': 'verifyCSV'}


def texts(jws):
    """The four texts of a signed receipt, made without the library."""
    f = w.fields_of(jws)
    sig = w.unb64u(jws.rsplit('.', 1)[1])
    p = forms.Parts(random.Random(0))
    for k in ('alg', 'zda', 'reg', 'id', 'ts', 'serial'):
        setattr(p, k, f[k])
    p.sums = [f['a%d' % i] for i in range(1, 6)]
    p.ctr, p.chain = base64.b64decode(f['ctr']), base64.b64decode(f['chain'])
    p.sig = sig
    return {r: p.text(r) for r in forms.REPS}


def run1(rv, rep, text):
    _, e = hist.call(lambda: getattr(rv, VERIFY[rep])(text))
    return {'rep': rep, 'text': forms.codes(text), 'ok': e is None,
            'exc': forms.mro(e) if e else []}


def facts(jws, keys):
    f = w.fields_of(jws)
    h, d = (w.NONE, w.NONE) if f['zda'] == 'AT0' else w.serial_readings(f['serial'])
    sig = jws.rsplit('.', 1)[1]
    return {'signer': w.NONE if sig == w.FAILSIG else w.signer_of(jws, keys),
            'serial': f['serial'], 'asHex': h, 'asDec': d}


def check_ev(rng, rv, jws, keys, order=None):
    t = texts(jws)
    reps = list(forms.REPS)
    rng.shuffle(reps)
    ev = {'t': 'check', 'runs': [run1(rv, r, t[r]) for r in reps]}
    if rng.random() < .2:
        r = rng.choice(reps)
        ev['runs'].append(run1(rv, r, t[r]))
    ev.update(facts(jws, keys))
    return ev


def sha(text):
    return list(hashlib.sha256(text.encode('utf-8')).digest())


def hash_of(text):
    return w.b64u(hashlib.sha256(text.encode('utf-8')).digest()[:8])


def hash_ev(rng, jws, others):
    t = texts(jws)
    rep = rng.choice(forms.REPS)
    rec, prefix = getattr(librec.Receipt, forms.READ[rep])(t[rep])
    right = hash_of(t['qr'])
    given = rng.choice([
        right, right, right, None, '', right[:-1], right + '=', right + 'A', right.lower(),
        right.upper(), right.replace('-', '+').replace('_', '/'),
        hash_of(t['jws']), hash_of(t['ocr']), hash_of(t['csv']),
        w.b64u(hashlib.sha256(t['qr'].encode()).digest()[8:16]),
        w.b64u(hashlib.sha256(t['qr'].encode()).digest()[:7]),
        w.b64u(hashlib.sha256(t['qr'].encode()).digest()),
        right[:-1] + forms.URL[(forms.URL.index(right[-1]) + 1) % 64]]
        + [hash_of(texts(o)['qr']) for o in others])
    from librksv import algorithms
    _, e = hist.call(lambda: verify_receipt.verifyURLHash(rec, algorithms.ALGORITHMS[prefix], given))
    return {'t': 'hash', 'text': forms.codes(t['qr']), 'sha': sha(t['qr']), 'has': given is not None,
            'given': forms.codes(given or ''), 'ok': e is None, 'exc': forms.mro(e) if e else []}


class Reply(object):
    def __init__(self, code):
        self.code = code

    def raise_for_status(self):
        pass

    def json(self):
        return {'code': self.code}


def url_ev(rng, rv, jws, keys, others):
    t = texts(jws)
    right = hash_of(t['qr'])
    h = rng.choice([right, right, right, hash_of(texts(rng.choice(others))['qr']) if others else right,
                    right[:-1] + 'A', right[:-1], right + 'x'])
    filler = rng.choice(['', 'abcdefghijk', 'ABCDEFGHIJK', 'a-b_c-d_e-f', 'abcdefghij', 'abcdefghijkl'])
    url = rng.choice([
        'http://x.at/%s' % h, 'http://x.at/%s/%s' % (filler, h), 'https://x.at/?h=%s' % h,
        'https://x.at/?h=%s&f=%s' % (h, filler), 'http://x.at/r#%s' % h,
        'http://x.at/%s#%s' % (filler, h), 'http://x.at/%s#' % h, 'http://x.at/#%s#%s' % (h, filler),
        'http://x.at/%s/' % h, '%s' % h, 'http://x.at/', 'http://x.at/%s.json' % h])
    text = t['qr']
    r = rng.random()
    if r < .1:
        text = rng.choice([text[1:], text + '_', text.replace('R1', 'R2', 1), ''])
    asked = []

    def get(u, *a, **k):
        asked.append(u)
        return Reply(text)

    class Req(object):
        pass

    old = url_receipt_helpers.requests
    req = Req()
    req.get = get
    url_receipt_helpers.requests = req
    try:
        _, e = hist.call(lambda: url_receipt_helpers.getAndVerifyReceiptURL(rv, url))
        found = url_receipt_helpers.getURLHashFromURL(url)
    finally:
        url_receipt_helpers.requests = old
    ev = {'t': 'url', 'url': forms.codes(url), 'qr': forms.codes(t['qr']), 'sha': sha(t['qr']),
          'found': [] if found is None else [forms.codes(found)],
          'run': {'rep': 'qr', 'text': forms.codes(text), 'ok': e is None,
                  'exc': forms.mro(e) if e else []}}
    ev.update(facts(jws, keys))
    return ev


def host_ev(rng, jwss):
    """Starts the receipt host (without a network) and asks it."""
    import flask
    mode = rng.choice(['dep', 'jws', 'dep'])
    if mode == 'jws':
        nl = rng.choice(['\n', '\r\n', ' \n'])
        data = nl.join(jwss) + rng.choice(['', nl])
    else:
        k = rng.randint(0, len(jwss))
        groups = [g for g in (jwss[:k], jwss[k:]) if g]
        dep = {'Belege-Gruppe': [
            {'Signaturzertifikat': '', 'Zertifizierungsstellen': [], 'Belege-kompakt': g}
            for g in groups]}
        data = json.dumps(dep, ensure_ascii=rng.random() < .5)
        if rng.random() < .2:
            data = u'\ufeff' + data
    shas = [texts(j)['qr'] for j in jwss]
    hashes = [hash_of(q) for q in shas]
    others = [hash_of('x%d' % i) for i in range(3)] + [hashes[0][:-1], hashes[0].lower(), 'favicon.ico']
    ask = hashes + [o for o in others]
    rng.shuffle(ask)
    answers = []

    def fake_run(app, *a, **k):
        c = app.test_client()
        for h in ask:
            r = c.get('/' + h)
            answers.append({'hash': forms.codes(h), 'ok': r.status_code == 200,
                            'code': forms.codes(r.get_json()['code']) if r.status_code == 200 else []})

    old = flask.Flask.run, sys.argv, sys.stdin, os.environ.get('RKSV_DEP_CHUNKSIZE'), gettext.install
    flask.Flask.run = fake_run
    sys.argv = ['receipt_host.py', mode]
    sys.stdin = io.TextIOWrapper(io.BytesIO(data.encode('utf-8')), encoding='utf-8')
    os.environ['RKSV_DEP_CHUNKSIZE'] = rng.choice(['1', '2', '3', '100000'])
    exc = []
    try:
        runpy.run_path(os.path.join(_env.REPO, 'receipt_host.py'), run_name='__main__')
    except (Exception, SystemExit) as e:
        exc = forms.mro(e)
    finally:
        flask.Flask.run, sys.argv, sys.stdin = old[:3]
        if old[3] is None:
            del os.environ['RKSV_DEP_CHUNKSIZE']
        else:
            os.environ['RKSV_DEP_CHUNKSIZE'] = old[3]
    if exc:
        answers = [{'hash': forms.codes(h), 'ok': False, 'code': forms.codes(' '.join(exc))} for h in ask]
    return {'t': 'host', 'shas': [{'text': forms.codes(q), 'sha': sha(q)} for q in shas],
            'asks': answers}


# --------------------------------------------------------------------------

def altered(rng, jws):
    """The receipt with one field changed, under its old signature."""
    f = w.fields_of(jws)
    k = rng.choice(['ts', 'a1', 'a3', 'ctr', 'chain', 'reg', 'id'])
    if k == 'ts':
        f['ts'] = f['ts'][:-1] + str((int(f['ts'][-1]) + 1) % 10)
    elif k in ('a1', 'a3'):
        f[k] = '1,23' if f[k] != '1,23' else '1,24'
    elif k in ('ctr', 'chain'):
        b = bytearray(base64.b64decode(f[k]))
        b[-1] ^= 1
        f[k] = w.b64(bytes(b))
    else:
        f[k] += 'x'
    return scen.resign_payload(jws, **f)


def planned(cid, plan, seed):
    """A plan of GenKeys, checked in every representation."""
    rng = random.Random('%s/%s' % (seed, cid))
    p = plan['p']
    store, g, chain, serial, zda, anchor = trust.keys_env(rng, p)
    env = hist.Env(store, None, trust.KEYNAMES)
    mine = trust.Simple(zda, serial)
    reg = scen.Reg(rng.choice(['REG', 'K 1', u'K\xe4\xdfe']), mine, rng.choice([5, 8, 16]))
    reg.first = False
    right = 'K1'
    if g is None:
        for slot in ('hex', 'dec'):
            if p[slot] != 'none':
                right = 'K1' if p[slot].endswith('1') else 'K2'
                break
    rv = verify_receipt.ReceiptVerifier.fromCert(g.obj) if g else \
        verify_receipt.ReceiptVerifier.fromKeyStore(env.keystore())
    if g and rng.random() < .3:
        rv = verify_receipt.ReceiptVerifier(env.keystore(), g.obj)
    evs, jwss = [], []
    for i in range(3):
        kind = rng.choice(['STD', 'STD', 'DUM', 'REV'])
        cents = plans.amounts(rng, rng.choice('ZPNCZ'))
        f = reg.fields('i%d' % i, kind, cents)
        k = 'a%d' % rng.randint(1, 5)
        if rng.random() < .3 and f[k] == '0,00':
            f[k] = '-0,00'
        signer = p['signer'] if i == 0 else rng.choice(['K1', 'K2', 'KX', '-', 'failed', right])
        if signer == '-':
            jws = trust.sign_altered(rng, f, right)
        else:
            jws = trust.sign_as(rng, f, signer)
        jwss.append(jws)
        evs.append(check_ev(rng, rv, jws, env.keys))
        # after the genuine one, a copy with its ID and signature but another content
        if rng.random() < .4:
            evs.append(check_ev(rng, rv, altered(rng, jws), env.keys))
    # the order of checks does not matter
    for j in rng.sample(jwss, 2):
        evs.append(check_ev(rng, rv, j, env.keys))
    for j in jwss:
        o = [x for x in jwss if x != j]
        evs.append(hash_ev(rng, j, o))
        evs.append(url_ev(rng, rv, j, env.keys, o))
    return {'id': cid, 'env': env.facts(),
            'grp': {'cert': g.facts() if g else w.NOCERT, 'chain': [c.facts() for c in chain]},
            'evs': evs}


def flawed(cid, plan, seed):
    """A plan of GenForm (one receipt with a flaw) in every representation."""
    rng = random.Random('%s/%s' % (seed, cid))
    parts = forms.Parts(rng)
    for part, tok in plan['set']:
        forms.put(parts, part, tok)
    env = hist.Env([('1f', 'K1', None)], None, ['K1'])
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(env.keystore())
    runs = [run1(rv, r, parts.text(r)) for r in forms.REPS]
    h, d = (w.NONE, w.NONE) if parts.zda == 'AT0' else w.serial_readings(parts.serial)
    return {'id': cid, 'env': env.facts(), 'grp': {'cert': w.NOCERT, 'chain': []},
            'evs': [{'t': 'check', 'runs': runs, 'signer': w.NONE, 'serial': parts.serial,
                     'asHex': h, 'asDec': d}]}


def host(cid, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    regs = [scen.Reg(r, trust.Simple('AT1', '1f'), 8)
            for r in rng.sample(['REG', u'K\xe4\xdfe;7', 'REG2'], rng.choice([1, 1, 2]))]
    same = rng.random() < .3    # receipts of other registers, or errors, with one ID
    jwss = []
    for i in range(rng.randint(1, 6) if rng.random() < .95 else rng.choice([70, 230])):
        reg = rng.choice(regs)
        reg.first = False
        f = reg.fields('i1' if same else rng.choice(['i%d', u'\u20ac %d', '%d']) % i,
                       rng.choice(['STD', 'DUM', 'REV']), plans.amounts(rng, rng.choice('ZPN')))
        jwss.append(w.jws_of(f, rng.choice(['K1', 'FAIL'])))
        reg.ts += 1
    env = hist.Env([], None, ['K1'])
    return {'id': cid, 'env': env.facts(), 'grp': {'cert': w.NOCERT, 'chain': []},
            'evs': [host_ev(rng, jwss)]}
