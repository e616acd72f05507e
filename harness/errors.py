"""Failing verifications, in order and in worker processes, and exceptions on their way."""
import copy
import importlib
import inspect
import json
import multiprocessing
import multiprocessing.util
import os
import pickle
import pkgutil
import random
import signal
import sys
import tempfile
import time
import traceback

from . import hist
from . import plans
from . import scen
from . import unusable
from . import world as w

import librksv
from librksv import depparser, key_store, utils, verification_state, verify

LIMIT = 40          # seconds a verification of a few receipts may take

CERTF = ('broken', 'untrusted', 'collision', 'mismatch')
MALF = {'jws': ['MalformedReceiptException'], 'base64': ['MalformedReceiptException'],
        'amount': ['MalformedReceiptException'], 'date': ['MalformedReceiptException'],
        'fields': ['MalformedReceiptException'],
        'alg': ['UnknownAlgorithmException', 'MalformedReceiptException'],
        'hdr': ['AlgorithmMismatchException', 'MalformedReceiptException'],
        'serial': ['CertSerialInvalidException', 'InvalidCertificateProviderException'],
        'zda': ['InvalidCertificateProviderException', 'MalformedReceiptException',
                'CertSerialInvalidException']}
INITIAL = ['failed1', 'nonzero1', 'kind1']
FOLLOW = ['dup', 'reg', 'type', 'ts']
THIRD = ['norestore']
ANYWHERE = ['chain', 'tc', 'sig', 'nokey', 'aes', 'idx', 'used'] + list(CERTF) + \
           ['m-' + m for m in sorted(MALF)]
FAULTS = INITIAL + FOLLOW + THIRD + ANYWHERE
SECOND = ['sig', 'm-jws', 'chain']


# --------------------------------------------------------------------------
# processes of our own which may have workers

def fork_map(fn, jobs, procs=4, limit=600, late=None):
    """[fn(part)...] concatenated, each part of the jobs in a process of its own, that may
    start further ones; all of them are gone afterwards.  What went wrong with some of them
    is added to late, if given."""
    procs = max(1, min(procs, len(jobs)))
    kids, out = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(procs):
        fd, path = tempfile.mkstemp(prefix='err-')
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                try:
                    res = ('ok', fn(jobs[k::procs]))
                except BaseException:
                    res = ('error', traceback.format_exc())
                with os.fdopen(fd, 'w') as f:
                    json.dump(res, f)
                    f.flush()
                if not DEAD:
                    multiprocessing.util._exit_function()
            finally:
                os._exit(0)
        os.close(fd)
        kids.append((pid, path))
    end = time.time() + limit
    errors = []
    for pid, path in kids:
        while True:
            done, _st = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                break
            time.sleep(.02)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        with open(path) as f:
            text = f.read()
        os.unlink(path)
        if not text:
            errors.append('no result within the time limit')
            continue
        kind, val = json.loads(text)
        if kind == 'ok':
            out += val
        else:
            errors.append(val)
    if errors:
        if late is None or not out:
            raise RuntimeError(errors[0])
        late += errors
    return out


DEAD = []           # pools with killed workers: dropping one would wait for them for ever


class Pools(object):
    """A worker pool, a new one after it got stuck."""

    def __init__(self, method='fork', size=3):
        self.ctx = multiprocessing.get_context(method)
        self.size = size
        self.pool = None
        self.stuck = False

    def get(self):
        if self.pool is None:
            self.pool = self.ctx.Pool(self.size)
        return self.pool

    def kill(self):
        self.stuck = True
        for p in self.pool._pool:
            if p.pid:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        DEAD.append(self.pool)
        self.pool = None

    def end(self):
        if self.pool is not None and not self.stuck:
            try:
                self.pool.terminate()
                self.pool.join()
            except AssertionError:      # a thread of the pool is gone
                self.kill()


# --------------------------------------------------------------------------
# exceptions

def describe(e):
    """What can be seen of an exception."""
    try:
        text = str(e)
    except Exception as x:
        text = 'unprintable: ' + type(x).__name__
    rec = getattr(e, 'receipt', None)
    pub = sorted((k, repr(v)) for k, v in vars(e).items()
                 if not k.startswith('_') and k not in ('receipt',))
    return {'exc': hist.exc_names(e), 'text': text,
            'rec': rec if isinstance(rec, str) else w.NONE if rec is None else repr(rec),
            'attrs': ['%s=%s' % kv for kv in pub]}


def after(how, fn):
    v, err = hist.call(fn, LIMIT)
    if err is not None:
        return {'how': how, 'ok': False, 'exc': hist.exc_names(err), 'text': str(err)[:300],
                'rec': w.NONE, 'attrs': []}
    if not isinstance(v, BaseException):
        return {'how': how, 'ok': False, 'exc': [], 'text': repr(v)[:300], 'rec': w.NONE, 'attrs': []}
    return dict(describe(v), how=how, ok=True)


def throw(blob):
    """In a worker: raises the exception made as told."""
    mod, cls, args = blob
    raise getattr(importlib.import_module(mod), cls)(*args)


def through(pool, blob):
    try:
        pool.map_async(throw, [blob, blob]).get(LIMIT)
    except multiprocessing.TimeoutError:
        raise
    except Exception as e:
        return e
    return None


def transfer(e, blob=None, pool=None):
    def hops(n, proto):
        x = e
        for _ in range(n):
            x = pickle.loads(pickle.dumps(x, proto))
        return x
    out = [after('pickle%d' % p, lambda p=p: hops(1, p))
           for p in sorted({2, pickle.DEFAULT_PROTOCOL, pickle.HIGHEST_PROTOCOL})]
    out.append(after('pickled thrice', lambda: hops(3, pickle.DEFAULT_PROTOCOL)))
    out.append(after('deepcopy', lambda: copy.deepcopy(e)))
    if pool is not None and blob is not None:
        out.append(after('worker', lambda: through(pool, blob)))
    return {'kind': 'transfer', 'before': describe(e), 'after': out}


def classes():
    """All exception classes of the library."""
    seen = {}
    for m in pkgutil.walk_packages(librksv.__path__, 'librksv.'):
        if '.test' in m.name:
            continue
        try:
            mod = importlib.import_module(m.name)
        except ImportError:
            continue        # needs something that is not installed
        for name, c in vars(mod).items():
            if inspect.isclass(c) and issubclass(c, utils.RKSVException) and c.__module__ == mod.__name__:
                seen[(mod.__name__, name)] = c
    return seen


TEXTS = ['17', '', 'CASHBOX-1 {}', '{0} {1}', '%s %d', u'\xe4\u20ac\U0001f9fe', 'a"b\\c\n', "it's", ' ', 'None',
         '{receipt}', u'\u2028', 'x' * 5000, 'eyJhbGciOiJFUzI1NiJ9.X1IxLUFUMA.AA', '\x00', '}{']
NUMBERS = [0, 1, -1, 7, 10 ** 20]


def argument(name, rng):
    if name.endswith('idx') or name == 'num':
        return rng.choice(NUMBERS)
    return rng.choice(TEXTS)


def arguments(cls, rng):
    """Arguments to make one of the class with; those with a default may be left out."""
    sig = list(inspect.signature(cls).parameters.values())
    pos = [p for p in sig if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
    need = len([p for p in pos if p.default is p.empty])
    n = rng.randint(need, len(pos))
    out = []
    for p in pos[:n]:
        if p.default is None and rng.random() < .3:
            out.append(None)
        else:
            out.append(argument(p.name, rng))
    return out


def _transfers(jobs):
    pools = Pools()
    out = []
    try:
        for cid, mod, name, seed, real in jobs:
            if pools.stuck:
                break
            rng = random.Random('%s/%s' % (seed, cid))
            cls = getattr(importlib.import_module(mod), name)
            args = arguments(cls, rng)
            e, err = hist.call(lambda: cls(*args))
            if err is not None:
                raise RuntimeError('%s%r: %r' % (name, args, err))
            ev = transfer(e, (mod, name, args), pools.get() if real else None)
            if any(not a['ok'] and {'TimeoutError', 'HarnessTimeout'} & set(a['exc']) for a in ev['after']):
                pools.kill()
            case = blank(cid)
            case['evs'].append(ev)
            case['tags'] = {'class': name, 'args': repr(args)[:300]}
            out.append(case)
    finally:
        pools.end()
    return out


def blank(cid):
    return {'id': cid, 'env': {'hasKey': False, 'keyOK': False, 'store': []}, 'recs': [],
            'init': {'regs': [], 'used': []}, 'evs': []}


# --------------------------------------------------------------------------
# runs

def outcome(err, ended=True):
    if not ended:
        return {'ended': False, 'ok': False, 'exc': [], 'rec': w.NONE, 'text': '', 'same': w.NONE}
    if err is None:
        return {'ended': True, 'ok': True, 'exc': [], 'rec': w.NONE, 'text': '', 'same': w.NONE}
    d = describe(err)
    return {'ended': True, 'ok': False, 'exc': d['exc'], 'rec': d['rec'], 'text': d['text'],
            'same': w.NONE}


def attempt(fn, pools=None):
    """-> (outcome, exception)"""
    _v, err = hist.call(fn, LIMIT)
    ended = not isinstance(err, hist.HarnessTimeout)
    if not ended and pools is not None:
        pools.kill()
    return outcome(err, ended), err


def malformed(rng, jws, f, key, how):
    head, pay, sig = jws.split('.')
    if how == 'jws':
        return rng.choice([head + '.' + pay, jws + '.x', 'x', '..', pay])
    if how == 'base64':
        return head + '.' + pay + '*.' + sig
    f = dict(f)
    if how == 'amount':
        f['a%d' % rng.randint(1, 5)] = rng.choice(['1.00', '', 'x', '1,0', '1,000', '--1,00'])
    elif how == 'date':
        f['ts'] = rng.choice(['2016-13-01T00:00:00', '', 'x', f['ts'][:-1], f['ts'] + 'Z'])
    elif how == 'fields':
        f['chain'] = rng.choice([f['chain'] + '_x', ''])
    elif how == 'alg':
        f['alg'] = rng.choice(['R9', 'R11', 'r1'])
    elif how == 'serial':
        f['zda'] = 'AT1'
        f['serial'] = rng.choice(['xyz', '0x12', 'U:ATU1-K1', '1 2'])
    elif how == 'zda':
        f['zda'] = 'AT0'
        f['serial'] = '12ab'
    if how == 'hdr':
        return w.jws_of(f, key, header=rng.choice(['{"alg":"ES384"}', '{"alg":"none"}', '{"alg":"HS256"}']))
    return w.jws_of(f, key)


class Build(object):
    """A DEP with the faults of a plan."""

    def __init__(self, cid, plan, seed):
        self.rng = rng = random.Random('%s/%s' % (seed, cid))
        self.plan = plan
        at = {p['at']: p['f'] for p in plan['at']}
        fs = set(at.values())
        cert = bool(fs & set(CERTF)) or rng.random() < .3
        closed = not cert and not any(f == 'm-serial' for f in fs) and rng.random() < .25
        self.sp = scen.Setup(rng, closed, True, 'cert' if cert else 'store',
                             rng.choice(['hex', 'HEX', 'dec', 'pad']), 'K1',
                             rng.choice([0, 1, 2]) if cert else 0)
        sp = self.sp
        aes = sp.aes
        if 'aes' in fs:
            aes = rng.choice([aes[:16], aes[:31], aes + b'\0', b'', aes * 2])
        store = list(sp.store)
        self.idx = None
        if 'idx' in fs:
            self.idx = rng.choice([5, -1, 99])
        # groups begin where certificates change
        cuts = {1}
        if cert:
            cuts |= {i for i in at if at[i] in CERTF}
            if plan['n'] > 1 and rng.random() < .4:
                cuts.add(rng.randint(2, plan['n']))
        groups = []
        width = 8
        reg = scen.Reg(scen.reg_name(rng), sp, width, ts=rng.randint(0, 10 ** 6))
        used = set()
        # certificates of groups at fault
        bad = {}
        high = rng.choice([0, 0, 0, 1 << 150, 1 << 199])
        for i, f in at.items():
            if f == 'broken':
                x = w.cert('K1', high + 0x5000 + i, 'KQ')
                if rng.random() < .5:
                    bad[i] = (x, [w.cert('K2', high + 0x6000 + i, 'KQ')] + list(sp.groupchain))
                else:
                    bad[i] = (x, [w.cert('KQ', high + 0x6000 + i, 'K3'), w.cert('K2', high + 0x7000 + i)])
            elif f == 'untrusted':
                x = w.cert('K1', high + 0x5000 + i, 'KQ')
                bad[i] = (x, rng.choice([[], [w.cert('KQ', high + 0x6000 + i)]]))
            elif f == 'collision':
                x = w.cert('K1', high + 0x5000 + i)
                o = w.cert('K2', high + 0x5000 + i)
                store.append((o.keyid, 'K2', o))
                bad[i] = (x, [])
            elif f == 'mismatch':
                x = w.cert('K1', high + 0x5000 + i)
                store.append((x.keyid, 'K1', x))
                bad[i] = (x, [])
        rng.shuffle(store)
        self.env = hist.Env(store, aes, sp.keynames + ['K2', 'K3', 'KQ', 'KX'])
        self.case = hist.Case(cid, self.env)
        prev_used = None
        for i in range(1, plan['n'] + 1):
            f = at.get(i)
            kind, cents, sig = 'STD', [0] * 5, 'ok'
            k = {}
            third = next((j for j, g in at.items() if g == 'norestore' and j - 2 <= i <= j), None)
            if third is not None:
                kind = rng.choice(['STD', 'DUM', 'REV'])
                cents = plans.amounts(rng, 'P')
                sig = 'failed' if i == third - 2 else 'ok'
            elif not reg.first and not reg.need:
                kind = rng.choice(['STD', 'STD', 'DUM', 'REV'])
                cents = plans.amounts(rng, rng.choice('PPNZ'))
                if rng.random() < .12:
                    sig = 'failed'
            if f == 'failed1':
                sig = 'failed'
            elif f == 'nonzero1':
                cents = plans.amounts(rng, rng.choice('PNC'))
            elif f == 'kind1':
                kind = rng.choice(['DUM', 'REV'])
            elif f == 'tc':
                kind, sig = 'STD', 'ok'
                k['counter'] = plans.wrong_counter(rng, reg, sum(cents))
            elif f == 'chain':
                k['chain'] = scen.bad_chain(rng, reg)
            elif f == 'ts':
                k['ts'] = reg.ts - rng.choice([1, 60, 10 ** 6])
            elif f == 'reg':
                k['reg'] = reg.reg + 'y'
            elif f == 'type':
                k['zda'] = 'AT0' if not closed else 'AT1'
                k['serial'] = 'U:ATU1-K1' if not closed else '1f'
            elif f == 'nokey':
                sig = 'ok'
                k['serial'] = 'fedcba987' if not closed else 'U:ATU999-K9'
            rid = None
            while rid is None or rid in used:
                rid = plans.fresh_id(rng, used)
            if f == 'dup' and used:
                rid = scen.bad_id(rng, used)
            if f == 'used':
                prev_used = rid
            if 'ts' not in k:
                reg.ts += rng.choice([0, 1, 5, 3600])
                k['ts'] = reg.ts
            fields = reg.fields(rid, kind, cents, **k)
            if sig == 'failed':
                jws = w.jws_of(fields, 'FAIL')
            else:
                jws = w.jws_of(fields, 'K1')
            if f == 'sig':
                sig = 'ok'
                jws = plans.bad_signature(rng, fields, type('S', (), {
                    'key': staticmethod(lambda z: 'K1'), 'keys': ['K1', 'K2', 'KX']}), fields['zda'])
            raw = jws
            if f and f.startswith('m-'):
                sig = 'ok'
                raw = malformed(rng, jws, fields, 'K1', f[2:])
                self.case.malf[raw] = MALF[f[2:]]
            reg.append(jws, kind, cents, sig == 'failed')
            used.add(rid)
            if i in cuts:
                if i in bad:
                    groups.append((bad[i][0], bad[i][1], []))
                else:
                    groups.append((sp.groupcert, sp.groupchain, []))
            groups[-1][2].append(raw)
        self.groups = groups
        st = verification_state.ClusterState()
        if prev_used is not None:
            st.usedReceiptIds.add(prev_used)
            for j in range(rng.choice([0, 2])):
                st.usedReceiptIds.add('old%d' % j)
        self.case.start_from(st)

    def run(self, mode, pools=None):
        parser, chunk, nprocs, pool = mode
        env, case = self.env, self.case
        st = copy.deepcopy(case.state)
        dep = hist.dep_json(self.groups)
        real = pool == 'real'
        pl = pools.get() if real else hist.FakePool(*pool) if isinstance(pool, tuple) else None
        o, err = attempt(lambda: verify.verifyParsedDEP(
            hist.make_parser(parser, dep, max(nprocs, 1)), env.keystore(), env.aeskey, st,
            self.idx, pl, nprocs, chunk), pools if real else None)
        o['mode'] = repr(mode)
        n = self.plan['n']
        exact = nprocs == 1 and pool is None or (len(self.groups) == 1 and chunk >= n)
        ev = {'kind': 'run', 'idx': w.NOIDX if self.idx is None else self.idx,
              'groups': case.groups_facts(self.groups), 'exact': exact, 'obs': o}
        case.evs.append(ev)
        return o, err


def _runs(jobs):
    pools = Pools()
    out = []
    try:
        for cid, plan, seed in jobs:
            if pools.stuck:
                break
            b = Build(cid, plan, seed)
            rng = b.rng
            chunk, nprocs = plan['chunk'], plan['procs']
            parser = rng.choice(plans.PARSERS)
            seq, err = b.run((parser, 0, 1, None))
            inline, e2 = b.run((parser, chunk, nprocs, None))
            for pool in ((rng.choice(['fifo', 'lifo', 'a']), rng.random() < .5), 'real'):
                o, e3 = b.run((parser, chunk, nprocs, pool), pools)
                for ref in (inline, seq):
                    if ref['exc'] == o['exc'] and ref['rec'] == o['rec'] and not o['ok']:
                        o['same'] = ref['text']
                        break
            for e in (err, e3):
                if isinstance(e, utils.RKSVException):
                    b.case.evs.append(transfer(e))
            c = b.case.dump()
            c['tags'] = plan
            out.append(c)
    finally:
        pools.end()
    return out


# --------------------------------------------------------------------------
# unusual keys, certificates and documents

def odd_keys():
    out = {}
    for n in ('RSA1', 'P3841', 'K9'):
        out[n] = w.pub(n)
    for n in ('ed', 'ed4'):
        out[n] = utils.loadPubKey(utils.addPEMPubKeyHeaders(unusable.KEYS[n]))
    return out


def chainful(rng, sp, n):
    reg = scen.Reg(scen.reg_name(rng), sp, 8)
    used = set()
    out = []
    for i in range(n):
        cents = [0] * 5 if reg.first else plans.amounts(rng, 'P')
        rid = 'r%d' % i
        reg.ts += 1
        jws = w.jws_of(reg.fields(rid, 'STD', cents), 'K1')
        reg.append(jws, 'STD', cents, False)
        out.append(jws)
    return out


def odd_case(cid, seed, pools):
    rng = random.Random('%s/%s' % (seed, cid))
    what = rng.choice(['storedkey', 'storedcert', 'usedkey', 'groupcert', 'chaincert', 'garbagecert', 'fuzz', 'fuzz'])
    cert = what in ('groupcert', 'chaincert', 'garbagecert') or what == 'fuzz' and rng.random() < .5
    sp = scen.Setup(rng, False, True, 'cert' if cert else 'store', 'hex', 'K1',
                    rng.choice([1, 2]) if cert else 0)
    recs = chainful(rng, sp, rng.randint(1, 5))
    env = hist.Env(sp.store, sp.aes, sp.keynames)
    ks = env.keystore()
    dep = hist.dep_json([(sp.groupcert, sp.groupchain, recs)])
    g = dep['Belege-Gruppe'][0]
    want = ['ok']
    ODD = ['expl', 'odd', 'pss', 'ed', 'ed4']
    if what == 'storedkey':
        # something else in the store
        name = rng.choice(sorted(odd_keys()))
        ks.putKey(rng.choice(['77', 'aa', 'x']), odd_keys()[name], None)
    elif what == 'storedcert':
        name = rng.choice(['ed', 'ed4'])
        c = utils.loadCert(utils.addPEMCertHeaders(unusable.CERTS[name]))
        ks.putKey('4d', utils.certPubKey(c), c)
    elif what == 'usedkey':
        name = rng.choice(sorted(odd_keys()))
        kid = sp.cert.keyid
        ks.putKey(kid, odd_keys()[name], None)
        want = ['InvalidSignatureException', 'NoPublicKeyException', 'InvalidKeyException']
    elif what == 'groupcert':
        g['Signaturzertifikat'] = unusable.CERTS[rng.choice(ODD)]
        want = ['RKSVException']
    elif what == 'chaincert':
        x = unusable.CERTS[rng.choice(ODD)]
        z = g['Zertifizierungsstellen']
        at = rng.randint(0, len(z) - 1)
        if rng.random() < .7:
            z[at] = x
        else:
            z.insert(at, x)
        want = ['RKSVException']
    elif what == 'garbagecert':
        x = rng.choice(['x', '!', 'AAAA', 'MIIB', g['Signaturzertifikat'][:-5], g['Signaturzertifikat'][4:],
                        w.key_line('K1'), '-----BEGIN CERTIFICATE-----', ' ', '\n', '='])
        if rng.random() < .6:
            g['Signaturzertifikat'] = x
        else:
            g['Zertifizierungsstellen'][0] = x
        want = ['RKSVException']
    else:
        want = ['any']
        for _ in range(rng.choice([1, 1, 2, 3])):
            mutate(rng, dep)
    parser = rng.choice(plans.PARSERS)
    evs = []
    modes = [(0, 1, None), (rng.choice([0, 1, 2]), rng.choice([1, 2, 3]), None),
             (rng.choice([0, 1, 2]), rng.choice([1, 2, 3]), 'real')]
    for chunk, nprocs, pool in modes:
        if pools.stuck:
            break

        def go():
            verify.verifyParsedDEP(hist.make_parser(parser, dep, nprocs), ks, env.aeskey,
                                   verification_state.ClusterState(), None,
                                   pools.get() if pool else None, nprocs, chunk)
        o, err = attempt(go, pools if pool else None)
        o['mode'] = repr((parser, chunk, nprocs, pool))
        evs.append({'kind': 'odd', 'want': want, 'obs': o})
        if isinstance(err, utils.RKSVException):
            evs.append(transfer(err))
    case = blank(cid)
    case['evs'] = evs
    case['tags'] = {'what': what, 'dep': json.dumps(dep)[:5000] if what == 'fuzz' else ''}
    return case


VALUES = [None, True, 0, 1.5, -3, '', 'x', [], {}, [[]], {'a': 1}, ['x'], 'R1', u'\xe4', '..', 'a.b.c', 'x' * 2000]


def mutate(rng, v):
    """Replaces, removes or adds something somewhere."""
    spots = []

    def walk(x):
        if isinstance(x, dict):
            for k in list(x):
                spots.append((x, k))
                walk(x[k])
        elif isinstance(x, list):
            for k in range(len(x)):
                spots.append((x, k))
                walk(x[k])
    walk(v)
    if not spots:
        return
    x, k = rng.choice(spots)
    r = rng.random()
    if r < .35:
        x[k] = copy.deepcopy(rng.choice(VALUES))
    elif r < .5:
        del x[k]
    elif r < .6 and isinstance(x, list):
        x.insert(k, copy.deepcopy(x[k]))
    elif r < .7 and isinstance(x, dict):
        x[rng.choice(['x', k + ' ', k.lower()])] = x.pop(k)
    elif isinstance(x[k], str) and x[k]:
        s = x[k]
        i = rng.randrange(len(s))
        x[k] = rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice(u'A.=_\xe4\x00 +/-') + s[i + 1:],
                           s[:i], s[i:], s + s[i:], s[:i] + '.' + s[i:]])
    else:
        x[k] = copy.deepcopy(rng.choice(VALUES))


def _odds(jobs):
    pools = Pools()
    out = []
    try:
        for cid, seed in jobs:
            if pools.stuck:
                break
            out.append(odd_case(cid, seed, pools))
    finally:
        pools.end()
    return out


def _spawned(jobs):
    """Workers that do not share memory with the parent at the start."""
    out = []
    for cid, method, plan, seed in jobs:
        pools = Pools(method, 2)
        try:
            b = Build(cid, plan, seed)
            b.run(('dict', plan['chunk'], plan['procs'], None))
            b.run(('dict', plan['chunk'], plan['procs'], 'real'), pools)
            out.append(b.case.dump())
            if pools.stuck:
                break
            out.append(odd_case(cid + 'o', seed, pools))
        finally:
            pools.end()
    return out
