"""
Runs the library on concrete histories and records what it did, as cases for
the specification VerifyJudge.
"""
import copy
import io
import json
import pickle
import signal
import zlib

from . import env as _env  # noqa: F401  (import path)
from . import world as w

from librksv import depparser, key_store, receipt, verification_state, verify


class HarnessTimeout(BaseException):
    pass


def _alarm(*_a):
    raise HarnessTimeout('no answer within the time limit')


def call(fn, limit=30):
    """-> (value, None) or (None, exception)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(), None
    except (Exception, HarnessTimeout, SystemExit) as e:
        return None, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def exc_names(e):
    return [c.__name__ for c in type(e).__mro__ if c is not object]


# --------------------------------------------------------------------------

def natural_key(text):
    """Digits groups are numbers, the rest is compared without case."""
    out, i = [], 0
    while True:
        j = i
        while j < len(text) and text[j] not in '0123456789':
            j += 1
        out.append(text[i:j].lower())
        i = j
        while j < len(text) and text[j] in '0123456789':
            j += 1
        if i == j:
            return tuple(out)
        out.append(int(text[i:j]))
        i = j


class FakePool(object):
    """
    A pool whose workers get and give pickled copies, like processes do, and
    which completes its jobs in a chosen order: immediately ('eager') or when
    the result is asked for ('lazy'), first or last package first.
    """

    def __init__(self, order='fifo', lazy=False):
        self.order = order
        self.lazy = lazy

    def _start(self, calls):
        res = FakeResult([pickle.dumps(c) for c in calls], self.order)
        if not self.lazy:
            res.run()
        return res

    def map_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        res = self._start([(fn, (a,), {}) for a in iterable])
        return res.tell(callback, error_callback)

    def starmap_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        res = self._start([(fn, tuple(a), {}) for a in iterable])
        return res.tell(callback, error_callback)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        res = self._start([(fn, tuple(args), kwds or {})])
        res.single = True
        return res.tell(callback, error_callback)

    def map(self, fn, iterable, chunksize=None):
        return self.map_async(fn, iterable).get()

    def starmap(self, fn, iterable, chunksize=None):
        return self.starmap_async(fn, iterable).get()

    def apply(self, fn, args=(), kwds=None):
        return self.apply_async(fn, args, kwds).get()

    def imap(self, fn, iterable, chunksize=1):
        res = self._start([(fn, (a,), {}) for a in iterable])
        return res.each(range(len(res.jobs)))

    def imap_unordered(self, fn, iterable, chunksize=1):
        res = self._start([(fn, (a,), {}) for a in iterable])
        return res.each(res.finishing())

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        pass


class FakeResult(object):
    def __init__(self, jobs, order):
        self.jobs = jobs
        self.order = order
        self.done = False
        self.single = False
        self.told = (None, None)

    def finishing(self):
        idx = list(range(len(self.jobs)))
        if self.order == 'lifo':
            idx.reverse()
        elif self.order != 'fifo':
            idx = sorted(idx, key=lambda i: (zlib.crc32(('%s%d' % (self.order, i)).encode()), i))
        return idx

    def run(self):
        self.done = True
        self.values = [None] * len(self.jobs)
        self.errors = [None] * len(self.jobs)
        self.error = None
        for i in self.finishing():
            fn, a, k = pickle.loads(self.jobs[i])
            try:
                self.values[i] = pickle.loads(pickle.dumps(fn(*a, **k)))
            except Exception as e:
                self.errors[i] = pickle.loads(pickle.dumps(e))
                if self.error is None:
                    self.error = self.errors[i]
        self.notify()

    def tell(self, callback, error_callback):
        self.told = (callback, error_callback)
        if self.done:
            self.notify()
        return self

    def notify(self):
        good, bad = self.told
        if self.error is None and good:
            good(self.values[0] if self.single else self.values)
        if self.error is not None and bad:
            bad(self.error)

    def each(self, idx):
        for i in idx:
            if not self.done:
                self.run()
            if self.errors[i] is not None:
                raise self.errors[i]
            yield self.values[i]

    def get(self, timeout=None):
        if not self.done:
            self.run()
        if self.error is not None:
            raise self.error
        return self.values[0] if self.single else self.values

    def wait(self, timeout=None):
        if not self.done:
            self.run()

    def ready(self):
        return True

    def successful(self):
        self.wait()
        return self.error is None


class Unseekable(io.RawIOBase):
    """A byte stream without tell() and seek(), as a pipe."""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        return self._f.read(n)

    def readinto(self, b):
        d = self._f.read(len(b))
        b[:len(d)] = d
        return len(d)

    def tell(self):
        raise OSError('not seekable')

    def seek(self, *_a):
        raise OSError('not seekable')


def make_parser(kind, dep, nparts=1):
    if kind == 'dict':
        return depparser.DictDEPParser(dep, nparts)
    text = json.dumps(dep)
    if kind == 'full':
        return depparser.FullFileDEPParser(io.StringIO(text), nparts)
    if kind == 'file':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(text.encode('utf-8')))
    if kind == 'textfile':
        return depparser.FileDEPParser(io.StringIO(text))
    if kind == 'stream':
        return depparser.IncrementalDEPParser.fromFd(Unseekable(text.encode('utf-8')))
    raise ValueError(kind)


# --------------------------------------------------------------------------

class Env(object):
    """
    The circumstances of a run: stored keys and certificates (list of
    (id, key name, Cert or None)) and the key given to the verifier.
    """

    def __init__(self, store, aeskey, keys=()):
        self.store = list(store)
        self.aeskey = aeskey
        names = set(keys) | {k for _i, k, _c in self.store}
        self.keys = sorted(names)

    @property
    def key_ok(self):
        return isinstance(self.aeskey, bytes) and len(self.aeskey) == 32

    def facts(self):
        return {'hasKey': self.aeskey is not None, 'keyOK': self.key_ok,
                'store': [{'id': i, 'key': k, 'cert': c.facts() if c else w.NOCERT}
                          for i, k, c in self.store]}

    def keystore(self):
        ks = key_store.KeyStore()
        for i, k, c in self.store:
            if c:
                ks.putKey(i, c.obj.public_key(), c.obj)
            else:
                ks.putKey(i, w.pub(k), None)
        return ks

    def container(self):
        m = {}
        for i, k, c in self.store:
            m[i] = {'id': i,
                    'signatureDeviceType': 'CERTIFICATE' if c else 'PUBLIC_KEY',
                    'signatureCertificateOrPublicKey': c.line if c else w.key_line(k)}
        ret = {'certificateOrPublicKeyMap': m}
        if self.aeskey is not None:
            ret['base64AESKey'] = w.b64(self.aeskey)
        return ret


def dep_json(groups):
    return {'Belege-Gruppe': [
        {'Signaturzertifikat': c.line if c else '',
         'Zertifizierungsstellen': [x.line for x in chain],
         'Belege-kompakt': list(recs)} for c, chain, recs in groups]}


class Case(object):
    """Collects the events of one history while running them."""

    def __init__(self, cid, env, tags=None, natural=False):
        self.natural = natural
        self.id = cid
        self.env = env
        self.ks = None
        self.recs = []
        self.index = {}
        self.malf = {}
        self.evs = []
        self.tags = tags or {}
        self.state = verification_state.ClusterState(
            *([verification_state.UsedReceiptIdsSortedNatural] if natural else []))
        self.init = self.abstract(self.state)

    # -- abstraction

    def intern(self, jws):
        if jws is None or jws == '':
            return 0
        if isinstance(jws, bytes):
            jws = jws.decode('utf-8')
        if jws not in self.index:
            self.recs.append(jws)
            self.index[jws] = len(self.recs)
        return self.index[jws]

    def abstract(self, st):
        def reg(r):
            return {'start': self.intern(r.startReceiptJWS),
                    'last': self.intern(r.lastReceiptJWS),
                    'tc': w.limbs(r.lastTurnoverCounter),
                    'need': bool(r.needRestoreReceipt),
                    'next': r.chainNextTo if r.chainNextTo else w.NONE}
        used = st.usedReceiptIds.writeToJson()['backendData']
        if self.natural and isinstance(used, dict):
            # first and last, put in order by dump()
            return {'regs': [reg(r) for r in st.cashRegisters],
                    'used': {'ids': sorted({v for v in used.values() if v is not None})}}
        return {'regs': [reg(r) for r in st.cashRegisters],
                'used': sorted(used) if isinstance(used, list) else [repr(used)]}

    def observe(self, err, st):
        o = {'ok': err is None, 'exc': [], 'rec': w.NONE, 'has': True}
        if err is not None:
            o['exc'] = exc_names(err)
            r = getattr(err, 'receipt', None)
            o['rec'] = r if isinstance(r, str) else w.NONE
            o['msg'] = str(err)[:200]
        try:
            o['st'] = self.abstract(st)
        except Exception as e:      # unreadable state: as good as a wrong one
            o['has'] = False
            o['st'] = {'regs': [], 'used': []}
            o['broken'] = repr(e)
        return o

    def groups_facts(self, groups):
        return [{'cert': c.facts() if c else w.NOCERT,
                 'chain': [x.facts() for x in chain],
                 'recs': [self.intern(r) for r in recs]}
                for c, chain, recs in groups]

    # -- events

    def start_from(self, state):
        """Use a given (concrete) state as the initial one."""
        self.state = state
        self.init = self.abstract(state)

    def _run(self, mode, groups, st, idx):
        # one key store serves all verifications
        if self.ks is None:
            self.ks = self.env.keystore()
        ks = self.ks
        dep = dep_json(groups)
        key = self.env.aeskey
        if mode[0] == 'dep':
            return call(lambda: verify.verifyDEP(dep, ks, key, st, idx))
        _m, parser, chunk, nprocs, pool = mode
        p = make_parser(parser, dep, max(nprocs, 1))
        pl = FakePool(*pool) if isinstance(pool, tuple) else pool
        return call(lambda: verify.verifyParsedDEP(p, ks, key, st, idx, pl, nprocs, chunk))

    def verify(self, groups, idx=None, modes=(), main=('dep',), plan=None):
        """groups: [(Cert or None, [Cert], [jws])]"""
        pre = copy.deepcopy(self.state)
        _v, err = self._run(main, groups, self.state, idx)
        ev = {'kind': 'verify', 'idx': w.NOIDX if idx is None else idx,
              'groups': self.groups_facts(groups), 'alts': [],
              'obs': self.observe(err, self.state)}
        if plan is not None:
            ev['plan'] = plan
        for m in modes:
            st = copy.deepcopy(pre)
            _v, e = self._run(m, groups, st, idx)
            o = self.observe(e, st)
            o['mode'] = repr(m)
            ev['alts'].append(o)
        self.evs.append(ev)
        return ev['obs']['ok']

    def judge(self, groups, idx=None):
        self.evs.append({'kind': 'judge', 'idx': w.NOIDX if idx is None else idx,
                         'groups': self.groups_facts(groups), 'alts': [],
                         'obs': {'ok': True, 'exc': [], 'rec': w.NONE, 'has': False,
                                 'st': {'regs': [], 'used': []}}})

    def reload(self):
        def go():
            return verification_state.ClusterState.readStateFromJson(
                json.loads(json.dumps(self.state.writeStateToJson())))
        v, err = call(go)
        if v is not None:
            self.state = v
        self.evs.append({'kind': 'reload', 'obs': self.observe(err, self.state)})

    def update(self, groups, idx):
        def go():
            for _c, _ch, recs in groups:
                self.state.cashRegisters[idx].updateFromDEPGroup(
                    [depparser.shrinkDEPReceipt(r) for r in recs], self.env.aeskey)
        _v, err = call(go)
        self.evs.append({'kind': 'update', 'idx': idx,
                         'groups': self.groups_facts(groups),
                         'obs': self.observe(err, self.state)})

    def grow(self):
        self.state.addNewCashRegister()
        self.evs.append({'kind': 'grow', 'obs': self.observe(None, self.state)})

    def set_ids(self, ids):
        self.state.usedReceiptIds = type(self.state.usedReceiptIds)()
        for i in ids:
            self.state.usedReceiptIds.add(i)
        self.evs.append({'kind': 'ids', 'obs': self.observe(None, self.state)})

    def configure_next(self, value, new=False):
        """A chaining value is configured for the last (or a new) register."""
        if new:
            self.state.addNewCashRegister()
        self.state.cashRegisters[-1].chainNextTo = value
        self.evs.append({'kind': 'conf', 'next': value, 'new': new,
                         'obs': self.observe(None, self.state)})

    def arb(self, jws, start):
        """Starts anew from the given receipt."""
        def go():
            rec, prefix = receipt.Receipt.fromJWSString(jws)
            if start:
                return verification_state.ClusterState.fromArbitraryStartReceipt(rec)
            return verification_state.ClusterState.fromArbitraryReceipt(
                rec, prefix, self.env.aeskey)
        v, err = call(go)
        if v is not None:
            self.state = v
        self.evs.append({'kind': 'arb', 'x': self.intern(jws), 'start': start,
                         'obs': self.observe(err, self.state)})

    # -- output

    def dump(self):
        keys = self.env.keys
        recs = []
        for r in self.recs:
            try:
                recs.append(w.facts(r, keys, self.env.aeskey, self.malf.get(r)))
            except Exception as e:
                recs.append(w.facts(r, keys, None, ['unreadable: %r' % (e,)]))
        order = {t: i for i, t in enumerate(sorted({r['ts'] for r in recs}))}
        for r in recs:
            r['ts'] = order[r['ts']]
        out = {'id': self.id, 'env': self.env.facts(), 'recs': recs,
               'init': self.init, 'evs': self.evs}
        if self.natural:
            out['env']['natural'] = True
            states = [self.init] + [o['st'] for e in self.evs if 'obs' in e
                                    for o in [e['obs']] + e.get('alts', [])]
            states = [st for st in states if isinstance(st['used'], dict)]
            ids = {r['id'] for r in recs} | {i for st in states for i in st['used']['ids']}
            keys = sorted({natural_key(i) for i in ids})
            for r in recs:
                r['rank'] = keys.index(natural_key(r['id']))
            for st in states:
                st['used'] = sorted(keys.index(natural_key(i)) for i in st['used']['ids'])
        return out
