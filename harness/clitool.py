"""Verification and state editing with the command line tools, recorded."""
import copy
import json
import os
import random
import re

from . import cli
from . import derive
from . import forms
from . import hist
from . import plans
from . import rich
from . import scen
from . import single
from . import world as w
from .forms import codes

from librksv import depparser, key_store, receipt, url_receipt_helpers, utils, verification_state as vs, verify_receipt

ABSENT = 999
TYPES = {'USED_RECEIPT_IDS_UNIQUE': 'U', 'USED_RECEIPT_IDS_SORTED_NATURAL': 'N'}
NOFILE = {'kind': 'none', 'regs': [], 'used': [], 'type': ''}
STATE = 'state.json'
BLANK = {'start': 'null', 'last': 'null', 'tc': '0', 'need': False, 'next': 'null'}


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))


def data_of(name):
    try:
        with open(name, 'rb') as f:
            return f.read()
    except IOError:
        return None


def reg_json(r):
    return {'start': json.dumps(r['startReceiptJWS']), 'last': json.dumps(r['lastReceiptJWS']),
            'tc': str(r['lastTurnoverCounter']), 'need': r['needRestoreReceipt'],
            'next': json.dumps(r['chainNextTo'])}


def reg_of(r):
    """The other way round."""
    return {'startReceiptJWS': json.loads(r['start']), 'lastReceiptJWS': json.loads(r['last']),
            'lastTurnoverCounter': int(r['tc']), 'needRestoreReceipt': r['need'],
            'chainNextTo': json.loads(r['next'])}


def file_facts(name):
    data = data_of(name)
    if data is None:
        return dict(NOFILE)
    try:
        d = json.loads(data.decode('utf-8-sig'))
        vs.ClusterState.readStateFromJson(d)
        u = d['usedReceiptIds']
        used = u['backendData']
        if isinstance(used, dict):
            used = sorted('%s %s' % (k, json.dumps(v)) for k, v in used.items() if v is not None)
        return {'kind': 'ok', 'regs': [reg_json(r) for r in d['cashRegisters']],
                'used': used, 'type': TYPES[u['backendType']]}
    except Exception:
        return dict(NOFILE, kind='bad')


def file_json(f):
    return {'cashRegisters': [reg_of(r) for r in f['regs']],
            'usedReceiptIds': {'backendType': {v: k for k, v in TYPES.items()}[f['type'] or 'U'],
                               'backendData': list(f['used'])}}


def render(o):
    out = ['state'] if o['state'] else []
    out += {'': [], 'continue': ['continue'], 'n': [str(o['reg'])]}[o['sel']]
    if o['par'] != ABSENT:
        out += ['par', str(o['par'])]
    if o['chunk'] != ABSENT:
        out += ['chunksize', str(o['chunk'])]
    return out + (['json'] if o['json'] else [])


def compact(st):
    return json.dumps(st, sort_keys=True)


# --------------------------------------------------------------------------

class CliCase(hist.Case):
    """
    A history run with the command line tools. Beside what is judged it records
    whether the library does the same when called directly ('differs').
    """
    parallel = .08

    def __init__(self, cid, env, tags=None, natural=False):
        hist.Case.__init__(self, cid, env, tags, natural)
        self.rng = random.Random('cli/%s' % cid)
        self.cli = []

    # -- verify.py

    def options(self, idx):
        rng = self.rng
        o = {'state': True, 'sel': '' if idx is None else 'n', 'reg': 0 if idx is None else idx,
             'par': rng.choice([ABSENT, ABSENT, 1]), 'chunk': rng.choice([ABSENT, ABSENT, 0, 1, 2, 3, 100]),
             'json': rng.random() < .3}
        if rng.random() < self.parallel:
            o['par'] = rng.choice([2, 2, 3])
        n = len(self.state.cashRegisters)
        if idx == n - 1 and rng.random() < .6:
            o['sel'] = 'continue'
        if not n and not self.natural and rng.random() < .3 and not self.ids():
            o['state'] = False
            if o['sel'] == 'continue':
                o['sel'] = 'n'
        return o

    def ids(self):
        return self.state.usedReceiptIds.writeToJson()['backendData']

    def run_verify(self, o, groups, st, words=None, spawn=False, fits=None):
        """-> (error or None, state or None, event)"""
        rng = self.rng
        put('keys.json', (b'\xef\xbb\xbf' if rng.random() < .15 else b'')
            + json.dumps(self.env.container(), indent=rng.choice([None, 2])).encode())
        put('dep.json', (b'\xef\xbb\xbf' if rng.random() < .15 else b'')
            + json.dumps(hist.dep_json(groups), indent=rng.choice([None, 1]),
                         ensure_ascii=rng.random() < .7).encode())
        before = data_of('keys.json'), data_of('dep.json')
        text = ''
        if o['state']:
            text = json.dumps(st.writeStateToJson(), indent=rng.choice([None, 2]), sort_keys=rng.random() < .3)
        argv = (words if words is not None else render(o)) + ['keys.json', 'dep.json']
        var = {}
        if o['chunk'] == ABSENT and rng.random() < .5:
            var['RKSV_DEP_CHUNKSIZE'] = str(rng.choice([1, 2, 3, 100000]))
        r = (cli.spawn if spawn else cli.run)('verify.py', argv, text.encode(), variables=var)
        got, kind = None, 'other'
        if not r.out.strip():
            kind = 'empty'
        else:
            try:
                got = vs.ClusterState.readStateFromJson(json.loads(r.text()))
                kind = 'state'
            except Exception:
                pass
        ev = {'t': 'verify', 'argv': argv, 'state': o['state'], 'ok': r.ok, 'out': kind,
              'said': b'Verification successful' in r.err,
              'same': before == (data_of('keys.json'), data_of('dep.json')) and len(os.listdir('.')) == self.nfiles(),
              'has': fits is not None, 'fits': bool(fits)}
        self.cli.append(ev)
        return r, got, ev

    def misused(self, groups):
        """With a command line that says nothing sensible there is no verdict."""
        o = {'state': True, 'chunk': 0}
        words = self.rng.choice([['par', '0'], ['par', '-1'], ['par', 'x'], ['chunksize', '-1'], ['chunksize', 'x'],
                                 ['chunksize', '1.5'], ['par', ''], ['json', 'json'], ['foo'], ['continue', 'continue'],
                                 ['chunksize', '2', 'par', '1'], ['json', 'par', '1'], ['par'], ['chunksize'], ['0', '1'],
                                 ['0', 'continue'], ['par', '1', 'chunksize', '1', 'json', 'json'], ['par', '1', 'chunksize'],
                                 ['Continue'], ['par', '0', 'chunksize', '0'], ['0x0'], ['']])
        _r, _got, ev = self.run_verify(o, groups, self.state, ['state'] + words)
        ev['t'] = 'misuse'

    def nfiles(self):
        return len(set(os.listdir('.')) & {'keys.json', 'dep.json', STATE, 'key.b64', 'ids.txt', 'src.json'})

    def outcome(self, r, got, o, st):
        """What the run says about verdict and state, like the library's outcome."""
        err = None if r.ok else (r.error or Unknown('exit status %r' % (r.rc,)))
        if r.ok and o['state']:
            ob = self.observe(None, got if got is not None else Unknown('no state'))
        else:
            ob = self.observe(err, st)
        return ob

    def verify(self, groups, idx=None, modes=(), main=('dep',), plan=None, opts=None, words=None, fits=None,
               spawn=False):
        pre = self.state
        lib = copy.deepcopy(pre)

        def direct():
            from librksv import verify as v
            c = self.env.container()
            return v.verifyDEP(hist.dep_json(groups), key_store.KeyStore.readStoreFromJson(c),
                               utils.loadKeyFromJson(c), lib, idx)
        _v, e = hist.call(direct)
        want = self.observe(e, lib)
        obs, after = [], None
        ev = {'kind': 'verify', 'idx': w.NOIDX if idx is None else idx,
              'groups': self.groups_facts(groups), 'alts': [], 'differs': []}
        for k in range(1 + len(modes)):
            o = (opts if opts and not k else None) or self.options(idx)
            r, got, cev = self.run_verify(o, groups, pre, words if not k else None, spawn and not k, fits)
            if r.ok and not o['state']:
                got = copy.deepcopy(lib) if want['ok'] else copy.deepcopy(pre)    # not told
                ob = self.observe(None, got)
            else:
                ob = self.outcome(r, got, o, pre)
            if spawn and not r.ok:
                # a process of its own does not tell why in detail
                ob['exc'] = want['exc'] or ['RKSVException']
                ob['rec'] = want['rec']
            cev['has'], cev['fits'] = (True, want['ok']) if fits is None else (True, fits)
            if ob['ok'] != want['ok']:
                ev['differs'].append('verdict')
            elif ob['ok'] and compact(ob['st']) != compact(want['st']):
                ev['differs'].append('state')
            elif not ob['ok'] and ob['exc'][:1] != want['exc'][:1] and o['par'] in (ABSENT, 1) \
                    and o['chunk'] == 0:
                ev['differs'].append('reason')
            ob['mode'] = ' '.join(cev['argv'])
            obs.append(ob)
            if not k and r.ok and got is not None:
                after = got
        if after is not None:
            self.state = after
        ev['obs'], ev['alts'] = obs[0], obs[1:]
        if plan is not None:
            ev['plan'] = plan
        self.evs.append(ev)
        return ev['obs']['ok']

    # -- verification_state.py

    def edit(self, cmd, argv, sure=True, variables=None, spawn=False, **kw):
        """-> (run, event)"""
        before, data = file_facts(STATE), data_of(STATE)
        if cmd == 'create' and self.rng.random() < .3:
            # the other tool has a way to begin as well
            r = (cli.spawn if spawn else cli.run)('verify.py', ['state'], variables=variables)
            if r.ok:
                put(STATE, r.out)
        else:
            r = (cli.spawn if spawn else cli.run)('verification_state.py', [STATE] + argv, variables=variables)
        c = {'cmd': cmd, 'n': 0, 'm': 0, 'text': '', 'arg': 'good', 'ids': [], 'src': dict(NOFILE), 'reg': dict(BLANK)}
        c.update(kw)
        after = file_facts(STATE)
        ev = {'t': 'edit', 'argv': [str(a) for a in argv], 'c': c, 'sure': sure, 'ok': r.ok, 'before': before, 'after': after,
              'same': data_of(STATE) == data, 'shown': True}
        if cmd == 'show' and r.ok:
            text, at = r.text(), 0
            for g in before['regs']:
                for k in ('start', 'last', 'tc', 'need'):
                    v = str(g[k]) if k in ('tc', 'need') else str(json.loads(g[k]))
                    at = text.find(v, at)
                    if at < 0:
                        ev['shown'] = False
                        break
                    at += len(v)
                if at < 0:
                    break
        self.cli.append(ev)
        return r, ev

    def save(self):
        put(STATE, json.dumps(self.state.writeStateToJson(), indent=self.rng.choice([None, 2])))

    def restore(self, r):
        """-> error or None"""
        if not r.ok:
            return r.error or Unknown('exit status %r' % (r.rc,))
        with open(STATE) as f:
            v, e = hist.call(lambda: vs.ClusterState.readStateFromJson(utils.readJsonStream(f)))
        if v is not None:
            self.state = v
        return e

    def follow(self, kind, r, lib, err, **kw):
        """Records what was done, and whether the library did the same."""
        want = self.observe(err, lib)
        e = self.restore(r)
        ev = {'kind': kind, 'obs': self.observe(e, self.state), 'differs': []}
        ev.update(kw)
        o = ev['obs']
        if o['ok'] != want['ok']:
            ev['differs'].append('verdict')
        elif o['ok'] and compact(o['st']) != compact(want['st']):
            ev['differs'].append('state')
        self.evs.append(ev)

    def reload(self):
        self.save()
        r, _e = self.edit('show', ['show'])
        self.follow('reload', r, self.state, None)

    def grow(self):
        self.save()
        lib = copy.deepcopy(self.state)
        _v, e = hist.call(lib.addNewCashRegister)
        r, _e = self.edit('add', ['addCashRegister'])
        self.follow('grow', r, lib, e)

    def key_args(self):
        if self.env.aeskey is None:
            return []
        put('key.b64', w.b64(self.env.aeskey) + self.rng.choice(['', '\n', '\r\n']))
        return ['key.b64']

    def update(self, groups, idx):
        self.save()
        put('dep.json', (b'\xef\xbb\xbf' if self.rng.random() < .2 else b'')
            + json.dumps(hist.dep_json(groups)).encode())
        lib = copy.deepcopy(self.state)

        def go():
            for _c, _ch, recs in groups:
                lib.cashRegisters[idx].updateFromDEPGroup(
                    [depparser.shrinkDEPReceipt(x) for x in recs], self.env.aeskey)
        _v, e = hist.call(go)
        reg = reg_json(lib.cashRegisters[idx].__dict__)
        r, _e = self.edit('update', ['updateCashRegister', idx, 'dep.json'] + self.key_args(), n=idx, reg=reg,
                          arg='good' if e is None else 'bad',
                          variables={'RKSV_DEP_CHUNKSIZE': str(self.rng.choice([0, 1, 2, 3, 100000]))})
        self.follow('update', r, lib, e, idx=idx, groups=self.groups_facts(groups))

    def arb(self, jws, start):
        def go():
            rec, prefix = receipt.Receipt.fromJWSString(jws)
            if start:
                return vs.ClusterState.fromArbitraryStartReceipt(rec)
            return vs.ClusterState.fromArbitraryReceipt(rec, prefix, self.env.aeskey)
        lib, e = hist.call(go)
        rep, text = self.as_text(jws)
        reg = reg_json(lib.cashRegisters[0].__dict__) if e is None else dict(BLANK)
        with served(text if rep == 'url' else None) as url:
            argv = [rep, url if rep == 'url' else text]
            if start:
                r, _e = self.edit('fromStart', ['fromArbitraryStartReceipt'] + argv, reg=reg,
                                  arg='good' if e is None else 'bad')
            else:
                r, _e = self.edit('fromReceipt', ['fromArbitraryReceipt'] + argv + self.key_args(), reg=reg,
                                  arg='good' if e is None else 'bad')
        self.follow('arb', r, lib if e is None else self.state, e, x=self.intern(jws), start=start)

    def as_text(self, jws):
        """The receipt in one of the formats that can hold it."""
        f = w.fields_of(jws)
        ok = ['jws', 'jws']
        plain = f['reg'] + f['id']
        if '_' not in plain:
            ok += ['qr', 'url', 'ocr']
        if ';' not in plain and all(x == x.strip() and '\n' not in x and '\r' not in x for x in (f['reg'], f['id'])):
            ok.append('csv')
        rep = self.rng.choice(ok)
        try:
            return rep, jws if rep == 'jws' else single.texts(jws)['qr' if rep == 'url' else rep]
        except Exception:
            return 'jws', jws

    def set_ids(self, ids):
        self.save()
        lib = copy.deepcopy(self.state)
        lib.usedReceiptIds = vs.UsedReceiptIdsUnique()
        for i in ids:
            lib.usedReceiptIds.add(i)
        if any(i != i.strip() or '\n' in i or '\r' in i for i in ids):
            self.state = lib
            self.evs.append({'kind': 'ids', 'obs': self.observe(None, self.state), 'differs': []})
            return
        put('ids.txt', id_lines(self.rng, ids))
        r, _e = self.edit('readIds', ['readUsedReceiptIds', 'ids.txt'], ids=sorted(set(ids)))
        self.follow('ids', r, lib, None)

    def configure_next(self, value, new=False):
        if new:
            self.grow()
        lib = copy.deepcopy(self.state)
        lib.cashRegisters[-1].chainNextTo = value
        self.save()
        n = len(self.state.cashRegisters) - 1
        r, _e = self.edit('setNext', ['setChainNextTo', n, value], n=n, text=json.dumps(value))
        self.follow('conf', r, lib, None, next=value, new=False)

    def dump(self):
        out = hist.Case.dump(self)
        out['cli'] = {'id': self.id, 'type': 'U', 'evs': self.cli}
        return out


class Unknown(Exception):
    pass


def id_lines(rng, ids):
    end = rng.choice(['\n', '\n', '\r\n'])
    ls = [rng.choice(['', '', ' ', '\t']) + i + rng.choice(['', '', '  ']) for i in ids]
    return (end.join(ls) + (end if ls and (rng.random() < .7 or not ls[-1]) else '')).encode('utf-8')


class served(object):
    """With this the tools get the text from a URL."""

    def __init__(self, text):
        self.text = text

    def __enter__(self):
        self.old = url_receipt_helpers.requests
        if self.text is None:
            return ''
        texts = [self.text] if isinstance(self.text, str) else self.text
        urls = ['http://rksv.example/%d/r#%s' % (i, single.hash_of(t)) for i, t in enumerate(texts)]

        class Req(object):
            @staticmethod
            def get(u, *a, **k):
                return single.Reply(texts[urls.index(u)])
        url_receipt_helpers.requests = Req()
        return urls[0] if isinstance(self.text, str) else urls

    def __exit__(self, *a):
        url_receipt_helpers.requests = self.old


# --------------------------------------------------------------------------
# parts of the check; each makes a list of cases in a scratch directory

def everything(jobs):
    out = []
    for name, args in jobs:
        with cli.scratch():
            out.append(globals()[name](*args))
    return [x for o in out for x in (o if isinstance(o, list) else [o])]


def derived(cid, plan, conf, seed):
    return derive.derived(cid, plan, conf, seed, CliCase)


def arbitrary(cid, plan, conf, seed):
    return derive.arbitrary(cid, plan, conf, seed, CliCase)


def history(cid, seed, focus, opts):
    return rich.make(cid, seed, focus, dict(opts, case=CliCase))


def cluster(cid, plan, seed, spawn=False):
    """Runs of verify.py as planned by GenVerifyCli."""
    rng = random.Random('%s/%s' % (seed, cid))
    sp = plans.Spec(rng, True, True, 'store')
    env = hist.Env(sp.store, sp.base.aes if rng.random() < .8 else None, sp.keys)
    regs = max([r['d']['r'] for r in plan['runs']])
    used, deps, prev = set(), {}, None
    width = rng.choice([5, 8, 16])
    for k in range(1, regs + 1):
        reg = scen.Reg('REG%d' % 1, sp.base, width, prev_start=prev)
        if prev:
            reg.ts = plans._ts_of(prev)
        for p in range(1, max([r['d']['p'] for r in plan['runs']]) + 1):
            n0 = len(reg.jws)
            for i in range(rng.choice([2, 3])):     # or else the next DEP could start a register
                plans.add_step(rng, reg, sp, dict(plans.GOOD, amt='Z' if n0 + i == 0 else rng.choice('ZPN')), used)
            deps[k, p] = reg.jws[n0:]
        prev = reg.jws[0]
    case = CliCase(cid, env)
    for r in plan['runs']:
        recs = list(deps[r['d']['r'], r['d']['p']])
        if rng.random() < .3:
            case.misused([(None, [], recs)])
        if not r['d']['good']:
            i = rng.randrange(len(recs))
            recs[i] = scen.tamper_sig(rng, recs[i])
        t = r['target']
        o = dict(r['o'])
        # without a state the history of this case does not go on
        if not o['state'] and case.state.cashRegisters:
            keep, case.state = case.state, vs.ClusterState()
            one = CliCase(cid + 's', env)
            one.verify([(None, [], recs)], t, opts=o, words=r['words'], fits=r['ok'], spawn=spawn)
            case.state = keep
            case.cli += one.cli
            case.evs_alone = one
            continue
        case.verify([(None, [], recs)], t, opts=o, words=r['words'], fits=r['ok'], spawn=spawn)
        if not o['state']:
            break
    out = [case.dump()]
    if hasattr(case, 'evs_alone'):
        d = case.evs_alone.dump()
        d['cli'] = {'id': d['id'], 'type': 'U', 'evs': []}
        out.append(d)
    return out


# --------------------------------------------------------------------------

SPOILT = ['', '{', '[]', 'null', '{}', '{"cashRegisters": []}', '{"cashRegisters": {}, "usedReceiptIds": {}}',
          '{"cashRegisters": [{}], "usedReceiptIds": {"backendType": "USED_RECEIPT_IDS_UNIQUE", "backendData": []}}',
          '{"cashRegisters": [], "usedReceiptIds": {"backendType": "X", "backendData": []}}',
          '{"cashRegisters": [], "usedReceiptIds": {"backendType": "USED_RECEIPT_IDS_UNIQUE", "backendData": {}}}',
          '{"cashRegisters": [], "usedReceiptIds": []}', 'x']


class Editing(CliCase):
    def __init__(self, cid, rng):
        sp = plans.Spec(rng, rng.random() < .5, True, 'store')
        CliCase.__init__(self, cid, hist.Env(sp.store, sp.base.aes, sp.keys))
        self.rng, self.sp = rng, sp
        self.reg = scen.Reg('REG', sp.base, 8)
        self.used = set()
        for k in range(6):
            plans.add_step(rng, self.reg, sp, dict(plans.GOOD, amt='Z' if k == 0 else rng.choice('ZPN'),
                                                   kind='STD' if k < 2 else rng.choice(['STD', 'STD', 'DUM', 'REV']),
                                                   sig='ok' if k < 2 else rng.choice(['ok', 'ok', 'failed'])), self.used)

    def text(self):
        rng = self.rng
        return rng.choice([rng.choice(self.reg.jws), 'x', '', 'none', 'NONE', u'\u20ac \xdf', '"', '\\', '0', 'null', ' None', '{}'])

    def begin(self, f, rng):
        if f['kind'] == 'bad':
            put(STATE, rng.choice(SPOILT))
        elif f['kind'] == 'ok':
            put(STATE, (b'\xef\xbb\xbf' if rng.random() < .3 else b'')
                + json.dumps(file_json(f), indent=rng.choice([None, 2])).encode())

    def do(self, x, variables=None, spawn=False):
        rng = self.rng
        cmd, n, bad = x['cmd'], x['n'], x['arg'] == 'bad'
        kw = {'variables': variables, 'spawn': spawn}
        if n < 0 and cmd != 'reset':
            kw['sure'] = False
        if cmd in ('create', 'show'):
            return self.edit(cmd, [cmd], **kw)
        if cmd == 'add':
            return self.edit(cmd, ['addCashRegister'], **kw)
        if cmd in ('reset', 'delete', 'toggle'):
            name = {'reset': 'resetCashRegister', 'delete': 'deleteCashRegister', 'toggle': 'toggleNeedRestoreReceipt'}[cmd]
            return self.edit(cmd, [name, n], n=n, **kw)
        if cmd in ('setLast', 'setNext', 'setStart'):
            name = {'setLast': 'setLastReceiptJWS', 'setNext': 'setChainNextTo', 'setStart': 'setStartReceiptJWS'}[cmd]
            t = x['text'] if x['text'] in ('null', '""') else json.dumps(self.text() or 'y')
            v = json.loads(t)
            return self.edit(cmd, [name, n, 'None' if v is None else v], n=n, text=t, **kw)
        if cmd == 'setCounter':
            v = rng.choice(['x', '', '1.5', '0x1', '1,00', 'None', '--1']) if bad else \
                str(rng.choice([0, 5, -5, 12345, 2 ** 31, 2 ** 63, -2 ** 70, rng.getrandbits(40)]))
            return self.edit(cmd, ['setLastTurnoverCounter', n, v], n=n, text=v, arg=x['arg'], **kw)
        if cmd == 'readIds':
            ids = [rng.choice(['a', 'id 1', u'\xe4\u20ac', '1', '01', 'None', 'x;y', '']) if rng.random() < .5 else
                   str(rng.randrange(99)) for _ in range(rng.choice([1, 2, 5]))] if x['ids'] else []
            if ids and rng.random() < .06:
                ids = ['line %d' % i for i in range(rng.choice([300, 1000]))] + ids
            put('ids.txt', id_lines(rng, ids))
            arg = 'nofile.txt' if bad else 'ids.txt' if ids or rng.random() < .5 else 'None'
            return self.edit(cmd, ['readUsedReceiptIds', arg], ids=sorted(set(ids)), arg=x['arg'], **kw)
        if cmd == 'copy':
            src, name = x['src'], 'src.json'
            if src['kind'] == 'ok':
                if rng.random() < .5 and file_facts(STATE)['kind'] == 'ok':
                    src, name = file_facts(STATE), STATE
                else:
                    src = dict(src, regs=[dict(r) for r in src['regs']])
                    for r in src['regs']:
                        for k in ('start', 'last', 'next'):
                            if r[k] != 'null' and rng.random() < .7:
                                r[k] = json.dumps(self.text())
                    put(name, json.dumps(file_json(src)))
            else:
                name = 'nofile.json'
                if rng.random() < .5:
                    name = 'src.json'
                    put(name, rng.choice(SPOILT))
            return self.edit(cmd, ['copyCashRegister', n, name, x['m']], n=n, m=x['m'], src=src, **kw)
        if cmd == 'update':
            return self.updating(x, kw)
        if cmd in ('fromReceipt', 'fromStart'):
            return self.starting(x, kw)
        if cmd == 'misuse':
            argv = rng.choice([[], ['create', 'x'], ['show', '0'], ['addCashRegister', '1'], ['resetCashRegister'],
                               ['resetCashRegister', '0', '1'], ['deleteCashRegister'], ['setLastReceiptJWS', '0'],
                               ['setLastTurnoverCounter', '0'], ['setChainNextTo', '0'], ['Create'], ['foo'],
                               ['setStartReceiptJWS', '0'], ['toggleNeedRestoreReceipt'], ['readUsedReceiptIds'],
                               ['copyCashRegister', '0', STATE], ['updateCashRegister', '0'],
                               ['fromArbitraryReceipt', 'jws'], ['fromArbitraryStartReceipt', 'jws'],
                               ['fromArbitraryReceipt', 'pdf', self.reg.jws[0]],
                               ['fromArbitraryStartReceipt', 'JWS', self.reg.jws[0]]])
            return self.edit(cmd, argv, **kw)
        raise ValueError(cmd)

    def updating(self, x, kw):
        rng, n = self.rng, x['n']
        a = rng.randrange(6)
        recs = self.reg.jws[a:rng.randint(a + 1, 6)]
        groups = [(None, [], p) for p in plans.split(rng, recs, 2)]
        key = self.env.aeskey if rng.random() < .7 else None
        text = json.dumps(hist.dep_json(groups))
        dep, bad = 'dep.json', x['arg'] == 'bad'
        how = rng.choice(['file', 'json', 'receipt', 'receipt', 'receipt', 'root'] + (['key'] if key else [])) if bad else ''
        if how == 'receipt':
            a = 0
            recs = self.reg.jws[:rng.randint(3, 6)]
            groups = [(None, [], p) for p in plans.split(rng, recs, 2)]
        kw = dict(kw, variables=dict(kw['variables'] or {},
                                     RKSV_DEP_CHUNKSIZE=str(rng.choice([1, 1, 2, 3, 0, 100000]))))
        if how == 'file':
            dep = 'nofile.json'
        elif how == 'json':
            text = text[:-rng.randint(1, len(text) // 2)]
        elif how == 'receipt':
            broken = rng.choice([recs[-1][1:], 'x', '', recs[-1] + '.x', recs[-1].rsplit('.', 1)[0]])
            text = json.dumps(hist.dep_json(groups[:-1] + [(None, [], groups[-1][2][:-1] + [broken])]))
        elif how == 'root':
            text = rng.choice(['[]', '{}', '{"Belege-Gruppe": 1}'])
        put('dep.json', text)
        argv = ['updateCashRegister', n, dep]
        if key:
            put('key.b64', w.b64(key) if how != 'key' else rng.choice(['x', w.b64(key)[:-3]]))
            argv.append('key.b64')
        reg = dict(BLANK)
        v, e = hist.call(lambda: vs.ClusterState.readStateFromJson(json.loads(data_of(STATE).decode('utf-8-sig'))))
        if e is None and 0 <= n < len(v.cashRegisters) and not bad:
            last = v.cashRegisters[n].lastReceiptJWS
            if last and hist.call(lambda: receipt.Receipt.fromJWSString(last))[1] is not None:
                kw['sure'] = False      # what a chunk of one receipt follows may matter

            def go():
                for _c, _ch, rs in groups:
                    v.cashRegisters[n].updateFromDEPGroup([depparser.shrinkDEPReceipt(r) for r in rs], key)
                return reg_json(v.cashRegisters[n].__dict__)
            reg, e = hist.call(go)
            if e is not None:
                reg, bad = dict(BLANK), True
        return self.edit('update', argv, n=n, reg=reg, arg='bad' if bad else 'good', **kw)

    def starting(self, x, kw):
        rng = self.rng
        start, bad = x['cmd'] == 'fromStart', x['arg'] == 'bad'
        jws = self.reg.jws[0 if start else rng.randrange(6)]
        rep, text = self.as_text(jws)
        key = self.env.aeskey if rng.random() < .7 and not start else None

        def go():
            rec, prefix = receipt.Receipt.fromJWSString(jws)
            st = vs.ClusterState.fromArbitraryStartReceipt(rec) if start else \
                vs.ClusterState.fromArbitraryReceipt(rec, prefix, key)
            return reg_json(st.cashRegisters[0].__dict__)
        reg, e = hist.call(go)
        argv = ['fromArbitraryStartReceipt' if start else 'fromArbitraryReceipt', rep]
        if kw.get('spawn') and rep == 'url':
            argv[1], text, rep = 'jws', jws, 'jws'
        if bad:
            text = rng.choice(['', 'x', text[1:], text[:len(text) // 2], text.replace('R1', 'R9', 1)
                               if 'R1' in text else text[3:]])
            bad = hist.call(lambda: getattr(receipt.Receipt, READ['qr' if rep == 'url' else rep])(text))[1] is not None
            if not bad:
                rep, text = 'jws', 'x'
                argv[1], bad = rep, True
        if key:
            put('key.b64', w.b64(key) + rng.choice(['', '\n']))
        with served(text if rep == 'url' else None) as url:
            return self.edit(x['cmd'], argv + [url if rep == 'url' else rng.choice(['', '', ' ']) + text]
                             + (['key.b64'] if key else []), reg=reg if e is None else dict(BLANK),
                             arg='bad' if bad or e is not None else 'good', **kw)

    def cli_case(self, ty='U'):
        return {'id': self.id, 'evs': [], 'recs': [], 'cli': {'id': self.id, 'type': ty, 'evs': self.cli}}


def editing(cid, plan, seed, spawn=None):
    rng = random.Random('%s/%s' % (seed, cid))
    c = Editing(cid, rng)
    c.begin(plan['init'], rng)
    ty = rng.choice('UN') if spawn else 'U'
    var = {'RKSV_STATE_RECEIPT_IDS': {v: k for k, v in TYPES.items()}[ty]} if ty == 'N' else None
    for x in plan['cmds']:
        if ty == 'N' and x['cmd'] == 'readIds':
            x = dict(x, ids=[])
        c.do(x, var, bool(spawn))
    return c.cli_case(ty)


def editing_long(cid, seed, n):
    rng = random.Random('%s/%s' % (seed, cid))
    c = Editing(cid, rng)
    if rng.random() < .8:
        c.edit('create', ['create'])
    for _ in range(n):
        cmd = rng.choice(['add'] * 4 + ['setStart'] * 4 + ['show', 'reset', 'delete', 'setLast', 'setCounter', 'setNext',
                                                          'toggle', 'readIds', 'copy', 'copy', 'update', 'update', 'misuse'])
        if rng.random() < .04:
            cmd = rng.choice(['create', 'fromReceipt', 'fromStart'])
        now = file_facts(STATE)
        k = len(now['regs'])
        x = {'cmd': cmd, 'n': rng.choice([rng.randrange(k + 1), rng.randrange(max(k, 1)), rng.randrange(max(k, 1)), max(k - 1, 0), -1]), 'm': rng.randrange(k + 1), 'text': rng.choice(['x', 'x', 'x', 'null', '""']),
             'arg': 'bad' if rng.random() < .15 else 'good', 'ids': rng.choice([['x'], []]),
             'src': now if rng.random() < .8 else NOFILE}
        if cmd == 'setStart' and rng.random() < .7 and k:
            x.update(n=k - 1, text='x')
        if cmd == 'copy' and (x['n'] < 0 or x['m'] < 0):
            continue
        c.do(x)
    return c.cli_case()


# --------------------------------------------------------------------------

def signed(rng, n):
    sp = plans.Spec(rng, rng.random() < .4, True, 'store')
    reg = scen.Reg(rng.choice(['REG', 'K 1', u'K\xe4\xdfe', 'a-b']), sp.base, 8)
    used, k = set(), 0
    while len(reg.jws) < n:
        k += 1
        i = rng.choice(['%d', 'id-%d', u'\u20ac%d', '%d.0', '%d x']) % k
        f = reg.fields(i, rng.choice(['STD', 'STD', 'DUM', 'REV']), plans.amounts(rng, rng.choice('ZPNC')), reg.ts + 1, reg.reg, sp.base.zda,
                       sp.base.serial, None, None)
        reg.ts += 1
        sig = 'FAIL' if rng.random() < .15 else sp.key(sp.base.zda)
        reg.append(w.jws_of(f, sig), 'STD', [0] * 5, sig == 'FAIL')
    return sp, reg.jws


READ = {'jws': 'fromJWSString', 'qr': 'fromBasicCode', 'ocr': 'fromOCRCode', 'csv': 'fromCSV'}


def damaged(rng, rep, jws, text):
    r = rng.random()
    if r < .3:
        t = single.texts(scen.tamper_sig(rng, jws) if rng.random() < .5 else single.altered(rng, jws))
        return t['qr' if rep == 'url' else rep]
    if r < .4:
        return ''
    if r < .5:
        return rng.choice(['x', '{}', '_', ';;;', '...', text + 'x', u'\xe4', '0', text * 2])
    k = rng.randrange(len(text))
    return (text[:k] + rng.choice(['', 'A', '_', ';', '.', '-', ' x']) + text[k + 1:]).strip()


def reading(cid, seed, spawn=False):
    """verify_receipt.py on several lines, and receipt.py."""
    rng = random.Random('%s/%s' % (seed, cid))
    n = rng.choice([1, 2, 5, 12])
    sp, jwss = signed(rng, n)
    env = hist.Env(sp.store, None, sp.keys)
    ks = env.keystore()
    rv = verify_receipt.ReceiptVerifier.fromKeyStore(ks)
    rep = rng.choice(['jws', 'qr', 'ocr', 'csv', 'url'])
    if spawn and rep == 'url':
        rep = 'qr'
    rate = rng.choice([0, .2, .6])
    form = 'qr' if rep == 'url' else rep
    lines = [single.texts(j)[form] for j in jwss]
    for i in range(n):
        if rng.random() < rate:
            lines[i] = damaged(rng, rep, jwss[i], lines[i])
    lines = [re.sub(r'[\r\n]', '', l).strip() for l in lines]
    want = []
    for l in lines:
        _v, e = hist.call(lambda: getattr(rv, single.VERIFY[form])(l))
        want.append(e is None)
    put('keys.json', json.dumps(env.container()))
    evs = []
    with served(lines if rep == 'url' else None) as urls:
        given = urls if rep == 'url' else lines
        end = rng.choice(['\n', '\n', '\r\n', ' \n'])
        stdin = (end.join(given) + (end if rng.random() < .7 or not given[-1] else '')).encode('utf-8')
        run = cli.spawn if spawn else cli.run
        if n == 1 and rng.random() < .7:
            r = run('verify_receipt.py', [rep, 'keys.json', given[0]])
        else:
            r = run('verify_receipt.py', [rep, 'keys.json'], stdin)
        out = r.text().splitlines()
        nums = [int(x) for x in re.findall('[0-9]+', out[-1])] if out else []
        reps = [re.match(r'\D*([0-9]+):', l) for l in out[:-1]]
        evs.append({'t': 'lines', 'rep': [int(m.group(1)) + 1 for m in reps if m], 'want': want, 'ok': r.ok,
                    'good': nums[0] if len(nums) == 2 else -1, 'total': nums[1] if len(nums) == 2 else -1,
                    'format': rep, 'out': r.text()[-600:], 'exc': r.exc})
        # conversion up to the first unusable line
        to = rng.choice(['jws', 'qr', 'ocr', 'csv', 'url'])
        outs, bad = [], False
        for l in lines:
            def conv():
                rec, p = getattr(receipt.Receipt, READ[form])(l)
                return rec.toJWSString(p)
            j, e = hist.call(conv)
            if e is not None:
                bad = True
                break
            t = single.texts(j)
            outs.append(single.hash_of(t['qr']) if to == 'url' else t[to])
        r = run('receipt.py', [rep, to], stdin)
        evs.append({'t': 'convert', 'want': [codes(x) for x in outs],
                    'got': [codes(x) for x in r.text().split('\n')[:-1]], 'ok': r.ok, 'bad': bad,
                    'formats': [rep, to], 'exc': r.exc})
    return {'id': cid, 'evs': [], 'recs': [], 'cli': {'id': cid, 'type': 'U', 'evs': evs}}
