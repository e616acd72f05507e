"""
DEP documents as texts, well-formed and flawed ones, and recorded reads of
them: cases for the specification ReaderJudge.
"""
import base64
import copy
import io
import json
import random

from . import hist
from . import scen
from . import world as w

from librksv import depparser, verification_state, verify

READERS = ['dict', 'full', 'file', 'textfile', 'stream', 'certless']
NAMES = {'S': 'Signaturzertifikat', 'Z': 'Zertifizierungsstellen', 'R': 'Belege-kompakt'}
ORDERS = ['SZR', 'ZSR', 'SRZ', 'ZRS', 'RSZ', 'RZS']

# the certificates of the specification's documents
CERTS = {'A': w.cert('A', 0x7a0123456789abcdef0123456789abcdef0000a1), 'B': w.cert('B', 0xb2, 'C'),
         'C': w.cert('C', 0x1c0123456789abcdef01c3), 'D': w.cert('D', 0xd4, 'B')}
# others with the same serials: the key of A as well, another key
CERTS['E'] = w.cert('A', CERTS['A'].serial, tag='2')
CERTS['F'] = w.cert('F', CERTS['C'].serial)
_LINES = {c.line: n for n, c in CERTS.items()}
CHOICES = {'none': ('', []), 'bare': ('A', []), 'chain': ('B', ['C']),
           'long': ('A', ['B', 'C']), 'rootless': ('', ['C'])}


def cert_name(c):
    if c is None:
        return ''
    from cryptography.hazmat.primitives import serialization
    line = w.b64(c.public_bytes(serialization.Encoding.DER))
    return _LINES.get(line, '?')


class Raw(object):
    """A JSON value written as this very text."""

    def __init__(self, text):
        self.text = text


def dumps(v, rng=None):
    """JSON text; objects are lists of pairs in a ('obj', [...]) tuple."""
    sp = (lambda: rng.choice(['', '', ' ', '\n', '\t ', '\r\n'])) if rng else (lambda: '')
    if isinstance(v, Raw):
        return v.text
    if isinstance(v, tuple):
        return '{' + sp() + (sp() + ',' + sp()).join(
            json.dumps(k) + sp() + ':' + sp() + dumps(x, rng) for k, x in v[1]) + sp() + '}'
    if isinstance(v, list):
        return '[' + sp() + (sp() + ',' + sp()).join(dumps(x, rng) for x in v) + sp() + ']'
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=not rng or rng.random() < .5)
    return json.dumps(v)


def line(name, rng=None):
    return CERTS[name].line if name else ''


def group(order, cert, chain, recs):
    vals = {'S': line(cert), 'Z': [line(c) for c in chain], 'R': list(recs)}
    return ('obj', [(NAMES[e], vals[e]) for e in order])


# other members have any names: those of the elements themselves further
# inside, ones that look like paths
ELEMS = ['Belege-Gruppe', 'Belege-kompakt', 'Signaturzertifikat', 'Zertifizierungsstellen']
PATHS = ['', 'item', '.', 'belege-gruppe', 'signaturzertifikat', 'Belege-Gruppe.item', '.Belege-Gruppe',
         'Belege-Gruppe.', 'Signaturzertifikat.x', 'Signaturzertifikat.', 'Zertifizierungsstellen.item',
         'Belege-kompakt.item'] + ['Belege-Gruppe.item.' + e for e in ELEMS[1:]] + [
             'Belege-Gruppe.item.Zertifizierungsstellen.item', 'Belege-Gruppe.item.Belege-kompakt.item']


def extra(rng, depth=3):
    """Some other JSON value a document may carry besides."""
    r = rng.random()
    if depth == 0 or r < .4:
        return rng.choice([1, -2.5, None, True, '', 'x', 'Belege-Gruppe', 'R1-AT0'])
    if r < .6:
        return [extra(rng, depth - 1) for _ in range(rng.randint(0, 2))]
    return ('obj', [(k, extra(rng, depth - 1))
                    for k in rng.sample(ELEMS + PATHS + ['x', 'y'], rng.randint(0, 2))])


def sprinkle(rng, pairs, inside=False):
    """inside: in a group, where only the group list's name is free"""
    free = PATHS + ['extra0', 'extra1'] + (ELEMS[:1] if inside else ELEMS[1:])
    for k in rng.sample(free, rng.choice([0, 0, 1, 2])):
        pairs.insert(rng.randint(0, len(pairs)), (k, extra(rng)))
    if rng.random() < .2 and '' not in [k for k, _v in pairs]:
        pairs.insert(rng.randint(0, len(pairs)), ('', unnamed(rng)))


def unnamed(rng):
    """Values whose members have empty names, several levels of them."""
    v = rng.choice([[], ('obj', []), [('obj', [])], [[]], 1, extra(rng, 1)])
    for _ in range(rng.randint(1, 3)):
        v = ('obj', [('', v)] + ([('x', extra(rng, 1))] if rng.random() < .3 else []))
    return v


# --------------------------------------------------------------------------
# reading

def parser_for(kind, data, parts=1):
    """data: the document as bytes"""
    if kind == 'dict':
        return depparser.DictDEPParser(json.loads(data.decode('utf-8-sig')), parts)
    text = lambda: io.TextIOWrapper(io.BytesIO(data), encoding='utf-8', newline='')
    if kind == 'full':
        return depparser.FullFileDEPParser(text(), parts)
    if kind == 'file':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(data))
    if kind == 'textfile':
        return depparser.IncrementalDEPParser.fromFd(text())
    if kind == 'stream':
        return depparser.IncrementalDEPParser.fromFd(hist.Unseekable(data))
    if kind == 'certless':
        return depparser.IncrementalDEPParser.fromFd(io.BytesIO(data), False)
    raise ValueError(kind)


def read(kind, data, k, parts=1, ids=None):
    chunks = []

    def go():
        for chunk in parser_for(kind, data, parts).parse(k):
            chunks.append([{'recs': [ids.get(bytes(r), 'unknown') if ids is not None else 'x'
                                     for r in recs],
                            'cert': cert_name(c), 'chain': [cert_name(x) for x in cs]}
                           for recs, c, cs in chunk])
    _v, err = hist.call(go)
    return {'t': 'read', 'kind': kind, 'k': k, 'parts': parts, 'ok': err is None,
            'exc': hist.exc_names(err) if err else [], 'chunks': chunks}


def late(order):
    return order not in ('SZR', 'ZSR')


def plain_reads(data, ids, ks, parts, rng, kinds=READERS, again=False):
    evs = []
    for kind in kinds:
        if kind == 'stream' and data.startswith(b'\xef\xbb\xbf'):
            continue
        for k in ks:
            evs.append(read(kind, data, k, 1, ids))
        if kind in ('dict', 'full'):
            for n in parts:
                evs.append(read(kind, data, 0, n, ids))
    return evs


def reread(kind, data, ks, ids):
    """The same parser object used several times."""
    p = parser_for(kind, data)
    evs = []
    for k in ks:
        chunks = []

        def go():
            for chunk in p.parse(k):
                chunks.append([{'recs': [ids.get(bytes(r), 'unknown') for r in recs],
                                'cert': cert_name(c), 'chain': [cert_name(x) for x in cs]}
                               for recs, c, cs in chunk])
        _v, err = hist.call(go)
        evs.append({'t': 'read', 'kind': kind, 'k': k, 'parts': 1, 'ok': err is None,
                    'exc': hist.exc_names(err) if err else [], 'chunks': chunks})
    return evs


def enumerated(cid, plan, seed, ks):
    """A document of DepReader, read in every way."""
    rng = random.Random('%s/%s' % (seed, cid))
    doc, gs, ids = [], [], {}
    for g, sh in enumerate(plan):
        cert, chain = CHOICES[sh['c']]
        names = [(g + 1) * 10 + i + 1 for i in range(sh['n'])]
        texts = [rng.choice(['r%d', 'r\u00e9c-%d', '%d.\u20ac', 'a\\"b/%d']) % n for n in names]
        ids.update((t.encode('utf-8'), n) for t, n in zip(texts, names))
        gs.append(group(sh['o'], cert, chain, texts))
        doc.append({'cert': cert, 'chain': chain, 'recs': names, 'late': late(sh['o'])})
    data = dumps(('obj', [('Belege-Gruppe', gs)])).encode('utf-8')
    evs = plain_reads(data, ids, ks, [2, 3, 4], rng)
    return {'id': cid, 'doc': doc, 'flaws': [], 'evs': evs}


def randomised(cid, seed, big=False):
    """A larger document with anything that is allowed in it."""
    rng = random.Random('%s/%s' % (seed, cid))
    doc, gs, ids = [], [], {}
    n = 0
    # more than any buffer holds
    long = ['y' * rng.choice([9000, 70000])] * 2 if rng.random() < .06 else []
    for _g in range(rng.randint(1, rng.choice([2, 5, 12])) if not long else 4):
        cert, chain = CHOICES[rng.choice(sorted(CHOICES))]
        names, texts = [], []
        for _r in range(rng.choice([0, 1, 1, 2, 3, rng.randint(0, 40 if big else 12)])):
            n += 1
            # equal receipts must be told apart too: they keep their places
            t = rng.choice(texts) if texts and rng.random() < .05 else \
                'r%d%s' % (n, rng.choice(['', '', '\u00fc', '\u4e2d', '\U0001f600', '\n', 'x' * 200] + long))
            ids.setdefault(t.encode('utf-8'), n)
            names.append(ids[t.encode('utf-8')])
            texts.append(t)
        order = rng.choice(ORDERS)
        g = group(order, cert, chain, texts)
        sprinkle(rng, g[1], True)
        gs.append(g)
        doc.append({'cert': cert, 'chain': chain, 'recs': names, 'late': late(order)})
    root = [('Belege-Gruppe', gs)]
    sprinkle(rng, root)
    data = dumps(('obj', root), rng).encode('utf-8')
    if rng.random() < .3:
        data = b'\xef\xbb\xbf' + data
    total = max(n, 1)
    ks = sorted({0, 1, rng.randint(1, total), rng.randint(1, total), total, total + 1,
                 rng.choice([2, 3, 5, 7])})
    parts = sorted({2, 3, rng.randint(2, total + 2), total, total + 1})
    evs = plain_reads(data, ids, ks, [p for p in parts if p > 1], rng)
    kind = rng.choice(['dict', 'full', 'file', 'textfile'])
    evs += reread(kind, data, [rng.choice(ks) for _ in range(3)], ids)
    return {'id': cid, 'doc': doc, 'flaws': [], 'evs': evs}


# --------------------------------------------------------------------------
# flaws

BAD = {'string': [None, 1, True, 2.5, [], ['x'], ('obj', []), ('obj', [('a', 'b')])],
       'list': [None, 1, False, 'x', '', ('obj', []), ('obj', [('item', 'x')])],
       'object': [None, 1, False, 'x', '', [], [1], ['x']]}
BADCERTS = ['x', 'AAAA', '!!!!', ' ', 'MIIB', '\u00e4', '-----BEGIN CERTIFICATE-----']


class Base(object):
    """A valid history distributed to the groups of a document."""

    def __init__(self, rng, shape):
        aes = rng.getrandbits(256).to_bytes(32, 'big')
        self.env = hist.Env([(CERTS[n].keyid, n, CERTS[n]) for n in ('A', 'C')], aes)
        self.groups = []
        reg = scen.Reg('REG%d' % rng.randint(0, 9), None, 8)
        n = 0
        for sh in shape:
            cert, chain = CHOICES[sh['c']]

            signer = cert or 'A'

            class S(object):
                zda = 'AT1'
                serial = CERTS[signer].keyid
            S.aes = aes
            reg.s = S
            recs = []
            for _ in range(sh['n']):
                n += 1
                cents = [0] * 5 if reg.first else [rng.randint(-500, 90000) for _ in range(5)]
                reg.ts += rng.randint(0, 3)
                jws = w.jws_of(reg.fields('id%d' % n, 'STD', cents), signer)
                reg.append(jws, 'STD', cents, False)
                recs.append(jws)
            self.groups.append({'o': sh['o'], 'cert': cert, 'chain': list(chain), 'recs': recs})


def flawed_text(rng, base, flaws):
    """-> bytes, whether the text still is JSON"""
    gs = []
    late_dups = []
    for gi, g in enumerate(base.groups):
        mine = [f for f in flaws if f['g'] == gi + 1]
        if any(f['e'] == 'group' for f in mine):
            gs.append(rng.choice(BAD['object']))
            continue
        vals = {'S': line(g['cert']), 'Z': [line(c) for c in g['chain']], 'R': list(g['recs'])}
        order = list(g['o'])
        dups = []
        for f in mine:
            e = f['e']
            if f['w'] == 'missing':
                order.remove(e)
            elif f['w'] == 'type':
                vals[e] = rng.choice(BAD['string' if e == 'S' else 'list'])
            elif f['w'] == 'cert' and e == 'S':
                vals['S'] = rng.choice(BADCERTS)
            elif f['w'] == 'cert':
                vals['Z'][f['i'] - 1] = rng.choice(BADCERTS + [''])
            elif f['w'] == 'item':
                # put in besides, so that the other receipts still verify
                if e == 'Z':
                    vals['Z'][f['i'] - 1] = rng.choice(BAD['string'])
                else:
                    vals['R'].insert(rng.choice([f['i'] - 1, f['i']]), rng.choice(BAD['string']))
            elif f['w'] == 'dup':
                dups.append(f)
        pairs = [(NAMES[e], vals[e]) for e in order]
        for f in dups:
            e = f['e']
            v = vals[e]
            if rng.random() < .5:
                v = {'S': rng.choice([line('A'), line('B'), '']), 'Z': rng.choice([[], [line('C')]]),
                     'R': rng.choice([[], list(g['recs'])])}[e]
            at = [i for i, (k, _x) in enumerate(pairs) if k == NAMES[e]]
            at = at[0] if at else 0
            pairs.insert(rng.randint(at + 1, len(pairs)) if f['i'] else len(pairs), (NAMES[e], v))
        gs.append(('obj', pairs))
    root = [('Belege-Gruppe', gs)]
    for f in flaws:
        if f['g']:
            continue
        if f['w'] == 'type' and f['e'] == 'root':
            v = rng.choice([[], gs, None, 1, 'x', True])
            return dumps(v).encode('utf-8')
        if f['w'] == 'missing':
            root = rng.choice([[], [('Belege-Gruppen', gs)], [('x', ('obj', root))]])
        elif f['w'] == 'type':
            root = [('Belege-Gruppe', rng.choice(BAD['list']))]
        elif f['w'] == 'empty':
            root = [('Belege-Gruppe', [])]
        elif f['w'] == 'dup':
            root = root + [('Belege-Gruppe', rng.choice([[], gs]))]
        elif f['w'] == 'json':
            text = dumps(('obj', root), rng).encode('utf-8')
            if f['e'] == 'empty':
                return rng.choice([b'', b' ', b'\n\n'])
            if f['e'] == 'cut':
                return text[:rng.randint(1, len(text.rstrip()) - 1)]
            if f['e'] == 'trail':
                return text + rng.choice([b'}', b']', b',', b'x', text, b'{}', b'0'])
            if f['e'] == 'utf8':
                i = text.index(b'.ey' if b'.ey' in text else b'M', rng.randrange(len(text) // 2))
                # inside a string: no byte of a quote, backslash or bracket
                return text[:i] + rng.choice([b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf8']) + text[i:]
            i = rng.choice([i for i, b in enumerate(text) if b in b'{}[],:'])
            return text[:i] + rng.choice([b'', b'$', b'"', b'}', b'[']) .replace(
                text[i:i + 1], b'%') + text[i + 1:]
    if rng.random() < .2 and flaws and flaws[0]['w'] != 'missing':
        sprinkle(rng, root)
    return dumps(('obj', root), rng).encode('utf-8')


def is_json(data):
    try:
        json.loads(data.decode('utf-8-sig'))
        return True
    except ValueError:
        return False


def flawed(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    shape, flaws = plan['shape'], [dict(f) for f in plan['flaws']]
    if rng.random() < .2 and all(CHOICES[sh['c']][0] for sh in shape):
        # far from the start of the document
        more = rng.choice([1, 4, 6, 9])
        shape = [{'c': rng.choice(['bare', 'chain']), 'o': sh['o'], 'n': rng.choice([1, 1, 3])}
                 for sh in [rng.choice(shape) for _ in range(more)]] + shape
        for f in flaws:
            f['g'] += more if f['g'] else 0
    base = Base(rng, shape)
    for f in flaws:
        if f['e'] == 'Z' and f['w'] in ('item', 'cert') and rng.random() < .3 and \
                len([x for x in flaws if x['g'] == f['g']]) == 1:
            # far from the start of the chain
            more = rng.choice([2, 4, 7])
            base.groups[f['g'] - 1]['chain'][:0] = ['C'] * more
            f['i'] += more
    data = flawed_text(rng, base, flaws)
    broken = any(f['w'] == 'json' for f in flaws)
    if broken and is_json(data):
        return {'id': cid, 'doc': [], 'flaws': [], 'evs': []}
    doc = [{'cert': g['cert'], 'chain': g['chain'], 'recs': list(range(len(g['recs']))),
            'late': late(g['o'])} for g in base.groups]
    # a missing element is late as well
    for f in flaws:
        if f['g'] and (f['w'] in ('missing', 'dup') or f['e'] == 'group'):
            doc[f['g'] - 1]['late'] = True
    evs = []
    kinds = [k for k in READERS if not (broken and k == 'dict')]
    for kind in kinds:
        for k in (0, 1, 2):
            evs.append(read(kind, data, k))
    # only a single group may come without certificate
    plain = len(base.groups) == 1 or all(g['cert'] for g in base.groups)
    for kind in kinds:
        if kind == 'certless' or not plain:
            continue
        for k in (0, 1, rng.randint(2, 3)):
            evs.append(verified(kind, data, k, base.env, rng))
    if not broken and plain:
        evs.append(verified('dep', data, 0, base.env, rng))
    seen = {(f['w'], f['g'], f['e']) for f in flaws}
    return {'id': cid, 'doc': doc,
            'flaws': [{'w': a, 'g': b, 'e': c} for a, b, c in sorted(seen)], 'evs': evs}


def verified(kind, data, k, env, rng):
    st = verification_state.ClusterState()
    if rng.random() < .3:
        st.addNewCashRegister()
    pre = json.dumps(st.writeStateToJson(), sort_keys=True)
    ks = env.keystore()
    idx = 0 if st.cashRegisters else None
    if kind == 'dep':
        def go():
            return verify.verifyDEP(json.loads(data.decode('utf-8-sig')), ks, env.aeskey, st, idx)
        kind = 'dict'
    else:
        pool, n = rng.choice([(None, 1), (None, 1), (hist.FakePool(), 2), (hist.FakePool('lifo', True), 3)])

        def go():
            return verify.verifyParsedDEP(parser_for(kind, data, n), ks, env.aeskey, st, idx,
                                          pool, n, k)
    _v, err = hist.call(go)
    post = st.writeStateToJson()
    # a blank register may have been added
    if idx is None and len(post['cashRegisters']) == 1:
        if not any(post['cashRegisters'][0].values()):
            post['cashRegisters'] = []
    return {'t': 'verify', 'kind': kind, 'k': k if kind not in ('dict', 'full') else 0,
            'ok': err is None, 'exc': hist.exc_names(err) if err else [],
            'msg': str(err)[:120] if err else '',
            'same': json.dumps(post, sort_keys=True) == pre}


# --------------------------------------------------------------------------
# saved states

def state_cases(cid, plan, seed):
    """
    plan: [unit, field, how]; a saved state with exactly this deviation, or
    none (how = 'none').
    """
    rng = random.Random('%s/%s' % (seed, cid))
    regs = []
    for i in range(plan['regs']):
        regs.append({'startReceiptJWS': rng.choice([None, 'a.b.c']) if i == plan['regs'] - 1 else 's',
                     'lastReceiptJWS': rng.choice([None, 'x.y.z']),
                     'lastTurnoverCounter': rng.choice([0, -5, 10 ** 30]),
                     'needRestoreReceipt': rng.choice([True, False]),
                     'chainNextTo': rng.choice([None, 'abc='])})
    ids = rng.choice([
        {'backendType': 'USED_RECEIPT_IDS_UNIQUE', 'backendData': rng.choice([[], ['a'], ['a', 'b']])},
        {'backendType': 'USED_RECEIPT_IDS_SORTED_NATURAL',
         'backendData': rng.choice([{'minId': None, 'maxId': None}, {'minId': 'a1', 'maxId': 'a9'}])}])
    if plan['unit'] == 'unique':
        ids = {'backendType': 'USED_RECEIPT_IDS_UNIQUE', 'backendData': ['a', 'b', 'c']}
    if plan['unit'] == 'natural':
        ids = {'backendType': 'USED_RECEIPT_IDS_SORTED_NATURAL', 'backendData': {'minId': 'a', 'maxId': 'b'}}
    st = {'cashRegisters': regs, 'usedReceiptIds': ids}
    how, f = plan['how'], plan['field']
    wrong = {'text': [1, True, 2.5, [], {}], 'int': [None, '1', 1.5, 0.0, -0.0, 3.0, '', [], {}, True, False],
             'bool': [None, 0, 1, 'true', [], {}], 'list': [None, 1, 'x', {}, True],
             'object': [None, 1, 'x', [], True], 'string': [None, 1, True, [], {}, 1.5]}
    out = []

    def emit(doc, flaw):
        def go():
            return verification_state.ClusterState.readStateFromJson(json.loads(json.dumps(doc)))
        _v, err = hist.call(go)
        out.append({'t': 'state', 'flaw': flaw, 'ok': err is None, 'in': json.dumps(doc)[:300],
                    'exc': hist.exc_names(err) if err else []})

    typ = {'startReceiptJWS': 'text', 'lastReceiptJWS': 'text', 'chainNextTo': 'text',
           'lastTurnoverCounter': 'int', 'needRestoreReceipt': 'bool', 'cashRegisters': 'list',
           'usedReceiptIds': 'object', 'register': 'object', 'backendType': 'string',
           'minId': 'text', 'maxId': 'text', 'item': 'string', 'root': 'object'}
    if how == 'none':
        emit(st, 'none')
        return {'id': cid, 'doc': [], 'flaws': [], 'evs': out}
    if plan['unit'] == 'root':
        box = st
    elif plan['unit'] == 'reg':
        box = regs[plan['at']]
    elif plan['unit'] == 'ids':
        box = ids
    else:
        box = ids['backendData']
    if how == 'missing':
        del box[f]
        emit(st, 'missing' if plan['unit'] in ('root', 'reg') else 'backend')
    elif f == 'root':
        for v in wrong['object']:
            emit(v, 'root')
    elif f == 'register':
        for v in wrong['object']:
            regs[plan['at']] = v
            emit(st, 'type')
    elif f == 'item':
        for v in wrong['string']:
            for at in range(3):
                d = copy.deepcopy(st)
                d['usedReceiptIds']['backendData'][at] = v
                emit(d, 'backend')
    elif f == 'backendData':
        kind = 'list' if ids['backendType'].endswith('UNIQUE') else 'object'
        for v in wrong[kind]:
            ids['backendData'] = v
            emit(st, 'backend')
    else:
        vals = list(wrong[typ[f]])
        if f == 'backendType':
            vals += ['', 'USED_RECEIPT_IDS', 'used_receipt_ids_unique']
        for v in vals:
            box[f] = v
            emit(st, 'type' if plan['unit'] in ('root', 'reg') else 'backend')
    return {'id': cid, 'doc': [], 'flaws': [], 'evs': out}
