"""Splitting, merging, exporting and converting DEPs: recorded runs."""
import io
import json
import os
import random

from . import cli
from . import docs
from . import forms
from . import hist
from . import world as w

from librksv import depexport, depparser, key_store, receipt as librec

HEAD = ('Alg+ZDA;Register ID;Receipt ID;Date+Time;Sum A;Sum B;Sum C;Sum D;Sum E;Turnover Counter;'
        'Cert. Serial;Chaining Value;Signature')
CHOICES = dict(docs.CHOICES, short=('A', ['B']), turned=('A', ['C', 'B']),
               own=('A', ['A']), twice=('A', ['B', 'B']), twin=('E', []), twins=('A', ['B', 'F']),
               # that differ only far from one end
               deep=('A', ['B', 'C', 'B', 'C']), deeper=('A', ['B', 'C', 'B', 'F']), deepest=('A', ['F', 'C', 'B', 'C']))


class Doc(object):
    """Groups with real receipts; name: number of a receipt -> texts."""

    def __init__(self):
        self.groups = []      # (order, cert, chain, [number])

    def facts(self):
        return [{'cert': c, 'chain': list(ch), 'recs': list(ns), 'late': docs.late(o)}
                for o, c, ch, ns in self.groups]


class World(object):
    def __init__(self, rng):
        self.rng = rng
        self.jws, self.csv = {}, {}
        self.byjws, self.bycsv = {}, {}

    def new(self, n):
        rng = self.rng
        while True:
            p = forms.Parts(rng)
            if rng.random() < .3:
                p.reg, p.id = forms.random_id(rng), forms.random_id(rng)
            p.reg, p.id = p.reg.replace(';', ','), p.id.replace(';', ',').lstrip()
            p.reg = p.reg.lstrip()
            j = p.text('jws')
            if j not in self.byjws and p.text('csv') not in self.bycsv:
                break
        self.jws[n], self.csv[n] = j, p.text('csv')
        self.byjws[j] = self.bycsv[p.text('csv')] = n
        return n

    def text(self, doc, plain=False):
        rng = self.rng
        gs = []
        for o, c, ch, ns in doc.groups:
            g = docs.group(o, c, ch, [self.jws[n] for n in ns])
            if not plain:
                docs.sprinkle(rng, g[1], True)
            gs.append(g)
        root = [('Belege-Gruppe', gs)]
        if not plain:
            docs.sprinkle(rng, root)
        return docs.dumps(('obj', root), None if plain else rng).encode('utf-8')

    def groups_of(self, dep):
        """A decoded DEP by the names of what is in it."""
        if not isinstance(dep, dict) or 'Belege-Gruppe' not in dep:
            raise ValueError('root')
        out = []
        for g in dep['Belege-Gruppe']:
            if sorted(g) != sorted(docs.NAMES.values()):
                raise ValueError('group')
            out.append({'cert': self.cert(g['Signaturzertifikat']),
                        'chain': [self.cert(x) for x in g['Zertifizierungsstellen']],
                        'recs': [self.byjws.get(r, -1) for r in g['Belege-kompakt']]})
        return out

    @staticmethod
    def cert(text):
        return docs._LINES.get(text, '?') if text else ''

    def parse(self, data):
        """-> (ok, groups)"""
        try:
            return True, self.groups_of(json.loads(data.decode('ascii')))
        except (ValueError, TypeError, KeyError, AttributeError):
            return False, []


def vary(rng, k):
    return {} if k == 0 and rng.random() < .5 else {'RKSV_DEP_CHUNKSIZE': str(k or 100000)}


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def dumped(out):
    return out.decode('utf-8', 'replace')[-300:]


def split(wd, d, doc, k, keep=None):
    rng = wd.rng
    pipe = rng.random() < .3
    data = wd.text(doc)
    if not pipe and rng.random() < .2:
        data = b'\xef\xbb\xbf' + data
    target = rng.choice(['out', 'out', os.path.join(os.getcwd(), 'out%d' % rng.randrange(9))])
    if rng.random() < .3 and not os.path.exists(target):
        os.mkdir(target)
    for f in os.listdir(target) if os.path.exists(target) else []:
        os.unlink(os.path.join(target, f))
    r = cli.run('split.py', [k, target], data, not pipe)
    parts, ok = [], r.ok
    names = sorted(os.listdir(target)) if os.path.exists(target) else []
    if ok and set(names) != {'dep-export%d.json' % i for i in range(len(names))}:
        ok = False
    for i in range(len(names)):
        if not ok:
            break
        with open(os.path.join(target, 'dep-export%d.json' % i), 'rb') as f:
            good, gs = wd.parse(f.read())
        ok = ok and good
        parts.append(gs)
    if keep is not None:
        keep += [os.path.join(target, 'dep-export%d.json' % i) for i in range(len(names))]
    return {'t': 'split', 'd': d, 'k': k, 'pipe': pipe, 'ok': ok, 'parts': parts, 'exc': r.exc}


def merge(wd, all_docs, k, joining):
    rng = wd.rng
    names = []
    for i, doc in enumerate(all_docs):
        n = 'in%d.json' % i
        put(n, (b'\xef\xbb\xbf' if rng.random() < .2 else b'') + wd.text(doc))
        names.append(n)
    r = cli.run('merge.py', ([] if joining else ['nomerge']) + names, variables=vary(rng, k))
    good, gs = wd.parse(r.out)
    return {'t': 'merge', 'k': k, 'join': joining, 'ok': r.ok and good, 'out': gs, 'exc': r.exc}


def remerge(wd, d, names, k):
    r = cli.run('merge.py', names, variables=vary(wd.rng, k))
    good, gs = wd.parse(r.out)
    return {'t': 'remerge', 'd': d, 'k': k, 'ok': r.ok and good, 'out': gs, 'exc': r.exc}


def csv_names(wd, text):
    lines = text.split('\n')
    if lines[0] != HEAD or lines[-1] != '':
        return None
    return [wd.bycsv.get(x, -1) for x in lines[1:-1]]


def tocsv(wd, d, doc, k):
    rng = wd.rng
    r = cli.run('convert.py', ['json2csv'], wd.text(doc), rng.random() < .5, vary(rng, k))
    names = csv_names(wd, r.out.decode('utf-8', 'replace')) if r.ok else None
    return {'t': 'list', 'd': d, 'ok': r.ok and names is not None, 'recs': names or [], 'exc': r.exc}, r.out


def fromcsv(wd, d, doc, given):
    rng = wd.rng
    if given is None:
        sp = lambda: rng.choice(['', '', '', ' ', '  ', '\t'])
        nl = rng.choice(['\n', '\n', '\r\n'])
        lines = [HEAD]
        for g in doc.groups:
            for n in g[3]:
                t = wd.csv[n]
                if rng.random() < .3:
                    t = ';'.join(sp() + x + sp() for x in t.split(';'))
                lines.append(t)
        given = (nl.join(lines) + rng.choice(['', nl])).encode('utf-8')
    r = cli.run('convert.py', ['csv2json'], given, rng.random() < .5)
    good, gs = wd.parse(r.out)
    return {'t': 'back', 'd': d, 'ok': r.ok and good, 'out': gs, 'exc': r.exc}


def certs(wd, d, doc, k):
    rng = wd.rng
    r = cli.run('cert_extract.py', ['crt'], wd.text(doc), rng.random() < .5, vary(rng, k))
    found = []
    if os.path.exists('crt'):
        for n in sorted(os.listdir('crt')):
            with open(os.path.join('crt', n)) as f:
                t = f.read()
            os.unlink(os.path.join('crt', n))
            ls = t.strip().split('\n')
            name = '?'
            if ls[0] == '-----BEGIN CERTIFICATE-----' and ls[-1] == '-----END CERTIFICATE-----':
                name = docs._LINES.get(''.join(ls[1:-1]), '?')
            if name != '?' and n != docs.CERTS[name].keyid + '.crt':
                name = '?'
            found.append(name)
    return {'t': 'certs', 'd': d, 'k': k, 'ok': r.ok, 'certs': found, 'exc': r.exc}


# --------------------------------------------------------------------------
# exporters in memory

def objs(wd, g):
    o, c, ch, ns = g
    recs = [librec.Receipt.fromJWSString(wd.jws[n]) for n in ns]
    return recs, docs.CERTS[c].obj if c else None, [docs.CERTS[x].obj for x in ch]


def stream_of(rng, cls, groups):
    """The groups handed over in one of the ways there are."""
    lazy = lambda gs: ((iter(r) if rng.random() < .5 else r, c, ch) for r, c, ch in gs)
    cuts = sorted(rng.randint(0, len(groups)) for _ in range(2))
    a, b, c = groups[:cuts[0]], groups[cuts[0]:cuts[1]], groups[cuts[1]:]
    how = rng.randrange(5)
    if how == 0:
        return cls(lazy(groups))
    if how == 1:
        return cls.fromIterList([lazy(a), list(lazy(b)), lazy(c)])
    s = cls(lazy(a)) if how < 4 else cls()
    for g in (b if how < 4 else a + b):
        if g[1] is None and not g[2] and rng.random() < .5:
            s.append(g[0])
        else:
            s.append(*g)
    s.extend(lazy(c))
    return s


def export(wd, groups, joining):
    rng = wd.rng
    gs = [objs(wd, g) for g in groups]
    how = rng.choice(['list', 'lazy', 'json', 'json', 'csv', 'adapter'])
    xs = {}

    def go():
        if how == 'adapter':
            chunks = []
            rest = [([wd.jws[n].encode() for n in ns], docs.CERTS[c].obj if c else None,
                     [docs.CERTS[x].obj for x in ch]) for _o, c, ch, ns in groups]
            while rest:
                n = rng.randint(1, len(rest))
                chunks.append(rest[:n])
                rest = rest[n:]
            cls = depexport.MergingDEPStream if joining else depexport.DEPStream
            s = cls(depparser.receiptGroupAdapter(iter(chunks)))
        else:
            s = stream_of(rng, depexport.MergingDEPStream if joining else depexport.DEPStream, gs)
        if how == 'csv':
            return csv_names(wd, ''.join(depexport.CSVExporter(s).export()) + '\n')
        e = depexport.DEPExporter(s, list) if how in ('list', 'adapter') else \
            depexport.DEPExporter(s) if how == 'lazy' else \
            depexport.JSONExporter(s, rng.random() < .5)
        for i in range(rng.choice([0, 0, 1, 2])):
            xs['x%d' % i] = rng.choice([1, 'y', None, ['z']])
            e.addExtra('x%d' % i, xs['x%d' % i])
        dep = e.export()
        if how == 'json':
            dep = json.loads(''.join(dep))
        if {k: v for k, v in dep.items() if k != 'Belege-Gruppe'} != xs:
            raise ValueError('extra')
        return wd.groups_of(dep)
    got, e = hist.call(go)
    if how == 'csv':
        return {'t': 'csv', 'd': 1, 'ok': e is None and got is not None, 'recs': got or [],
                'exc': forms.mro(e) if e else []}
    return {'t': 'export', 'join': joining, 'how': how, 'ok': e is None, 'out': got or [],
            'exc': forms.mro(e) if e else []}


# --------------------------------------------------------------------------

def docs_of(wd, shapes):
    out = []
    for d, sh in enumerate(shapes):
        doc = Doc()
        for g, x in enumerate(sh):
            c, ch = CHOICES[x['c']]
            doc.groups.append((wd.rng.choice(docs.ORDERS) if wd.rng.random() < .5 else 'SZR', c, ch,
                               [wd.new((d + 1) * 100000 + (g + 1) * 1000 + i + 1) for i in range(x['n'])]))
        out.append(doc)
    return out


def planned(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    return case(cid, rng, plan['docs'], plan['k'], plan['join'])


def case(cid, rng, shapes, k, joining):
    wd = World(rng)
    ds = docs_of(wd, shapes)
    evs = []
    with cli.scratch():
        if len(ds) > 1:
            evs.append(merge(wd, ds, rng.choice([k, k, 0]), joining))
        i = rng.randrange(len(ds))
        names = []
        evs.append(split(wd, i + 1, ds[i], k, names))
        if evs[-1]['ok'] and len(names) > 1:
            evs.append(remerge(wd, i + 1, names, rng.choice([k, 0, 1])))
        ev, out = tocsv(wd, i + 1, ds[i], k)
        evs.append(ev)
        if any(g[3] for g in ds[i].groups):
            evs.append(fromcsv(wd, i + 1, ds[i], out if ev['ok'] and rng.random() < .5 else None))
        evs.append(certs(wd, i + 1, ds[i], rng.choice([k, 0])))
    if len(ds) == 1:
        evs.append(export(wd, ds[0].groups, joining))
        evs.append(export(wd, ds[0].groups, not joining))
    else:
        ev = export(wd, [g for doc in ds for g in doc.groups], joining)
        if ev['t'] == 'export':
            evs.append(ev)
    return {'id': cid, 'docs': [d.facts() for d in ds], 'evs': evs}


def randomised(cid, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    shapes = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        few = rng.sample(sorted(CHOICES), rng.randint(1, 3))
        shapes.append([{'c': rng.choice(few), 'n': rng.choice([0, 1, 1, 2, 3, rng.randint(1, 9)])}
                       for _g in range(rng.randint(1, 6))])
    return case(cid, rng, shapes, rng.choice([1, 2, 3, 4, 5, 7, 10, 50]), rng.random() < .7)


def streamed(cid, plan, seed):
    """A behaviour of DepStream."""
    rng = random.Random('%s/%s' % (seed, cid))
    cls = depexport.MergingDEPStream if plan['join'] else depexport.DEPStream
    cho = {'none': ('', []), 'bare': ('A', []), 'short': ('A', ['B']), 'twin': ('E', [])}

    def group(n, sh):
        c, ch = cho[sh['c']]
        return (iter([n * 10 + i + 1 for i in range(sh['n'])]), docs.CERTS[c].obj if c else None,
                [docs.CERTS[x].obj for x in ch])
    n = len(plan['shape'])
    gs = [group(i + 1, sh) for i, sh in enumerate(plan['shape'])]
    s = cls(gs if rng.random() < .5 else iter(gs)) if rng.random() < .7 else cls.fromIterList([gs[:1], iter(gs[1:])])
    opened, got = [], []
    stop = {'stop': True, 'cert': '', 'chain': [], 'rec': 0}

    def go():
        for st in plan['script']:
            if st['a'] == 'add':
                k = n + sum(1 for x in plan['script'][:len(got)] if x['a'] == 'add') + 1
                g = group(k, {'c': st['c'], 'n': st['n']})
                if rng.random() < .5:
                    s.append(*g)
                else:
                    s.extend([g])
                got.append(stop)
            elif st['a'] == 'group':
                try:
                    r, c, ch = next(s)
                    opened.append(r)
                    got.append(dict(stop, stop=False, cert=docs.cert_name(c),
                                    chain=[docs.cert_name(x) for x in ch]))
                except StopIteration:
                    got.append(stop)
            else:
                try:
                    got.append(dict(stop, stop=False, rec=next(opened[st['g'] - 1])))
                except StopIteration:
                    got.append(stop)
    _v, e = hist.call(go)
    if e:
        got.append({'exc': forms.mro(e)})
    return {'id': cid, 'docs': [], 'evs': [{'t': 'stream', 'want': plan['obs'], 'got': got}]}
