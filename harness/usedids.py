"""Trackers of used receipt IDs: recorded operations."""
import copy
import json
import pickle
import random

from . import hist
from .forms import codes

from librksv import verification_state as vs

CLASSES = {'U': vs.UsedReceiptIdsUnique, 'N': vs.UsedReceiptIdsSortedNatural}


def observe(t, kind, probes):
    rej, odd = [], []
    for i, p in enumerate(probes):
        _v, e = hist.call(lambda: t.check(p))
        if e is None:
            continue
        if 'DuplicateReceiptIdException' in hist.exc_names(e) and e.receipt == p:
            rej.append(i + 1)
        else:
            odd.append(i + 1)
    ids = []
    if kind == 'U':
        data = t.writeToJson()['backendData']
        ids = [codes(x) for x in data]
    return {'rej': rej, 'odd': odd, 'ids': ids}


def run(cid, kind, ops, probes, n=2):
    """ops: (name, tracker from 1, ID, other trackers)"""
    cls = CLASSES[kind]
    st = vs.ClusterState(cls)
    trk = [st.usedReceiptIds] + [cls() for _ in range(n - 1)]
    evs = []
    for op, k, rid, frm in ops:
        i = k - 1

        def go():
            t = trk[i]
            if op == 'add':
                if kind == 'N' or rid in ('', '1'):
                    _v, e = hist.call(lambda: t.check(rid))
                t.add(rid)
            elif op == 'merge':
                t.merge([trk[j - 1] for j in frm])
            elif op == 'copy':
                trk[frm[0] - 1] = copy.deepcopy(t)
            elif op == 'new':
                trk[i] = cls()
            elif op == 'pickle':
                trk[i] = pickle.loads(pickle.dumps(t))
            elif op == 'reload':
                trk[i] = vs.UsedReceiptIdsBackend.readFromJson(json.loads(json.dumps(t.writeToJson())), 'x')
            elif op == 'state':
                s = vs.ClusterState(cls)
                s.usedReceiptIds = t
                if len(evs) % 2:
                    s.addNewCashRegister()
                s = vs.ClusterState.readStateFromJson(json.loads(json.dumps(s.writeStateToJson())))
                trk[i] = s.usedReceiptIds
            else:
                raise ValueError(op)
        _v, e = hist.call(go)
        rec = getattr(e, 'receipt', None)
        evs.append({'t': op, 'k': k, 'id': codes(rid), 'from': list(frm), 'ok': e is None,
                    'dup': e is not None and 'DuplicateReceiptIdException' in hist.exc_names(e),
                    'rec': codes(rec) if isinstance(rec, str) else codes(repr(e)),
                    'trk': [observe(t, kind, probes) for t in trk] if e is None else []})
        if e is not None:
            break
    return {'id': cid, 'kind': kind, 'n': n, 'probes': [codes(p) for p in probes], 'evs': evs}


PIECES = ['', 'a', 'A', 'b', 'B', 'aa', u'\xe4', u'\xc4', u'\xdf', 'ss', 'sS', '-', ' ', '/', '#', 'R', '_', 'z', u'\u20ac', u'\xb2', u'\u0663', u'\U0001f9fe', '.', '+', ':', '@', '[', '`', '{', '\x00', '\n']
DIGITS = ['0', '1', '2', '9', '10', '09', '00', '001', '11', '99', '100', '4294967296', '18446744073709551615', '1' + '0' * 25]


def odd_id(rng):
    out = ''
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        out += rng.choice(PIECES) if rng.random() < .7 else ''
        if rng.random() < .8:
            out += rng.choice(DIGITS) if rng.random() < .6 else str(rng.randint(0, 300))
    return out + (rng.choice(PIECES) if rng.random() < .3 else '')


def near(rng, s):
    """An ID that is easily mistaken for this one or its successor."""
    import re
    opts = [s.upper(), s.lower(), s.replace(u'\xdf', 'ss'), s.replace('ss', u'\xdf'), s + '0', '0' + s, s + 'a', s[:-1], s[1:], s + ' ', s,
            re.sub('[0-9]+', lambda m: '0' + m.group(), s),
            re.sub('[0-9]+', lambda m: m.group().lstrip('0') or '0', s),
            re.sub('[0-9]+', lambda m: str(int(m.group()) + 1), s),
            re.sub('[0-9]+', lambda m: str(int(m.group()) + 1), s, count=1),
            re.sub('[0-9]+', lambda m: m.group() + '0', s),
            re.sub('[0-9]+', lambda m: str(max(0, int(m.group()) - 1)), s), re.sub('[0-9]', '', s)]
    return rng.choice(opts)


def nat(rng, s):
    return [x for x in (near(rng, s) for _ in range(4))]


def replay(cid, plan, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    ids = {}
    ops = []
    for o in plan['ops']:
        ops.append((o['op'], o['k'], ''.join(chr(c) for c in o['id']), o['from']))
    mine = {i for _o, _k, i, _f in ops}
    probes = set(mine) | {'1', '10', '2', 'a1', 'A01', 'a', '', 'a2b', 'a10b', 'a1b', 'a02b', 'A', '01', '3', 'b'}
    for i in sorted(mine):
        probes.add(near(rng, i))
    return run(cid, plan['kind'], ops, sorted(probes), max([2] + [max([o['k']] + o['from']) for o in plan['ops']]))


def successor(rng, last):
    """Something that is likely to sort after the last one."""
    import re
    if not last:
        return odd_id(rng)
    c = rng.choice(['inc', 'inc', 'inc', 'more', 'len'])
    m = list(re.finditer('[0-9]+', last))
    if c == 'inc' and m:
        g = rng.choice(m)
        return last[:g.start()] + rng.choice(['', '', '0']) + str(int(g.group()) + rng.choice([1, 1, 9, 100])) + \
            (last[g.end():] if rng.random() < .7 else rng.choice(['', 'x', '0']))
    if c == 'more':
        return last + rng.choice(PIECES[1:] + DIGITS)
    return last + rng.choice(['a', '0', '1'])


def randomised(cid, kind, seed):
    rng = random.Random('%s/%s' % (seed, cid))
    ops, pool, num = [], [odd_id(rng) for _ in range(6)], rng.choice([2, 2, 3, 4])
    ghost, last = [CLASSES[kind]() for _ in range(num)], [''] * num     # only to choose sensible operations
    for _ in range(rng.choice([5, 10, 20])):
        i = rng.randrange(num)
        op = rng.choice(['add'] * 6 + ['merge', 'copy', 'new', 'pickle', 'reload', 'state'])
        rid, frm = '', []
        if op == 'add':
            if kind == 'N':
                rid = successor(rng, last[i]) if rng.random() < .8 else near(rng, rng.choice(pool))
                if hist.call(lambda: ghost[i].check(rid))[1] is not None:
                    continue
            else:
                rid = rng.choice(pool) if rng.random() < .5 else near(rng, rng.choice(pool)) \
                    if rng.random() < .5 else odd_id(rng)
            ghost[i].add(rid)
            last[i] = rid
            pool.append(rid)
        elif op == 'merge':
            others = [j for j in range(num) if j != i]
            frm = [rng.choice(others) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < .7:
                frm = sorted(set(frm))
            srcs = [ghost[j] for j in frm]
            if hist.call(lambda: copy.deepcopy(ghost[i]).merge(copy.deepcopy(srcs)))[1] is None:
                ghost[i].merge(srcs)
                last[i] = ([last[j] for j in frm if last[j]] or [last[i]])[-1]
            elif rng.random() < .6:
                continue
        elif op == 'copy':
            frm = [rng.choice([j for j in range(num) if j != i])]
            ghost[frm[0]] = copy.deepcopy(ghost[i])
            last[frm[0]] = last[i]
        elif op == 'new':
            ghost[i] = CLASSES[kind]()
            last[i] = ''
        ops.append((op, i + 1, rid, [j + 1 for j in frm]))
    probes = {''} | set(pool[-12:])
    while len(probes) < 26:
        probes.add(near(rng, rng.choice(pool)))
        if rng.random() < .3:
            probes.add(odd_id(rng))
        if rng.random() < .1:
            pool.append(odd_id(rng))
    return run(cid, kind, ops, sorted(probes), num)


def many(cid, kind, seed):
    """Far more IDs and trackers than a short sequence has."""
    rng = random.Random('%s/%s' % (seed, cid))
    num = rng.choice([3, 9, 13, 20])
    serial = rng.randint(0, 10 ** 6)
    made, ops = [], []

    def fresh():
        # in order for both kinds
        made.append('%s%d' % (pre, serial + len(made) * step))
        return made[-1]
    pre, step = rng.choice(['', 'R', '#', '7-', '0']), rng.choice([1, 1, 9])
    if rng.random() < .5:
        # many trackers, all merged into one at once
        for k in range(2, num + 1):
            for _ in range(rng.choice([0, 1, 1, 2, 5])):
                ops.append(('add', k, fresh(), []))
        if rng.random() < .3:
            ops.insert(0, ('add', 1, pre + str(max(serial - 3, 0)) if kind == 'U' else '', []))
            if kind == 'N':
                ops.pop(0)
        frm = list(range(2, num + 1))
        if made and rng.random() < .6:
            # one that is there already, often far apart
            if kind == 'U':
                k = rng.choice(frm)
                ops.append(('add', k, rng.choice([made[0], made[-1], rng.choice(made)]), []))
            else:
                i, j = rng.choice([(0, len(frm) - 1), (len(frm) - 2, len(frm) - 1)])
                frm[i], frm[j] = frm[j], frm[i]
        ops.append(('merge', 1, '', frm))
    else:
        # one tracker with many IDs
        for _ in range(rng.choice([17, 65, 70, 130, 260])):
            ops.append(('add', 1, fresh(), []))
        if rng.random() < .5:
            for _ in range(rng.choice([1, 66])):
                ops.append(('add', 2, fresh(), []))
            ops.append(('merge', 1, '', [2]))
    ops.append((rng.choice(['reload', 'state', 'pickle']), 1, '', []))
    if rng.random() < .5:
        ops.append(('copy', 1, '', [3]))
        ops.append(('add', 3, fresh(), []))
    probes = {'', '1', pre + str(serial + len(made) * step)}
    probes |= {x for m in made[:2] + made[-2:] + rng.sample(made, min(12, len(made)))
               for x in [m] + [near(rng, m)]}
    # what the trackers hold is compared after every step from here on
    return run(cid, kind, ops, sorted(probes), num)
