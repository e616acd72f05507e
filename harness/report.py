"""One run of a check: counting, attribution, replay files, evidence."""
import json
import os
import sys
import time

from . import env
from . import judge as _judge

EVID = os.path.join(env.VERIF, 'evidence')
REPL = os.path.join(EVID, 'replays')
FINDINGS = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')

# which property a rule belongs to
RULES = {
    'ChainingException': ['C01'],
    'InvalidChainingOnInitialReceiptException': ['C01'],
    'InvalidChainingOnClusterInitialReceiptException': ['C01', 'C10'],
    'InvalidTurnoverCounterException': ['C02'],
    'InvalidKeyException': ['C02', 'C18'],
    'NoRestoreReceiptAfterSignatureSystemFailureException': ['C03'],
    'SignatureSystemFailedOnInitialReceiptException': ['C03', 'C04'],
    'NonzeroTurnoverOnInitialReceiptException': ['C04'],
    'NonstandardTypeOnInitialReceiptException': ['C04'],
    'ChangingRegisterIdException': ['C05', 'C10'],
    'ChangingSystemTypeException': ['C05', 'C10'],
    'DecreasingDateException': ['C05'],
    'DuplicateReceiptIdException': ['C05', 'C10', 'C19'],
    'ClusterInOpenSystemException': ['C10'],
    'CertSerialMismatchException': ['C06'],
    'CertSerialInvalidException': ['C06', 'C17'],
    'NoPublicKeyException': ['C06'],
    'InvalidSignatureException': ['C06'],
    'UntrustedCertificateException': ['C07'],
    'CertificateSerialCollisionException': ['C07'],
    'CertificateChainBrokenException': ['C07'],
    'NoCertificateGivenException': ['C07', 'C06'],
    'NoStartReceiptForLastCashRegisterException': ['C10'],
    'InvalidCashRegisterIndexException': ['C10'],
    'DEPParseException': ['C22', 'C11'],
    'ReceiptException': ['C17'],
    'MalformedReceiptException': ['C17'],
    'UnknownAlgorithmException': ['C17'],
    'AlgorithmMismatchException': ['C17'],
    'InvalidCertificateProviderException': ['C17'],
    'SignatureSystemFailedException': ['C03', 'C21'],
    'UnsignedNullReceiptException': ['C03', 'C21'],
}
STATE = {
    'start': ['C04', 'C10', 'C16', 'C09'],
    'last': ['C01', 'C10', 'C16', 'C09'],
    'tc': ['C02', 'C16', 'C09'],
    'need': ['C03', 'C16', 'C09'],
    'next': ['C01', 'C16', 'C09'],
    'used': ['C05', 'C10', 'C19', 'C09'],
    'otherreg': ['C10'],
    'regcount': ['C10'],
    'unreadable': ['C09', 'C10'],
}
ANY = '*'


def props_of_faults(names):
    out = set()
    for n in names:
        out.update(RULES.get(n, ()))
    return out


def props_of_exc(mro):
    if 'RKSVException' not in mro:
        return {ANY, 'C18'}
    for n in mro:
        if n in RULES:
            return set(RULES[n])
    return {ANY}


def attribute(m):
    """The properties a mismatch of VerifyJudge speaks about."""
    c = m['clause']
    exp, got = m.get('exp'), m.get('got')
    if c == 'false-accept':
        return props_of_faults(exp)
    if c == 'false-reject':
        return props_of_exc(got)
    if c in ('wrong-reason', 'wrong-receipt'):
        exc = got['exc'] if isinstance(got, dict) else got
        return props_of_faults(exp) | props_of_exc(exc)
    if c.startswith('state:'):
        return set(STATE[c[6:]])
    if c == 'alt-accept':
        return props_of_faults(exp) | {'C08'}
    if c == 'alt-reject':
        return props_of_exc(got['exc']) | {'C08'}
    if c == 'alt-crash':
        return {'C08', 'C18'}
    if c.startswith('alt-state:'):
        return set(STATE[c[10:]]) | {'C08'}
    if c.startswith('arb'):
        return {'C16'}
    if c == 'update-crash':
        return {'C16', 'C18'}
    if c == 'reload-crash':
        return {'C09'}
    return {ANY}


class Check(object):
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.assumptions = []
        self.errors = []
        self.elsewhere = 0

    # -- collecting

    def add_tlc(self, r, name=None):
        self.states += r.states
        self.transitions += r.transitions
        if name:
            self.count('tlc_' + name + '_states', r.states)
        if getattr(r, 'violation', None):
            self.errors.append('the specification itself violates %s (%s)'
                               % (r.violation, name))
            sys.stderr.write(r.output[-3000:] + '\n')

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, obj):
        if len(self.samples) < 4:
            s = json.dumps(obj)
            if len(s) > 6000:
                s = s[:6000] + '...'
                self.samples.append(s)
            else:
                self.samples.append(obj)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finding(self, key, text):
        """A known finding that still shows. Unlisted ones are violations."""
        for line in open(FINDINGS):
            if line.startswith('known: property=%s key=%s ' % (self.prop, key)):
                self.known.append(text)
                return True
        return False

    def judged(self, v, cases, relevant=None, module='VerifyJudge'):
        """Takes over the verdicts of a judge run on the given cases."""
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.cases
        self.count('events_judged', v.events)
        if not v.mismatches:
            return
        by = {c['id']: c for c in cases}
        for cid, ms in v.first_per_case().items():
            mine = []
            for m in ms:
                if m['clause'] in ('plan', 'spec'):
                    self.errors.append('plan and judge disagree: %s' % json.dumps(m)[:600])
                    continue
                if relevant is not None:
                    mineq = relevant(m, by[cid])
                else:
                    a = attribute(m)
                    mineq = self.prop in a or ANY in a
                if mineq:
                    mine.append(m)
                else:
                    self.elsewhere += 1
            if mine:
                self.violation(mine[0]['clause'], {'module': module, 'mismatches': mine,
                                                   'case': by[cid]})

    def judge(self, cases, relevant=None, module='VerifyJudge', **kw):
        cases = list(cases)
        v = _judge.judge(cases, module, **kw)
        self.judged(v, cases, relevant, module)
        return v

    # -- the end

    def finish(self):
        os.makedirs(REPL, exist_ok=True)
        for f in os.listdir(REPL):
            if f.startswith(self.prop + '-'):
                os.unlink(os.path.join(REPL, f))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['none']}
        cov.update(self.cov)
        if self.elsewhere:
            cov['mismatches_of_other_properties'] = self.elsewhere
        ev = {'property': self.prop, 'tier': 'thorough' if env.THOROUGH else 'quick',
              'seed': env.SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        if self.errors:
            ev['coverage']['errors'] = self.errors[:5]
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        print('%s: %d states, %d transitions, %d traces validated, %.1f s'
              % (self.prop, self.states, self.transitions, self.traces, ev['wall_s']))
        shown = set()
        for i, (what, rep) in enumerate(self.violations):
            if len(shown) >= 10:
                break
            if what in shown and i > 3:
                continue
            shown.add(what)
            path = os.path.join(REPL, '%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1, default=repr)
            print('violation: %s' % what)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('ERROR: ' + e)
            return 2
        return 0
