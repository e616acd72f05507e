"""Running TLC and reading what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .env import VERIF

SPEC = os.path.join(VERIF, 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    pass


class Result(object):
    def __init__(self):
        self.records = []     # (tag, value) printed by the specification
        self.states = 0       # distinct states
        self.transitions = 0  # states generated
        self.violation = None
        self.output = ''


def _parse(line):
    # PrintT("TAG json") shows a TLA+ string literal: "TAG {\"a\": ...}"
    if not (line.startswith('"') and line.endswith('"')):
        return None
    m = re.match(r'"([A-Z]+) (.*)"$', line, re.S)
    if not m:
        return None
    body = m.group(2).replace('\\\\', '\0').replace('\\"', '"').replace('\0', '\\')
    try:
        return m.group(1), json.loads(body)
    except ValueError:
        return None


def run(module, cfg, env=None, workers=8, heap='4g', simulate=None, depth=None,
        seed=None, timeout=800, deadlock=False, extra=()):
    """
    Model checks spec/<module>.tla with the given configuration (the text of a
    .cfg file, or the name of one in spec/). Returns a Result; a violated
    property is reported in .violation, any other trouble raises TLCError.
    """
    tmp = tempfile.mkdtemp(prefix='tlc-')
    try:
        if cfg.endswith('.cfg'):
            cfgfile = os.path.join(SPEC, cfg)
        else:
            cfgfile = os.path.join(tmp, 'run.cfg')
            with open(cfgfile, 'w') as f:
                f.write(cfg)
        gc = '-XX:+UseSerialGC' if workers <= 2 else '-XX:+UseParallelGC'
        cmd = ['java', gc, '-XX:TieredStopAtLevel=%d' % (4 if workers > 2 else 1),
               '-Xmx' + heap, '-Xss16m',
               '-Djava.io.tmpdir=' + tmp,
               '-cp', JARS, 'tlc2.TLC', '-metadir', os.path.join(tmp, 'meta'),
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfgfile]
        if not deadlock:
            cmd.append('-deadlock')     # i.e. do not report deadlocks
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        e.update(env or {})
        e.pop('_JAVA_OPTIONS', None)
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError('TLC on %s ran out of time' % module)
        out = p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    r = Result()
    rest = []
    for line in out.splitlines():
        rec = _parse(line)
        if rec:
            r.records.append(rec)
        else:
            rest.append(line)
    r.output = '\n'.join(rest)
    for m in re.finditer(r'(\d[\d,]*) states generated(?: \([^)]*\))?(?:, (\d[\d,]*) distinct)?',
                         r.output):
        r.transitions = int(m.group(1).replace(',', ''))
        if m.group(2):
            r.states = int(m.group(2).replace(',', ''))
    if p.returncode in (12, 13):
        m = re.search(r'(Invariant \S+ is violated|[Pp]ropert\S* \S* ?(?:is|was|were) violated.*)',
                      r.output)
        r.violation = m.group(1) if m else 'property violated'
    elif p.returncode == 11:
        r.violation = 'deadlock'
    elif p.returncode != 0:
        raise TLCError('TLC on %s failed (%d):\n%s' % (module, p.returncode,
                                                      r.output[-3000:]))
    return r


def run_many(jobs, threads=4):
    """jobs: list of (args, kwargs) for run(), run side by side."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(threads) as ex:
        fs = [ex.submit(run, *a, **k) for a, k in jobs]
        return [f.result() for f in fs]
