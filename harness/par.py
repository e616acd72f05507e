"""Runs a function over many arguments in forked processes."""
import multiprocessing
import os
import sys
import traceback

from . import env

_fn = None


def in_library(e):
    """Whether an exception came out of the code under test."""
    if isinstance(e, HarnessError):
        return e.library
    names = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    lib = [i for i, n in enumerate(names) if n.startswith(env.REPO + '/')]
    own = [i for i, n in enumerate(names) if n.startswith(env.VERIF + '/')]
    return bool(lib) and (not own or lib[-1] > own[-1])


def _work(chunk):
    out = []
    for a in chunk:
        try:
            out.append((True, _fn(*a)))
        except Exception as e:
            out.append((False, '%s\n%s' % (repr(a)[:2000], traceback.format_exc()), in_library(e)))
    return out


class HarnessError(Exception):
    library = False


def pmap(fn, args, procs=None, chunk=None):
    """Like [fn(*a) for a in args]; an exception in fn is an error of the harness."""
    global _fn
    args = list(args)
    procs = procs or min(8, os.cpu_count() or 1)
    if not args:
        return []
    chunk = chunk or max(1, min(50, len(args) // (procs * 4) + 1))
    chunks = [args[i:i + chunk] for i in range(0, len(args), chunk)]
    _fn = fn
    sys.stdout.flush()
    sys.stderr.flush()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as p:
        res = []
        for part in p.imap(_work, chunks):
            res += part
    bad = [r for r in res if not r[0]]
    if bad:
        bad.sort(key=lambda r: not r[2])
        e = HarnessError(bad[0][1])
        e.library = bad[0][2]
        raise e
    return [r[1] for r in res]
