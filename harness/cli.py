"""Running the command line tools, inside this process."""
import builtins
import contextlib
import io
import os
import subprocess
import sys
import tempfile

from . import env
from . import forms
from . import hist

_code = {}


def code(script):
    if script not in _code:
        path = os.path.join(env.REPO, script)
        with open(path, 'rb') as f:
            _code[script] = compile(f.read(), path, 'exec')
    return _code[script]


class Out(object):
    def __init__(self, rc, out, err, exc, error=None):
        self.rc, self.out, self.err, self.exc, self.error = rc, out, err, exc, error

    @property
    def ok(self):
        return self.rc == 0

    def text(self):
        return self.out.decode('utf-8')


class KeepOpen(io.BytesIO):
    def close(self):
        pass


@contextlib.contextmanager
def scratch():
    """A fresh directory, gone afterwards; the current one meanwhile."""
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='rksv-') as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)


def run(script, argv, stdin=b'', seekable=True, variables=None):
    """
    Runs the script in the current directory. stdin: bytes, or None for an
    already closed one.
    """
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd()
    olde = {k: os.environ.get(k) for k in (variables or {})}
    oldu = builtins.__dict__.get('_')
    out, err = KeepOpen(), KeepOpen()
    raw = io.BytesIO(stdin) if seekable else io.BufferedReader(Raw(stdin))
    sys.argv = [script] + [str(a) for a in argv]
    sys.stdin = io.TextIOWrapper(raw, encoding='utf-8')
    sys.stdout = io.TextIOWrapper(out, encoding='utf-8', write_through=True)
    sys.stderr = io.TextIOWrapper(err, encoding='utf-8', errors='backslashreplace', write_through=True)
    os.environ.update(variables or {})
    rc, exc, error = 0, [], None
    path0 = list(sys.path)
    try:
        try:
            exec(code(script), {'__name__': '__main__', '__file__': os.path.join(env.REPO, script),
                                '__builtins__': builtins})
        except SystemExit as e:
            if isinstance(e.code, str):
                err.write(e.code.encode('utf-8', 'backslashreplace'))
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:
            rc, exc, error = 1, forms.mro(e), e
            err.write(str(e).encode('utf-8', 'backslashreplace'))
        for s in (sys.stdout, sys.stderr):
            s.flush()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])
        sys.path[:] = path0
        for k, v in olde.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        if oldu is not None:
            builtins._ = oldu
    return Out(rc, out.getvalue(), err.getvalue(), exc, error)


def spawn(script, argv, stdin=b'', variables=None):
    """The same in a process of its own."""
    p = subprocess.run([sys.executable, '-B', os.path.join(env.REPO, script)] + [str(a) for a in argv],
                       input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                       env=dict(os.environ, **(variables or {})))
    return Out(p.returncode, p.stdout, p.stderr, [])


class Raw(io.RawIOBase):
    """A pipe: it can only be read once, forwards."""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, buf):
        d = self.b.read(min(len(buf), 1000))
        buf[:len(d)] = d
        return len(d)
