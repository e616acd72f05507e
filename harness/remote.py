"""
A remote signature service that works or fails, behind a patched transport or
behind a real server on the loopback interface.
"""
import contextlib
import http.server
import io
import json
import os
import random
import socket
import ssl
import threading

import requests
import urllib3

from . import registers
from . import scen
from . import world as w

from librksv import sigsys

os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'

# what a service may do instead of signing
FAILS = {
    'down': ['connect', 'timeout', 'readtimeout', 'reset', 'ssl'],
    'refuses': [400, 401, 403, 404, 405, 408, 409, 418, 429, 451, 500, 501, 502, 503, 504, 599],
    'breaks': ['chunked', 'partial', 'loop', 'schema', 'decode'],
    'nonsense': ['empty', 'text', 'html', 'notutf8', 'list', 'string', 'number', 'null', 'missing', 'noresult', 'result-null',
                 'result-number', 'result-list', 'result-object', 'truncated', 'error200'],
    'altered': ['stale', 'otherdata', 'otherheader', 'nosig', 'emptysig', 'padded', 'sigpadded', 'sigillegal', 'twosegs', 'foursegs',
                'spaces', 'newline', 'prefix', 'payloadbits', 'swapped', 'order', 'compactless', 'case'],
}
# through a real connection
REAL = {
    'down': ['connect', 'reset', 'ssl'],
    'refuses': FAILS['refuses'],
    'breaks': ['partial', 'loop', 'schema', 'decode', 'noise', 'halfhead'],
    'nonsense': FAILS['nonsense'],
    'altered': FAILS['altered'],
}
EXC = {'connect': requests.exceptions.ConnectionError, 'timeout': requests.exceptions.ConnectTimeout,
       'readtimeout': requests.exceptions.ReadTimeout, 'reset': requests.exceptions.ConnectionError,
       'ssl': requests.exceptions.SSLError, 'chunked': requests.exceptions.ChunkedEncodingError,
       'partial': requests.exceptions.ChunkedEncodingError}


class Service(object):
    def __init__(self, key, zda, serial, user, password, rng):
        self.key, self.zda, self.serial = key, zda, serial
        self.user, self.password = user, password
        self.rng = rng
        self.alg = 'ES256'
        self.mode = None           # None: works
        self.old = None
        self.served = 0

    def sign(self, data):
        body = w.b64u(w.HEADER.encode()) + '.' + w.b64u(data.encode('utf-8'))
        return body + '.' + w.b64u(w.es256(body.encode(), self.key))

    def respond(self, method, path, body):
        """-> status, headers, body"""
        self.served += 1
        ok = lambda d: (200, {'Content-Type': 'application/json'}, json.dumps(d).encode('utf-8'))
        parts = [p for p in path.split('?')[0].split('/') if p]
        if self.user not in parts:
            return 404, {}, b'{}'
        rest = parts[parts.index(self.user) + 1:]
        if rest == ['Certificate'] and method == 'GET':
            return ok({'Signaturzertifikat': 'x', 'Zertifikatsseriennummer': 'y', 'ZertifikatsseriennummerHex': self.serial,
                       'alg': self.alg})
        if rest == ['ZDA'] and method == 'GET':
            return ok({'zdaid': self.zda})
        if rest != ['Sign', 'JWS']:
            return 404, {}, b'{}'
        m = self.mode
        if isinstance(m, int):
            try:
                good = json.dumps({'result': self.sign(json.loads(body.decode('utf-8'))['jws_payload'])}).encode()
            except Exception:
                good = json.dumps({'result': 'x.y.z'}).encode()
            return m, {'Content-Type': 'application/json'}, self.rng.choice([b'', b'{}', good, b'<html/>'])
        if m == 'loop':
            return 307, {'Location': path}, b''
        if m == 'schema':
            return self.rng.choice([301, 302, 307]), {'Location': self.rng.choice(['gopher://x/', 'http://', 'http://[/'])}, b''
        if method != 'POST':
            return 405, {}, b'{}'
        try:
            q = json.loads(body.decode('utf-8'))
            data = q['jws_payload']
            if q['password'] != self.password:
                return 401, {}, b'{}'
        except Exception:
            return 400, {}, b'{}'
        if m == 'decode':
            return 200, {'Content-Encoding': 'gzip', 'Content-Type': 'application/json'}, b'this is not compressed'
        jws = self.sign(data)
        h, p, s = jws.split('.')
        if m is None:
            self.old = jws
            return ok({'result': jws})
        # lost on the way
        self.stale = jws
        plain = {'empty': b'', 'text': b'OK', 'html': b'<html><body>Wartung</body></html>', 'notutf8': b'{"result": "\xff\xfe"}',
                 'list': json.dumps([jws]).encode(), 'string': json.dumps(jws).encode(), 'number': b'1', 'null': b'null',
                 'missing': b'{}', 'noresult': json.dumps({'Result': jws, 'jws': jws}).encode(), 'result-null': b'{"result": null}',
                 'result-number': b'{"result": 1}', 'result-list': json.dumps({'result': jws.split('.')}).encode(),
                 'result-object': json.dumps({'result': {'jws': jws}}).encode(),
                 'truncated': json.dumps({'result': jws}).encode()[:-7], 'error200': b'{"code": 5, "message": "fehler"}'}
        if m in plain:
            return 200, {'Content-Type': 'application/json'}, plain[m]
        other = data[:-3] + ('A' if data[-3] != 'A' else 'B') + data[-2:]
        altered = {
            'stale': self.old or self.sign('_R1-AT1_x'), 'otherdata': self.sign(other),
            'otherheader': None, 'nosig': h + '.' + p, 'emptysig': h + '.' + p + '.', 'padded': h + '=.' + p + '.' + s,
            'sigpadded': jws + self.rng.choice(['==', '=']), 'sigillegal': h + '.' + p + '.' + s[:5] + self.rng.choice('!+/ *') + s[6:],
            'twosegs': h + '.' + s, 'foursegs': jws + '.' + s, 'spaces': ' ' + jws, 'newline': jws + '\n',
            'prefix': 'JWS ' + jws, 'payloadbits': None, 'swapped': p + '.' + h + '.' + s, 'order': s + '.' + h + '.' + p,
            'compactless': h + s, 'case': h + '.' + p.swapcase() + '.' + s}
        if m == 'otherheader':
            head = self.rng.choice(['{"alg":"none"}', '{"alg": "ES256"}', '{"typ":"JWT","alg":"ES256"}', ''])
            b = w.b64u(head.encode()) + '.' + p
            return ok({'result': b + '.' + w.b64u(w.es256(b.encode(), self.key))})
        if m == 'payloadbits':
            b = h + '.' + w.b64u(data.encode('utf-8') + b' ')
            return ok({'result': b + '.' + w.b64u(w.es256(b.encode(), self.key))})
        return ok({'result': altered[m]})


class Raw(io.BytesIO):
    pass


@contextlib.contextmanager
def patched(service_of):
    """Requests are answered by service_of(url) without any connection."""
    def send(self, request, **kw):
        s = service_of(request.url)
        sign = request.url.endswith('/Sign/JWS')
        if sign and s.mode in EXC:
            if s.mode == 'chunked':
                s.respond(request.method, request.path_url, request.body or b'')
            raise EXC[s.mode](s.mode, request=request)
        body = request.body or b''
        if isinstance(body, str):
            body = body.encode('utf-8')
        status, headers, data = s.respond(request.method, request.path_url, body)
        if headers.get('Location', '').startswith('/'):
            headers = dict(headers, Location='http://service' + headers['Location'])
        raw = urllib3.HTTPResponse(body=io.BytesIO(data), headers=headers, status=status, preload_content=False,
                                   request_method=request.method)
        return self.build_response(request, raw)

    old = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = send
    try:
        yield
    finally:
        requests.adapters.HTTPAdapter.send = old


class Server(object):
    """A real server for one service."""

    def __init__(self, service):
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def handle_any(self):
                n = int(self.headers.get('Content-Length') or 0)
                body = self.rfile.read(n)
                s = outer.service
                sign = self.path.endswith('/Sign/JWS')
                if sign and s.mode == 'reset':
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
                    self.close_connection = True
                    return
                if sign and s.mode == 'noise':
                    self.wfile.write(b'\x15\x03\x01 what?\r\n\r\n')
                    self.close_connection = True
                    return
                if sign and s.mode == 'halfhead':
                    self.wfile.write(b'HTTP/1.1 200 OK\r\nContent-Ty')
                    self.close_connection = True
                    return
                mode = s.mode
                if sign and mode == 'partial':
                    s.mode = None
                    status, headers, data = s.respond(self.command, self.path, body)
                    s.mode = mode
                    self.send_response(status)
                    self.send_header('Content-Length', str(len(data) + 50))
                    self.end_headers()
                    self.wfile.write(data[:len(data) // 2])
                    self.close_connection = True
                    return
                status, headers, data = s.respond(self.command, self.path, body)
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header('Content-Length', str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            do_GET = do_POST = handle_any

            def log_message(self, *a):
                pass

        self.service = service
        self.srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        self.srv.daemon_threads = True
        self.srv.handle_error = lambda *a: None
        self.thread = threading.Thread(target=self.srv.serve_forever, args=(.02,), daemon=True)
        self.thread.start()

    def url(self):
        return 'http://127.0.0.1:%d/v2/' % self.srv.server_address[1]

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()
        self.thread.join()


def unused_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class Device(sigsys.SignatureSystemATrustMobile):
    """The client, with the address of the service at hand."""
    ATrustURL = None


class Remote(object):
    """The services of a bench and the clients talking to them."""

    def __init__(self, b, real):
        self.b, self.real = b, real
        rng = b.rng
        self.services = []
        self.servers = []
        self.devices = []
        for i, s in enumerate(b.setups):
            self.services.append(Service('K%d' % (i + 1), s.zda, s.serial, 'user%d' % i, rng.choice(['secret', u'p\xe4\u20ac"\\']), rng))
        try:
            self.start()
        except Exception:
            self.close()
            raise

    def start(self):
        for i, s in enumerate(self.services):
            if self.real:
                self.servers.append(Server(s))
            self.devices.append(self.client(i))

    def at(self, url):
        return [s for s in self.services if '/%s/' % s.user in url][0]

    def url(self, i):
        return self.servers[i].url() if self.real else 'http://service/v2/'

    def client(self, i):
        s = self.services[i]
        kind = type('Client', (sigsys.SignatureSystemATrustMobile,), {'ATrustURL': self.url(i)})
        if self.real:
            return kind(s.user, s.password)
        with patched(self.at):
            return kind(s.user, s.password)

    def request(self, n, kind, sums, mode, which, **kw):
        """mode: what the service does, None if it works, 'alg' if it cannot"""
        s, d = self.services[which], self.devices[which]
        dev = 'ok' if mode is None else 'raises' if mode == 'alg' else 'failed'
        good = self.url(which)
        s.mode = mode
        if mode == 'alg':
            s.mode = None
            s.alg = self.b.rng.choice(['RS256', 'ES384', 'none', ''])
            d = self.client(which)
            s.alg = 'ES256'
        elif self.real and mode == 'connect':
            type(d).ATrustURL = 'http://127.0.0.1:%d/v2/' % unused_port()
        elif self.real and mode == 'ssl':
            type(d).ATrustURL = good.replace('http:', 'https:')
        try:
            if self.real:
                ev = self.b.request(n, kind, sums, dev, which, device=d, **kw)
            else:
                with patched(self.at):
                    ev = self.b.request(n, kind, sums, dev, which, device=d, **kw)
        finally:
            type(d).ATrustURL = good
            s.mode = None
        ev['mode'] = str(mode)
        return ev

    def close(self):
        for s in self.servers:
            s.close()


def variant(rng, cls, real):
    if cls in ('up', 'ok', 'ok2'):
        return None
    if cls == 'raises':
        return 'alg'
    return rng.choice((REAL if real else FAILS)[cls])


def planned(cid, plan, seed, real=False, pick=None):
    b = registers.Bench(cid, seed, plan['closed'], (5,), plan['cluster'])
    r = Remote(b, real)
    rng = b.rng
    try:
        for st in plan['script']:
            if st['what'] == 'restart':
                b.restart(0)
                continue
            mode = pick if pick is not None and st['dev'] not in ('ok', 'ok2', 'raises') else variant(rng, st['dev'], real)
            r.request(0, st['kind'], registers.scaled(rng, st['amt']), mode, int(st['dev'] == 'ok2'), bad=st['bad'])
    finally:
        r.close()
    return b.case()


def randomised(cid, seed, real=False, steps=24):
    rng = random.Random('shape/%s/%s' % (seed, cid))
    cluster = rng.random() < .3
    closed = cluster or rng.random() < .3
    b = registers.Bench(cid, seed, closed, (8,), cluster)
    rng = b.rng
    r = Remote(b, real)
    fails = rng.choice([.2, .5, .8])
    g = b.regs[0]
    try:
        while len(b.evs) < steps:
            if rng.random() < .08:
                b.restart(0)
                continue
            kind = rng.choice(['STD', 'STD', 'STD', 'DUM', 'REV'])
            sums = registers.scaled(rng, rng.choice('ZPPPNC'))
            mode = variant(rng, rng.choice(sorted(FAILS)), real) if rng.random() < fails else None
            if rng.random() < .05:
                r.request(0, kind, sums, 'alg', 0)
                continue
            if g.first:
                kind, sums, mode = 'STD', [0.0] * 5, None
            elif g.need:
                kind, sums, mode = 'STD', [0.0] * 5, None
            r.request(0, kind, sums, mode, rng.randrange(2))
            b.did(g, kind, sums, mode is not None)
    finally:
        r.close()
    return b.case()
