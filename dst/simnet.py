"""A simulated internet below the real urllib and http.client.

Sockets, name look up and TLS handshakes are simulated; everything above them
(openers, handlers, redirects, proxies, framing, parsing of answers) is the
real code of the standard library.  Servers answer from a table
    via | scheme://host:port/target  ->  answer
where via is 'direct' or the host:port of a proxy.

answer: {'status', 'body' (bytes), 'headers': [[k, v]], 'framing', 'cut',
         'end', 'chunk', 'seed', 'delay', 'preface', 'raw'}
"""
import io
import random
import socket
import ssl
import urllib.request

from . import core  # noqa: F401  (imported for its side effects on paths)

REAL = {}


class Entry(object):
    """One connection."""

    def __init__(self, task, addr):
        self.task = task
        self.addr = addr
        self.tunnel = None
        self.tls = None         # host name of the handshake
        self.checked = True     # the certificate was verified
        self.method = None
        self.target = None
        self.headers = {}
        self.closed = False
        self.refused = None
        self.status = None

    def told(self):
        return [self.addr, self.tunnel, self.tls, self.method, self.target]


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        data = self.sock.recv(len(b))
        b[:len(data)] = data
        return len(data)

    def close(self):
        if not self.closed:
            io.RawIOBase.close(self)
            self.sock.release()


class Sock(object):
    """Client end of a simulated connection."""

    def __init__(self, net, entry):
        self.net = net
        self.entry = entry
        self.inbox = b''
        self.out = b''          # what the peer has sent
        self.pos = 0
        self.end = 'eof'
        self.refs = 0
        self.shut = False
        self.rng = random.Random(0)
        self.chunk = 'all'
        self.stall = 0
        self.answered = False

    # what http.client needs of a socket
    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def gettimeout(self):
        return None

    def fileno(self):
        return -1

    def makefile(self, mode='rb', bufsize=-1, **k):
        self.refs += 1
        return io.BufferedReader(Raw(self), 8192)

    def release(self):
        self.refs -= 1
        self._maybe_close()

    def close(self):
        self.shut = True
        self._maybe_close()

    def _maybe_close(self):
        if self.shut and self.refs <= 0:
            self.entry.closed = True

    def detach(self):
        return -1

    def sendall(self, data):
        self.net.step('send')
        self.inbox += bytes(data)
        while b'\r\n\r\n' in self.inbox:
            head, self.inbox = self.inbox.split(b'\r\n\r\n', 1)
            self.net.request(self, head)

    send = sendall

    def recv(self, n):
        self.net.step('recv')
        if self.stall:
            self.net.sleep(self.stall)
        left = len(self.out) - self.pos
        if not left:
            if self.end == 'reset':
                raise ConnectionResetError(104, 'simulated reset')
            if self.end == 'timeout':
                raise socket.timeout('simulated timeout')
            return b''
        k = min(n, left)
        if self.chunk == 'rand':
            k = min(k, 1 + int(self.rng.expovariate(1 / 60.0)))
        elif self.chunk != 'all':
            k = min(k, self.chunk)
        out = self.out[self.pos:self.pos + k]
        self.pos += k
        return out


def frame(a, rng=None):
    """The bytes of an answer and where its body starts to count."""
    if a.get('raw') is not None:
        return a['raw'].encode('latin-1'), 0
    body = a['body']
    out = b''
    if a.get('preface'):
        out += b'HTTP/1.1 100 Continue\r\n\r\n'
    out += ('HTTP/1.1 %d %s\r\n' % (a['status'], a.get('reason', 'X'))
            ).encode()
    hs = [list(h) for h in a.get('headers', ())]
    hs.append(['Content-Type', a.get('type', 'application/xml')])
    f = a.get('framing', 'length')
    if f == 'length':
        hs.append(['Content-Length', str(len(body))])
    elif f == 'chunked':
        hs.append(['Transfer-Encoding', 'chunked'])
    for k, v in hs:
        out += ('%s: %s\r\n' % (k, v)).encode('latin-1')
    out += b'\r\n'
    n = len(out)
    if f == 'chunked':
        r = random.Random(a.get('seed', 0))
        i = 0
        while i < len(body):
            k = min(len(body) - i, 1 + int(r.expovariate(1 / 150.0)))
            out += b'%x\r\n' % k + body[i:i + k] + b'\r\n'
            i += k
        out += b'0\r\n\r\n'
    else:
        out += body
    return out, n


class Internet(object):
    def __init__(self, hosts, pages, ctx, sched):
        self.hosts = hosts      # host:port -> {'kind', 'cert'}
        self.pages = pages
        self.ctx = ctx
        self.sched = sched
        self.log = []
        self.odd = []

    def step(self, what):
        if self.sched is not None:
            self.sched.external(what)

    def sleep(self, dt):
        if self.sched is not None:
            self.sched.sleep(dt)

    def task(self):
        t = self.sched.task() if self.sched is not None else None
        return None if t is None else t.idx

    def fault(self, what):
        if self.ctx is not None:
            self.ctx.fault(what)

    # -- seams ------------------------------------------------------------
    def create_connection(self, address, *a, **k):
        self.step('connect')
        host, port = address[0].lower().strip('[]'), int(address[1])
        e = Entry(self.task(), '%s:%d' % (host, port))
        self.log.append(e)
        h = self.hosts.get(e.addr)
        kind = 'noname' if h is None else h.get('kind', 'up')
        if h and h.get('delay'):
            self.sleep(h['delay'])
        if kind != 'up':
            e.closed = True
            e.refused = kind
            self.fault('connect ' + kind)
            raise {'noname': socket.gaierror(-2, 'simulated: no such host'),
                   'refuse': ConnectionRefusedError(111, 'simulated'),
                   'unreach': OSError(113, 'simulated: no route'),
                   'hang': socket.timeout('simulated: timed out')}[kind]
        return Sock(self, e)

    def wrap(self, context, sock, server_hostname=None, **k):
        self.step('tls')
        e = sock.entry
        e.tls = (server_hostname or '').lower().strip('[]')
        e.checked = bool(context.check_hostname and
                         context.verify_mode == ssl.CERT_REQUIRED)
        at = e.tunnel or e.addr
        h = self.hosts.get(at, {})
        if h.get('plain'):
            sock.close()
            self.fault('tls refused')
            raise ssl.SSLError(1, 'simulated: wrong version number')
        if h.get('cert') == 'bad' and e.checked:
            sock.close()
            self.fault('certificate')
            raise ssl.SSLCertVerificationError(1, 'simulated: certificate')
        return sock

    # -- the other end -----------------------------------------------------
    def request(self, sock, head):
        e = sock.entry
        lines = head.decode('latin-1').split('\r\n')
        method, target = lines[0].split(' ')[:2]
        headers = dict((k.lower(), v.strip()) for k, v in
                       (x.split(':', 1) for x in lines[1:]))
        proxy = self.hosts[e.addr].get('proxy')
        if method == 'CONNECT':
            self.step('tunnel')
            if not proxy:
                return self.reply(sock, {'status': 405, 'body': b''})
            e.tunnel = target.lower().replace('[', '').replace(']', '')
            st = self.hosts.get(e.tunnel)
            kind = 'noname' if st is None else st.get('kind', 'up')
            if self.hosts[e.addr].get('connect') or kind != 'up':
                self.fault('tunnel refused')
                return self.reply(sock, {'status': 502, 'body': b''})
            sock.out += b'HTTP/1.1 200 Established\r\n\r\n'
            return
        e.method, e.target, e.headers = method, target, headers
        if proxy and not e.tunnel:
            via, url = e.addr, target
        else:
            via = e.addr if e.tunnel else 'direct'
            url = '%s://%s%s' % ('https' if e.tls is not None else 'http',
                                 headers.get('host', '?'), target)
        key = via + '|' + canon(url)
        a = self.pages.get(key)
        if a is None:
            # what a server says about what it does not know
            a = {'status': 404, 'body': b'<none/>'}
        if a.get('delay'):
            self.sleep(a['delay'])
        self.reply(sock, a)

    def reply(self, sock, a):
        if sock.answered:
            self.odd.append('second request on a connection')
        sock.answered = True
        out, body = frame(a)
        sock.entry.status = a.get('status')
        if self.ctx is not None:
            if a.get('raw') is not None:
                self.fault('no HTTP')
            elif a['status'] in (301, 302, 303, 307, 308):
                self.ctx.probe('redirects')
            elif a['status'] != 200:
                self.fault('status %d' % a['status'])
        if a.get('cut') is not None:
            k = max(0, min(len(out), cut_at(a, out, body)))
            self.fault('answer cut, ' + a.get('end', 'eof'))
            out = out[:k]
            sock.end = a.get('end', 'eof')
        sock.out += out
        sock.chunk = a.get('chunk', 'all')
        sock.stall = a.get('stall', 0)
        sock.rng = random.Random(a.get('seed', 0))

    def install(self):
        net = self
        if not REAL:
            REAL.update(cc=socket.create_connection,
                        gh=socket.gethostbyname, ga=socket.getaddrinfo,
                        wrap=ssl.SSLContext.wrap_socket,
                        certs=ssl.SSLContext.load_default_certs,
                        opener=getattr(
                            urllib.request.OpenerDirector.open, 'dst_real',
                            urllib.request.OpenerDirector.open))
        urllib.request.OpenerDirector.open = REAL['opener']
        socket.create_connection = self.create_connection

        def noname(*a, **k):
            raise socket.gaierror(-2, 'simulated: no such host')
        socket.gethostbyname = socket.getaddrinfo = noname
        ssl.SSLContext.wrap_socket = (
            lambda ctx, sock, *a, **k: net.wrap(ctx, sock, *a, **k))
        ssl.SSLContext.load_default_certs = lambda *a, **k: None
        return self

    def remove(self):
        socket.create_connection = REAL['cc']
        socket.gethostbyname = REAL['gh']
        socket.getaddrinfo = REAL['ga']
        ssl.SSLContext.wrap_socket = REAL['wrap']
        ssl.SSLContext.load_default_certs = REAL['certs']


def cut_at(a, out, body):
    """Where the bytes of an answer stop."""
    where, k = a['cut']
    if where == 'head':
        return min(k, 10)
    if where == 'wire':
        return body + min(k, len(out) - body)
    raise ValueError(where)


def split(url):
    """scheme, host, port or None, target (without fragment)."""
    scheme, rest = url.split('://', 1)
    scheme = scheme.lower()
    i = len(rest)
    for c in '/?#':
        j = rest.find(c)
        if 0 <= j < i:
            i = j
    netloc, target = rest[:i], rest[i:].split('#', 1)[0]
    if not target.startswith('/'):
        target = '/' + target
    host, port = netloc, None
    if netloc.startswith('['):
        host, _, p = netloc[1:].partition(']')
        if p.startswith(':'):
            port = int(p[1:])
    elif ':' in netloc:
        host, p = netloc.rsplit(':', 1)
        port = int(p)
    return scheme, host.lower(), port, target


PORTS = {'http': 80, 'https': 443, 'ftp': 21}


def canon(url):
    s, h, p, t = split(url)
    return '%s://%s:%d%s' % (s, h, p or PORTS[s], t)
