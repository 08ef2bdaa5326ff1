"""Documents fetched over the network: by which route, and what counts."""
import gc
import io
import os
import urllib.parse

from dst import docs, gen as G, model, simnet, xmlnode, world as W
from dst import common as C
from dst.props.c12 import struct, nstruct, fill

QUICK = 500
RULE = ('1-3 batches of 1-3 concurrent loads (or plain fetches) of policies '
        'referred to by http, https and ftp addresses, through the real '
        'urllib and http.client over simulated sockets; origin servers and '
        'proxies that are up, refused, unknown, unreachable or silent, with '
        'good and bad certificates, which give different documents; proxy '
        'settings and exceptions that change between batches; answers in '
        'every framing, cut, reset, delayed, redirected (also in circles, '
        'to other hosts and to files), error pages that look like the '
        'document; seeded scheduler.')
ORACLE = ('a model of routes, redirects and answers, and the independent '
          'reader and evaluation model on the documents that arrive')
HOSTS = ('h1.example.org', 'h2.example.org', 'a.test', 'B.Test', '[::1]',
         '10.0.0.7', 'localhost', 'example.org')
PROXIES = ('prox1:3128', 'prox2.example.org:8080')
EXCEPT = ('h1.example.org', ' h2.example.org', 'a.test ', 'b.test', 'B.Test',
          '::1', '[::1]', '10.0.0.7', '10.0.0', 'localhost', 'example.org',
          '.example.org', 'h1', 'xa.test', 'a.test.evil', 'test',
          'h1.example.org:8080', 'a.test:80', 'A.TEST', '', '*',
          'prox1', 'org', 'ample.org', '.1.example.org', '\ta.test')
ENDS = ('eof', 'eof', 'reset', 'timeout')
BADSTATUS = (404, 404, 500, 503, 403, 401, 407, 410, 304, 204, 300, 400)


# -- what the environment says -----------------------------------------------
def setting(env, name):
    """Value of a proxy setting: the lower case name comes first, an empty
    lower case one removes it."""
    v = env.get(name.upper())
    if name in env:
        v = env[name]
    return v or None


def excepted(env, netloc, host):
    """Whether a host is an exception.  host: name alone, in lower case."""
    if host in [x.strip() for x in env.get('no_proxy', '').split(',')]:
        return True
    v = setting(env, 'no_proxy')
    if v is None:
        return False
    if v == '*':
        return True
    netloc = netloc.lower()
    only = netloc
    i = netloc.rfind(':')
    if i >= 0 and netloc[i + 1:].isdigit():
        only = netloc[:i]
    elif i >= 0 and i == len(netloc) - 1:
        only = netloc[:i]
    for x in v.split(','):
        x = x.strip().lstrip('.').lower()
        if x and (x in (only, netloc) or only.endswith('.' + x) or
                  netloc.endswith('.' + x)):
            return True
    return False


def route(env, url):
    """'direct' or the host:port of the proxy."""
    scheme, host, port, _ = simnet.split(url)
    p = setting(env, scheme + '_proxy')
    if p is None:
        return 'direct'
    netloc = url.split('://', 1)[1]
    for c in '/?#':
        netloc = netloc.split(c, 1)[0]
    if excepted(env, netloc, host):
        return 'direct'
    p = p.split('://', 1)[-1].rstrip('/').rsplit('@', 1)[-1]
    return p


class World(object):
    def __init__(self, case, batch):
        self.env = batch['env']
        self.hosts = case['hosts']
        self.pages = {}
        for i, p in enumerate(case['pages']):
            p = dict(p)
            p.update((batch.get('now') or {}).get(str(i), {}))
            if 'raw' not in p:
                p['body'] = (G.to_xml(p['node']) if p.get('node') else
                             p.get('text', '')).encode()
            self.pages[p['via'] + '|' + simnet.canon(p['url'])] = p

    def fetch(self, url):
        """(contacts, body or None, lax).  body None: no document."""
        contacts = []
        visited = None
        for hop in range(40):
            for x in url:
                if x <= ' ' or x >= '\x7f':
                    return contacts, None, False
            scheme, host, port, target = simnet.split(url)
            via = route(self.env, url)
            at = '%s:%d' % (host, port or simnet.PORTS[scheme])
            if scheme == 'ftp' and via == 'direct':
                return contacts, None, False
            c = [at if via == 'direct' else via, None, None, None, None]
            contacts.append(c)
            h = self.hosts.get(c[0])
            if h is None or h.get('kind', 'up') != 'up':
                return contacts, None, False
            if scheme == 'https':
                if via != 'direct':
                    c[1] = at
                    o = self.hosts.get(at)
                    if h.get('connect') or o is None or \
                            o.get('kind', 'up') != 'up':
                        return contacts, None, False
                c[2] = host
                o = self.hosts[at]
                if o.get('plain') or o.get('cert') == 'bad':
                    return contacts, None, False
            c[3] = 'GET'
            c[4] = target if via == 'direct' or scheme == 'https' else \
                simnet.canon(url)
            a = self.pages.get(via + '|' + simnet.canon(url))
            if a is None or a.get('raw') is not None:
                return contacts, None, False
            cut = a.get('cut')
            if cut and cut[0] == 'head':
                return contacts, None, False
            st = a['status']
            if st in (301, 302, 303, 307, 308):
                if a.get('location') is None:
                    return contacts, None, False
                new = a['location']
                if urllib.parse.urlparse(new).scheme not in (
                        '', 'http', 'https', 'ftp'):
                    return contacts, None, False
                new = urllib.parse.urljoin(url, new)
                if visited is None:
                    visited = {}
                elif visited.get(new, 0) >= 4 or len(visited) >= 10:
                    return contacts, None, False
                visited[new] = visited.get(new, 0) + 1
                url = new
                continue
            if st != 200:
                # 204 is an answer without a document
                return contacts, b'' if st == 204 else None, False
            if not cut:
                return contacts, a['body'], False
            out, start = simnet.frame(a)
            k = simnet.cut_at(a, out, start)
            f = a.get('framing', 'length')
            n = unchunk(out[start:k]) if f == 'chunked' else k - start
            how = 'cut'
            if f == 'close':
                if a.get('end', 'eof') == 'eof':
                    how = False     # who can tell
            elif k >= len(out):
                how = False
            elif f == 'chunked' and k > len(out) - 5:
                how = 'maybe'
            return contacts, a['body'][:n], how
        raise AssertionError('too many hops')


def unchunk(wire):
    """How many bytes of the body can be had of the beginning of it."""
    n = i = 0
    while True:
        j = wire.find(b'\r\n', i)
        if j < 0:
            return n
        k = int(wire[i:j], 16)
        if not k:
            return n
        got = min(k, max(0, len(wire) - j - 2))
        n += got
        i = j + 2 + k + 2
        if got < k or i >= len(wire):
            return n


class Texts(object):
    """What the reader of document graphs gets; notes the contacts."""

    def __init__(self, world):
        self.world = world
        self.contacts = []
        self.lax = False

    def get(self, url, default=None):
        c, body, how = self.world.fetch(url)
        self.contacts += c
        if how:
            self.lax = True
        return body


# -- cases ---------------------------------------------------------------
def gen(rng, tier):
    o = G.Opts(rng, errors=False, selectors=False)
    o.max_rules = 3
    g = G.Gen(rng, o)
    hosts = {}
    for p in PROXIES:
        hosts[p] = {'proxy': 1, 'kind': rng.choice(('up',) * 12 + (
            'refuse', 'hang'))}
        if rng.random() < 0.06:
            hosts[p]['connect'] = 'no'

    def address(i):
        s = rng.choice(('http', 'http', 'http', 'https', 'https', 'ftp'))
        h = rng.choice(HOSTS)
        p = rng.choice(('', '', '', ':8080', ':80', ':443', ':8443'))
        if p == ':80' and s == 'https' or p == ':443' and s == 'http':
            p = ''
        t = rng.choice(('/p%d', '/p%d.xml', '/d/p%d', '/?p=%d', '?p=%d',
                        '/p%d?q=a%%20b', '/a%%20b/p%d', '/%%70%d', '/p%d#f',
                        '/P%d', '/p%d/', '//p%d', '/../p%d', '/p%d;x=1',
                        '/p%d&amp', '/~p%d'))
        if rng.random() < 0.02:
            t = rng.choice(('/p %d', '/p%d\u00e9'))
        return '%s://%s%s%s' % (s, h, p, t % i)

    def server(url):
        try:
            s, h, p, t = simnet.split(url)
        except ValueError:
            return
        at = '%s:%d' % (h, p or simnet.PORTS[s])
        if at not in hosts:
            hosts[at] = {'kind': rng.choice(('up',) * 22 + (
                'refuse', 'unreach', 'hang'))}
            if rng.random() < 0.06:
                hosts[at]['cert'] = 'bad'
            if rng.random() < 0.02:
                hosts[at]['plain'] = 1
            if rng.random() < 0.15:
                hosts[at]['delay'] = rng.choice((0.01, 5.0))
            if rng.random() < 0.04:
                del hosts[at]
    nd = rng.choice((1, 2, 2, 3, 4))
    refs = []
    for i in range(nd):
        u = address(i)
        refs.append((rng.choice('PPPS'), u))
        server(u)

    def refnode(j):
        return {'t': 'R', 'kind': refs[j][0], 'ref': refs[j][1]}

    def content(i):
        kind, ref = refs[i]
        if kind == 'P':
            return dict(g.policy(), id=ref)
        n = g.policyset(1)
        for j in range(i + 1, nd):
            if rng.random() < 0.4:
                n['kids'].insert(rng.randint(0, len(n['kids'])), refnode(j))
        return dict(n, id=ref)

    def answer(node, calm=False):
        a = {'status': 200, 'node': node,
             'framing': rng.choice(('length', 'length', 'close', 'chunked')),
             'chunk': rng.choice(('all', 'all', 'rand', 7, 64)),
             'seed': rng.getrandbits(31)}
        if rng.random() < 0.15:
            a['delay'] = rng.choice((1e-3, 1.0, 100.0))
        if rng.random() < 0.15:
            a['stall'] = rng.choice((1e-4, 1.0))
        if rng.random() < 0.1:
            a['preface'] = 1
        if rng.random() < 0.15:
            a['type'] = rng.choice(('text/html', 'application/xml; charset='
                                    'iso-8859-1', 'text/plain',
                                    'application/octet-stream'))
        if calm:
            return a
        x = rng.random()
        n = len(G.to_xml(node).encode())
        if x < 0.10:
            a['status'] = rng.choice(BADSTATUS)
            if a['status'] in (204, 304):
                a['framing'] = 'length'     # no body whatever they say
        elif x < 0.22:
            where = 'head' if rng.random() < 0.15 else 'wire'
            a['cut'] = [where, rng.choice((0, 5, n, n - 1, n - 2,
                                           rng.randrange(n + 1),
                                           rng.randrange(n + 1),
                                           10 * n))]
            a['end'] = rng.choice(ENDS)
        elif x < 0.26:
            a = {'raw': rng.choice(('', 'hello\r\n\r\n', 'ICY 200 OK\r\n\r\n'
                                    + G.to_xml(node), G.to_xml(node),
                                    'HTTP/1.1 abc\r\n\r\n',
                                    'HTTP/1.1 20 OK\r\n\r\n'
                                    + G.to_xml(node)))}
            a['raw'] = a['raw'].encode('ascii', 'replace').decode()
        elif x < 0.28:
            a.pop('node')
            a['text'] = rng.choice(('', '<x/>', '<html><body>ok</body>'
                                    '</html>', 'policy'))
        return a
    pages = []

    def place(url, node, i, depth=0):
        """Pages for one address by every route."""
        first = None
        for via in ('direct',) + PROXIES:
            if first is not None and rng.random() < 0.55:
                a = dict(first)
            else:
                n = node if rng.random() < 0.5 else content(i)
                a = answer(n, rng.random() < 0.5)
                first = first or a
                if rng.random() < 0.16 and depth < 3:
                    a = redirect(url, i, depth)
                    first = dict(a)
            pages.append(dict(a, via=via, url=url))

    def redirect(url, i, depth):
        s, h, p, t = simnet.split(url)
        x = rng.random()
        a = {'status': rng.choice((301, 302, 303, 307, 308)), 'text': 'moved',
             'framing': rng.choice(('length', 'close', 'chunked')),
             'seed': 1}
        if x < 0.05:
            loc = None
        elif x < 0.11:
            loc = 'file://@S@/p.xml'
        elif x < 0.20:
            loc = rng.choice((url, refs[0][1]))
        elif x < 0.24:
            loc = 'ftp://%s/p%d' % (rng.choice(HOSTS), i)
        elif x < 0.26:
            loc = rng.choice(('jar://h/p', 'data:,x', 'gopher://h/p'))
        elif x < 0.45:
            loc = rng.choice(('/moved/p%d', 'moved%d', '?to=%d', '../up%d',
                              './m%d')) % i
        elif x < 0.52:
            loc = '//%s/moved%d' % (rng.choice(HOSTS), i)
        else:
            loc = address(i).split('#')[0].replace(' ', '%20').encode(
                'ascii', 'ignore').decode()
        if loc is not None:
            a['location'] = loc
            a['headers'] = [[rng.choice(('Location', 'location')), loc]]
            if not loc.startswith(('file:', 'jar:', 'data:', 'gopher:')):
                new = urllib.parse.urljoin(url, loc)
                try:
                    simnet.split(new)
                except ValueError:
                    return a
                server(new)
                if new not in [q['url'] for q in pages] and new != url and \
                        new not in [r[1] for r in refs]:
                    place(new, content(i), i, depth + 1)
        return a
    for i in range(nd):
        if rng.random() < 0.97:
            place(refs[i][1], content(i), i)
    root = {'t': 'S', 'id': 'urn:root', 'alg': rng.choice(G.ALGS),
            'target': None, 'kids': [g.policy(nrules=1)]}
    for j in range(nd):
        if j == 0 or rng.random() < 0.6:
            root['kids'].insert(rng.randint(0, len(root['kids'])),
                                refnode(j))
    batches = []
    env = None
    for b in range(rng.choice((1, 1, 2, 3))):
        if env is None or rng.random() < 0.7:
            env = environment(rng, refs, pages)
        loads = []
        for t in range(rng.choice((1, 1, 2, 3))):
            x = rng.random()
            loads.append(['load', rng.choice(('url', 'url', 'default'))]
                         if x < 0.7 else
                         [rng.choice(('data', 'stream')),
                          rng.choice(refs)[1]])
        bt = {'env': env, 'loads': loads,
              'sched': W.sched_spec(rng, len(loads), 2500)}
        if b and rng.random() < 0.5 and pages:
            # the documents change
            i = rng.randrange(len(pages))
            p = pages[i]
            if 'node' in p and p.get('status') == 200:
                k = [r[1] for r in refs].index(p['node']['id'])
                bt['now'] = {str(i): {'node': content(k)}}
        batches.append(bt)
    reqs = []
    for _ in range(2):
        q = C.interesting(rng, g, dict(root, kids=[
            k for k in root['kids'] if k['t'] != 'R']))
        if q.get('pip'):
            q['pip']['faults'] = {}
        reqs.append(q)
    return {'root': root, 'hosts': hosts, 'pages': pages,
            'batches': batches, 'requests': reqs}


def environment(rng, refs, pages):
    env = {}
    for s in ('http', 'https', 'ftp'):
        if rng.random() < 0.6:
            p = rng.choice(PROXIES)
            if s == 'ftp' and 'http_proxy' in env:
                p = None        # urllib sends it to the one for http
            if p is not None:
                env[s + '_proxy'] = rng.choice(('http://%s', 'http://%s/',
                                                '%s', 'http://u:pw@%s')) % p
                if s == 'ftp' and '://' not in env['ftp_proxy']:
                    env['ftp_proxy'] = 'http://' + p
    if 'http_proxy' in env and rng.random() < 0.5:
        env['ftp_proxy'] = env['http_proxy']
        if '://' not in env['ftp_proxy']:
            env['ftp_proxy'] = 'http://' + env['ftp_proxy']
    if env and rng.random() < 0.12:
        # upper case names count where there is no other
        s = rng.choice(sorted(env))
        if s != 'ftp_proxy' and s != 'http_proxy':
            env[s.upper()] = env[s]
            if rng.random() < 0.5:
                env[s] = rng.choice(('', rng.choice(PROXIES)))
            else:
                del env[s]
    if rng.random() < 0.75:
        n = rng.choice((0, 1, 1, 2, 3))
        xs = [rng.choice(EXCEPT) for _ in range(n)]
        for _ in range(rng.choice((0, 1, 1))):
            h = simnet.split(rng.choice(refs)[1])[1]
            xs.append(rng.choice(('%s', '%s', ' %s', '%s:8080', '.%s', '%s.',
                                  'x%s', '%sx')) % h)
        rng.shuffle(xs)
        env['no_proxy'] = rng.choice((',', ', ', ' , ')).join(xs)
        if rng.random() < 0.05:
            env['no_proxy'] = '*'
    if env.get('ftp_proxy'):
        # urllib asks again for the proxy itself
        host = env['ftp_proxy'].rsplit('@', 1)[-1].split('://')[-1]
        host = host.rstrip('/').rsplit(':', 1)[0]
        env2 = dict(env)
        if excepted(env2, host, host) or '*' == env.get('no_proxy'):
            env.pop('no_proxy')
    return env


# -- runs ------------------------------------------------------------------
def run(case, ctx):
    files = docs.Files()
    keep = dict((k, v) for k, v in os.environ.items()
                if k.lower().endswith('_proxy'))
    try:
        case = fill(case, files.dir)
        with open(os.path.join(files.dir, 'p.xml'), 'wb') as fh:
            for p in case['pages']:
                if p.get('node'):
                    fh.write(G.to_xml(p['node']).encode())
                    break
        for b in case['batches']:
            for k in list(os.environ):
                if k.lower().endswith('_proxy'):
                    del os.environ[k]
            os.environ.update(b['env'])
            if not batch(case, b, ctx):
                return
    finally:
        for k in list(os.environ):
            if k.lower().endswith('_proxy'):
                del os.environ[k]
        os.environ.update(keep)
        files.close()


def batch(case, b, ctx):
    m = W.mods()
    world = World(case, b)
    data = G.to_xml(case['root']).encode()
    r = W.Runner(ctx, b['sched'], step_cap=1500000)
    net = simnet.Internet(case['hosts'], world.pages, ctx, r.sched).install()
    utils = __import__('ndg.xacml.utils.urlfetcher', fromlist=['x'])
    kept = []

    def load(how):
        f = m.UrlPolicyFinder(None) if how == 'url' else None
        try:
            return m.PDP.fromPolicySource(io.BytesIO(data), m.ReaderFactory,
                                          f)
        except Exception as e:
            kept.append(e)      # as an application may
            raise

    def fetch(kind, url):
        if kind == 'data':
            return utils.fetch_data_from_url(url)
        s = utils.fetch_stream_from_url(url)
        try:
            out = []
            while True:
                x = s.read(100)
                if not x:
                    return b''.join(out)
                out.append(x)
        finally:
            s.close()

    for t, (kind, x) in enumerate(b['loads']):
        r.add('t%d' % t, [(kind, x, (lambda x=x: load(x))
                           if kind == 'load' else
                           (lambda kind=kind, x=x: fetch(kind, x)))])
    try:
        hist = r.run()
        net.sched = None
        kinds = [x[0] for x in b['loads']]
        left = [e.told() for e in net.log if not e.closed and
                e.status in (200, 204) and e.task is not None and
                kinds[e.task] == 'load']
        del kept[:]
        gc.collect()
    finally:
        net.remove()
    for h in hist:
        if h.out is None or h.out[1] == 'StepCap':
            return False
        told = []
        for e in net.log:
            if e.task == h.task:
                c = e.told()
                if c[4] is not None and '://' in c[4].split('?')[0][:8]:
                    c[4] = simnet.canon(c[4])
                elif c[4] is not None:
                    c[4] = c[4].split('#')[0]
                told.append(c)
                if e.tls is not None and not e.checked:
                    ctx.viol('unverified', 'the certificate of %s was not '
                             'verified' % e.tls)
                    return False
        what = '%s %s with %s' % (h.kind, h.arg, b['env'])
        ok = h.out[0] == 'ok'
        if h.kind == 'load':
            texts = Texts(world)
            want = xmlnode.graph(data, texts, None)
            due, lax = texts.contacts, texts.lax or want[2]
        else:
            due, body, lax = world.fetch(h.arg)
            want = ('reject', 'no answer') if body is None else ('ok', body)
            if lax == 'cut' and h.kind == 'data':
                want = ('reject', 'the answer is not complete')
        ctx.ev(h.kind, h.task, 'ok' if ok else h.out[1], len(told))
        ctx.probe('%s: %s' % (h.kind, want[0]))
        if told != due[:len(told)] or ok and len(told) != len(due):
            ctx.viol('route', '%s: contacts %r, due %r (%s)' % (
                what, told, due, want[:2]))
            return False
        if want[0] == 'unknown':
            continue
        if want[0] == 'reject':
            if ok:
                ctx.viol('accepted', '%s succeeded although %s; contacts %r'
                         % (what, want[1], told))
                return False
            continue
        if not ok:
            if lax:
                continue
            ctx.viol('refused', '%s raised %s: %s; contacts %r, due %r' % (
                (what,) + h.out[1:] + (told, due)))
            return False
        if h.kind != 'load':
            if h.out[1] != want[1] and not lax:
                ctx.viol('data', '%s gave %.80r (%d), the server %.80r (%d)'
                         % (what, h.out[1], len(h.out[1]), want[1],
                            len(want[1])))
                return False
            continue
        got = struct(h.out[1].policy)
        if got != nstruct(want[1]):
            ctx.viol('other policy', '%s gave %.600r, the documents say '
                     '%.600r' % (what, got, nstruct(want[1])))
            return False
        for j, q in enumerate(case['requests']):
            req = W.Req(q, None)
            out = W.attempt(lambda: W.decide(h.out[1], req.obj))
            ctx.ev('eval', j, out[:2])
            if not C.check_eval(ctx, 'request %d' % j, out,
                                model.decide(want[1], q)):
                return False
    left += [e.told() for e in net.log if not e.closed]
    if left:
        ctx.viol('left open', 'connections left open: %r' % left)
        return False
    if net.odd:
        ctx.viol('odd', '%r' % net.odd)
        return False
    return True
