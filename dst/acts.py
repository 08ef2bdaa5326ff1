"""Operations of an application on the library, shared by the checks whose
workload is a history: fresh loads, evaluations on PDPs in service, XML
conversions.  An operation is plain data; Acts turns it into a call."""
import io
import os

from . import gen as G
from . import docs
from . import model
from . import xmlnode
from . import world as W
from . import common as C

ADDRESSES = ('http://h/%d', 'http://h/%d', 'http://h/%d', 'https://h/%d',
             'https://u:p@h.example/x/%d?y=z', 'ftp://h/%d', 'http://[::1]:8/%d',
             'file:///dst/h/%d', './d/%d', '%d')
PROXIES = ({}, {}, {'no_proxy': 'h'}, {'no_proxy': 'other, h.example ,h'},
           {'http_proxy': 'http://proxy.example:3128', 'no_proxy': ''},
           {'https_proxy': 'http://proxy.example:3128'})


def gen_world(rng, opts=None, npol=None, remote=0.4, quiet=False,
              open_ended=0.0):
    """Policies (part of them naming policies of other documents) and
    requests."""
    o = opts or G.Opts(rng, errors=rng.random() < 0.3)
    if rng.random() < 0.6:
        o.salt = 'a%d' % rng.randrange(10 ** 9)
    g = G.Gen(rng, o)
    pols, rem = [], {}
    for i in range(npol or rng.choice((1, 2, 3))):
        p = g.any_policy()
        if rng.random() < 0.2:
            G.add_local_refs(rng, p, 0.2)
        if G.size(p, G.index(p)) > 35:
            p = g.policy()
        if rng.random() < remote:
            url = rng.choice(ADDRESSES) % i
            sub = dict(g.policy() if rng.random() < 0.6
                       else g.policyset(1), id=url)
            rem[url] = sub
            p = {'t': 'S', 'id': 'urn:set:%d' % i, 'alg': rng.choice(G.ALGS),
                 'target': None,
                 'kids': [p, {'t': 'R', 'kind': sub['t'], 'ref': url}]}
        pols.append(p)
    w = {'policies': pols, 'remote': rem, 'env': rng.choice(PROXIES)}
    refs = refs_of(w)
    reqs = []
    for _ in range(rng.choice((1, 2, 3))):
        i = rng.randrange(len(pols))
        if rng.random() < open_ended:
            # a failing part may or may not matter, by the order of work
            q = C.interesting(rng, g, pols[i], 15, refs[i],
                              lambda q, d: len(d) > 1)
        else:
            q = C.interesting(rng, g, pols[i], refs=refs[i])
        if quiet and q.get('pip'):
            q['pip']['faults'] = {}
        reqs.append(q)
    w['requests'] = reqs
    return w, g


def address(ref):
    """Where the finder of Acts has to look for a reference."""
    return xmlnode.url_of('/usr', ref)


def refs_of(w):
    out = []
    for p in w['policies']:
        ix = G.index(p)
        for u, r in w['remote'].items():
            G.index(r, ix)
        out.append(ix)
    return out


def gen_op(rng, w, npdp, kinds=('load', 'load', 'eval', 'eval', 'eval',
                                'xml', 'resp')):
    k = rng.choice(kinds)
    q = rng.randrange(len(w['requests']))
    if k == 'load':
        i = rng.randrange(len(w['policies']))
        return {'op': 'load', 'doc': i, 'q': q,
                'via': rng.choice(('stream', 'stream', 'elem', 'path')),
                'stream': docs.delivery(rng, False)}
    if k == 'xml':
        return {'op': 'xml', 'q': q}
    return {'op': k, 'pdp': rng.randrange(npdp), 'q': q}


def fetches(w, i):
    s = repr(w['policies'][i])
    return any(repr(u) in s for u in w['remote'])


def gen_fault(rng, w, op, excs):
    """A transient fault for one attempt at op."""
    x = rng.random()
    if op['op'] == 'load':
        if x < 0.2:
            n = 1500
            return {'stream': docs.delivery(rng, True, n)}
        if x < 0.4 and fetches(w, op['doc']):
            if rng.random() < 0.5:
                return {'net': rng.choice(W.NET_FAULTS)}
            return {'netstream': docs.delivery(rng, True, 400)}
    q = w['requests'][op['q']]
    if op['op'] in ('eval', 'load', 'resp') and q.get('pip') and x < 0.55:
        return {'nth': [rng.choice((1, 1, 2, 3)), rng.choice(G.PIP_FAULTS)]}
    return {'inject': C.injected(rng, excs)}


def struct(e):
    return [str(e.tag), sorted((str(k), str(v)) for k, v in e.attrib.items()),
            e.text or '', [struct(c) for c in e]]


def full(q):
    """XML output needs an action and an environment."""
    q = dict(q)
    q['action'] = q['action'] or []
    q['env'] = q['env'] or []
    q['content'] = None
    return q


class Acts(object):
    def __init__(self, w, ctx, npdp=1, finder='url'):
        self.w = w
        self.ctx = ctx
        self.m = W.mods()
        self.xml = [G.to_xml(p).encode() for p in w['policies']]
        self.refs = refs_of(w)
        for k in ('http_proxy', 'https_proxy', 'no_proxy'):
            os.environ.pop(k, None)
        os.environ.update(w.get('env') or {})
        self.net = W.Net({}, ctx, None).install()
        self.quiet()
        self.files = None
        self.faulty = {}        # id of a fault -> the stream it was put in
        self.streams = []       # (SimStream, closed by the library allowed)
        self.pdps = [W.load_bytes(x, self.finder())
                     for x in self.xml[:npdp]]

    def finder(self):
        return self.m.UrlPolicyFinder('/usr')

    def quiet(self):
        self.net.docs = self.docs(None)

    def docs(self, f):
        out = {}
        for u, p in self.w['remote'].items():
            d = {'data': G.to_xml(p).encode()}
            if f and f.get('net'):
                d['fault'] = f['net']
            if f and f.get('netstream'):
                d['spec'] = f['netstream']
            out[address(u)] = d
        return out

    def close(self):
        if self.files:
            self.files.close()

    def source(self, op, f, sched, ctx):
        data = self.xml[op['doc']]
        if f and f.get('stream'):
            s = W.SimStream(data, f['stream'], ctx, sched)
            self.faulty[id(f)] = s
        elif op['via'] == 'elem':
            return self.m.ET.parse(io.BytesIO(data)).getroot()
        elif op['via'] == 'path':
            if self.files is None:
                self.files = docs.Files()
            return self.files.write(data)
        else:
            s = W.SimStream(data, op['stream'], ctx, sched)
        self.streams.append(s)
        return s

    def load(self, op, f=None, sched=None, ctx=None):
        return self.m.PDP.fromPolicySource(
            self.source(op, f, sched, ctx), self.m.ReaderFactory,
            self.finder())

    def request(self, j, f=None, sched=None, ctx=None):
        q = self.w['requests'][j]
        if f and f.get('nth') and q.get('pip'):
            q = dict(q, pip=dict(q['pip'], nth=f['nth']))
        self.last = W.Req(q, ctx, sched)
        return self.last

    def call(self, op, f=None, sched=None, ctx=None, pdps=None):
        """The call an operation stands for.  f: transient fault."""
        pdps = pdps or self.pdps
        k = op['op']
        if k == 'load':
            req = self.request(op['q'], f, sched, ctx)
            if f and (f.get('net') or f.get('netstream')):
                d = self.docs(f)

                def go():
                    self.net.docs = d
                    try:
                        return W.decide(self.load(op, f, sched, ctx),
                                        req.obj)
                    finally:
                        self.quiet()
                return go
            return lambda: W.decide(self.load(op, f, sched, ctx), req.obj)
        if k == 'eval':
            req = self.request(op['q'], f, sched, ctx)
            return lambda: W.decide(pdps[op['pdp'] % len(pdps)], req.obj)
        if k == 'resp':
            req = self.request(op['q'], f, sched, ctx)
            from ndg.xacml.parsers.etree import context as X

            def resp():
                r = pdps[op['pdp'] % len(pdps)].evaluate(req.obj)
                v = W.verdict(r)
                e = X.ResponseElementTree.toXML(r)
                back = W.verdict(X.ResponseElementTree.fromXML(e))
                return v if back == v else '%s/%s' % (v, back)
            return resp
        from ndg.xacml.parsers.etree import context as X
        from ndg.xacml.utils.etree import prettyPrint
        q = full(self.w['requests'][op['q']])
        req = W.Req(q, None)

        def xml():
            e = X.RequestElementTree.toXML(req.obj)
            text = prettyPrint(e)
            back = X.RequestElementTree.fromXML(
                self.m.ET.fromstring(text.encode('utf-8')))
            return [struct(e), text, W.snapshot(back)]
        return xml

    def expected(self, op):
        """Result of the operation alone, in a copy of the process."""
        self.net.sched = None
        return C.solo(self.call(op))

    def allowed(self, op):
        """Decisions the model allows, None for an XML operation."""
        if op['op'] == 'xml':
            return None
        i = op['doc'] if op['op'] == 'load' else op['pdp'] % len(self.pdps)
        return model.decide(self.w['policies'][i],
                            self.w['requests'][op['q']], refs=self.refs[i])

    def check_alone(self, op, out):
        """A violation text if the undisturbed result itself is wrong."""
        a = self.allowed(op)
        if out[0] != 'ok':
            return 'alone: %r raised %r' % (op, out)
        if a is not None and out[1] not in a:
            return 'alone: %r gave %s; only %s possible' % (
                op, out[1], sorted(a))
        return None

    def dry(self, op, f=None, opcode=False):
        sc, self.net.sched = self.net.sched, None
        try:
            return W.dry_points(self.call(op, f), opcode)
        finally:
            self.net.sched = sc


def _tidy(out):
    import json
    return json.loads(json.dumps(out))


def same(a, b):
    """Equal outcomes (messages of exceptions are not compared)."""
    a, b = _tidy(a), _tidy(b)
    return a[:2] == b[:2]
