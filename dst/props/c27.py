"""Long service: what is finished must leave nothing behind."""
import copy
import gc
import os
import re
import sys
import threading

from dst import core, docs, gen as G, world as W

QUICK = 100
RULE = ('Rounds of 1-5 operations (evaluations, loads by bytes, path and '
        'address, replacements, XML writing and reading, imports, '
        'registrations under one name, and each of them failing: sources '
        'and streams that raise, cut documents, missing and circular '
        'references, cancellations), alone or in 2-3 simulated threads, each '
        'round with identifiers and values never used before; 45 rounds, and '
        'up to 1400 more where something seems to grow.')
ORACLE = ('memory blocks of the interpreter, sizes of its containers, open '
          'files and threads between rounds: nothing may grow in proportion '
          'to the rounds')
EXCS = ('MemoryError', 'OSError', 'SimCancel', 'KeyboardInterrupt',
        'SourceDown')
CUTS = (15, 30, 45)
MORE = (100, 250, 700, 1500)
SUFFIX = re.compile(
    r'(<(?:Policy|PolicySet|Rule)\b[^>]*?(?:PolicyId|PolicySetId|RuleId)=")'
    r'([^"]*)(")')
REFS = re.compile(r'(<Policy(?:Set)?IdReference>)([^<]*)(<)')
VALS = re.compile(r'(<AttributeValue DataType="%s">)([^<]*)(<)'
                  % re.escape(G.STR))

PATHS = re.compile(r'(RequestContextPath=")([^"]*)(")')


def rename(xml, r, vals):
    """The document with identifiers of its own."""
    x = SUFFIX.sub(r'\1\2-r%d\3' % r, xml)
    x = REFS.sub(r'\1\2-r%d\3' % r, x)
    if vals > 1:
        x = PATHS.sub(r'\1\2[@r%d]\3' % r, x)
    if vals & 1:
        x = VALS.sub(r'\1\2r%d\3' % r, x)
    return x.replace('AttributeId="urn:new"', 'AttributeId="urn:new:%d"' % r)


def vary(spec, r, how):
    """The request with content of its own."""
    q = copy.deepcopy(spec)
    for h in q['subjects'] + q['resources'] + [q['action'] or [],
                                               q['env'] or []]:
        if how & 1:
            h.append({'id': 'urn:new:%d' % r, 'dt': G.STR,
                      'iss': 'urn:iss:%d' % r, 'vals': ['v%d' % r]})
        if how & 2:
            for a in h:
                if a['dt'] == G.STR and not a.get('app'):
                    a['vals'] = ['%sr%d' % (v, r) for v in a['vals']]
    return q


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.4)
    o.depth = rng.choice((1, 1, 2))
    o.max_rules = 2
    g = G.Gen(rng, o)
    pols = []
    while len(pols) < 3:
        n = g.policy() if rng.random() < 0.6 else g.policyset(1)
        if G.size(n, G.index(n)) <= 8:
            pols.append(n)
    reqs = [g.request() for _ in range(3)]

    def op(deep=True):
        y = rng.random()
        p, q, h = rng.randrange(3), rng.randrange(3), rng.randrange(4)
        e = rng.choice(EXCS)
        if y < 0.16:
            return ['eval', p, q, h]
        if y < 0.24:
            return ['keep', p, q, h]
        if y < 0.32:
            return ['fails', p, q, h, e]
        if y < 0.48:
            return ['load', p, q, h, rng.choice(('bytes', 'path', 'stream'))]
        if y < 0.58:
            return ['damaged', p, rng.random(), h,
                    rng.choice(('cut', 'cut', e))]
        if y < 0.68:
            return ['remote', p, q, h, rng.choice(
                ('ok', 'ok', '404', 'timeout', 'circle', 'cut', 'other'))]
        if y < 0.76:
            return ['replace', p, q, h, rng.choice(('ok', 'ok', 'cut', e))]
        if y < 0.84:
            return ['xml', rng.random() < 0.5, q, h]
        if y < 0.88:
            return ['path', rng.randrange(3)]
        if y < 0.91:
            return ['reg', rng.randrange(2)]
        if y < 0.94:
            return ['pattern', q]
        if not deep:
            return ['eval', p, q, h]
        n = rng.choice((2, 2, 3))
        return ['threads', [[op(False) for _ in range(rng.choice((1, 2)))]
                            for _ in range(n)],
                rng.choice(({'kind': 'none'}, {'kind': 'rand', 'p': 0.1,
                                               'seed': rng.getrandbits(32)},
                            {'kind': 'gaps', 'm': 20,
                             'seed': rng.getrandbits(32)}))]
    return {'policies': pols, 'requests': reqs,
            'ops': [op() for _ in range(rng.choice((1, 2, 3, 5)))]}


def run(case, ctx):
    files = docs.Files()
    try:
        body(case, ctx, files)
    finally:
        files.close()


def measure():
    import urllib.parse
    re.purge()
    urllib.parse.clear_cache()
    sys._clear_type_cache()
    for _ in range(3):
        gc.collect()
    blocks = sys.getallocatedblocks()
    size = 0
    for x in gc.get_objects():
        if type(x) in (list, dict, set):
            size += len(x)
    x = None
    return {'memory blocks': blocks, 'elements of containers': size,
            'open files': len(os.listdir('/proc/self/fd')),
            'threads': threading.active_count(),
            'modules': len(sys.modules)}


PATTERN = (
    '<Policy xmlns="%s" PolicyId="pat" RuleCombiningAlgId="%s"><Target/>'
    '<Rule RuleId="r" Effect="Permit"><Condition><Apply FunctionId='
    '"%sstring-regexp-match"><Apply FunctionId="%sstring-one-and-only">'
    '<SubjectAttributeDesignator AttributeId="urn:pat" DataType="%s"/>'
    '</Apply><AttributeValue DataType="%s">abc</AttributeValue></Apply>'
    '</Condition></Rule></Policy>') % (
        G.NS, G.RALG['first'], G.F1, G.F1, G.STR, G.STR)


def pattern(pdp, r):
    """A regular expression out of a request."""
    return W.decide(pdp, W.Req({
        'subjects': [[{'id': 'urn:pat', 'dt': G.STR, 'iss': None,
                       'vals': ['abc|%d' % r]}]],
        'resources': [[]], 'action': [], 'env': []}, None).obj)


def roundtrip(m, obj, pdp, pretty):
    from ndg.xacml.parsers.etree import context as X
    from ndg.xacml.utils.etree import prettyPrint
    e = X.RequestElementTree.toXML(obj)
    x = prettyPrint(e).encode() if pretty else m.ET.tostring(e)
    b = X.RequestElementTree.fromXML(m.ET.fromstring(x))
    b.attributeSelector = m.EtreeXPathSelector(b.elem)
    r = pdp.evaluate(b)
    y = m.ET.tostring(X.ResponseElementTree.toXML(r))
    z = X.ResponseElementTree.fromXML(m.ET.fromstring(y))
    return z.results[0].decision.value


def body(case, ctx, files):
    m = W.mods()
    gc.unfreeze()
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    from ndg.xacml.utils.factory import callModuleObject
    pols = [G.to_xml(n) for n in case['policies']]
    reqs = case['requests']
    net = W.Net({}, None, None, cap=10 ** 9).install()
    sched = [None]
    for k in range(3):
        d = os.path.join(files.dir, 'd%d' % k)
        os.mkdir(d)
        with open(os.path.join(d, 'dst_stay_%d.py' % k), 'w') as fh:
            fh.write('class K(object):\n    n = %d\n' % k)

    class Same(AbstractFunction):
        FUNCTION_NS = 'urn:t:stay'

        def evaluate(self, a, b):
            return a.value == b.value

    def finder():
        return m.UrlPolicyFinder('/usr')
    pdps = [W.load_bytes(x.encode(), finder()) for x in pols]
    patpdp = W.load_bytes(PATTERN.encode(), finder())
    keptreqs = [W.Req(q, None) for q in reqs]
    kept = [q.obj for q in keptreqs]
    out = []
    rnd = [0]

    class Handler(m.CtxHandlerBase):
        def __init__(self, exc):
            super(Handler, self).__init__()
            self.exc = exc

        def handlePEPRequest(self, r):
            pass

        def pipQuery(self, context, designator):
            raise W.make_exc(self.exc)

    def source(xml, how, exc=None, frac=0.5):
        data = xml.encode()
        if exc == 'cut':
            data = data[:int(len(data) * frac)]
            exc = None
        if how == 'path':
            return files.write(data, 'x.xml')
        return W.SimStream(data, {'chunk': 60, 'fault': None if exc is None
                                  else ['error', int(len(data) * frac),
                                        exc]}, None, sched[0])

    def do(op):
        r = rnd[0]
        k = op[0]
        if k == 'eval':
            return W.decide(pdps[op[1]], W.Req(vary(reqs[op[2]], r, op[3]),
                                               None).obj)
        if k == 'keep':
            return W.decide(pdps[op[1]], kept[op[2]])
        if k == 'fails':
            q = W.Req(vary(reqs[op[2]], r, op[3]), None).obj
            q.ctxHandler = Handler(op[4])
            return W.decide(pdps[op[1]], q)
        if k in ('load', 'damaged', 'replace'):
            xml = rename(pols[op[1]], r, op[3])
            if k == 'load':
                p = m.PDP.fromPolicySource(source(xml, op[4]),
                                           m.ReaderFactory, finder())
                return W.decide(p, W.Req(vary(reqs[op[2]], r, op[3]),
                                         None).obj)
            if k == 'damaged':
                p = m.PDP.fromPolicySource(
                    source(xml, 'stream', op[4], op[2]), m.ReaderFactory,
                    finder())
                return 'loaded'
            s = source(xml, 'stream', None if op[4] == 'ok' else op[4])
            pdps[op[1]].setPolicyFromSource(s, m.ReaderFactory, finder())
            return W.decide(pdps[op[1]], kept[op[2]])
        if k == 'remote':
            url = 'http://dst/doc%d' % r
            kind = 'Policy' if '<PolicySet' not in pols[op[1]] else \
                'PolicySet'
            sub = rename(pols[op[1]], r, 0)
            sub = re.sub(r'(<%s\b[^>]*?%sId=")[^"]*' % (kind, kind),
                         r'\g<1>' + url, sub, count=1)
            top = ('<PolicySet xmlns="%s" PolicySetId="top%d" '
                   'PolicyCombiningAlgId="%s"><Target/><%sIdReference>%s'
                   '</%sIdReference></PolicySet>' % (
                       G.NS, r, G.PALG['first'], kind, url, kind))
            data, fault = sub, None
            if op[4] == 'cut':
                data = sub[:len(sub) // 2]
            elif op[4] == 'other':
                data = sub.replace(url, url + 'x')
            elif op[4] == 'circle':
                top = top.replace('PolicyIdRef', 'PolicySetIdRef')
                data = top.replace('"top%d"' % r, '"%s"' % url)
            elif op[4] != 'ok':
                fault = op[4]
            net.docs = {url: {'data': data.encode(), 'fault': fault,
                              'spec': {'chunk': 80}}}
            p = m.PDP.fromPolicySource(source(top, 'stream'),
                                       m.ReaderFactory, finder())
            return W.decide(p, W.Req(vary(reqs[op[2]], r, 0), None).obj)
        if k == 'xml':
            q = vary(reqs[op[2]], r, op[3])
            q.pop('pip', None)
            q.pop('content', None)
            return roundtrip(m, W.Req(q, None).obj, pdps[0], op[1])
        if k == 'path':
            return callModuleObject('dst_stay_%d:K' % op[1],
                                    moduleFilePath=os.path.join(
                                        files.dir, 'd%d' % op[1])).n
        if k == 'reg':
            functionMap.load_custom_function('urn:t:stay:%d' % op[1],
                                             lambda ns: Same)
            return None
        if k == 'pattern':
            return pattern(patpdp, r)
        raise KeyError(k)

    def step():
        rnd[0] += 1
        del out[:]
        for op in case['ops']:
            if op[0] != 'threads':
                out.append((op[0], W.attempt(lambda: do(op))[:2]))
                continue
            c = core.Ctx(case)
            run_ = W.Runner(c, op[2])
            sched[0] = net.sched = run_.sched
            for i, t in enumerate(op[1]):
                run_.add('t%d' % i, [(x[0], None, (lambda x=x: do(x)))
                                     for x in t])
            for h in run_.run():
                out.append((h.kind, h.out and h.out[:2]))
            sched[0] = net.sched = None
            if c.viols:
                ctx.viols.extend(c.viols)
            ctx.steps += c.steps
            ctx.preempt += c.preempt
            ctx.vtime += c.vtime
        for q in keptreqs:
            if q.pip is not None:
                # the notes of the simulated source
                del q.pip.log[:], q.pip.failed[:]
                q.pip.n = 0
        del net.log[:], net.streams[:]
        files.n = 0

    def rounds(upto):
        while rnd[0] < upto:
            step()
        return measure()
    step()
    for k, o in out:
        ctx.probe('%s %s' % (k, o[0] if o else 'none'))
        ctx.ev(k, o)
        if o and o[0] != 'ok':
            ctx.fault('%s raises' % k)
    ms = [rounds(n) for n in CUTS]
    ctx.ops += rnd[0] * len(case['ops'])
    width = sum(1 if x[0] != 'threads' else 3 * sum(map(len, x[1]))
                for x in case['ops'])
    sus = growing(ms, CUTS)
    at = list(CUTS)
    for n in MORE:
        if not sus or n > 250 and n * width > 3000:
            break
        ms.append(rounds(n))
        at.append(n)
        sus = [k for k in sus if rate(ms, at, k) >= 0.9]
    ctx.ev('rounds', at[-1], 'suspect', len(sus))
    for k in sus:
        ctx.viol('grows', '%s: %.1f more with each round, %d rounds of %s' % (
            k, rate(ms, at, k), at[-1],
            [x[:1] + x[4:] for x in case['ops']]))
        return


def rate(ms, at, k):
    return (ms[-1][k] - ms[-2][k]) / float(at[-1] - at[-2])


def growing(ms, at):
    return [k for k in sorted(ms[0]) if rate(ms, at, k) >= 0.9 and
            rate(ms[:-1], at[:-1], k) >= 0.9]
