"""Policies spread over many documents."""
import copy
import io
import json
import os

from dst import docs, gen as G, model, xmlnode, world as W
from dst import common as C

QUICK = 480
RULE = ('Graphs of 1-5 documents on a simulated network (http, https, ftp, '
        'file) or in a scratch directory, absolute and relative references, '
        'inline policies with similar identifiers, decoy documents at '
        'neighbouring addresses; the finders of the library (by address, '
        'local, default without a base path) and one of an application; '
        'missing, unreachable, damaged, misdeclared or failing documents; '
        '1-3 loads at once under a seeded scheduler.')
ORACLE = ('an independent reader that follows the references '
          '(dst/xmlnode.py) and the model on the tree it gives; order and '
          'identity of every child')
STYLES = ('http://h/%s', 'https://h/%s', 'ftp://h/%s', 'file://@S@/abs/%s',
          'file://./sub/%s', 'file://dir/%s', './%s', '%s', 'sub/%s',
          '@S@/abs/%s', 'urn:p:%s', 'http://h/p?q=%s', '../%s')
SIMILAR = (lambda r: r + '0', lambda r: r.upper(), lambda r: r[:-1] or 'x',
           lambda r: r + '#a', lambda r: r + '/', lambda r: r,
           lambda r: './' + r, lambda r: r.split('/')[-1] or 'x',
           lambda r: r.split(':')[-1].strip('/') or 'x',
           lambda r: r.rsplit('.', 1)[0] or 'x', lambda r: r.lower(),
           lambda r: ' ' + r)
BASES = ('@S@/base', '@S@/base/')


GIVES = ('none', 'none', 'none', 'junk', 'response', 'raise:KeyError',
         'raise:LookupError', 'raise:StopIteration', 'raise:OSError',
         'raise:ValueError', 'raise:AttributeError')


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.15, selectors=False)
    o.max_rules = 3
    g = G.Gen(rng, o)
    fs = rng.random() < 0.35
    base = rng.choice(BASES)
    nd = rng.choice((1, 2, 2, 3, 4, 5))
    chain = rng.random() < 0.04
    if chain:           # each document refers to the next one
        nd = rng.choice((7, 9, 12, 18, 26))
    refs = []
    for i in range(nd):
        s = rng.choice(STYLES)
        if fs and not s.startswith(('http', 'ftp')) and '?' in s:
            s = '%s'
        refs.append(('S' if chain and i < nd - 1 else
                     rng.choice('PPS'), s % rng.choice((
            'p%d' % i, 'p%d.xml' % i, 'd/p%d' % i, '%d' % (10 ** i)))))
    cyc = rng.random() < 0.08

    def refnode(j):
        return {'t': 'R', 'kind': refs[j][0], 'ref': refs[j][1]}

    def with_refs(n, js):
        """Puts references at random places of a set."""
        sets = [n]

        def walk(x):
            for k in x.get('kids', ()):
                if k['t'] == 'S':
                    sets.append(k)
                    walk(k)
        walk(n)
        for j in js:
            ks = rng.choice(sets)['kids']
            ks.insert(rng.randint(0, len(ks)), refnode(j))
        return n

    def later(i):
        if chain:
            return [i + 1] if i < nd - 1 else []
        js = [j for j in range(i + 1, nd) if rng.random() < 0.45]
        if cyc and rng.random() < 0.5:
            js.append(rng.randrange(nd))
        return js
    out = []
    for i, (kind, ref) in enumerate(refs):
        n = g.policy() if kind == 'P' else with_refs(g.policyset(1),
                                                     later(i))
        out.append(dict(n, id=ref))
    root = {'t': 'S', 'id': 'urn:root', 'alg': rng.choice(G.ALGS),
            'target': None,
            'kids': [g.policy(nrules=1), with_refs(g.policyset(2), [])]}
    js = list(range(nd))
    local = rng.random() < 0.12
    if local:
        # nothing but what was read before can be referred to
        for j in js:
            if rng.random() < 0.85:
                k = refs[j][0]
                if rng.random() < 0.12:
                    k = 'S' if k == 'P' else 'P'
                n = g.policy() if k == 'P' else g.policyset(1)
                root['kids'].insert(0, dict(n, id=refs[j][1]))
    with_refs(root, [0] if chain else
              [j for j in js if rng.random() < 0.6] or [0])
    if rng.random() < 0.25:         # twice
        with_refs(root, [rng.randrange(nd)])
    # inline policies whose identifiers resemble a reference
    for _ in range(rng.choice((0, 0, 1, 2))):
        kind, ref = rng.choice(refs)
        how = rng.randrange(len(SIMILAR))
        i = SIMILAR[how](ref)
        k = kind if how != 5 else ('S' if kind == 'P' else 'P')
        n = g.policy() if k == 'P' else g.policyset(1)
        root['kids'].insert(rng.randint(0, len(root['kids'])),
                            dict(n, id=i))
    if rng.random() < 0.12:
        # the policy itself stands in the root document, before or after
        j = rng.randrange(nd)
        n = g.policy() if refs[j][0] == 'P' else g.policyset(1)
        root['kids'].insert(rng.randint(0, len(root['kids'])),
                            dict(n, id=refs[j][1]))
    dl = []
    for (kind, ref), n in zip(refs, out):
        d = {'url': xmlnode.url_of(base, ref), 'node': n}
        x = rng.random() * (8 if chain else 1)
        if x < 0.05:
            d['fault'] = 'missing'
        elif x < 0.10 and not fs:
            d['fault'] = rng.choice(W.NET_FAULTS)
        elif x < 0.15:
            d['damage'] = docs.damage(rng, G.to_xml(n).encode())
        elif x < 0.19 and not fs:
            d['spec'] = docs.delivery(rng, True, 500)
        elif x < 0.25:
            k = rng.randrange(4)
            if rng.random() < 0.5:
                # no other policy may stand in
                i = rng.choice(SIMILAR)(ref)
                p = g.policy() if kind == 'P' else g.policyset(1)
                if i != ref:
                    root['kids'].insert(0, dict(p, id=i))
            if k == 0:
                d['node'] = dict(n, id=ref + rng.choice(('0', '/', ' ')))
            elif k == 1:
                d['node'] = dict(g.policyset(1) if kind == 'P'
                                 else g.policy(), id=ref)
            elif k == 2:
                d['node'] = dict(n, id=rng.choice(refs)[1])
            else:
                d['node'] = {'t': 'S', 'id': 'urn:wrap', 'alg': 'first',
                             'target': None, 'kids': [n]}
        if 'spec' not in d and not fs:
            d['spec'] = docs.delivery(rng, False)
        if rng.random() < 0.3:
            d['delay'] = rng.choice((1e-4, 0.1, 30.0))
        dl.append(d)
    # decoys
    known = set(d['url'] for d in dl)
    default = not local and rng.random() < 0.12     # has no base path
    if default and rng.random() < 0.7:
        # what the references name in the working directory
        for (kind, ref), n in zip(refs, out):
            if not ref.startswith(('http', 'ftp', 'file', '/', '@')):
                u = 'file://@S@/cwd/' + ref
                if u not in known and not (fs and '..' in ref):
                    known.add(u)
                    dl.append({'url': u, 'node': n, 'decoy': 1})
    for _ in range(rng.choice((0, 1, 2, 4))):
        kind, ref = rng.choice(refs)
        u = xmlnode.url_of(base, ref)
        tail = ref.split('://')[-1].lstrip('./')
        c = rng.choice((
            'file://@S@/' + tail, 'file://@S@/cwd/' + tail,
            'file://@S@/abs/' + tail, 'file://@S@/base/' + tail,
            'file://@S@/base/sub/' + tail, 'file://@S@/base/' +
            os.path.basename(ref), 'http://h/' + tail, 'https://h/' + tail,
            u + '/', u + '.xml', u.upper(), 'file:///' + tail,
            'file://' + ref))
        if c in known or os.path.normpath(c) in [
                os.path.normpath(x) for x in known]:
            continue
        known.add(c)
        if fs and not c.startswith('file://@S@/'):
            continue
        n = g.policy() if kind == 'P' else g.policyset(1)
        dl.append({'url': c, 'node': dict(n, id=ref), 'decoy': 1})
    if fs:      # nothing may be written outside the scratch directory
        dl = [d for d in dl if not d['url'].startswith('file:') or
              d['url'].startswith('file://@S@/')]
    tree = xmlnode.graph(G.to_xml(root).encode(), {} if local else
                         dict((d['url'], G.to_xml(d['node']).encode())
                              for d in dl), base)
    reqs = []
    for _ in range(3):
        q = C.interesting(rng, g, tree[1] if tree[0] == 'ok' else
                          dict(root, kids=[k for k in root['kids']
                                           if k['t'] != 'R' and
                                           'PolicyIdR' not in G.to_xml(k) and
                                           'SetIdR' not in G.to_xml(k)]))
        if q.get('pip'):
            q['pip']['faults'] = {}
        reqs.append(q)
    finder = 'url'
    if local:
        finder = 'local'
    elif default:
        finder = 'default'
    elif not fs and rng.random() < 0.2:
        finder = 'app'
        for d in dl:
            if not d.get('decoy') and (d.get('fault') or
                                       rng.random() < 0.08):
                d['fault'] = rng.choice(GIVES)
    nt = rng.choice((1, 1, 1, 1, 2, 2, 3))
    via = rng.choice(('stream', 'stream', 'elem'))
    if fs and '@S@/base' == base and finder == 'url':
        via = rng.choice(('path', 'file', 'rel', 'stream', 'relfile'))
    return {'root': root, 'docs': dl, 'base': base, 'fs': fs,
            'requests': reqs, 'threads': nt, 'via': via, 'finder': finder,
            'sched': W.sched_spec(rng, nt, 2500)}


def app_finder(case, sched, ctx, m):
    """A policy finder of the application: documents from a store of its
    own, some of which it does not get at."""
    store = dict((d['url'], d) for d in case['docs'])

    class AppFinder(m.PolicyFinderBase):
        def __init__(self):
            m.PolicyFinderBase.__init__(self)
            self.open = set()

        def find(self, known, ref, common):
            sched.external('finder')
            if ref in known:
                return known[ref]
            url = xmlnode.url_of(case['base'], ref)
            d = store.get(url)
            if d is None:
                return None
            if d.get('delay'):
                sched.sleep(d['delay'])
            how = d.get('fault')
            if how:
                ctx.fault('finder ' + how)
            if how == 'none':
                return None
            if how == 'junk':
                return 'a policy'
            if how == 'response':
                return m.Response()
            if how:
                raise W.make_exc(how.split(':')[1])
            if url in self.open:
                raise ValueError('circular reference')
            self.open.add(url)
            try:
                data = docs.apply(d.get('damage'),
                                  G.to_xml(d['node']).encode())
                m.PolicyBase.fromNestedSource(
                    W.SimStream(data, d.get('spec'), ctx, sched), common)
            finally:
                self.open.discard(url)
            return known.get(ref)

        def findPolicy(self, ref, common):
            return self.find(self.policyMap, ref, common)

        def findPolicySet(self, ref, common):
            return self.find(self.policySetMap, ref, common)
    return AppFinder()


def fill(case, d):
    return json.loads(json.dumps(case).replace('@S@', d))


def struct(p):
    """What a loaded policy says about itself."""
    if hasattr(p, 'rules'):
        return ['P', p.policyId, p.ruleCombiningAlgId,
                [[r.id, str(r.effect.value)] for r in p.rules]]
    return ['S', p.policySetId, p.policyCombiningAlgId,
            [struct(k) for k in p.policies]]


def nstruct(n):
    if n['t'] == 'P':
        return ['P', n['id'], G.RALG.get(n['alg']),
                [[r['id'], r['effect']] for r in n['rules']]]
    return ['S', n['id'], G.PALG.get(n['alg']),
            [nstruct(k) for k in n['kids']]]


def run(case, ctx):
    files = docs.Files()
    cwd = os.getcwd()
    try:
        for d in ('base', 'base/sub', 'cwd', 'abs'):
            os.makedirs(os.path.join(files.dir, d))
        os.chdir(os.path.join(files.dir, 'cwd'))
        body(fill(case, files.dir if case['fs'] else '/nowhere'), ctx, files)
    finally:
        os.chdir(cwd)
        files.close()


def body(case, ctx, files):
    m = W.mods()
    fs = case['fs']
    data = G.to_xml(case['root']).encode()
    netdocs, texts = {}, {}
    for d in case['docs']:
        x = docs.apply(d.get('damage'), G.to_xml(d['node']).encode())
        if d.get('damage'):
            ctx.fault('document ' + d['damage']['kind'])
        url = d['url']
        gone = d.get('fault')
        if fs and url.startswith('file:'):
            if gone:
                ctx.fault('document missing')
                continue
            p = url[7:]
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if os.path.exists(p):
                    continue
                with open(p, 'wb') as fh:
                    fh.write(x)
            except OSError:
                continue        # a file where a directory is needed
            texts[url] = x
            continue
        if gone == 'missing':
            ctx.fault('document missing')
            continue
        netdocs[url] = {'data': x, 'spec': d.get('spec'),
                        'delay': d.get('delay'), 'fault': gone}
        texts[url] = None if gone else x
        if (d.get('spec') or {}).get('fault'):
            texts[url] = None
    if fs:
        # two spellings of one path are one file
        class Texts(dict):
            def get(self, url, default=None):
                if url.startswith('file:'):
                    try:
                        with open(url[7:], 'rb') as fh:
                            return fh.read()
                    except OSError:
                        return None
                return dict.get(self, url, default)
        texts = Texts(texts)
    how = case.get('finder')
    if how == 'local':
        texts = {}
    want = xmlnode.graph(data, texts,
                         case['base'] if how != 'default' else None)
    ctx.probe('%s finder, expected %s' % (how, want[0]))
    r = W.Runner(ctx, case['sched'], step_cap=1500000)
    net = W.Net(netdocs, ctx, r.sched, files=fs).install()
    root = os.path.join(files.dir, 'base', 'root.xml')
    if case['via'] in ('path', 'file', 'rel', 'relfile'):
        with open(root, 'wb') as fh:
            fh.write(data)

    def load():
        v = case['via']
        F = None if how == 'default' else m.LocalPolicyFinder() \
            if how == 'local' else m.UrlPolicyFinder(case['base']) \
            if how != 'app' else app_finder(case, r.sched, ctx, m)
        if v == 'path':
            return m.PDP.fromPolicySource(root, m.ReaderFactory)
        if v == 'rel':
            return m.PDP.fromPolicySource('../base/root.xml',
                                          m.ReaderFactory)
        if v in ('file', 'relfile'):
            with open(root if v == 'file' else '../base/root.xml',
                      'rb') as fh:
                return m.PDP.fromPolicySource(fh, m.ReaderFactory)
        if v == 'elem':
            e = m.ET.parse(io.BytesIO(data)).getroot()
            return m.PDP.fromPolicySource(e, m.ReaderFactory, F)
        return m.PDP.fromPolicySource(io.BytesIO(data), m.ReaderFactory, F)

    for t in range(case['threads']):
        r.add('t%d' % t, [('load', t, load)])
    hist = r.run()
    net.sched = None
    for h in hist:
        if h.out is None or h.out[1] == 'StepCap':
            return
        ok = h.out[0] == 'ok'
        ctx.ev('load', h.task, 'ok' if ok else h.out[1])
        if want[0] == 'unknown':
            continue
        if want[0] == 'reject':
            if ok:
                ctx.viol('accepted', 'load succeeded although %s: %.600r' % (
                    want[1], struct(h.out[1].policy)))
                return
            continue
        if not ok:
            if want[2]:
                continue
            ctx.viol('refused', 'load of a complete graph raised %s: %s' %
                     h.out[1:])
            return
        got = struct(h.out[1].policy)
        if got != nstruct(want[1]):
            ctx.viol('other policy', 'loaded %.900r, the documents say '
                     '%.900r' % (got, nstruct(want[1])))
            return
        for j, q in enumerate(case['requests']):
            req = W.Req(q, None)
            out = W.attempt(lambda: W.decide(h.out[1], req.obj))
            ctx.ev('eval', j, out[:2])
            if not C.check_eval(ctx, 'request %d' % j, out,
                                model.decide(want[1], q)):
                return
