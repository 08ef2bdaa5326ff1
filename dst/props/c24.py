"""Bags of attribute selectors, observed inside evaluations."""
import collections

from dst import gen as G, model, world as W
from dst import common as C

QUICK = 500
RULE = ('1-3 simulated threads evaluate selectors directly, in conditions '
        'that hand each bag to a recording function, and in targets; over '
        'request documents (nested, mixed, commented, in name spaces) with '
        'the selector of the library, or with selectors of the application '
        'that answer in every shape, late, or fail; the document or the '
        'selector object changes between evaluations; seeded scheduler.')
ORACLE = ('a small path evaluator of its own on the generated document, or '
          'the scripted answers')
NS = 'urn:test:capture'
CTX = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
TAGS = ('a', 'b', 'c', '{urn:x}a', '{urn:x}d')
KEYS = ('k', 'm')
VALS = ('alpha', 'beta', 'http://h/x', 'a@b.org')
TEXTS = ('alpha', 'beta', 'http://h/x', 'a@b.org', ' alpha ', '\u00e9\u4e2d',
         'a<b & "c"', '1', '', '\n  ', 'true')
FAULTS = [f for f in G.PIP_FAULTS if not f.startswith('wrong')] + [
    'wrong:int', 'wrong:none', 'wrong:none-items', 'wrong:int-items',
    'wrong:bytes-items']


# -- documents: {'tag', 'attrs', 'items': [text | {'c': ..} | node]} --------
def tree(rng, depth=3):
    n = {'tag': rng.choice(TAGS), 'attrs': {}, 'items': []}
    for k in KEYS:
        if rng.random() < 0.25:
            n['attrs'][k] = rng.choice(VALS)
    if rng.random() < 0.75:
        n['items'].append(rng.choice(TEXTS))
    if depth:
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            x = rng.random()
            n['items'].append({'c': 'alpha'} if x < 0.15 else
                              {'pi': 'beta'} if x < 0.2 else
                              tree(rng, depth - 1))
            if rng.random() < 0.4:
                n['items'].append(rng.choice(TEXTS))
    return n


def el(tag, *items, **attrs):
    return {'tag': '{%s}%s' % (CTX, tag), 'attrs': attrs,
            'items': list(items)}


def attribute(rng):
    return el('Attribute', *[el('AttributeValue', rng.choice(VALS))
                             for _ in range(rng.choice((1, 1, 2)))],
              AttributeId=rng.choice(('urn:s:role', 'urn:s:group')),
              DataType=G.STR)


def request_doc(rng):
    res = el('Resource', attribute(rng))
    if rng.random() < 0.8:
        res['items'].insert(0, el('ResourceContent', tree(rng)))
    return el('Request', el('Subject', attribute(rng)), res,
              el('Action', attribute(rng)), el('Environment'))


def kids(n):
    return [x for x in n['items'] if isinstance(x, dict) and 'tag' in x]


def desc(n):
    for k in kids(n):
        yield k
        yield from desc(k)


def text(n):
    out = ''
    for x in n['items']:
        if isinstance(x, str):
            out += x
        elif 'tag' in x:
            break
    return out


def esc(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;')
            .replace('>', '&gt;').replace('"', '&quot;'))


def xml(n, root=True):
    tag = n['tag'].replace('{urn:x}', 'x:').replace('{%s}' % CTX, 'q:')
    s = '<' + tag
    if root:
        s += ' xmlns:x="urn:x" xmlns:q="%s"' % CTX
    for k, v in n['attrs'].items():
        s += ' %s="%s"' % (k, esc(v))
    s += '>'
    for x in n['items']:
        s += esc(x) if isinstance(x, str) else \
            '<!--%s-->' % x['c'] if 'c' in x else \
            '<?p %s?>' % x['pi'] if 'pi' in x else xml(x, False)
    return s + '</%s>' % tag


# -- paths: {'steps': [[sep, test, predicate]], 'tail': .., 'fn': ..} -------
def path(rng, doc):
    steps = []
    if doc is not None and rng.random() < 0.8:
        # leads to a node that exists
        way, n = [], doc
        while kids(n) and (not way or rng.random() < 0.8):
            n = rng.choice(kids(n))
            way.append(n)
        skip = False
        for i, n in enumerate(way):
            if i < len(way) - 1 and rng.random() < 0.5:
                skip = True
                continue
            test = n['tag'] if rng.random() < 0.85 else '*'
            steps.append(['//' if skip or rng.random() < 0.3 else '/', test,
                          pred(rng, n, test)])
            skip = False
    while not steps or rng.random() < 0.1:
        test = rng.choice(TAGS + ('*',))
        steps.append([rng.choice(('//', '/')), test, pred(rng, None, test)])
    if steps[0][0] == '/' and rng.random() < 0.3:
        steps[0][0] = ''
    p = {'steps': steps}
    x = rng.random()
    if x < 0.1:
        p['tail'] = rng.choice(('text()', '@k', '@m', 'comment()'))
    elif x < 0.16:
        p['fn'] = rng.choice(('count', 'string', 'boolean', 'broken'))
    return p


def pred(rng, n, test):
    x = rng.random()
    if x < 0.7:
        return None
    if x < 0.78:
        return ['has', rng.choice(KEYS)]
    if x < 0.86:
        k = rng.choice(KEYS)
        v = n['attrs'].get(k) if n and rng.random() < 0.7 else None
        return ['is', k, v or rng.choice(VALS)]
    if x < 0.93 or test == '*':
        return ['kid', rng.choice([c['tag'] for c in kids(n)])
                if n and kids(n) else rng.choice(TAGS)]
    return ['nth', rng.choice((1, 1, 2))]


def spell(p):
    if isinstance(p, str):
        return p
    s = ''
    for sep, test, pr in p['steps']:
        s += sep + test
        if pr:
            s += {'has': '[@%s]', 'is': "[@%s='%s']", 'kid': '[%s]',
                  'nth': '[%d]'}[pr[0]] % tuple(pr[1:])
    if p.get('tail'):
        s += '/' + p['tail']
    if p.get('fn') == 'broken':
        return s + '['
    if p.get('fn'):
        return '%s(%s)' % (p['fn'], '.' + s if s[0] == '/' else s)
    return s


def select(p, doc, lxml):
    """Texts of what the path selects below the document, or E."""
    if p.get('fn') or (p.get('tail') and not lxml):
        return model.E
    order = {id(n): i for i, n in enumerate(desc(doc))}
    parent = {}
    for n in [doc] + list(desc(doc)):
        for k in kids(n):
            parent[id(k)] = n
    now = [doc]
    for sep, test, pr in p['steps']:
        found = {}
        for n in now:
            for k in (desc(n) if sep == '//' else kids(n)):
                if test not in ('*', k['tag']):
                    continue
                if pr:
                    a = k['attrs'].get(pr[1])
                    if pr[0] == 'has' and a is None or \
                            pr[0] == 'is' and a != pr[2] or \
                            pr[0] == 'kid' and pr[1] not in [
                                c['tag'] for c in kids(k)]:
                        continue
                    if pr[0] == 'nth':
                        same = [c for c in kids(parent[id(k)])
                                if c['tag'] == test]
                        if len(same) < pr[1] or same[pr[1] - 1] is not k:
                            continue
                found[id(k)] = k
        now = sorted(found.values(), key=lambda n: order[id(n)])
    t = p.get('tail')
    if t is None:
        return [text(n) for n in now]
    out = []
    for n in now:
        if t[0] == '@':
            if t[1:] in n['attrs']:
                out.append(n['attrs'][t[1:]])
        elif t == 'comment()':
            out += [x['c'] for x in n['items']
                    if isinstance(x, dict) and 'c' in x]
        else:
            # neighbouring pieces are one node, an empty one is none
            last = ''
            for x in n['items'] + [{}]:
                if isinstance(x, str):
                    last += x
                elif last:
                    out.append(last)
                    last = ''
    return out


# -- cases -----------------------------------------------------------------
def source(rng, paths, doc):
    if doc is not None:
        return {'doc': doc, 'req': doc['tag'].endswith('}Request')}
    s = {'table': {}, 'faults': {}, 'shape': rng.choice(
        ('list', 'tuple', 'gen', 'iter', 'same', 'dict', 'once'))}
    for p in paths:
        if rng.random() < 0.85:
            s['table'][spell(p)] = [rng.choice(TEXTS) for _ in range(
                rng.choice((0, 1, 1, 2, 3)))]
        if rng.random() < 0.15:
            s['faults'][spell(p)] = rng.choice(FAULTS)
    if rng.random() < 0.3:
        s['delay'] = rng.choice((0.001, 1.0))
    return s


def gen(rng, tier):
    docs = [None if rng.random() < 0.3 else
            request_doc(rng) if rng.random() < 0.5 else tree(rng)
            for _ in range(rng.choice((1, 2, 3)))]
    sels = []
    for _ in range(rng.choice((2, 4, 6))):
        s = {'path': path(rng, rng.choice(docs)),
             'dt': rng.choice((G.STR, G.STR, G.URI, G.MAIL))}
        if rng.random() < 0.5:
            s['mbp'] = rng.random() < 0.7
        sels.append(s)
    paths = [s['path'] for s in sels]
    srcs = [source(rng, paths, d) for d in docs]
    reqs = [rng.choice([None] + [*range(len(srcs))] * 4)
            for _ in range(rng.choice((1, 2)))]
    tasks = []
    threads = rng.choice((1, 1, 2, 3))
    for t in range(threads):
        ops = []
        for _ in range(rng.choice((1, 2, 4)) + (3 if threads == 1 else 0)):
            x, j = rng.random(), rng.randrange(len(reqs))
            if threads == 1 and x < 0.2:
                ops.append(['edit', 0, j, rng.random(),
                            rng.choice(TAGS), rng.choice(TEXTS)])
            elif threads == 1 and x < 0.3:
                ops.append(['swap', 0, j, rng.randrange(len(srcs))])
            elif x < 0.6:
                ops.append(['direct', rng.randrange(len(sels)), j])
            elif x < 0.8:
                ops.append(['pdp', 0, j])
            else:
                ops.append(['match', rng.randrange(len(sels)), j,
                            rng.choice(('alpha', 'beta', ' alpha ', '1'))])
        tasks.append(ops)
    return {'sels': sels, 'srcs': srcs, 'requests': reqs, 'tasks': tasks,
            'sched': W.sched_spec(rng, len(tasks), 600),
            'opcode': C.opcode(rng, 0.15, False, len(tasks))}


def selector_class(m):
    from ndg.xacml.utils.xpath_selector import XPathSelectorInterface

    class SimSelector(XPathSelectorInterface):
        """Selector of the application with scripted answers."""

        def __init__(self, spec, ctx, sched, asked):
            self.spec, self.ctx, self.sched = spec, ctx, sched
            self.asked = asked
            self.kept = {}

        def selectText(self, p):
            s = self.spec
            self.asked(p)
            self.sched.external('selector')
            if s.get('delay'):
                self.sched.sleep(s['delay'])
            f = s['faults'].get(p)
            if f:
                self.ctx.fault('selector ' + f)
                if f.startswith('raise:'):
                    raise W.make_exc(f[6:])
                if f == 'gen-raise':
                    def g():
                        yield 'alpha'
                        raise W.SourceDown('mid-iteration')
                    return g()
                return {'wrong:int': 17, 'wrong:none': None,
                        'wrong:none-items': ['alpha', None],
                        'wrong:int-items': [1],
                        'wrong:bytes-items': [b'alpha']}[f]
            vals = s['table'].get(p, [])
            h = s['shape']
            if h == 'same':
                return self.kept.setdefault(p, list(vals))
            if h == 'dict':
                return dict(enumerate(vals)).values()
            return {'list': list, 'tuple': tuple, 'iter': iter,
                    'gen': lambda v: (x for x in v),
                    'once': W.Once}[h](list(vals))

        def spoiled(self):
            return [p for p, v in self.kept.items()
                    if v != self.spec['table'].get(p, [])]
    return SimSelector


def run(case, ctx):
    m = W.mods()
    from ndg.xacml import Config
    from ndg.xacml.core.attributeselector import AttributeSelector
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    from ndg.xacml.parsers.etree.context import RequestElementTree
    lxml = bool(Config.use_lxml)
    sels = case['sels']
    if not lxml:
        # the standard library's paths know no functions at all
        sels = [dict(s, path=dict(s['path'], fn=s['path'].get('fn') and
                                  'broken')) for s in sels]
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=800000)
    cap, seen = {}, {}

    class Capture(AbstractFunction):
        FUNCTION_NS = NS

        def evaluate(self, *inputs):
            t = r.sched.task()
            cap[t.idx].append((inputs[0].value,
                               [(v.dataType, v.value) for v in inputs[1]]))
            return False
    functionMap.load_custom_function(NS,
                                     function_factory=lambda ns: Capture)
    spelled = [spell(s['path']) for s in sels]
    objs = []
    for s, p in zip(sels, spelled):
        x = AttributeSelector()
        x.requestContextPath, x.dataType = p, s['dt']
        if 'mbp' in s:
            x.mustBePresent = s['mbp']
        objs.append(x)
    arg = [dict(s, sel=1, path=p) for s, p in zip(sels, spelled)]
    pdp = W.load_bytes(G.to_xml(
        {'t': 'P', 'id': 'urn:p', 'alg': 'deny', 'target': None,
         'rules': [{'id': 'r%d' % k, 'effect': 'Permit', 'target': None,
                    'cond': {'f': NS, 'args': [{'v': str(k), 'dt': G.STR},
                                               arg[k]]}}
                   for k in range(len(sels))]}).encode())
    mpdps = {}
    for op in [o for ops in case['tasks'] for o in ops]:
        if op[0] == 'match':
            k, v = op[1], op[3]
            mpdps[k, v] = W.load_bytes(G.to_xml(
                {'t': 'P', 'id': 'urn:m', 'alg': 'deny', 'target': {
                    'R': [[dict(arg[k], fn=G.F1 + G.SHORT[sels[k]['dt']] +
                                '-equal', vdt=sels[k]['dt'], val=v)]]},
                 'rules': [{'id': 'r', 'effect': 'Permit',
                            'target': None}]}).encode())

    def asked(p):
        t = r.sched.task()
        seen.setdefault(t.idx, []).append(p)
    Sim = selector_class(m)
    # every source as library object; documents keep model and object in step
    srcs = []
    for s in case['srcs']:
        if 'doc' in s:
            root = m.ET.fromstring(xml(s['doc']).encode())
            srcs.append((s['doc'], root, None))
        else:
            srcs.append((None, None, Sim(s, ctx, r.sched, asked)))

    def use(req, i):
        doc, root, sim = srcs[i]
        req.attributeSelector = sim if sim is not None else \
            m.EtreeXPathSelector(root)
    reqs, cur = [], []
    for i in case['requests']:
        if i is not None and case['srcs'][i].get('req'):
            q = RequestElementTree.fromXML(srcs[i][1])
        else:
            q = m.Request()
            q.subjects.append(m.Subject())
            q.resources.append(m.Resource())
            q.action = m.Action()
            q.environment = m.Environment()
        if i is not None:
            use(q, i)
        reqs.append(q)
        cur.append(i)

    def expect(k, j):
        i = cur[j]
        if i is None:
            return model.E
        spec = case['srcs'][i]
        if 'doc' in spec:
            vals = select(sels[k]['path'], srcs[i][0], lxml)
        elif spelled[k] in spec['faults']:
            return model.E
        else:
            vals = spec['table'].get(spelled[k], [])
        if vals is not model.E and not vals and sels[k].get('mbp'):
            return model.E
        return vals if vals is model.E else list(vals)
    results = {}

    def edit(op):
        i = cur[op[2]]
        if i is None or srcs[i][1] is None:
            return
        doc, root, _ = srcs[i]
        nodes = [doc] + list(desc(doc))
        if doc['tag'].endswith('}Request'):
            nodes = [n for n in nodes if not n['tag'].startswith('{urn:oasis')
                     ] or nodes
        k = int(op[3] * len(nodes))
        every = [doc] + list(desc(doc))
        at = [n is nodes[k] for n in every].index(True)
        elems = [e for e in root.iter() if isinstance(e.tag, str)]
        e = m.ET.SubElement(elems[at], op[4])
        e.text = op[5] or None
        nodes[k]['items'].append({'tag': op[4], 'attrs': {},
                                  'items': [op[5]]})

    def work(t, i, op):
        kind, k, j = op[:3]
        q = reqs[j]

        def go():
            cap[t], seen[t] = [], []
            if kind == 'edit':
                edit(op)
                return None
            if kind == 'swap':
                use(q, op[3])
                cur[j] = op[3]
                return None
            due = {x: expect(x, j) for x in
                   (range(len(sels)) if kind == 'pdp' else [k])}
            src = cur[j]
            try:
                if kind == 'direct':
                    return [(v.dataType, v.value)
                            for v in objs[k].evaluate(q)]
                return W.decide(pdp if kind == 'pdp' else mpdps[k, op[3]], q)
            finally:
                results[t, i] = (cap[t], seen[t], due, src)
        return go
    for t, ops in enumerate(case['tasks']):
        r.add('t%d' % t, [(op[0], (t, i), work(t, i, op))
                          for i, op in enumerate(ops)])
    for h in r.run():
        if h.out is None or h.out[1] == 'StepCap':
            continue
        t, i = h.arg
        op = case['tasks'][t][i]
        if op[0] in ('edit', 'swap'):
            if h.out[0] != 'ok':
                raise RuntimeError('%r: %r' % (op, h.out))
            ctx.probe(op[0])
            continue
        caught, paths, due, src = results[t, i]
        ctx.ev(t, i, op, h.out, caught, paths)
        bags = {}
        if op[0] == 'direct':
            if h.out[0] == 'ok':
                bags[op[1]] = h.out[1]
        else:
            if h.out[0] != 'ok':
                ctx.viol('raised', 'evaluation: %r' % (h.out,))
                return
            bad = any(v is model.E for v in due.values())
            want = 'Indeterminate' if bad else 'NotApplicable'
            if op[0] == 'match' and not bad and op[3] in due[op[1]]:
                want = 'Permit'
            if h.out[1] != want:
                ctx.viol('decision', 'selector %r: %s, due %s' % (
                    [spelled[k] for k in due], h.out[1], want))
                return
            ctx.probe(op[0] + ' ' + want)
            for k, b in caught:
                if int(k) in bags:
                    ctx.viol('bag', 'selector %s evaluated twice' % k)
                    return
                bags[int(k)] = b
        if op[0] != 'match':
            for k, vals in due.items():
                if k not in bags:
                    if vals is not model.E:
                        ctx.viol('bag', '%r failed: %r, due %r' % (
                            spelled[k], h.out, vals))
                        return
                    ctx.probe('error')
                    continue
                if vals is model.E:
                    ctx.viol('bag', '%r: got %r, an error was due' % (
                        spelled[k], bags[k]))
                    return
                want = collections.Counter((sels[k]['dt'], v) for v in vals)
                if collections.Counter(bags[k]) != want:
                    ctx.viol('bag', '%r: got %r, due %r' % (
                        spelled[k], bags[k], sorted(want.items())))
                    return
                ctx.probe('bag of %s' % (len(vals) if len(vals) < 4
                                         else 'many'))
        # what the selector of the application was asked
        want = set(spelled[k] for k in due) \
            if src is not None and srcs[src][2] is not None else set()
        if set(paths) != want:
            ctx.viol('query', 'selector asked for %r, due %r' % (
                sorted(set(paths)), sorted(want)))
            return
    for doc, root, sim in srcs:
        if sim is not None and sim.spoiled():
            ctx.viol('answer', 'answer of the selector changed: %r' % (
                sim.spoiled(),))
            return
