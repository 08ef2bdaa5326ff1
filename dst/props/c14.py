"""Requests and responses written to XML and read back by several threads."""
import io
import random

from dst import acts, docs, gen as G, model, world as W
from dst import common as C

QUICK = 260
RULE = ('1-3 threads convert shared requests (markup, empty, non-ASCII and '
        'multi-line values, issuers, categories, resource content with mixed '
        'text, comments and several namespaces) and responses to XML, plain '
        'or pretty printed, and back, read documents written in various '
        'ways, load and evaluate; some conversions are hit by an injected '
        'exception; seeded scheduler.')
ORACLE = ('the content as generated (plain data) and the model\'s decision '
          'for it; canonical form of every element written earlier')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel')
NS = 'urn:oasis:names:tc:xacml:2.0:context:schema:os'
CAT = 'urn:oasis:names:tc:xacml:1.0:subject-category:'
CATS = ('access-subject', 'access-subject', 'intermediary-subject',
        'codebase')
DEFCAT = CAT + 'access-subject'
ODD = ('', '<&>"\'', ']]>', 'a  b', '&amp;', '\u2028x', '\U0001f600', 'a\tb',
       'one\ntwo', ' lead', 'trail ', '<a/>', '<!-- x -->', '%s', '{x}a',
       '0', '\u00e9' * 3, 'p\n\n\nq  \n r', '\n', 'long & ' * 700)
ODDATTR = ('i<s"1&', "it's", '\u00fc\u20ac', 'a\nb', 'x  y', '{u}v', '"\'', '')
URIS = ('urn:q', 'urn:w', 'http://n/x#', 'urn:a&b', '', '')
PREFIX = {'urn:q': 'q', 'urn:w': 'w', 'http://n/x#': 'nx', 'urn:a&b': 'ab'}
LOCALS = ('k1', 'k2', 'k1', 'd', 'e')
WORDS = ('a', 'b', 'ab', '\u00fc\u20ac', 'x<y', 'p&q', 'two words', '')


# -- content of a resource: ['tag', 'ns', attrs, [text | node | note]] -----
def tree(rng, depth=2):
    ns = rng.choice(URIS)
    tag = rng.choice(LOCALS)
    attrs = []
    for _ in range(rng.choice((0, 0, 1, 2))):
        a = [rng.choice(URIS), rng.choice('mno'),
             rng.choice(ODDATTR + ('v', 'w'))]
        if a[:2] not in [x[:2] for x in attrs]:
            attrs.append(a)
    kids = []
    if tag in G.SELECT:
        if rng.random() < 0.9:
            kids.append(rng.choice(G.VALUES[G.STR]))
        if rng.random() < 0.15:
            kids.append('')
        return [tag, ns, attrs, kids]
    for _ in range(rng.choice((0, 1, 2, 3))):
        x = rng.random()
        if x < 0.4 and depth:
            kids.append(tree(rng, depth - 1))
        elif x < 0.55:
            kids.append({'note': rng.choice(('n', ' <k1/> ', 'x y')),
                         'pi': rng.random() < 0.3})
        else:
            kids.append(rng.choice(WORDS))
    return [tag, ns, attrs, kids]


def picks(t, key, out):
    """Texts an attribute selector //key selects."""
    if t[0] == key and t[1] == '':
        out.append(''.join(k for k in t[3] if isinstance(k, str)))
    for k in t[3]:
        if isinstance(k, list):
            picks(k, key, out)
    return out


def canon_tree(t, pretty):
    frags, kids = [''], []
    for k in t[3]:
        if isinstance(k, str):
            frags[-1] += k
        elif isinstance(k, list):
            kids.append(canon_tree(k, pretty))
            frags.append('')
        elif pretty:
            frags[-1] += ' '
    if pretty:
        frags = [''.join(f.split()) for f in frags]
    return ['{%s}%s' % (t[1], t[0]) if t[1] else t[0],
            sorted([('{%s}%s' % (a, b) if a else b), v]
                   for a, b, v in t[2]), frags, kids]


def canon(e, pretty=False):
    frags, kids = [e.text or ''], []
    for k in e:
        if isinstance(k.tag, str):
            kids.append(canon(k, pretty))
            frags.append(k.tail or '')
        else:
            frags[-1] += (' ' if pretty else '') + (k.tail or '')
    if pretty:
        frags = [''.join(f.split()) for f in frags]
    return [str(e.tag), sorted([str(a), str(v)] for a, v in e.items()),
            frags, kids]


BOXES = ['{%s}%s' % (NS, t) for t in (
    'Request', 'Subject', 'Resource', 'Attribute', 'Action', 'Environment')]


def skeleton(c):
    """Without the white space between the elements of the schema."""
    if c[0] not in BOXES:
        return c
    attrs = c[1]
    if c[0] == '{%s}Subject' % NS:
        # the default may be written or left out
        attrs = [a for a in attrs if a != ['SubjectCategory', DEFCAT]]
    return [c[0], attrs, [f.strip() for f in c[2]],
            [skeleton(k) for k in c[3]]]


# -- documents written by the harness --------------------------------------
def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace(
            '\t', '&#9;')
    return s


def text_of(rng, s, f):
    """s as element text in one of its spellings."""
    if not s or not f.get('spell'):
        return esc(s)
    x = rng.random()
    if x < 0.2 and ']]>' not in s:
        return '<![CDATA[%s]]>' % s
    if x < 0.4:
        return ''.join('&#%d;' % ord(c) for c in s)
    if x < 0.6:
        k = rng.randint(0, len(s))
        return esc(s[:k]) + rng.choice(('<!-- n -->', '<?n x?>')) + esc(s[k:])
    return esc(s)


def x_tree(t, declared):
    new = set(x for x in [t[1]] + [a[0] for a in t[2]] if x) - declared
    decl = ''.join(' xmlns:%s="%s"' % (PREFIX[u], esc(u, True))
                   for u in sorted(new))
    tag = '%s:%s' % (PREFIX[t[1]], t[0]) if t[1] else t[0]
    attrs = ''.join(' %s="%s"' % (
        '%s:%s' % (PREFIX[a], b) if a else b, esc(v, True))
        for a, b, v in t[2])
    inner = ''
    for k in t[3]:
        if isinstance(k, str):
            inner += esc(k)
        elif isinstance(k, list):
            inner += x_tree(k, declared | new)
        else:
            inner += ('<?n %s?>' if k['pi'] else '<!--%s-->') % k['note']
    return '<%s%s%s>%s</%s>' % (tag, decl, attrs, inner, tag)


def x_attr(rng, a, f, p):
    at = [('AttributeId', a['id']), ('DataType', a['dt'])]
    if a.get('iss') is not None:
        at.append(('Issuer', a['iss']))
    if f.get('shuffle'):
        rng.shuffle(at)
    s = '<%sAttribute%s>' % (p, ''.join(' %s="%s"' % (
        k, esc(v, True)) for k, v in at)) + f['sep']
    for v in a['vals']:
        s += '<%sAttributeValue>%s</%sAttributeValue>' % (
            p, text_of(rng, v, f), p) + f['sep']
    return s + '</%sAttribute>' % p + f['sep']


def document(q, f):
    """The request q as a document.  f: how it is written."""
    rng = random.Random(f['seed'])
    # content in no namespace: no default namespace may be in force there
    p = 'c:'
    dflt = f['prefix'] == '' and not any(q['rc'])
    if dflt:
        p = ''
    s = '<?xml version="1.0" encoding="UTF-8"?>\n<%sRequest xmlns%s="%s">' % (
        p, '' if dflt else ':c', NS) + f['sep']
    for i, (cat, attrs) in enumerate(zip(q['cats'], q['subjects'])):
        s += '<%sSubject%s>' % (p, '' if cat is None else
                                ' SubjectCategory="%s"' % esc(cat, True))
        s += f['sep'] + ''.join(x_attr(rng, a, f, p) for a in attrs)
        s += '</%sSubject>' % p + f['sep']
    for rc, attrs in zip(q['rc'], q['resources']):
        s += '<%sResource>' % p + f['sep']
        if rc is not None:
            s += '<%sResourceContent>' % p
            s += ''.join(x_tree(k, set()) if isinstance(k, list) else esc(k)
                         for k in rc)
            s += '</%sResourceContent>' % p + f['sep']
        s += ''.join(x_attr(rng, a, f, p) for a in attrs)
        s += '</%sResource>' % p + f['sep']
    for tag, attrs in (('Action', q['action']), ('Environment', q['env'])):
        s += '<%s%s>' % (p, tag) + f['sep'] + ''.join(
            x_attr(rng, a, f, p) for a in attrs)
        s += '</%s%s>' % (p, tag) + f['sep']
    return (s + '</%sRequest>' % p).encode('utf-8')


# -- generation ------------------------------------------------------------
def dress(rng, q):
    """A request for writing: odd values, categories, resource content."""
    q = {k: q[k] for k in ('subjects', 'resources', 'action', 'env')}
    q['action'] = q['action'] or []
    q['env'] = q['env'] or []
    for h in q['subjects'] + q['resources'] + [q['action'], q['env']]:
        if rng.random() < 0.12:
            del h[:]
        for a in h:
            if a['dt'] in (G.STR, G.URI) and rng.random() < 0.3:
                a['vals'] = a['vals'] + [rng.choice(ODD)]
            if rng.random() < 0.03:
                a['vals'] = a['vals'] * rng.choice((2, 9, 40))
            if rng.random() < 0.1:
                a['iss'] = rng.choice(ODDATTR)
        if rng.random() < 0.2:
            h.append({'id': rng.choice(ODDATTR), 'dt': G.STR,
                      'vals': [rng.choice(ODD)]})
    q['cats'] = [rng.choice((None, CAT + rng.choice(CATS),
                             rng.choice(ODDATTR)))
                 for _ in q['subjects']]
    q['made'] = rng.random() < 0.4          # built by hand, not read
    q['rc'] = [None] * len(q['resources'])
    if rng.random() < 0.7:
        for i in range(len(q['rc'])):
            if rng.random() < 0.7:
                q['rc'][i] = [tree(rng) if rng.random() < 0.8 else
                              rng.choice(WORDS)
                              for _ in range(rng.choice((0, 1, 2, 3)))]
    return refill(q)


def refill(q):
    """The selectable content, which follows from the rest."""
    q['content'] = None
    if not q['made']:
        q['content'] = {}
        for k in G.SELECT:
            out = []
            for rc in q['rc']:
                for t in rc or ():
                    if isinstance(t, list):
                        picks(t, k, out)
            q['content'][k] = out
    return q


def form(rng):
    return {'seed': rng.getrandbits(30), 'prefix': rng.choice(('', 'c')),
            'sep': rng.choice(('', '', '\n', '\n  ', '<!-- n -->')),
            'spell': rng.random() < 0.5, 'shuffle': rng.random() < 0.5}


HOW = ('raw', 'raw', 'pretty', 'pretty', 'elem', 'unicode')


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.3, pip=False)
    o.selectors = rng.random() < 0.7
    g = G.Gen(rng, o)
    pols = [g.policy() if rng.random() < 0.7 else g.policyset(1)
            for _ in range(rng.choice((1, 2)))]
    reqs = []
    for _ in range(rng.choice((1, 2, 3))):
        p = rng.choice(pols)
        best = None
        for _ in range(5):
            q = dress(rng, g.request())
            best = best or q
            if model.decide(p, q, refs={}) != {'NotApplicable'}:
                best = q
                break
        q = best
        q['form'] = form(rng)
        reqs.append(q)
    nt = rng.choice((1, 2, 2, 3))
    faulty = False
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((2, 3, 4))):
            x = rng.random()
            j = rng.randrange(len(reqs))
            p = rng.randrange(len(pols))
            if x < 0.45:
                op = {'op': 'write', 'q': j, 'pdp': p,
                      'how': rng.choice(HOW)}
            elif x < 0.65:
                op = {'op': 'read', 'q': j, 'pdp': p, 'form': form(rng)}
            elif x < 0.8:
                op = {'op': 'resp', 'how': rng.choice(HOW), 'results': [
                    [rng.choice(W.DECISIONS), rng.choice(
                        (None, 'http://x/1', rng.choice(ODDATTR)))]
                    for _ in range(rng.choice((1, 1, 2, 3, 0)))]}
            elif x < 0.9:
                op = {'op': 'eval', 'q': j, 'pdp': p,
                      'how': rng.choice(HOW)}
            else:
                op = {'op': 'load', 'pdp': p}
            if rng.random() < 0.12:
                op['fault'] = C.injected(rng, EXCS)
                faulty = True
            ops.append(op)
        tasks.append(ops)
    return {'policies': pols, 'requests': reqs, 'tasks': tasks,
            'sched': W.sched_spec(rng, nt, 900),
            'opcode': C.opcode(rng, 0.15, faulty, nt)}


# -- what is compared --------------------------------------------------------

def plain(q, pretty, written):
    """Expected content of the request read back."""
    def s(v):
        return v.strip() if pretty else v

    def attrs(h):
        return [[a['id'], a['dt'], a.get('iss'),
                 [s(v) for v in a['vals']]] for a in h]

    def content(rc):
        if rc is None:
            return None
        return canon_tree(['ResourceContent', NS, [], rc], pretty)
    return [[[c if c is not None else DEFCAT, attrs(h)]
             for c, h in zip(q['cats'], q['subjects'])],
            [[content(rc), attrs(h)]
             for rc, h in zip(q['rc'], q['resources'])],
            attrs(q['action']), attrs(q['env'])]


def snap(r, pretty=False):
    def s(v):
        return v.strip() if pretty else v

    def attrs(h):
        return [[a.attributeId, a.dataType, a.issuer,
                 [s(v.value) for v in a.attributeValues]]
                for a in h.attributes]
    return [[[DEFCAT if x.subjectCategory is None else x.subjectCategory,
              attrs(x)] for x in r.subjects],
            [[None if x.resourceContent is None else
              canon(x.resourceContent, pretty), attrs(x)]
             for x in r.resources],
            attrs(r.action), attrs(r.environment)]


def run(case, ctx):
    m = W.mods()
    from ndg.xacml.parsers.etree import context as X
    from ndg.xacml.utils.etree import prettyPrint
    ET = m.ET
    pols = case['policies']
    specs = [refill(dict(q)) for q in case['requests']]
    pdps = [W.load_bytes(G.to_xml(p).encode()) for p in pols]

    def parse(data):
        return ET.parse(io.BytesIO(data)).getroot()

    def read(data):
        r = X.RequestElementTree.fromXML(parse(data))
        r.attributeSelector = m.EtreeXPathSelector(r.elem)
        return r
    objs = []
    for q in specs:
        if q['made']:
            o = W.Req(dict(q, content=None), None).obj
            for s, c in zip(o.subjects, q['cats']):
                if c is not None:
                    s.subjectCategory = c
            for x, rc in zip(o.resources, q['rc']):
                if rc is not None:
                    # as an application builds it
                    e = parse(document(dict(q, rc=[rc], resources=[[]]),
                                       q['form']))
                    x.resourceContent = [
                        k for k in e.iter() if k.tag ==
                        '{%s}ResourceContent' % NS][0]
            objs.append(o)
        else:
            objs.append(read(document(q, q['form'])))
    before = [[snap(o), canon(o.elem) if not q['made'] else None]
              for o, q in zip(objs, specs)]
    for o, q, b in zip(objs, specs, before):
        if b[0] != plain(q, False, False):
            ctx.viol('read', 'a request was read as %r, is %r' % (
                b[0], plain(q, False, False)))
            return
    held = []
    neutral = {'seed': 0, 'prefix': 'c', 'sep': ''}
    outputs = [skeleton(canon(parse(document(dict(q, cats=[
        DEFCAT if c is None else c for c in q['cats']]), neutral))))
        for q in specs]

    def through(e, how):
        """What comes out of writing the element e down and parsing it."""
        if how == 'elem':
            return e
        if how == 'pretty':
            return parse(prettyPrint(e).encode('utf-8'))
        if how == 'unicode':
            return ET.fromstring(ET.tostring(e, encoding='unicode'))
        return ET.fromstring(ET.tostring(e))

    def write(op):
        q, o = specs[op['q']], objs[op['q']]
        e = X.RequestElementTree.toXML(o)
        c = canon(e)
        if skeleton(c) != outputs[op['q']]:
            return 'XML', skeleton(c), outputs[op['q']]
        held.append((e, c))
        b = X.RequestElementTree.fromXML(through(e, op['how']))
        if not q['made']:
            b.attributeSelector = m.EtreeXPathSelector(b.elem)
        pretty = op['how'] == 'pretty'
        return [W.decide(pdps[op['pdp']], b), snap(b, pretty)]

    def rd(op):
        r = read(document(specs[op['q']], op['form']))
        return [W.decide(pdps[op['pdp']], r), snap(r)]

    def resp_of(r, how):
        e = X.ResponseElementTree.toXML(r)
        held.append((e, canon(e)))
        b = X.ResponseElementTree.fromXML(through(e, how))
        return [[x.decision.value, x.resourceId] for x in b.results]

    def resp(op):
        r = m.Response()
        for d, i in op['results']:
            x = m.result.Result()
            x.decision = m.result.Decision(d)
            if i is not None:
                x.resourceId = i
            r.results.append(x)
        return resp_of(r, op['how'])

    def ev(op):
        r = pdps[op['pdp']].evaluate(objs[op['q']])
        v = W.verdict(r)
        return [v, resp_of(r, op['how'])]

    def load(op):
        W.load_bytes(G.to_xml(pols[op['pdp']]).encode())
        return 'loaded'

    fns = {'write': write, 'read': rd, 'resp': resp, 'eval': ev,
           'load': load}
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'])
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            fn = (lambda op=op: fns[op['op']](op))
            fault = None
            if op.get('fault'):
                fault = C.resolve(op['fault'],
                                  W.dry_points(fn, case['opcode']))
            lst.append((op['op'], k, fn, fault))
        r.add('t%d' % t, lst)
    for h in r.run():
        if h.out is None:
            continue
        op = case['tasks'][h.task][h.arg]
        ctx.ev(h.task, h.arg, h.kind, h.out[0])
        if h.out[1] == 'StepCap':
            return
        if h.out[0] != 'ok':
            if op.get('fault') and h.out[1] == op['fault']['exc']:
                ctx.probe('raised ' + h.out[1])
                continue
            ctx.viol('raised', '%r raised %r' % (op, h.out))
            return
        if not judge(ctx, op, h.out[1], pols, specs):
            return
    # nothing else changed
    for (e, c) in held:
        if canon(e) != c:
            ctx.viol('changed', 'XML written earlier changed from %r to %r' %
                     (c, canon(e)))
            return
    for j, (o, q) in enumerate(zip(objs, specs)):
        now = [snap(o), canon(o.elem) if not q['made'] else None]
        if now != before[j]:
            ctx.viol('changed', 'request %d is %r, was %r' % (
                j, now, before[j]))
            return
        out = W.attempt(lambda: W.decide(pdps[0], o))
        if not C.check_eval(ctx, 'original request %d afterwards' % j, out,
                            model.decide(pols[0], q, refs={})):
            return


def judge(ctx, op, got, pols, specs):
    k = op['op']
    if k == 'resp':
        want = op['results']
    elif k == 'load':
        want = 'loaded'
    else:
        q = specs[op['q']]
        if got[0] == 'XML':
            ctx.viol('XML', '%r: wrote %r, is %r' % ((op,) + tuple(got[1:])))
            return False
        if k == 'read':
            q = refill(dict(q, made=False))
        hurt = bool(op.get('fault'))
        allowed = C.model_of(pols[op['pdp']], q, hurt, {})
        if k == 'write' and op['how'] == 'pretty' and any(
                v != v.strip() for h in q['subjects'] + q['resources'] +
                [q['action'], q['env']] for a in h for v in a['vals']):
            allowed = set(W.DECISIONS)      # trimmed, by design
        if got[0] not in allowed:
            ctx.viol('decision', '%r: decision %s, only %s possible' % (
                op, got[0], sorted(allowed)))
            return False
        ctx.probe('decision ' + got[0])
        if k == 'eval':
            want = [[got[0], None]]
        else:
            want = plain(q, op.get('how') == 'pretty', True)
        got = got[1]
    if got != want:
        ctx.viol('content', '%r gave %r, is %r' % (op, got, want))
        return False
    ctx.probe(k + ' ' + op.get('how', ''))
    return True
