"""Independent reading of a policy document: bytes -> policy data.

Outcomes:
  ('ok', node)       a document of the supported schema; 'lax' is set when
                     the library may also refuse it (unknown function etc.)
  ('reject', why)    must not be loaded
  ('unknown', why)   outside what the model describes
"""
import xml.parsers.expat as expat
import re

from . import gen


class Reject(Exception):
    pass


class Unknown(Exception):
    pass


class El(object):
    __slots__ = ('tag', 'attrs', 'kids', 'text', 'open')

    def __init__(self, tag, attrs):
        self.tag = tag
        self.attrs = attrs
        self.kids = []
        self.text = ''
        self.open = True    # still collecting the text before any child


def tree(data):
    p = expat.ParserCreate(namespace_separator='}')
    p.buffer_text = True
    root = []
    stack = []
    odd = []

    def start(tag, attrs):
        e = El(tag.rsplit('}', 1)[-1], attrs)
        if stack:
            stack[-1].kids.append(e)
            stack[-1].open = False
        else:
            root.append(e)
        stack.append(e)

    def end(tag):
        stack.pop()

    def chars(s):
        if stack and stack[-1].open:
            stack[-1].text += s

    def note(*a):
        odd.append(1)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.StartDoctypeDeclHandler = note
    try:
        p.Parse(data, True)
    except expat.ExpatError as e:
        raise Reject('not well-formed: %s' % e)
    except (ValueError, LookupError) as e:
        raise Reject('encoding: %s' % e)
    if odd:
        raise Unknown('DTD')
    return root[0]


LOCAL = {'Subjects': ('S', 'Subject'), 'Resources': ('R', 'Resource'),
         'Actions': ('A', 'Action'), 'Environments': ('E', 'Environment')}
RALG = {v: k for k, v in gen.RALG.items()}
PALG = {v: k for k, v in gen.PALG.items()}
KNOWN_DT = set(gen.SHORT)


def need(e, name):
    v = e.attrs.get(name)
    if v is None:
        raise Reject('no %s in %s' % (name, e.tag))
    return v


class Reader(object):
    def __init__(self):
        self.lax = False
        self.ids = {'P': {}, 'S': {}}

    def take_id(self, t, i, n):
        if i in self.ids[t]:
            raise Reject('duplicate id %s' % i)
        self.ids[t][i] = n

    def reference(self, t, ref):
        if ref not in self.ids[t]:
            raise Reject('unresolved reference %r' % ref)
        return {'t': 'R', 'kind': t, 'ref': ref}

    def node(self, e):
        if e.tag == 'Policy':
            return self.policy(e)
        if e.tag == 'PolicySet':
            return self.policyset(e)
        raise Reject('root %s' % e.tag)

    def policy(self, e):
        n = {'t': 'P', 'id': need(e, 'PolicyId'), 'target': None,
             'rules': []}
        alg = need(e, 'RuleCombiningAlgId')
        n['alg'] = RALG.get(alg, 'unknown')
        if alg not in RALG:
            self.lax = True
        seen = set()
        for k in e.kids:
            if k.tag == 'Description':
                pass
            elif k.tag == 'Target':
                if n['target'] is not None:
                    raise Unknown('two targets')
                n['target'] = self.target(k)
            elif k.tag == 'Rule':
                r = self.rule(k)
                if r['id'] in seen:
                    raise Reject('duplicate rule id')
                seen.add(r['id'])
                n['rules'].append(r)
            elif k.tag in ('PolicyDefaults', 'VariableDefinition'):
                raise Unknown(k.tag)
            else:
                raise Reject('unknown element %s' % k.tag)
        self.take_id('P', n['id'], n)
        return n

    def policyset(self, e):
        n = {'t': 'S', 'id': need(e, 'PolicySetId'), 'target': None,
             'kids': []}
        alg = need(e, 'PolicyCombiningAlgId')
        n['alg'] = PALG.get(alg, 'unknown')
        if alg not in PALG:
            self.lax = True
        for k in e.kids:
            if k.tag == 'Description':
                pass
            elif k.tag == 'Target':
                if n['target'] is not None:
                    raise Unknown('two targets')
                n['target'] = self.target(k)
            elif k.tag == 'Policy':
                n['kids'].append(self.policy(k))
            elif k.tag == 'PolicySet':
                n['kids'].append(self.policyset(k))
            elif k.tag in ('PolicyIdReference', 'PolicySetIdReference'):
                t = 'P' if k.tag == 'PolicyIdReference' else 'S'
                if k.kids:
                    raise Unknown('children in reference')
                n['kids'].append(self.reference(t, k.text))
            elif k.tag in ('PolicySetDefaults', 'VariableDefinition'):
                raise Unknown(k.tag)
            else:
                raise Reject('unknown element %s' % k.tag)
        self.take_id('S', n['id'], n)
        return n

    def rule(self, e):
        r = {'id': need(e, 'RuleId'), 'effect': need(e, 'Effect'),
             'target': None}
        if r['effect'] not in ('Permit', 'Deny'):
            raise Reject('effect %r' % r['effect'])
        for k in e.kids:
            if k.tag == 'Description':
                pass
            elif k.tag == 'Target':
                if r['target'] is not None:
                    raise Unknown('two targets')
                r['target'] = self.target(k)
            elif k.tag == 'Condition':
                if 'cond' in r:
                    raise Unknown('two conditions')
                if len(k.kids) != 1:
                    raise Reject('condition with %d expressions' %
                                 len(k.kids))
                if k.kids[0].tag != 'Apply':
                    raise Reject('condition with %s' % k.kids[0].tag)
                r['cond'] = self.expr(k.kids[0])
            else:
                raise Reject('unknown element %s' % k.tag)
        return r

    def target(self, e):
        t = {}
        for k in e.kids:
            if k.tag not in LOCAL:
                raise Reject('unknown element %s' % k.tag)
            cat, name = LOCAL[k.tag]
            if cat in t:
                raise Unknown('two %s' % k.tag)
            if not k.kids:
                raise Unknown('empty %s' % k.tag)
            t[cat] = []
            for c in k.kids:
                if c.tag != name:
                    raise Reject('unknown element %s' % c.tag)
                if not c.kids:
                    raise Unknown('empty %s' % c.tag)
                lst = []
                for m in c.kids:
                    if m.tag != name + 'Match':
                        raise Reject('unknown element %s' % m.tag)
                    lst.append(self.match(m, cat, name))
                t[cat].append(lst)
        return t

    def match(self, e, cat, name):
        m = {'fn': self.fn(need(e, 'MatchId'))}
        for k in e.kids:
            if k.tag == 'AttributeValue':
                if 'val' in m:
                    raise Unknown('two values')
                v = self.value(k)
                m['val'], m['vdt'] = v['v'], v['dt']
            elif k.tag == name + 'AttributeDesignator':
                if 'des' in m or 'sel' in m:
                    raise Unknown('two sources')
                m['des'] = self.des(k, cat)
            elif k.tag == 'AttributeSelector':
                if 'des' in m or 'sel' in m:
                    raise Unknown('two sources')
                m.update(self.sel(k))
            else:
                raise Reject('unknown element %s' % k.tag)
        if 'val' not in m or not ('des' in m or 'sel' in m):
            raise Unknown('incomplete match')
        return m

    def fn(self, f):
        if not known_fn(f):
            if implemented(f):
                raise Unknown('function %s' % f)
            self.lax = True
        return f

    def dt(self, e):
        d = need(e, 'DataType')
        if d not in KNOWN_DT:
            raise Unknown('data type %s' % d)
        return d

    def value(self, e):
        d = need(e, 'DataType')
        if e.kids:
            raise Reject('element inside a value')
        if d not in KNOWN_DT:
            if re.search(r'[#:][A-Za-z]', d) and d in OTHER_DT:
                raise Unknown('data type %s' % d)
            raise Reject('data type %s' % d)
        if e.text == '':
            raise Reject('empty value')
        return {'v': e.text, 'dt': d}

    def boolean(self, text):
        x = text.strip()
        if x not in ('true', '1', 'false', '0'):
            self.lax = True     # other spellings may be refused
        x = x.lower()
        if x in ('true', '1', 'yes', 't'):
            return True
        if x in ('false', '0', 'no', 'f'):
            return False
        raise Reject('%r for a boolean' % text)

    def des(self, e, cat):
        d = {'cat': cat, 'attr': need(e, 'AttributeId'), 'dt': self.dt(e)}
        if 'Issuer' in e.attrs:
            d['iss'] = e.attrs['Issuer']
        if 'MustBePresent' in e.attrs:
            d['mbp'] = self.boolean(e.attrs['MustBePresent'])
        if e.kids:
            raise Unknown('designator with children')
        return d

    def sel(self, e):
        dt = self.dt(e)
        path = need(e, 'RequestContextPath')
        mm = re.match(r'^//([A-Za-z][A-Za-z0-9]*)$', path)
        if not mm or dt != gen.STR:
            raise Unknown('path %s' % path)
        s = {'sel': mm.group(1), 'dt': dt}
        if 'MustBePresent' in e.attrs:
            s['mbp'] = self.boolean(e.attrs['MustBePresent'])
        return s

    def expr(self, e):
        if e.tag == 'Apply':
            f = self.fn(need(e, 'FunctionId'))
            args = [self.expr(k) for k in e.kids]
            if known_fn(f) and not arity(f, len(args)):
                raise Unknown('%d arguments of %s' % (len(args), f))
            return {'f': f, 'args': args}
        if e.tag == 'AttributeValue':
            return self.value(e)
        for cat, name in gen.CATNAME.items():
            if e.tag == name + 'AttributeDesignator':
                return {'d': self.des(e, cat)}
        if e.tag == 'AttributeSelector':
            return self.sel(e)
        if e.tag in ('Condition', 'Function', 'VariableReference'):
            raise Unknown(e.tag)
        raise Reject('unknown element %s' % e.tag)


OTHER_DT = set(
    ['http://www.w3.org/2001/XMLSchema#' + x for x in (
        'boolean', 'integer', 'double', 'time', 'date', 'dateTime',
        'hexBinary', 'base64Binary')] +
    ['http://www.w3.org/TR/2002/WD-xquery-operators-20020816#' + x
     for x in ('dayTimeDuration', 'yearMonthDuration')])


def known_fn(f):
    for dt, s in gen.SHORT.items():
        if f in (gen.fn_regexp(dt), gen.fn_app(dt, False),
                 gen.fn_app(dt, True)):
            return True
        if dt not in gen.NO_EQUAL and f in [
                gen.F1 + s + x for x in (
                    '-equal', '-bag', '-one-and-only',
                    '-at-least-one-member-of')]:
            return True
    return f in (gen.F1 + 'and', gen.F1 + 'not',
                 gen.F2 + 'string-concatenate',
                 gen.F2 + 'url-string-concatenate')


NEAR = re.compile(
    '^urn:oasis:names:tc:xacml:[12][.]0:function:(string|anyuri|rfc822name|'
    'x500name|ipaddress|dnsname|boolean|integer|double|time|date|datetime|'
    'hexbinary|base64binary|daytimeduration|yearmonthduration|url-string|'
    'xpath-node)-(equal|regexp-match|bag|one-and-only|match|concatenate|'
    'at-least-one-member-of)$|^urn:oasis:names:tc:xacml:[12][.]0:function:'
    '(and|not|round|or)$', re.I)


def implemented(f):
    """Functions the library has, or derives, that the model leaves out."""
    return NEAR.match(f)


def arity(f, n):
    if f.endswith((':and', '-bag')):
        return n >= 1
    if f.endswith('-concatenate'):
        return n >= 2
    if f.endswith((':not', '-one-and-only')):
        return n == 1
    return n == 2


class GraphReader(Reader):
    """Reads a document and everything it refers to.  docs: url -> bytes;
    references become the nodes they name."""

    def __init__(self, docs, base, cap=500):
        super(GraphReader, self).__init__()
        self.docs = docs
        self.base = base
        self.open = []
        self.fetched = []
        self.cap = cap

    def reference(self, t, ref):
        got = self.ids[t].get(ref)
        if got is not None:
            return got
        if not ref:
            raise Reject('empty reference')
        url = url_of(self.base, ref)
        if url in self.open:
            raise Reject('circular reference to %s' % ref)
        self.fetched.append(url)
        if len(self.fetched) > self.cap:
            raise Unknown('too many documents')
        data = self.docs.get(url) if url is not None else None
        if data is None:
            raise Reject('no document at %s' % url)
        self.open.append(url)
        n = self.node(tree(data))
        self.open.pop()
        got = self.ids[t].get(ref)
        if got is None:
            raise Reject('%s declares %s %s' % (url, n['t'], n['id']))
        if got is not n:
            raise Unknown('declared below the root')
        return n


def url_of(base, ref):
    """Address a reference stands for."""
    for s in ('http://', 'https://', 'ftp://'):
        if ref.startswith(s):
            return ref
    p = ref[7:] if ref.startswith('file://') else ref
    if p.startswith('/'):
        return 'file://' + p
    if ref.startswith('file://./'):
        p = p[2:]
    if base is None:
        return None
    return 'file://' + base.rstrip('/') + '/' + p


def graph(data, docs, base):
    r = GraphReader(docs, base)
    try:
        n = r.node(tree(data))
        return ('ok', n, r.lax, r.fetched)
    except Reject as e:
        return ('reject', str(e), False, r.fetched)
    except Unknown as e:
        return ('unknown', str(e), False, r.fetched)


def read(data):
    try:
        r = Reader()
        n = r.node(tree(data))
        return ('ok', n, r.lax)
    except Reject as e:
        return ('reject', str(e), False)
    except Unknown as e:
        return ('unknown', str(e), False)
