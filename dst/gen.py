"""Seeded generation of policies, requests and attribute sources as plain
JSON-able data.  Nothing here touches the code under test."""

STR = 'http://www.w3.org/2001/XMLSchema#string'
URI = 'http://www.w3.org/2001/XMLSchema#anyURI'
MAIL = 'urn:oasis:names:tc:xacml:1.0:data-type:rfc822Name'
X500 = 'urn:oasis:names:tc:xacml:1.0:data-type:x500Name'
IP = 'urn:oasis:names:tc:xacml:2.0:data-type:ipAddress'
DNS = 'urn:oasis:names:tc:xacml:2.0:data-type:dnsName'
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
RESOURCE_ID = 'urn:oasis:names:tc:xacml:1.0:resource:resource-id'
ACTION_ID = 'urn:oasis:names:tc:xacml:1.0:action:action-id'

SHORT = {STR: 'string', URI: 'anyURI', MAIL: 'rfc822Name', X500: 'x500Name',
         IP: 'ipAddress', DNS: 'dnsName'}
NO_EQUAL = (IP, DNS)

# category -> [(attribute id, data type)]
UNIVERSE = {
    'S': [('urn:s:role', STR), ('urn:s:id', URI), ('urn:s:mail', MAIL),
          ('urn:s:grp', STR), ('urn:s:dn', X500), ('urn:s:ip', IP),
          ('urn:s:host', DNS)],
    'R': [(RESOURCE_ID, URI), ('urn:r:type', STR)],
    'A': [(ACTION_ID, STR), ('urn:a:mode', STR)],
    'E': [('urn:e:zone', STR), ('urn:e:host', URI)],
}
VALUES = {
    STR: ['a', 'b', 'c', 'ab', '\u00fc\u20ac'],
    URI: ['http://x/1', 'http://x/2', 'http://y/1'],
    MAIL: ['p@x.org', 'q@x.org'],
    X500: ['cn=p', 'cn=q'],
    IP: ['10.0.0.1', '10.0.0.2'],
    DNS: ['h.x.org', 'g.x.org'],
}
REGEX = {
    STR: ['a.*', '^b$', '[ab]', 'ab?', '.*', 'z+'],
    URI: ['http://x/.*', '.*1', 'http://y', 'ftp:'],
    MAIL: ['p@.*', '.*@x', 'r'],
    X500: ['cn=.', 'cn=p', 'o'],
    IP: ['10[.]', '.*2$', '11'],
    DNS: ['h.*', '.*x.org', 'z'],
}
BAD_REGEX = ['(', '*a', '[']
ISSUERS = ['iss1', 'iss2']
RALG = {'deny': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:deny-overrides',
        'permit': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:permit-overrides',
        'first': 'urn:oasis:names:tc:xacml:1.0:rule-combining-algorithm:first-applicable'}
PALG = {'deny': 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:deny-overrides',
        'permit': 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:permit-overrides',
        'first': 'urn:oasis:names:tc:xacml:1.0:policy-combining-algorithm:first-applicable'}
ALGS = ('deny', 'permit', 'first')
SELECT = ['k1', 'k2']
VERSIONS = ('1.0', '1', '2.0.1')


def fn_equal(dt):
    return F1 + SHORT[dt] + '-equal'


def fn_regexp(dt):
    return (F1 if dt == STR else F2) + SHORT[dt] + '-regexp-match'


APP = 'urn:app:'
# The value of each type that a touchy function fails on
TOUCHY = {dt: v[1] for dt, v in VALUES.items()}


def fn_app(dt, touchy):
    """A function of the application; a touchy one fails on some values."""
    return APP + ('touchy:' if touchy else 'plain:') + SHORT[dt] + '-same'


class Opts(object):
    """What a run's generator may use (swarm: drawn per run)."""

    def __init__(self, rng, **kw):
        self.errors = rng.random() < 0.6       # statically failing matches
        self.selectors = rng.random() < 0.4
        self.conditions = rng.random() < 0.8
        self.issuers = rng.random() < 0.4
        self.regex = rng.random() < 0.8
        self.pip = rng.random() < 0.6
        self.custom = rng.random() < 0.25      # functions of the application
        self.salt = rng.choice((None, 'k%d' % rng.randrange(10 ** 6)))
        self.max_rules = rng.choice((2, 3, 4, 5))
        self.max_kids = rng.choice((2, 3, 4))
        self.depth = rng.choice((1, 2, 2, 3))
        self.__dict__.update(kw)


class Gen(object):
    def __init__(self, rng, opts):
        self.rng = rng
        self.o = opts
        self.n = 0

    def uid(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def pattern(self, dt):
        r = self.rng
        pat = r.choice(REGEX[dt])
        if self.o.errors and r.random() < 0.1:
            pat = r.choice(BAD_REGEX)
        if self.o.salt:
            # an expression no earlier run of the process has compiled
            pat += '(?#%s)' % self.o.salt
        return pat

    # -- policies ---------------------------------------------------------
    def designator(self, cat=None, dt=None):
        r = self.rng
        cat = cat or r.choice('SSSSSSRRAAAAEE')
        cands = [x for x in UNIVERSE[cat] if dt is None or x[1] == dt]
        if not cands:
            cat = 'S'
            cands = [x for x in UNIVERSE['S'] if x[1] == dt]
        a, d = r.choice(cands)
        out = {'cat': cat, 'attr': a, 'dt': d}
        if self.o.issuers and r.random() < 0.3:
            out['iss'] = r.choice(ISSUERS)
        if self.o.errors and r.random() < 0.12:
            out['attr'] = 'urn:absent'
        if self.o.errors and r.random() < 0.25:
            out['mbp'] = True
        elif r.random() < 0.2:
            out['mbp'] = False
        if 'mbp' in out and r.random() < 0.2:
            out['bs'] = r.choice((1, 2))
        return out

    def match(self, cat):
        r = self.rng
        if self.o.selectors and cat == 'R' and r.random() < 0.5:
            m = {'sel': r.choice(SELECT), 'dt': STR}
            if self.o.errors and r.random() < 0.3:
                m['mbp'] = True
            dt = STR
        else:
            m = {'des': self.designator(cat)}
            m['des']['cat'] = cat
            dt = m['des']['dt']
        if dt in NO_EQUAL or self.o.regex and r.random() < 0.4:
            m['fn'] = fn_regexp(dt)
            m['val'] = self.pattern(dt)
        else:
            m['fn'] = fn_equal(dt)
            m['val'] = r.choice(VALUES[dt])
        m['vdt'] = dt
        if self.o.custom and r.random() < 0.4 and 'sel' not in m:
            m['fn'] = fn_app(dt, self.o.errors and r.random() < 0.7)
            m['val'] = r.choice(VALUES[dt])
        if self.o.errors and r.random() < 0.05:
            other = URI if dt != URI else STR
            m['vdt'] = other
        return m

    def target(self, p=0.6, small=False):
        r = self.rng
        if r.random() > p:
            return None
        t = {}
        for cat in 'SRAE':
            q = {'S': 0.5, 'R': 0.4, 'A': 0.4, 'E': 0.2}[cat]
            if small:
                q *= 0.5
            if r.random() < q:
                kids = []
                for _ in range(r.choice((1, 1, 2))):
                    kids.append([self.match(cat)
                                 for _ in range(r.choice((1, 1, 1, 2)))])
                t[cat] = kids
        return t

    def boolexpr(self, depth):
        r = self.rng
        k = r.random()
        if depth > 0 and k < 0.2:
            return {'f': F1 + 'not', 'args': [self.boolexpr(depth - 1)]}
        if depth > 0 and k < 0.4:
            return {'f': F1 + 'and',
                    'args': [self.boolexpr(depth - 1)
                             for _ in range(r.choice((1, 2, 2, 3)))]}
        dt = r.choice((STR, STR, URI, MAIL))
        if k < 0.62:
            # x-at-least-one-member-of(designator, bag(...))
            vals = r.sample(VALUES[dt], r.choice((1, 2)))
            return {'f': F1 + SHORT[dt] + '-at-least-one-member-of',
                    'args': [self.bagexpr(dt),
                             {'f': F1 + SHORT[dt] + '-bag',
                              'args': [{'v': v, 'dt': dt} for v in vals]}]}
        if k < 0.8 or not self.o.regex:
            f = fn_equal(dt)
            if self.o.custom and r.random() < 0.4:
                f = fn_app(dt, self.o.errors and r.random() < 0.7)
            return {'f': f,
                    'args': [self.valexpr(dt, depth),
                             {'v': r.choice(VALUES[dt]), 'dt': dt}]}
        pat = self.pattern(dt)
        return {'f': fn_regexp(dt),
                'args': [{'v': pat, 'dt': dt}, self.valexpr(dt, depth)]}

    def bagexpr(self, dt):
        if dt == STR and self.o.selectors and self.rng.random() < 0.3:
            e = {'sel': self.rng.choice(SELECT), 'dt': STR}
            if self.o.errors and self.rng.random() < 0.3:
                e['mbp'] = True
            return e
        return {'d': self.designator(None, dt)}

    def valexpr(self, dt, depth):
        r = self.rng
        if dt in (STR, URI) and depth > 0 and r.random() < 0.2:
            f = F2 + ('string' if dt == STR else 'url-string') + '-concatenate'
            return {'f': f, 'args': [self.valexpr(dt, 0),
                                     {'v': r.choice(['', 'b', 'x'])
                                      or 'b', 'dt': STR}]}
        if r.random() < 0.15:
            return {'v': r.choice(VALUES[dt]), 'dt': dt}
        return {'f': F1 + SHORT[dt] + '-one-and-only',
                'args': [self.bagexpr(dt)]}

    def rule(self, effect=None):
        r = self.rng
        rule = {'id': self.uid('r'),
                'effect': effect or r.choice(('Permit', 'Permit', 'Deny')),
                'target': self.target(0.55, small=True)}
        if self.o.conditions and r.random() < 0.55:
            rule['cond'] = self.boolexpr(r.choice((0, 1, 1, 2)))
        if r.random() < 0.15:
            rule['desc'] = 'd'
        return rule

    def policy(self, alg=None, nrules=None):
        r = self.rng
        n = nrules if nrules is not None else r.randint(1, self.o.max_rules)
        if r.random() < 0.03:
            n = 0
        p = {'t': 'P', 'id': self.uid('urn:p:'), 'alg': alg or
             r.choice(ALGS),
             'target': self.target(0.4, small=True) if n else
             self.target(0.9),
             'rules': [self.rule() for _ in range(n)]}
        if r.random() < 0.2:
            p['ver'] = r.choice(VERSIONS)
        return p

    def policyset(self, depth=None, alg=None):
        r = self.rng
        depth = self.o.depth if depth is None else depth
        kids = []
        n = r.randint(1, self.o.max_kids)
        if r.random() < 0.08:
            n = 0
        for _ in range(n):
            if depth > 1 and r.random() < 0.35:
                kids.append(self.policyset(depth - 1))
            else:
                kids.append(self.policy(nrules=r.randint(1, 3)))
        p = {'t': 'S', 'id': self.uid('urn:ps:'), 'alg': alg or
             r.choice(ALGS),
             'target': self.target(0.35, small=True) if kids else
             self.target(0.9),
             'kids': kids}
        if r.random() < 0.2:
            p['ver'] = r.choice(VERSIONS)
        return p

    def any_policy(self):
        return (self.policy() if self.rng.random() < 0.5
                else self.policyset())

    # -- requests ---------------------------------------------------------
    def attrs(self, cat, p=0.75):
        r = self.rng
        out = []
        if r.random() < 0.07:
            return out
        for a, dt in UNIVERSE[cat]:
            if r.random() > p:
                continue
            for _ in range(r.choice((1, 1, 1, 2))):
                x = {'id': a, 'dt': dt,
                     'vals': r.sample(VALUES[dt], r.choice((1, 1, 2)))}
                if self.o.issuers and r.random() < 0.4:
                    x['iss'] = r.choice(ISSUERS)
                out.append(x)
        return out

    def request(self):
        r = self.rng
        ns = r.choice((1, 1, 1, 1, 2, 0)) if r.random() < 0.5 else 1
        req = {'subjects': [self.attrs('S') for _ in range(ns)],
               'resources': [self.attrs('R')
                             for _ in range(r.choice((1, 1, 1, 2)))],
               'action': self.attrs('A', 0.85),
               'env': self.attrs('E', 0.5)}
        if self.o.errors and r.random() < 0.08:
            req['action'] = None
        if self.o.errors and r.random() < 0.08:
            req['env'] = None
        if self.o.selectors and r.random() < 0.85:
            req['content'] = {k: r.sample(VALUES[STR], r.choice((0, 1, 1, 2)))
                              for k in SELECT}
        if self.o.pip and r.random() < 0.75:
            req['pip'] = self.pip()
        return req

    def pip(self, faults=True):
        r = self.rng
        t = {}
        for a, dt in UNIVERSE['S']:
            if r.random() < 0.5:
                t[a] = r.sample(VALUES[dt], r.choice((0, 1, 1, 2)))
        p = {'table': t, 'shape': r.choice(('list', 'list', 'tuple', 'gen', 'same', 'bag',
                                           'samebag', 'once')),
             'faults': {}}
        if faults and self.o.errors:
            for a, dt in UNIVERSE['S']:
                if r.random() < 0.18:
                    p['faults'][a] = r.choice(PIP_FAULTS)
        if r.random() < 0.2:
            p['delay'] = r.choice((0.001, 0.1, 5.0))
        return p


# How a simulated attribute source can fail.  Every one must make the
# expression that needed it Indeterminate.
PIP_FAULTS = ('raise:Exception', 'raise:OSError', 'raise:TimeoutError',
              'raise:KeyError', 'raise:TypeError', 'raise:AttributeError',
              'raise:ValueError', 'raise:RuntimeError', 'raise:StopIteration',
              'raise:MemoryError', 'raise:XacmlContextError', 'wrong:int',
              'wrong:str-items', 'wrong:none-items', 'wrong:type-items',
              'gen-raise')


# -- rendering ------------------------------------------------------------
def esc(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('"', '&quot;'))


CATNAME = {'S': 'Subject', 'R': 'Resource', 'A': 'Action', 'E': 'Environment'}
NS = 'urn:oasis:names:tc:xacml:2.0:policy:schema:os'


def x_bool(d):
    t, f = (('true', 'false'), ('1', '0'), (' true', 'false '))[
        d.get('bs', 0)]
    return t if d['mbp'] else f


def x_des(d, cat=None):
    c = CATNAME[cat or d['cat']]
    s = '<%sAttributeDesignator AttributeId="%s" DataType="%s"' % (
        c, esc(d['attr']), esc(d['dt']))
    if d.get('iss') is not None:
        s += ' Issuer="%s"' % esc(d['iss'])
    if 'mbp' in d:
        s += ' MustBePresent="%s"' % x_bool(d)
    return s + '/>'


def x_sel(m):
    s = '<AttributeSelector RequestContextPath="%s" DataType="%s"' % (
        esc(m['path']) if 'path' in m else '//' + m['sel'], m['dt'])
    if 'mbp' in m:
        s += ' MustBePresent="%s"' % x_bool(m)
    return s + '/>'


def x_match(m, cat):
    c = CATNAME[cat]
    return ('<%sMatch MatchId="%s"><AttributeValue DataType="%s">%s'
            '</AttributeValue>%s</%sMatch>' % (
                c, m['fn'], m['vdt'], esc(m['val']),
                x_sel(m) if 'sel' in m else x_des(m['des'], cat), c))


def x_target(t):
    if t is None:
        return ''
    out = ['<Target>']
    for cat in 'SRAE':
        if t.get(cat):
            c = CATNAME[cat]
            out.append('<%ss>' % c)
            for kid in t[cat]:
                out.append('<%s>%s</%s>' % (
                    c, ''.join(x_match(m, cat) for m in kid), c))
            out.append('</%ss>' % c)
    out.append('</Target>')
    return ''.join(out)


def x_expr(e):
    if 'f' in e:
        return '<Apply FunctionId="%s">%s</Apply>' % (
            e['f'], ''.join(x_expr(a) for a in e['args']))
    if 'd' in e:
        return x_des(e['d'])
    if 'sel' in e:
        return x_sel(e)
    return '<AttributeValue DataType="%s">%s</AttributeValue>' % (
        e['dt'], esc(e['v']))


def x_rule(r):
    s = '<Rule RuleId="%s" Effect="%s">' % (esc(r['id']), r['effect'])
    if r.get('desc'):
        s += '<Description>%s</Description>' % r['desc']
    s += x_target(r.get('target'))
    if r.get('cond') is not None:
        s += '<Condition>%s</Condition>' % x_expr(r['cond'])
    return s + '</Rule>'


def x_ver(n):
    return ' Version="%s"' % n['ver'] if n.get('ver') else ''


def x_node(n, root=False, nl=''):
    ns = ' xmlns="%s"' % NS if root else ''
    if n['t'] == 'R':
        tag = 'PolicyIdReference' if n['kind'] == 'P' else \
            'PolicySetIdReference'
        return '<%s>%s</%s>%s' % (tag, esc(n['ref']), tag, nl)
    if n['t'] == 'P':
        s = '<Policy%s PolicyId="%s" RuleCombiningAlgId="%s"%s>' % (
            ns, esc(n['id']), RALG.get(n['alg'], n['alg']), x_ver(n))
        s += nl + x_target(n.get('target')) + nl
        s += nl.join(x_rule(r) for r in n['rules'])
        return s + nl + '</Policy>' + nl
    s = '<PolicySet%s PolicySetId="%s" PolicyCombiningAlgId="%s"%s>' % (
        ns, esc(n['id']), PALG.get(n['alg'], n['alg']), x_ver(n))
    s += nl + x_target(n.get('target')) + nl
    s += nl.join(x_node(k, False, nl) for k in n['kids'])
    return s + nl + '</PolicySet>' + nl


def to_xml(node, decl=True, nl=''):
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else '') + \
        x_node(node, True, nl)


def form(text, how):
    """The same document written another way, as bytes."""
    import re
    if how == 'prefix':
        text = re.sub(r'<(/?)([A-Z])', r'<\1x:\2', text)
        return text.replace(' xmlns=', ' xmlns:x=', 1).encode('utf-8')
    if how == 'comments':
        return text.replace('><', '><!-- <Rule/> --><').encode('utf-8')
    if how == 'quotes':
        return re.sub(r'="([^"\']*)"', r" = '\1'", text).encode('utf-8')
    if how == 'charref':
        return text.encode('ascii', 'xmlcharrefreplace')
    if how == 'cdata':
        return re.sub(r'(<AttributeValue[^>]*>)([^<&]*)(</)',
                      r'\1<![CDATA[\2]]>\3', text).encode('utf-8')
    if how in ('note', 'instruction'):
        # in the middle of the text of values and references
        x = r'<!-- n -->' if how == 'note' else '<?n x?>'
        return re.sub(
            r'(<(AttributeValue|Policy(?:Set)?IdReference)\b[^>]*>)'
            r'([^<&])([^<&]*)(</)', r'\1\3%s\4%s\5' % (x, x),
            text).encode('utf-8')
    if how == 'indent':
        return text.replace('><', '>\n \t<').encode('utf-8')
    if how in ('utf-16', 'iso-8859-1'):
        text = text.replace('UTF-8', how, 1)
        return text.encode(how, 'xmlcharrefreplace')
    return text.encode('utf-8')


FORMS = ('note', 'instruction', 'indent', 'prefix', 'comments', 'quotes',
         'charref', 'cdata', 'utf-16', 'iso-8859-1')


def nodes(n, path=()):
    """Every node that can be forced Indeterminate: rules, policies, sets."""
    yield path
    if n['t'] == 'P':
        for i in range(len(n['rules'])):
            yield path + (i,)
    elif n['t'] == 'S':
        for i, k in enumerate(n['kids']):
            for x in nodes(k, path + (i,)):
                yield x


def walk_refs(n):
    if n['t'] == 'R':
        yield n
    elif n['t'] == 'S':
        for k in n['kids']:
            for x in walk_refs(k):
                yield x


def index(n, out=None):
    """(kind, id) -> node, for every policy and set in the tree."""
    out = {} if out is None else out
    if n['t'] != 'R':
        out[n['t'], n['id']] = n
        for k in n.get('kids', ()):
            index(k, out)
    return out


def add_local_refs(rng, node, p=0.3):
    """Inserts references to policies and sets that were read before."""
    done = []

    def walk(n):
        if n['t'] == 'S':
            kids = []
            for k in n['kids']:
                walk(k)
                kids.append(k)
                while done and rng.random() < p:
                    kind, i = rng.choice(done)
                    kids.append({'t': 'R', 'kind': kind, 'ref': i})
            n['kids'] = kids
        if n['t'] != 'R':
            done.append((n['t'], n['id']))
    walk(node)
    return node


def skeleton(e):
    if 'f' in e:
        return [skeleton(a) for a in e['args']]
    return 'v' if 'v' in e else 'sel' if 'sel' in e else 'd'


def twin(g, n):
    """A policy of the same shape with other functions, values, attributes,
    effects and algorithms: threads that load the two do the same steps with
    different data."""
    r = g.rng

    def target(t):
        if t is None:
            return None
        return {c: [[one(m, c) for m in kid] for kid in kids]
                for c, kids in t.items()}

    def one(m, c):
        for _ in range(6):
            x = g.match(c)
            if ('sel' in x) == ('sel' in m):
                return x
        return dict(m)

    def cond(e):
        for _ in range(25):
            x = g.boolexpr(2)
            if x != e and skeleton(x) == skeleton(e):
                return x
        return leaves(e)

    def leaves(e):
        if 'f' in e:
            return dict(e, args=[leaves(a) for a in e['args']])
        if 'v' in e and e['v'] in VALUES[e['dt']]:
            return dict(e, v=r.choice(VALUES[e['dt']]))
        return dict(e)

    out = dict(n, id=g.uid(n['id'][:-1]))
    if r.random() < 0.5:
        out['alg'] = r.choice(ALGS)
    out['target'] = target(n['target'])
    if n['t'] == 'S':
        out['kids'] = [twin(g, k) for k in n['kids']]
        return out
    out['rules'] = []
    for x in n['rules']:
        x = dict(x, target=target(x['target']))
        if r.random() < 0.5:
            x['effect'] = r.choice(('Permit', 'Deny'))
        if x.get('cond') is not None:
            x['cond'] = cond(x['cond'])
        out['rules'].append(x)
    return out


def size(n, refs):
    if n['t'] == 'R':
        return size(refs[n['kind'], n['ref']], refs)
    return 1 + sum(size(k, refs) for k in n.get('kids', ())) + \
        len(n.get('rules', ()))


# -- size -----------------------------------------------------------------
def inert_target(rng, n):
    """A target no generated request meets."""
    return {'R': [[{'fn': fn_equal(URI), 'val': 'http://never/%d' % n,
                    'vdt': URI, 'des': {'cat': 'R', 'attr': RESOURCE_ID,
                                        'dt': URI}}]]}


def among(rng, lst, items):
    """Most items before the rest, some after or between."""
    out = list(lst)
    for x in items:
        k = 0 if rng.random() < 0.8 else rng.randrange(len(out) + 1)
        out.insert(k, x)
    return out


def padded(rng, node, reqs, dims='rules kids values subjects attrs alts '
           'conj depth desc'.split()):
    """The same policy and requests, larger in one dimension: what is added
    changes no decision, except that more can fail."""
    import copy
    node = copy.deepcopy(node)
    reqs = copy.deepcopy(reqs)
    dim = rng.choice(dims)
    n = rng.choice((6, 9, 12, 18, 27, 40, 70))

    def walk(x):
        yield x
        for k in x.get('kids', ()):
            for y in walk(k):
                yield y
    pols = [x for x in walk(node) if x['t'] == 'P']
    sets = [x for x in walk(node) if x['t'] == 'S']

    def inert_rule(i):
        return {'id': 'pad%d' % i, 'effect': rng.choice(('Permit', 'Deny')),
                'target': inert_target(rng, i)}
    if dim == 'kids' and not sets:
        dim = 'rules'
    if dim == 'kids':
        s = rng.choice(sets)
        s['kids'] = among(rng, s['kids'], [
            {'t': 'P', 'id': 'urn:pad:%d' % i, 'alg': rng.choice(ALGS),
             'target': inert_target(rng, i) if i % 2 else None,
             'rules': [inert_rule(0)]} for i in range(min(n, 40))])
    elif dim == 'values':
        for q in reqs:
            for a in attr_lists(q):
                for x in a:
                    if x['dt'] in (STR, URI) and rng.random() < 0.5:
                        x['vals'] = among(rng, x['vals'], [
                            VALUES[x['dt']][0] + '.v%d' % i
                            for i in range(n)])
    elif dim == 'subjects':
        for q in reqs:
            q['subjects'] = among(rng, q['subjects'], [
                [] if i % 3 else [{'id': 'urn:pad', 'dt': STR,
                                   'vals': ['p']}]
                for i in range(min(n, 18))])
    elif dim == 'attrs':
        for q in reqs:
            for a in attr_lists(q):
                a[:] = among(rng, a, [{'id': 'urn:pad:%d' % i, 'dt': STR,
                                       'vals': ['p']}
                                      for i in range(min(n, 40))])
    elif dim in ('alts', 'conj'):
        for x in walk(node):
            for y in [x] + x.get('rules', []):
                t = y.get('target') or {}
                for cat in t:
                    if dim == 'alts' and cat == 'R':
                        t[cat] = among(rng, t[cat], [
                            inert_target(rng, i)['R'][0]
                            for i in range(min(n, 40))])
                    elif dim == 'conj':
                        t[cat] = [kid * min(n, 12) if rng.random() < 0.5
                                  else kid for kid in t[cat]]
    elif dim == 'depth':
        for x in pols:
            for r in x['rules']:
                if r.get('cond') is not None:
                    for i in range(2 * min(n, 18)):
                        r['cond'] = {'f': F1 + 'not', 'args': [r['cond']]}
                    for i in range(min(n, 18) if rng.random() < 0.5 else 0):
                        r['cond'] = {'f': F1 + 'and', 'args': [r['cond']]}
    elif dim == 'desc':
        for x in pols:
            for r in x['rules'][:1]:
                r['desc'] = 'long text ' * rng.choice((300, 1000, 8000))
    else:
        for p in pols:
            p['rules'] = among(rng, p['rules'],
                               [inert_rule(i) for i in range(n)])
    return dim, node, reqs


def attr_lists(q):
    return [x for x in q['subjects'] + q['resources'] +
            [q['action'], q['env']] if x is not None]
