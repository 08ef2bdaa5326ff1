"""Custom functions, data types and data type readers registered while the
library is used: sequences and threads of registrations (failing ones
included), loads, evaluations and look-ups."""
import io
import itertools
import random
import sys

from dst import gen as G, world as W
from dst import common as C
from xml.sax.saxutils import escape, quoteattr

QUICK = 800
RULE = ('1-3 threads register custom functions, data types and readers, by '
        'object and by path, part of them failing (factory raising, '
        'answering None or something else, unimportable paths, standard '
        'names, wrong argument types, exceptions injected at any point), load '
        'policies naming them and evaluate; seeded scheduler.')
ORACLE = ('a small model: name -> registered object at each moment, and the '
          'decisions a policy has with these')
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
XS = 'http://www.w3.org/2001/XMLSchema#'
NAMES = ('urn:dst:fn:a', 'urn:dst:fn:b', 'http://dst.example/f?x=1&y=2',
         F1 + 'dst-equal', F1 + 'dst-other', F2 + 'dst-concatenate',
         F1 + 'dst')
STD = (F1 + 'string-equal', F1 + 'anyURI-equal', F1 + 'string-bag',
       F2 + 'string-concatenate', F1 + 'and', F1 + 'integer-add',
       F1 + 'string-regexp-match', F2 + 'anyURI-regexp-match')
TYPES = ('urn:dst:type:a', 'urn:dst:type:b', XS + 'dst')
STDTYPES = (XS + 'string', XS + 'anyURI', XS + 'integer')
PARSED = ('Rule', 'Target')
IMPLS = ('eq', 'ne', 'true', 'false', 'prefix', 'raise')
ALGS = ('deny-overrides', 'permit-overrides', 'first-applicable')
VALS = ('', 'a', 'b', 'ab', 'a!', 'b!')
REGS = ('fn', 'type', 'reader', 'parser')
EXCS = ('MemoryError', 'OSError', 'SimCancel', 'KeyboardInterrupt')
FACTORY = ('raise:ValueError', 'raise:MemoryError', 'raise:KeyError',
           'raise:ImportError', 'raise:AttributeError', 'raise:SystemExit',
           'none', 'notfunc', 'instance')
IMPORTS = ('ImportError', 'ModuleNotFoundError', 'OSError', 'RuntimeError',
           'MemoryError', 'noattr', 'SyntaxError')


# -- cases ----------------------------------------------------------------
def gen_policy(rng, i, NAMES, TYPES):
    rules = []
    for k in range(rng.choice((1, 1, 2, 3))):
        custom = rng.random() < 0.75
        # a custom type needs a custom function
        t = rng.choice(TYPES) if custom and rng.random() < 0.5 \
            else XS + 'string'
        rules.append({
            'effect': rng.choice(('Permit', 'Deny')),
            'where': rng.choice(('target', 'condition')),
            'fn': rng.choice(NAMES) if custom else F1 + 'string-equal',
            'type': t, 'value': rng.choice(VALS[1:4]),
            'attr': rng.choice(('urn:s:1', 'urn:s:2'))})
        if not custom:
            rules[-1]['where'] = 'target'
    return {'id': 'urn:p:%d' % i, 'alg': rng.choice(ALGS), 'rules': rules}


def gen_request(rng):
    out = []
    for a in ('urn:s:1', 'urn:s:2'):
        for t in (XS + 'string',) + TYPES:
            if rng.random() < 0.6:
                out.append([a, t, [rng.choice(VALS) for _ in range(
                    rng.choice((1, 1, 2)))]])
    return out


def gen_op(rng, npol, NAMES, TYPES):
    x = rng.random()
    if x < 0.34:
        op = {'op': 'fn', 'name': rng.choice(NAMES),
              'impl': rng.choice(IMPLS),
              'by': rng.choice(('factory', 'factory', 'path', 'funcpath'))}
        y = rng.random()
        if y < 0.3:
            op['fail'] = rng.choice(FACTORY)
        elif y < 0.45:
            op['by'] = 'path'
            op['import'] = rng.choice(IMPORTS)
        elif y < 0.55:
            op['name'] = rng.choice(STD)
            op['std'] = True
        elif y < 0.62:
            op['bad'] = rng.choice(('name', 'path', 'nothing', 'callable'))
            op['by'] = 'factory'
        return op
    if x < 0.44:
        op = {'op': 'type', 'name': rng.choice(TYPES),
              'tail': rng.choice(('', '#')), 'over': rng.random() < 0.3}
        if rng.random() < 0.3:
            op['bad'] = rng.choice(('class', 'name', 'object'))
        elif rng.random() < 0.2:
            op['name'] = rng.choice(STDTYPES)
            op['over'] = False
        return op
    if x < 0.50:
        op = {'op': 'parser', 'name': rng.choice(PARSED),
              'mark': rng.choice(('P', 'Q'))}
        if rng.random() < 0.2:
            op['bad'] = rng.choice(('class', 'name', 'object'))
        return op
    if x < 0.57:
        op = {'op': 'reader', 'name': rng.choice(TYPES),
              'mark': rng.choice(('', '!'))}
        if rng.random() < 0.3:
            op['bad'] = rng.choice(('class', 'name', 'object'))
        return op
    if x < 0.63:
        return {'op': 'look', 'name': rng.choice(STD[:6] + tuple(NAMES))}
    if x < 0.80:
        return {'op': 'load', 'pol': rng.randrange(npol),
                'pip': rng.random() < 0.2}
    return {'op': 'eval', 'pol': rng.randrange(npol)}


def gen(rng, tier):
    npol = rng.choice((1, 2, 2, 3))
    nt = rng.choice((1, 1, 2, 2, 3))
    names, types = NAMES, TYPES
    if rng.random() < 0.5:
        # everything happens to few names
        names = [rng.choice(NAMES)] * 3 + [rng.choice(NAMES)]
        types = [rng.choice(TYPES)]
        if nt > 1 and rng.random() < 0.6:
            # of these the library looks for an implementation itself
            names = [rng.choice((F1 + 'dst-other', F1 + 'dst'))]
    pols = [gen_policy(rng, i, names, types) for i in range(npol)]
    n = rng.choice((4, 6, 9)) if nt == 1 else rng.choice((2, 3, 4))
    before = []
    for _ in range(rng.choice((0, 0, 2, 4, 8))):
        op = gen_op(rng, npol, names, types)
        if op['op'] in REGS:
            for k in ('fail', 'import', 'bad', 'std'):
                op.pop(k, None)
            if op['op'] == 'fn':
                op['name'] = rng.choice(names)
            if op['op'] == 'type':
                op['name'] = rng.choice(types)
            before.append(op)
    tasks = []
    shift = rng.randrange(3)
    slow = rng.choice((0, 1, -1))
    if len(names) == 1:
        before = [op for op in before if op['op'] != 'fn']
    for t in range(nt):
        ops = [gen_op(rng, npol, names, types) for _ in range(n)]
        if nt > 1 and t == slow:
            for op in ops:
                if op['op'] == 'fn' and not op.get('bad') and not op.get(
                        'std') and not op.get('import'):
                    op['waits'] = True
                    break
        if len(names) == 1:
            ops[0] = [{'op': 'look', 'name': names[0]}, {
                'op': 'fn', 'name': names[0], 'impl': rng.choice(IMPLS),
                'by': 'factory'}, {
                'op': 'load', 'pol': rng.randrange(npol), 'pip': False}][
                    (t + shift) % 3]
        for op in ops:
            if nt == 1 and rng.random() < 0.12:
                op['inject'] = C.injected(rng, EXCS)
        tasks.append(ops)
    late = len(names) == 1 or rng.random() < 0.3
    return {'policies': pols, 'late': late, 'request': gen_request(rng), 'before': before,
            'tasks': tasks, 'sched': W.sched_spec(rng, nt, 500),
            'opcode': C.opcode(rng, 0.2, any(
                'inject' in o for ops in tasks for o in ops), nt)}


def to_xml(p):
    def val(r):
        return '<AttributeValue DataType=%s>%s</AttributeValue>' % (
            quoteattr(r['type']), escape(r['value']))

    def des(r):
        return ('<SubjectAttributeDesignator AttributeId="%s" DataType=%s '
                'MustBePresent="false"/>' % (r['attr'], quoteattr(r['type'])))
    out = []
    for k, r in enumerate(p['rules']):
        f = quoteattr(r['fn'])
        if r['where'] == 'target':
            b = ('<Target><Subjects><Subject><SubjectMatch MatchId=%s>%s%s'
                 '</SubjectMatch></Subject></Subjects></Target>' % (
                     f, val(r), des(r)))
        else:
            b = ('<Condition><Apply FunctionId=%s>%s%s</Apply></Condition>' %
                 (f, val(r), des(r)))
        out.append('<Rule RuleId="r%d" Effect="%s">%s</Rule>' % (
            k, r['effect'], b))
    return ('<Policy xmlns="urn:oasis:names:tc:xacml:2.0:policy:schema:os" '
            'PolicyId="%s" RuleCombiningAlgId="urn:oasis:names:tc:xacml:1.0:'
            'rule-combining-algorithm:%s"><Target/>%s</Policy>' % (
                p['id'], p['alg'], ''.join(out))).encode()


# -- the model ------------------------------------------------------------
def relation(impl, a, b):
    if impl == 'raise':
        raise ValueError('custom function fails')
    if impl == 'eq':
        return a == b
    if impl == 'ne':
        return a != b
    if impl == 'prefix':
        return b.startswith(a)
    return impl == 'true'


def rule_status(r, impl, tail, mark, values):
    """What a rule comes to with these registrations."""
    v = r['value'] + mark + tail
    if r['where'] == 'condition' and impl == 'raise':
        return 'Indeterminate'
    try:
        hit = [relation(impl, v, x) for x in values]
    except ValueError:
        return 'Indeterminate'
    return r['effect'] if any(hit) else 'NotApplicable'


def combine(alg, rules, got):
    if alg == 'first-applicable':
        for g in got:
            if g != 'NotApplicable':
                return g
        return 'NotApplicable'
    win, lose = (('Deny', 'Permit') if alg == 'deny-overrides'
                 else ('Permit', 'Deny'))
    if win in got:
        return win
    if any(g == 'Indeterminate' and r['effect'] == win
           for r, g in zip(rules, got)):
        return 'Indeterminate'
    if lose in got:
        return lose
    return 'Indeterminate' if 'Indeterminate' in got else 'NotApplicable'


MISSING = 'missing'


def outcomes(p, request, may):
    """Decisions (None: refused) a policy may have; may(kind, name) is the
    list of what may be registered for that name, one choice per use."""
    per = []
    for r in p['rules']:
        st = set()
        fns = ['eq'] if r['fn'] in STD else may('fn', r['fn'])
        if r['type'] in STDTYPES:
            types, marks = [''], ['']
        else:
            types = may('type', r['type'])
            marks = may('reader', r['type'])
        values = [v for a, t, vs in request
                  if a == r['attr'] and t == r['type'] for v in vs]
        for f, t, m in itertools.product(fns, types, marks):
            if MISSING in (f, t, m):
                st.add(None)
            else:
                st.add(rule_status(r, f, t, m, values))
        per.append(st)
    # the element readers leave a mark in what they have read
    said = set(itertools.product(may('parser', 'Target'), *(
        [may('parser', 'Rule')] * len(p['rules']))))
    out = set()
    for c in itertools.product(*per):
        if None in c:
            out.add(None)
        else:
            d = combine(p['alg'], p['rules'], c)
            out.update('%s %s' % (d, '/'.join(x)) for x in said)
    return out


# -- the application ------------------------------------------------------
class Imports(object):
    """Modules of the application that hold function factories; importing
    one may fail for a while."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fail = {}
        self.body = {}

    def find_spec(self, name, path=None, target=None):
        if name not in self.body:
            return None
        import importlib.machinery
        f = self.fail.pop(name, None)
        if f:
            self.ctx.fault('import ' + f)
        if f == 'ModuleNotFoundError':
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if f == 'OSError':
            raise OSError('simulated')
        return importlib.machinery.ModuleSpec(name, Loader(
            self.body[name], f))


class Loader(object):
    def __init__(self, body, fail):
        self.body, self.fail = body, fail

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = self.fail
        if f == 'noattr':
            # half a module: a retry needs a new import
            sys.modules.pop(module.__name__, None)
            sys.modules[module.__name__] = module
            module.__dict__['__spoiled__'] = True
            return
        if f:
            raise {'ImportError': ImportError, 'RuntimeError': RuntimeError,
                   'MemoryError': MemoryError,
                   'SyntaxError': SyntaxError}[f]('simulated')
        self.body(module)


class App(object):
    def __init__(self, case, ctx):
        self.m = m = W.mods()
        self.case = case
        self.ctx = ctx
        from ndg.xacml.core.functions import AbstractFunction
        from ndg.xacml.parsers.etree import attributevaluereader as R
        self.R = R
        self.F = AbstractFunction
        self.map = m.functionMap
        self.imports = Imports(ctx)
        sys.meta_path.insert(0, self.imports)
        self.nmod = 0
        self.made = {}          # class -> impl
        self.classes = {}
        self.marks = {}
        self.sched = None
        self.left = {}

    def function(self, impl, name):
        ctx = self.ctx

        def evaluate(self, *args):
            a, b = args
            vals = b if isinstance(b, list) else [b]
            if impl == 'raise':
                raise ValueError('custom function fails')
            return any([relation(impl, a.value + getattr(a, 'TAIL', ''),
                                 x.value) for x in vals])
        c = type('Custom_' + impl, (self.F,), {
            'FUNCTION_NS': str(name), 'evaluate': evaluate})
        self.made[c] = impl
        return c

    def factory(self, op):
        cls = None if op.get('bad') else self.function(op['impl'],
                                                       op['name'])
        fail = op.get('fail')
        ctx = self.ctx

        def factory(identifier):
            if op.get('waits'):
                self.wait()
            if fail:
                ctx.fault('factory ' + fail)
            if fail and fail.startswith('raise:'):
                raise W.make_exc(fail[6:])
            if fail == 'none':
                return None
            if fail == 'notfunc':
                return int
            if fail == 'instance':
                return cls()
            return cls
        return factory

    def wait(self):
        """A factory that takes as long as the other threads have work."""
        t = self.sched and self.sched.task()
        if t is None:
            return
        for _ in range(300):
            if not any(n for i, n in self.left.items() if i != t.idx):
                self.ctx.probe('others worked while a factory did')
                return
            self.sched.sleep(1.0)
        self.ctx.viol('blocked', 'other threads wait for a factory: %r' %
                      self.left)

    def register(self, op):
        """The call of a registration."""
        name = op['name']
        if op['op'] == 'fn':
            bad = op.get('bad')
            if bad == 'name':
                return lambda: self.map.load_custom_function(
                    17, self.factory(dict(op, name='x', bad=None)))
            if bad == 'path':
                return lambda: self.map.load_custom_function(
                    name, function_factory_path=17)
            if bad == 'nothing':
                return lambda: self.map.load_custom_function(name)
            if bad == 'callable':
                return lambda: self.map.load_custom_function(name, 17)
            f = self.factory(op)
            if op['by'] == 'factory':
                return lambda: self.map.load_custom_function(name, f)
            self.nmod += 1
            mod = 'dst_ext_%d' % self.nmod

            def body(module):
                if op['by'] == 'path':
                    class Factory(object):
                        def __call__(self, identifier):
                            return f(identifier)
                    module.Factory = Factory
                else:
                    module.Factory = lambda: f
            self.imports.body[mod] = body
            if op.get('import'):
                self.imports.fail[mod] = op['import']
            return lambda: self.map.load_custom_function(
                name, function_factory_path=mod + '.Factory')
        if op['op'] == 'type':
            m = self.m
            bad = op.get('bad')
            if bad == 'class':
                c = int
            elif bad == 'object':
                c = 'not a class'
            else:
                c = self.cls(name)[op.get('tail', '')]
            return lambda: m.AttributeValueClassFactory.addClass(
                17 if bad == 'name' else name, c, overwrite=op['over'])
        if op['op'] == 'parser':
            return self.parser(op)
        bad = op.get('bad')
        B = self.R.ETreeDataTypeReaderBase
        mark = op['mark']

        def parse(cls, elem, attributeValue):
            super(Reader, cls).parse(elem, attributeValue)
            attributeValue.value += mark
        Reader = type('Reader', (B,), {'parse': classmethod(parse)})
        c = {'class': int, 'object': 'x'}.get(bad, Reader)
        self.made[Reader] = mark
        return lambda: self.R.DataTypeReaderClassFactory.addReader(
            17 if bad == 'name' else name, c)

    def cls(self, name):
        """Two classes for a type; what a request has is of both, so that it
        suits whichever is registered."""
        if name not in self.classes:
            two = [type('Value', (self.m.AttributeValue,), {
                'TYPE': str, 'IDENTIFIER': name, 'TAIL': t})
                for t in ('', '#')]
            self.classes[name] = {'': two[0], '#': two[1], 'both': type(
                'Other', tuple(two), {})}
        return self.classes[name]

    def parser(self, op):
        m = self.m
        from ndg.xacml.core.rule import Rule
        from ndg.xacml.core.target import Target
        X = {'Rule': Rule, 'Target': Target}[op['name']]
        from ndg.xacml.parsers.etree.rulereader import RuleReader
        from ndg.xacml.parsers.etree.targetreader import TargetReader
        B = {'Rule': RuleReader, 'Target': TargetReader}[op['name']]
        mark = op['mark']

        def call(self, obj, common):
            x = B.__call__(self, obj, common)
            marks[id(x)] = (x, mark)
            return x
        marks = self.marks
        bad = op.get('bad')
        c = {'class': int, 'object': 'x'}.get(bad) or type(
            'Parser', (B,), {'__call__': call})
        return lambda: m.ReaderFactory.addReader(
            int if bad == 'name' else X, c)

    def use(self, pdp, req):
        """What a loaded policy does: its decision and who read it."""
        d = W.decide(pdp, req)
        out = [self.marks.get(id(x), (None, ''))[1] for x in
               [pdp.policy.target] + list(pdp.policy.rules)]
        return '%s %s' % (d, '/'.join(out))

    def request(self):
        m = self.m
        r = m.Request()
        s = m.Subject()
        for a, t, vals in self.case['request']:
            x = m.Attribute()
            x.attributeId = a
            x.dataType = t
            c = (m.AttributeValueClassFactory()(t) if t in STDTYPES
                 else self.cls(t)['both'])
            for v in vals:
                x.attributeValues.append(c(value=v))
            s.attributes.append(x)
        r.subjects.append(s)
        r.resources.append(m.Resource())
        r.action = m.Action()
        r.environment = m.Environment()
        return r

    def look(self, name):
        c = self.map.get(name)
        if c is NotImplemented:
            return 'NotImplemented'
        if c is None:
            return 'None'
        return self.made.get(c, 'std') if name not in STD else \
            self.made.get(c, c.FUNCTION_NS)


def expected_std(name):
    if name == F1 + 'integer-add':
        return ['NotImplemented']
    return [name]


def fails(op):
    """Whether a registration has to be refused."""
    return bool(op.get('fail') or op.get('import') or op.get('bad') or
                op.get('std'))


def value(op):
    """What a registration stands for in the model."""
    return op[{'fn': 'impl', 'type': 'tail'}.get(op['op'], 'mark')]


def default(kind):
    return '' if kind == 'parser' else MISSING


def possible(lst, first, inv, ret, kind, name):
    """What a use in [inv, ret] may find: lst has (interval, op, done) of
    the registrations, first is what there was before them."""
    if name in STDTYPES or name in STD:
        return ['std']

    def weak(x):
        return kind == 'type' and not x[1]['over']

    def ended(x, t):
        return x[0].ret is not None and x[0].ret < t
    # registering a type again without overwriting changes nothing
    lst = [x for x in lst if not weak(x) or first == MISSING and not any(
        y[2] and ended(y, x[0].inv) for y in lst)]
    done = [x for x in lst if x[2] and ended(x, inv)]
    strong = [x[0].inv for x in done if not weak(x)]
    out = set()
    for x in lst:
        if ret is not None and x[0].inv > ret:
            continue
        if strong and ended(x, max(strong)):
            continue                    # overwritten before
        out.add(value(x[1]))
    if not strong and not (done and first == MISSING):
        out.add(first)
    return sorted(out)


def key_of(op):
    return (op['op'], op['name'])


def run(case, ctx):
    app = App(case, ctx)
    m = app.m
    pols = case['policies']
    state = {}

    def apply(op):
        k = key_of(op)
        if op['op'] != 'type' or op['over'] or k not in state:
            state[k] = value(op)
    for op in case['before']:
        out = W.attempt(app.register(op))
        if out[0] != 'ok':
            ctx.viol('refused', '%r ended with %r' % (op, out))
            return
        apply(op)
    first = dict(state)

    def now(kind, name):
        return [state.get((kind, name), default(kind))]
    req = app.request()
    served = {}
    for i, p in enumerate(pols):
        if case['late']:
            break
        want = outcomes(p, case['request'], now)
        out = W.attempt(lambda: m.PDP.fromPolicySource(
            io.BytesIO(to_xml(p)), m.ReaderFactory, m.LocalPolicyFinder()))
        if (out[0] != 'ok') != (None in want):
            ctx.viol('load', 'policy %d: %r, due %r' % (i, out[:2], want))
            return
        if out[0] == 'ok':
            served[i] = (out[1], want)
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=600000)

    def call(op):
        if op['op'] == 'load':
            x = to_xml(pols[op['pol']])

            def load():
                s = W.SimStream(x, {'chunk': 200}, ctx, r.sched)
                pdp = m.PDP.fromPolicySource(s, m.ReaderFactory,
                                             m.LocalPolicyFinder())
                return app.use(pdp, req)
            return load
        if op['op'] == 'eval':
            if op['pol'] not in served:
                return lambda: None
            return lambda: app.use(served[op['pol']][0], req)
        if op['op'] == 'look':
            return lambda: app.look(op['name'])
        return app.register(op)
    def counted(t, fn):
        def go():
            try:
                return fn()
            finally:
                app.left[t] -= 1
        return go
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            fn = call(op)
            fault = None
            if op.get('inject'):
                fault = C.resolve(op['inject'], W.dry_points(
                    fn, case['opcode']))
            lst.append((op['op'], k, counted(t, fn), fault))
        app.left[t] = len(lst)
        r.add('t%d' % t, lst)
    app.sched = r.sched

    hist = r.run()
    # every registration as an interval in which its object may appear
    regs = {}
    for h in hist:
        op = case['tasks'][h.task][h.arg]
        if op['op'] not in REGS:
            continue
        ctx.ev(h.task, h.arg, h.kind, None if h.out is None else
               h.out[0])
        if h.out is None:
            regs.setdefault(key_of(op), []).append((h, op, None))
            continue
        ok = h.out[0] == 'ok'
        if h.out[1] == 'StepCap':
            return
        if not h.fired and ok == fails(op):
            ctx.viol('registration', '%r ended with %r' % (op, h.out))
            return
        if not ok:
            ctx.probe('refused ' + (op.get('fail') or op.get('import') or
                                    op.get('bad') or 'other').split(':')[0])
        if ok and not fails(op):
            regs.setdefault(key_of(op), []).append((h, op, True))
        elif h.fired and not fails(op):
            regs.setdefault(key_of(op), []).append((h, op, None))

    def during(h):
        return lambda kind, name: possible(
            regs.get((kind, name), ()), first.get((kind, name), default(
                kind)), h.inv, h.ret, kind, name)
    for h in hist:
        op = case['tasks'][h.task][h.arg]
        if op['op'] not in ('load', 'eval', 'look') or h.out is None:
            continue
        ctx.ev(h.task, h.arg, h.kind, h.out[:2])
        if h.out[1] == 'StepCap':
            return
        if op['op'] == 'look':
            if op['name'] in STD:
                want = set(expected_std(op['name']))
            else:
                want = set(may_look(during(h)('fn', op['name']),
                                    op['name']))
            got = h.out[1] if h.out[0] == 'ok' else 'refused'
            if h.fired and h.out[0] != 'ok':
                continue
            if got not in want:
                ctx.viol('look', '%r found %r, due %r' % (
                    op['name'], h.out, sorted(want)))
                return
            continue
        if op['op'] == 'eval':
            if op['pol'] not in served:
                continue
            want = set(served[op['pol']][1])
            if h.fired:
                want = set(['Indeterminate' + x[x.index(' '):]
                            for x in want if x]) | want
        else:
            want = outcomes(pols[op['pol']], case['request'], during(h))
        if h.fired and h.out[0] != 'ok':
            continue
        if h.fired and op['op'] == 'load':
            # the injected exception may have hit a part of the evaluation
            continue
        if h.fired and h.out[1] not in want:
            continue
        got = h.out[1] if h.out[0] == 'ok' else None
        if got not in want:
            ctx.viol('use', '%s of policy %d gave %r; only %r possible' % (
                op['op'], op['pol'], h.out, sorted(map(str, want))))
            return
        if op['op'] == 'load':
            ctx.probe('loaded' if got else 'refused load')
    final(case, ctx, app, hist, regs, first, served, req)


def may_look(vals, name):
    for v in vals:
        if v != MISSING:
            yield v
        elif name in (F1 + 'dst-other', F1 + 'dst'):
            yield 'NotImplemented'      # recognised, never implemented
        else:
            yield 'refused'


def final(case, ctx, app, hist, regs, first, served, req):
    """After the run everything can be registered and used again."""
    m = app.m
    pols = case['policies']

    def at_end(kind, name):
        return possible(regs.get((kind, name), ()), first.get(
            (kind, name), default(kind)), 10 ** 9, None, kind, name)
    for i, p in enumerate(pols):
        want = outcomes(p, case['request'], at_end)
        out = W.attempt(lambda: app.use(m.PDP.fromPolicySource(
            io.BytesIO(to_xml(p)), m.ReaderFactory, m.LocalPolicyFinder()),
            req))
        got = out[1] if out[0] == 'ok' else None
        ctx.ev('end', i, out[:2])
        if got not in want:
            ctx.viol('end', 'at the end policy %d gives %r; only %r possible'
                     % (i, out, sorted(map(str, want))))
            return
        if i in served:
            out = W.attempt(lambda: app.use(served[i][0], req))
            if out[0] != 'ok' or out[1] not in served[i][1]:
                ctx.viol('changed', 'policy %d loaded at the start gives %r, '
                         'due %r' % (i, out, served[i][1]))
                return
    for name in STD:
        out = W.attempt(lambda: app.look(name))
        if out != ('ok', expected_std(name)[0]):
            ctx.viol('standard', 'standard function %s is %r' % (name, out))
            return
    for name in STDTYPES:
        c = m.AttributeValueClassFactory()(name)
        if c is None or c.__name__ == 'Value':
            ctx.viol('standard', 'standard type %s is %r' % (name, c))
            return
    # what failed can be repeated
    again = {}
    for ops in case['tasks']:
        for op in ops:
            if op['op'] in REGS and not op.get('std'):
                x = {k: v for k, v in dict(op, over=True).items()
                     if k not in ('fail', 'import', 'bad', 'inject')}
                if x['name'] in STDTYPES:
                    continue
                again[key_of(x)] = x
    for x in again.values():
        out = W.attempt(app.register(x))
        if out[0] != 'ok':
            ctx.viol('repeat', '%r repeated without its fault: %r' % (x, out))
            return

    def repeated(kind, name):
        if (kind, name) in again:
            return [value(again[kind, name])]
        return at_end(kind, name)
    for i, p in enumerate(pols):
        want = outcomes(p, case['request'], repeated)
        out = W.attempt(lambda: app.use(m.PDP.fromPolicySource(
            io.BytesIO(to_xml(p)), m.ReaderFactory, m.LocalPolicyFinder()),
            req))
        got = out[1] if out[0] == 'ok' else None
        if got not in want:
            ctx.viol('repeat', 'after repeating all registrations policy %d '
                     'gives %r; only %r possible' % (
                         i, out, sorted(map(str, want))))
            return
