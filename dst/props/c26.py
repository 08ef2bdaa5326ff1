"""Children forked while other threads are at work."""
import os

from dst import docs, gen as G, model, world as W
from dst.core import fork_eval, fork_here
from dst.props import c01

QUICK = 330
RULE = ('1-3 simulated threads evaluate, load, make the first use of '
        'functions, register functions and import from directories of the '
        'application, one more thread forks 1-4 children at the moments the '
        'seeded scheduler chooses; each child, in which only the forking '
        'thread goes on, does 1-4 operations of its own.')
ORACLE = ('every operation of a child and of the parent against the same '
          'operation run alone in a forked copy of an idle process, and the '
          'model; a lock whose holder does not exist in the child')
POLICY = ('<Policy xmlns="urn:oasis:names:tc:xacml:2.0:policy:schema:os" '
          'PolicyId="p" RuleCombiningAlgId="%s"><Target/><Rule RuleId="r" '
          'Effect="Permit"><Target><Subjects><Subject><SubjectMatch '
          'MatchId="urn:t:fork:%d"><AttributeValue DataType="%s">x'
          '</AttributeValue><SubjectAttributeDesignator '
          'AttributeId="urn:s:role" DataType="%s"/></SubjectMatch></Subject>'
          '</Subjects></Target></Rule></Policy>')
FIRST = [F + n for F, ns in (
    (G.F1, ('string-equal', 'boolean-equal', 'integer-equal', 'and', 'or',
            'not', 'round', 'floor', 'integer-add', 'string-bag',
            'date-equal', 'time-one-and-only', 'anyURI-bag',
            'x500Name-match', 'rfc822Name-match', 'string-regexp-match',
            'double-bag-size', 'string-subset', 'hexBinary-is-in',
            'string-at-least-one-member-of', 'integer-greater-than')),
    (G.F2, ('anyURI-regexp-match', 'string-concatenate', 'time-in-range',
            'url-string-concatenate'))) for n in ns]
ROLE = {'subjects': [[{'id': 'urn:s:role', 'dt': G.STR, 'iss': None,
                       'vals': ['x']}]], 'resources': [[]], 'action': [],
        'env': []}


def gen(rng, tier):
    x = rng.random()
    case = c01.gen_hot(rng) if x < 0.3 else c01.gen_twins(rng) \
        if x < 0.55 else c01.gen(rng, tier)
    case['share'] = False

    def op():
        y = rng.random()
        if y < 0.30 and case['npdp']:
            return ['eval', rng.randrange(case['npdp']),
                    rng.randrange(len(case['requests']))]
        if y < 0.65:
            return ['load', rng.randrange(len(case['policies'])),
                    rng.randrange(len(case['requests']))]
        if y < 0.72:
            return ['loadall', rng.randrange(len(case['policies'])), 0]
        if y < 0.78:
            return ['fetch', rng.randrange(3), 0]
        if y < 0.90:
            return ['first', rng.randrange(len(FIRST)), 0]
        return [rng.choice(('reg', 'path', 'path')), rng.randrange(3), 0]
    case['tasks'] = case['tasks'][:rng.choice((1, 2, 2, 3))]
    for t in case['tasks']:
        for _ in range(rng.choice((0, 0, 1, 2))):
            t.insert(rng.randint(0, len(t)), op())
    if rng.random() < 0.25:
        # the same small thing over and over, also in the child
        kinds = rng.choice((('first',), ('first',), ('fetch',),
                            ('reg', 'path'), ('reg', 'path'),
                            ('reg', 'path', 'first', 'fetch')))

        def op():
            k = rng.choice(kinds)
            return [k, rng.randrange(len(FIRST) if k == 'first' else 3), 0]
        case['tasks'] = [[op() for _ in range(rng.choice((1, 2, 3)))]
                         for _ in case['tasks']]
    case['forks'] = [[op() for _ in range(rng.choice((1, 1, 2, 3)))]
                     for _ in range(rng.choice((1, 1, 2, 4)))]
    if case['npdp']:
        for f in case['forks']:
            if rng.random() < 0.2:
                f.insert(rng.randint(0, len(f)), [
                    'set', rng.randrange(case['npdp']), rng.choice([
                        x[2] for x in f if x[0] == 'eval'] or [0])])
    case['at'] = rng.randint(0, len(case['tasks']))
    return case


def run(case, ctx):
    files = docs.Files()
    try:
        body(case, ctx, files)
    finally:
        files.close()


def body(case, ctx, files):
    W.mods()
    pols, reqs = case['policies'], case['requests']
    xml = [G.to_xml(n).encode() for n in pols]
    ix = c01.indexes(pols, case['remote'])
    net = W.Net({u: {'data': G.to_xml(n).encode(),
                     'delay': case['netdelay'], 'spec': {'chunk': 'rand'}}
                 for u, n in case['remote'].items()}, ctx, None).install()
    for k in range(3):
        net.docs['http://dst/doc%d' % k] = {
            'data': b'doc %d' % k, 'delay': case['netdelay'] or k,
            'spec': {'chunk': 'rand'}}
    from ndg.xacml.utils import urlfetcher
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    from ndg.xacml.utils.factory import callModuleObject
    for k in range(3):
        d = os.path.join(files.dir, 'd%d' % k)
        os.mkdir(d)
        with open(os.path.join(d, 'dst_fork_%d.py' % k), 'w') as fh:
            fh.write('class K(object):\n    n = %d\n' % k)

    class Same(AbstractFunction):
        FUNCTION_NS = 'urn:t:fork'

        def evaluate(self, a, b):
            return a.value == b.value

    def fresh(i):
        return W.load_bytes(xml[i], W.mods().UrlPolicyFinder('/usr'))
    pdps = [fresh(i) for i in range(case['npdp'])]
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=1500000)
    inside = []

    def do(op, sched, name):
        if op[0] in ('eval', 'load'):
            q = W.Req(reqs[op[2]], None if sched is None else ctx, sched,
                      name)
            return W.decide(pdps[op[1]] if op[0] == 'eval' else
                            fresh(op[1]), q.obj)
        if op[0] == 'loadall':
            p = fresh(op[1])
            return [W.decide(p, W.Req(q, None).obj) for q in reqs]
        if op[0] == 'reg':
            functionMap.load_custom_function('urn:t:fork:%d' % op[1],
                                             lambda ns: Same)
            p = W.load_bytes((POLICY % (G.RALG['first'], op[1], G.STR,
                                        G.STR)).encode(),
                             W.mods().UrlPolicyFinder('/usr'))
            return W.decide(p, W.Req(ROLE, None).obj)
        if op[0] == 'first':
            f = functionMap.get(FIRST[op[1]])
            return [f.__module__, f.__name__] if isinstance(f, type) \
                else repr(f)
        if op[0] == 'fetch':
            with urlfetcher.fetch_stream_from_url(
                    'http://dst/doc%d' % op[1]) as fh:
                return fh.read().decode()
        if op[0] == 'set':
            old = pdps[op[1]].policy
            new = fresh((op[1] + 1) % len(pols)).policy
            pdps[op[1]].policy = new
            d = W.decide(pdps[op[1]], W.Req(reqs[op[2]], None).obj)
            pdps[op[1]].policy = old
            return d
        return callModuleObject(
            'dst_fork_%d:K' % op[1], moduleFilePath=os.path.join(
                files.dir, 'd%d' % op[1])).n

    def fork(ops):
        def child():
            net.sched = None
            return [W.attempt(lambda op=op: do(op, None, '')) for op in ops]
        busy = [t.op for t in r.sched.tasks if t.state != 'done']
        ctx.fault('fork')
        inside.append(len(busy))
        return fork_here(child)

    tasks = [list(t) for t in case['tasks']]
    want = {}
    for op in [x for t in tasks + case['forks'] for x in t]:
        k = tuple(op)
        if k not in want:
            want[k] = tuple(fork_eval(lambda: W.attempt(
                lambda: do(op, None, ''))))
    at = min(case['at'], len(tasks))
    for t in range(len(tasks) + 1):
        if t == at:
            r.add('forker', [('fork', i, (lambda ops=ops: fork(ops)))
                             for i, ops in enumerate(case['forks'])])
        if t < len(tasks):
            r.add('t%d' % t, [(op[0], tuple(op), (
                lambda op=op, t=t: do(op, r.sched, 'q%d' % t)))
                for op in tasks[t]])
    net.sched = r.sched
    hist = r.run()
    net.sched = None

    def judge(where, op, out):
        w = want[op]
        ctx.ev(where, op, out[:2])
        ctx.probe('%s %s' % (where.split()[0], op[0]))
        if w[0] != 'ok':
            ctx.viol('alone', '%r alone raised %r' % (op, w))
            return False
        if op[0] in ('eval', 'load', 'loadall', 'set'):
            pol = op[1] if op[0] != 'set' else (op[1] + 1) % len(pols)
            for j, d in ([(op[2], w[1])] if op[0] != 'loadall'
                         else enumerate(w[1])):
                m = model.decide(pols[pol], reqs[j], refs=ix[pol])
                if d not in m:
                    ctx.viol('alone', '%r alone gave %s for request %d; only '
                             '%s possible' % (op, d, j, sorted(m)))
                    return False
        if list(out[:2]) != list(w[:2]) and out[1] != 'StepCap':
            ctx.viol('differs', '%s %r: %r, alone %r' % (where, op, out, w))
            return False
        return True

    for h in hist:
        if h.out is None:
            continue
        if h.kind != 'fork':
            if not judge('parent %d' % h.task, h.arg, h.out):
                return
            continue
        if h.out[0] != 'ok':
            if h.out[1] == 'StepCap':
                continue
            raise RuntimeError('fork: %r' % (h.out,))
        ops = case['forks'][h.arg]
        if h.out[1] is None:
            ctx.viol('hangs', 'child %d did not end: %r' % (h.arg, ops))
            return
        for op, out in zip(ops, h.out[1]):
            if not judge('child %d' % h.arg, tuple(op), out):
                return
