"""Reference graphs of every shape, and threads that depend on each other."""
import io

from dst import docs, gen as G, model, xmlnode, world as W
from dst import common as C

QUICK = 130
RULE = ('Documents that refer to each other in chains, rings, diamonds, '
        'cliques and random graphs (also within one document), on a '
        'simulated network with delays, failures and attribute sources that '
        'wait for an operation of another thread or evaluate a request '
        'themselves; 1-3 threads load and evaluate, part of the operations '
        'cancelled, seeded scheduler.')
ORACLE = ('an independent reader that follows the references '
          '(dst/xmlnode.py); fetches and reads counted per address, queries '
          'per evaluation; the scheduler reports threads that never go on')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel',
        'KeyboardInterrupt')
SHAPES = ('chain', 'chain', 'ring', 'ring', 'self', 'diamond', 'clique',
          'random', 'random', 'lasso', 'star', 'backclique')
BASE = '/nowhere'


def edges(rng, shape, n):
    if shape == 'chain':
        return [(i, i + 1) for i in range(n - 1)]
    if shape == 'ring':
        return [(i, (i + 1) % n) for i in range(n)]
    if shape == 'self':
        k = rng.randrange(n)
        return [(i, i + 1) for i in range(n - 1)] + [(k, k)]
    if shape == 'diamond':
        out = []
        for i in range(min(n, 6) - 1):
            out += [(i, i + 1)] * 2
        return out
    if shape == 'clique':
        n = min(n, 5)
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    if shape == 'backclique':
        n = min(n, 5)
        return [(i, j) for i in range(n) for j in range(n) if i != j]
    if shape == 'lasso':
        k = rng.randrange(n)
        return [(i, i + 1) for i in range(n - 1)] + [(n - 1, k)]
    if shape == 'star':
        return [(0, i) for i in range(1, n)] * rng.choice((1, 2))
    return [(rng.randrange(n), rng.randrange(n))
            for _ in range(rng.randint(1, n + 2))]


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.2, selectors=False)
    o.pip = True
    o.max_rules = 2
    g = G.Gen(rng, o)
    shape = rng.choice(SHAPES)
    n = rng.choice((1, 2, 2, 3, 4, 6, 9, 14))
    es = edges(rng, shape, n)
    url = [rng.choice(('http://h/%d', 'https://h/x/%d', 'd/%d', '%d', './%d',
                       '/abs/%d', 'ftp://h/%d')) % i for i in range(n)]
    out = []
    leaf = set(range(n)) - set(a for a, b in es)
    kinds = ['P' if i in leaf and rng.random() < 0.7 else 'S'
             for i in range(n)]
    for i in range(n):
        if kinds[i] == 'P':
            p = dict(g.policy(), id=url[i])
        else:
            kids = [{'t': 'R', 'kind': kinds[b] if rng.random() < 0.97 else
                     'P', 'ref': url[b]} for a, b in es if a == i]
            while len(kids) > 1 and rng.random() < 0.2:
                # below a set of its own
                x = kids.pop()
                kids.append({'t': 'S', 'id': g.uid('urn:w:'),
                             'alg': rng.choice(G.ALGS), 'target': None,
                             'kids': [x]})
            if not kids or rng.random() < 0.4:
                kids.insert(rng.randint(0, len(kids)),
                            g.policy(nrules=1))
            rng.shuffle(kids)
            p = {'t': 'S', 'id': url[i], 'alg': rng.choice(G.ALGS),
                 'target': g.target(0.2, small=True), 'kids': kids}
        out.append(p)
    if rng.random() < 0.5:
        root = {'t': 'S', 'id': 'urn:root', 'alg': rng.choice(G.ALGS),
                'target': None, 'kids': [
                    {'t': 'R', 'kind': kinds[0], 'ref': url[0]}]}
        if rng.random() < 0.4:
            root['kids'].append({'t': 'R', 'kind': kinds[-1],
                                 'ref': url[-1]})
    else:
        root = out[0]
    if rng.random() < 0.1 and root['t'] == 'S':
        root['kids'].append({'t': 'R', 'kind': 'S', 'ref': root['id']})
    dl = []
    for u, p in zip(url, out):
        d = {'url': xmlnode.url_of(BASE, u), 'node': p,
             'spec': docs.delivery(rng, False)}
        x = rng.random()
        if x < 0.02:
            d['fault'] = rng.choice(W.NET_FAULTS)
        elif x < 0.04:
            d['spec'] = docs.delivery(rng, True, 300)
        elif x < 0.05:
            continue
        elif x < 0.3:
            d['delay'] = rng.choice((1e-4, 0.1, 30.0))
        dl.append(d)
    plain = g.any_policy()
    reqs = []
    for p in (plain, plain, root):
        q = C.interesting(rng, g, p if p is not root else plain)
        if rng.random() < 0.5:
            q['subjects'] = q['subjects'] + [g.attrs('S')]
        if q.get('pip') is None:
            q['pip'] = g.pip()
        reqs.append(q)
    nt = rng.choice((1, 1, 2, 2, 3))
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            op = {'op': rng.choice(('load', 'load', 'eval')),
                  'q': rng.randrange(len(reqs))}
            x = rng.random()
            if x < 0.15:
                op['fault'] = C.injected(rng, EXCS)
            if x > 0.5 and t == 0 and nt > 1:
                op['wait'] = rng.randrange(1, nt)
            elif x > 0.4:
                op['own'] = rng.randrange(len(reqs))
            ops.append(op)
        tasks.append(ops)
    return {'root': root, 'docs': dl, 'plain': plain, 'requests': reqs,
            'tasks': tasks, 'shape': shape,
            'sched': W.sched_spec(rng, nt, 2500),
            'opcode': C.opcode(rng, 0.1, True, nt)}



def references(p, out, kinds=None):
    for k in p.get('kids', ()):
        if k['t'] == 'R':
            u = xmlnode.url_of(BASE, k['ref'])
            out[u] = out.get(u, 0) + 1
            if kinds is not None:
                kinds.setdefault(u, set()).add(k['kind'])
        else:
            references(k, out, kinds)
    return out


def designators(node):
    """Subject designators of a policy with its references resolved (the
    source is asked for those only)."""
    return G.to_xml(node).count('<SubjectAttributeDesignator')


class Busy(Exception):
    pass


def run(case, ctx):
    m = W.mods()
    opcode = case['opcode']
    data = G.to_xml(case['root']).encode()
    texts = {}
    netdocs = {}
    kinds = {}
    total = references(case['root'], {}, kinds)
    for d in case['docs']:
        x = G.to_xml(d['node']).encode()
        netdocs[d['url']] = {'data': x, 'spec': d.get('spec'),
                             'delay': d.get('delay'),
                             'fault': d.get('fault')}
        bad = d.get('fault') or (d.get('spec') or {}).get('fault')
        texts[d['url']] = None if bad else x
        for u, k in references(d['node'], {}, kinds).items():
            total[u] = total.get(u, 0) + k
    want = xmlnode.graph(data, texts, BASE)
    ctx.probe('graph %s %s' % (want[0], case['shape']))
    if want[0] == 'reject' and 'circular' in want[1]:
        ctx.probe('circular')
    shared = W.load_bytes(G.to_xml(case['plain']).encode())
    limits = {'load': designators(want[1]) if want[0] == 'ok' else None,
              'eval': designators(case['plain'])}
    r = W.Runner(ctx, case['sched'], opcode=opcode, step_cap=3000000)
    net = W.Net(netdocs, ctx, None, cap=100000).install()
    done = set()
    first = {}          # thread -> its first operation has ended
    starved = []
    pips = {}

    def request(op, t, k, sched):
        q = case['requests'][op['q']]
        req = W.Req(q, ctx if sched else None, sched)
        req.pip.cap = 200000
        if sched is not None:
            pips[t, k] = req.pip
        if 'own' in op:
            other = W.Req(case['requests'][op['own']], None)
            other.pip.cap = 200000

            def own(pip, request, designator):
                if pip.n == 1:
                    other.n = W.attempt(lambda: W.decide(shared, other.obj))
            req.pip.hook = own
        if 'wait' in op and sched is not None:
            def wait(pip, request, designator):
                i = 0
                while op['wait'] not in done:
                    i += 1
                    if i > 3000:
                        starved.append((t, k))
                        raise Busy('starved')
                    sched.sleep(0.05 * i)
            req.pip.hook = wait
        return req

    def call(op, t, k, sched):
        req = request(op, t, k, sched)
        if op['op'] == 'eval':
            return lambda: W.decide(shared, req.obj)

        def load():
            pdp = m.PDP.fromPolicySource(io.BytesIO(data), m.ReaderFactory,
                                         m.UrlPolicyFinder(BASE))
            first.setdefault('pdp', pdp)
            return W.decide(pdp, req.obj)
        return load

    nloads = 0
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            fault = None
            if op.get('fault'):
                fault = C.resolve(op['fault'], W.dry_points(
                    call(op, t, k, None), opcode))
            fn = call(op, t, k, r.sched)
            nloads += op['op'] == 'load'
            lst.append((op['op'], k, fn, fault))
        lst.append(('done', len(ops), lambda t=t: done.add(t)))
        r.add('t%d' % t, lst)
    net.sched = r.sched
    hist = r.run()
    net.sched = None
    for h in hist:
        if h.out is None or h.kind == 'done':
            continue
        op = case['tasks'][h.task][h.arg]
        ctx.ev(h.task, h.arg, h.kind, h.out[:2])
        if h.out[1] in ('StepCap',):
            return
        if h.out[1] in ('QueryFlood', 'FetchFlood'):
            ctx.viol('flood', '%s: %s' % h.out[1:])
            return
        if (h.task, h.arg) in starved:
            ctx.viol('starved', 'thread %d never finished while thread %d '
                     'evaluated' % (op['wait'], h.task))
            return
        if h.kind == 'load':
            circ = want[0] == 'reject' and 'circular' in want[1]
            if circ and h.out[0] == 'ok':
                ctx.viol('circular accepted', 'load of a circular graph '
                         'gave %r: %s' % (h.out, want[1]))
                return
        p = pips.get((h.task, h.arg))
        n = limits[h.kind]
        if p is not None and n is not None:
            most = n * len(case['requests'][op['q']]['subjects'])
            ctx.probe('queries', p.n)
            if p.n > most:
                ctx.viol('queries', '%d queries for %d attribute references '
                         'and %d subjects' % (
                             p.n, n, most // n if n else 0))
                return
    count = {}
    for u in net.log:
        count[u] = count.get(u, 0) + 1
    reads = {}
    for s in net.streams:
        if s.reads:
            reads[s.url] = reads.get(s.url, 0) + 1
    ctx.probe('fetches', len(net.log))
    for u, k in sorted(count.items()):
        if k > total.get(u, 0) * nloads:
            ctx.viol('fetches', '%s fetched %d times in %d loads, referred '
                     'to %d times' % (u, k, nloads, total.get(u, 0)))
            return
        if reads.get(u, 0) > nloads * len(kinds[u]):
            ctx.viol('reads', '%s read %d times in %d loads' % (
                u, reads[u], nloads))
            return
