"""Concurrent evaluations and loads against the same calls run alone."""
from dst import gen as G, model, world as W
from dst import common as C
from dst.core import fork_eval

QUICK = 480
RULE = ('2-4 simulated threads, each with 1-4 evaluations on shared PDPs '
        '(sharing request objects in part of the runs) and loads of further '
        'policies, under a seeded scheduler (five strategies); part of the '
        'runs start in a process that has used nothing yet.')
ORACLE = ('every call against the same call run alone in a forked copy of '
          'the process, and against the model')


def gen(rng, tier):
    k = rng.random()
    if k < 0.5:
        return gen_hot(rng)
    if k < 0.7:
        return gen_twins(rng)
    npol = rng.choice((1, 1, 2))
    o = G.Opts(rng, errors=rng.random() < 0.35)
    if rng.random() < 0.5:
        o.salt = 'c%d' % rng.randrange(10 ** 9)
    o.pip = rng.random() < 0.7
    g = G.Gen(rng, o)
    pols = []
    for _ in range(npol + rng.choice((0, 1, 1))):
        n = g.any_policy()
        if rng.random() < 0.2:
            G.add_local_refs(rng, n, 0.2)
        if G.size(n, G.index(n)) > 40:
            n = g.policy()
        pols.append(n)
    # some name a policy of another document
    remote = {}
    for i, n in enumerate(list(pols)):
        if rng.random() < 0.35:
            url = 'http://h/%d' % rng.randrange(2)
            sub = remote.get(url) or dict(
                g.policy() if rng.random() < 0.7 else g.policyset(1), id=url)
            remote[url] = sub
            pols[i] = {'t': 'S', 'id': 'urn:set:%d' % i,
                       'alg': rng.choice(G.ALGS), 'target': None,
                       'kids': [n, {'t': 'R', 'kind': sub['t'],
                                    'ref': url}]}
    refs = indexes(pols, remote)
    reqs = []
    for i in range(rng.choice((1, 2, 3))):
        k = rng.randrange(len(pols))
        q = C.interesting(rng, g, pols[k], refs=refs[k])
        if q.get('pip') and rng.random() < 0.5:
            q['pip']['jitter'] = rng.choice((1e-4, 1e-2))
        reqs.append(q)
    tasks = []
    nt = rng.choice((2, 2, 3, 4))
    same = rng.random() < 0.3       # all threads do the same thing
    for t in range(nt):
        if same and tasks:
            tasks.append([list(x) for x in tasks[0]])
            continue
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            if rng.random() < 0.3:
                ops.append(['load', rng.randrange(len(pols)),
                            rng.randrange(len(reqs))])
            else:
                ops.append(['eval', rng.randrange(npol),
                            rng.randrange(len(reqs))])
        tasks.append(ops)
    return {'policies': pols, 'npdp': npol, 'remote': remote,
            'netdelay': rng.choice((0, 0, 1e-3, 1.0)), 'requests': reqs, 'tasks': tasks,
            'share': rng.random() < 0.5, 'sharepip': rng.random() < 0.5,
            'sched': W.sched_spec(rng, nt, rng.choice((300, 1500, 5000))),
            'opcode': rng.random() < 0.12}


def gen_hot(rng):
    """Threads that keep evaluating one small policy with requests that
    differ in their decisions: what one evaluation leaves behind in shared
    state changes another's answer."""
    for _ in range(30):
        o = G.Opts(rng, errors=rng.random() < 0.3)
        o.pip = rng.random() < 0.6
        o.depth = 1
        o.max_rules = rng.choice((2, 3, 4))
        o.max_kids = rng.choice((2, 3))
        g = G.Gen(rng, o)
        node = g.policy() if rng.random() < 0.65 else g.policyset(1)
        refs = G.index(node)
        if G.size(node, refs) > 25:
            continue
        by = {}
        for _ in range(14):
            q = g.request()
            d = tuple(sorted(model.decide(node, q, refs=refs)))
            by.setdefault(d, q)
        if len(by) > 1:
            break
    reqs = [by[k] for k in sorted(by)]
    rng.shuffle(reqs)
    reqs = reqs[:rng.choice((2, 3, 4))]
    for q in reqs:
        if q.get('pip') and rng.random() < 0.6:
            q['pip']['jitter'] = rng.choice((1e-4, 1e-2))
    nt = rng.choice((2, 2, 3))
    tasks = []
    for t in range(nt):
        mine = rng.sample(range(len(reqs)), rng.choice((1, 1, 2)))
        tasks.append([['eval', 0, rng.choice(mine)]
                      for _ in range(rng.choice((2, 3, 4)))])
    return {'policies': [node], 'npdp': 1, 'remote': {}, 'netdelay': 0,
            'requests': reqs, 'tasks': tasks, 'share': rng.random() < 0.3,
            'sharepip': rng.random() < 0.3,
            'sched': W.sched_spec(rng, nt, rng.choice((100, 300, 1500))),
            'opcode': rng.random() < 0.12}


def gen_twins(rng):
    """Threads that load small policies of one shape and different content
    at the same time: what one load leaves in shared state gets into the
    policy of another."""
    for _ in range(30):
        o = G.Opts(rng, errors=rng.random() < 0.15)
        o.pip = False
        o.depth = 1
        o.max_rules = rng.choice((1, 2))
        o.max_kids = rng.choice((1, 2))
        g = G.Gen(rng, o)
        node = g.policy() if rng.random() < 0.8 else g.policyset(1)
        if G.size(node, G.index(node)) > 6:
            continue
        pols = [node] + [G.twin(g, node) for _ in range(rng.choice((1, 2)))]
        # the requests that tell these policies from each other
        cand = []
        for _ in range(40):
            q = g.request()
            d = [tuple(sorted(model.decide(p, q, refs=G.index(p))))
                 for p in pols]
            cand.append((-len(set(d)), len(cand), d, q))
        cand.sort(key=lambda x: x[:2])
        if cand[0][0] < -1:
            break
    seen, reqs = [], []
    for _, _, d, q in cand:
        if d not in seen:
            seen.append(d)
            reqs.append(q)
    reqs = reqs[:rng.choice((3, 4))]
    nt = rng.choice((2, 2, 3))
    tasks = [[['loadall', (t + i) % len(pols), 0]
              for i in range(rng.choice((1, 1, 2)))] for t in range(nt)]
    seed = rng.getrandbits(32)
    sched = rng.choice((
        {'kind': 'rr', 'seed': seed},
        {'kind': 'rand', 'p': rng.choice((0.5, 0.3, 0.1)), 'seed': seed},
        {'kind': 'gaps', 'm': rng.choice((2, 5, 15)), 'seed': seed},
        {'kind': 'func', 'p': rng.choice((0.9, 0.5)),
         'k': rng.choice((1, 2, 3, 8)), 'seed': seed}))
    return {'policies': pols, 'npdp': 0, 'remote': {}, 'netdelay': 0,
            'requests': reqs, 'tasks': tasks, 'share': False,
            'sharepip': False, 'sched': sched,
            'opcode': rng.random() < 0.12}


def indexes(pols, remote):
    out = [G.index(n) for n in pols]
    for ix in out:
        for u, n in remote.items():
            G.index(n, ix)
    return out


def run(case, ctx):
    pols, reqs = case['policies'], case['requests']
    xml = [G.to_xml(n).encode() for n in pols]
    ix = indexes(pols, case['remote'])
    net = W.Net({u: {'data': G.to_xml(n).encode(),
                     'delay': case['netdelay'], 'spec': {'chunk': 'rand'}}
                 for u, n in case['remote'].items()}, ctx, None).install()

    def fresh(i):
        return W.load_bytes(xml[i], W.mods().UrlPolicyFinder('/usr'))
    pdps = [fresh(i) for i in range(case['npdp'])]
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=1500000)
    shared = {}

    def request(j, t, pipsched):
        if case['share']:
            if j not in shared:
                shared[j] = W.Req(reqs[j], ctx, r.sched, 'q%d' % j)
            return shared[j].obj
        q = W.Req(reqs[j], ctx, r.sched, 'q%d.%d' % (j, t))
        if case['sharepip'] and q.pip is not None:
            q.obj.ctxHandler = shared.setdefault(('pip', j), q.pip)
        return q.obj

    def work(op, obj):
        if op[0] == 'eval':
            return lambda: W.decide(pdps[op[1]], obj)
        if op[0] == 'loadall':
            return lambda: loadall(op[1])
        return lambda: W.decide(fresh(op[1]), obj)

    def loadall(i):
        pdp = fresh(i)
        return [W.decide(pdp, W.Req(q, None).obj) for q in reqs]

    want = {}
    for t in case['tasks']:
        for op in t:
            k = tuple(op)
            if k in want:
                continue
            alone = W.Req(reqs[op[2]], None).obj
            fn = work(op, alone)
            want[k] = tuple(fork_eval(lambda: W.attempt(fn)))
    for t, ops in enumerate(case['tasks']):
        r.add('t%d' % t, [(op[0], tuple(op), work(op, request(op[2], t, r)))
                          for op in ops])
    net.sched = r.sched
    hist = r.run()
    net.sched = None
    for op in hist:
        if op.out is None:
            continue        # unfinished: reported as deadlock or stuck
        ctx.ev(op.task, op.arg, op.out[:2])
        w = want[op.arg]
        ctx.probe('%s %s' % (op.kind, w[1] if op.kind != 'loadall' else
                             len(set(w[1]))))
        if w[0] != 'ok':
            ctx.viol('alone', '%r alone raised %r' % (op.arg, w))
            return
        for j, d in ([(op.arg[2], w[1])] if op.kind != 'loadall'
                     else enumerate(w[1])):
            m = model.decide(pols[op.arg[1]], reqs[j], refs=ix[op.arg[1]])
            if d not in m:
                ctx.viol('alone', '%r alone gave %s for request %d; only %s '
                         'possible' % (op.arg, d, j, sorted(m)))
                return
        if op.out[:2] != w[:2]:
            if op.out[1] == 'StepCap':
                continue
            ctx.viol('differs', 'thread %d %r: %r, alone %r' % (
                op.task, op.arg, op.out, w))
            return
