"""A PDP as a linearizable register: evaluations read, replacements write."""
import copy
import io

from dst import gen as G, model, world as W, lin
from dst import common as C

QUICK = 200
RULE = ('One PDP, 1-3 evaluating and 1-2 replacing simulated threads '
        '(assignment, load from a source, or a replacement made by the '
        'attribute source in the middle of an evaluation), seeded scheduler.')
ORACLE = ('linearizability of the recorded history against a register of '
          'policies whose reads are judged by the model')


def variant(rng, g, n):
    """Same identifiers, other decisions: a mixture would show."""
    m = copy.deepcopy(n)
    k = rng.random()
    if m['t'] == 'P':
        if k < 0.45:
            for r in m['rules']:
                r['effect'] = 'Deny' if r['effect'] == 'Permit' else 'Permit'
        elif k < 0.6:
            m['alg'] = rng.choice(G.ALGS)
            m['rules'].reverse()
        else:
            m['rules'] = [g.rule() for _ in range(rng.choice((1, 2, 3)))]
        if rng.random() < 0.5:
            m['target'] = None if m['target'] else g.target(1.0)
    else:
        m['kids'] = [variant(rng, g, x) for x in m['kids']]
        if k < 0.4:
            m['kids'].reverse()
        if rng.random() < 0.4:
            m['alg'] = rng.choice(G.ALGS)
        if rng.random() < 0.4:
            m['target'] = None if m['target'] else g.target(1.0)
    return m


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.2, max_kids=3)
    o.pip = rng.random() < 0.75
    g = G.Gen(rng, o)
    for _ in range(12):
        base = g.any_policy()
        pols = [base]
        for _ in range(rng.choice((1, 1, 2, 3))):
            pols.append(variant(rng, g, base) if rng.random() < 0.75
                        else g.any_policy())
        reqs = [C.interesting(rng, g, rng.choice(pols))
                for _ in range(rng.choice((1, 2)))]
        if len(set(frozenset(model.decide(p, reqs[0])) for p in pols)) > 1:
            break
    for q in reqs:
        if q.get('pip') and rng.random() < 0.6:
            q['pip']['jitter'] = rng.choice((1e-4, 1e-2, 1.0))
    tasks = []
    for t in range(rng.choice((1, 2, 3))):
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            op = ['eval', rng.randrange(len(reqs))]
            if rng.random() < 0.35:
                # the attribute source swaps the policy at its kth query
                op.append([rng.choice((1, 1, 2, 3)),
                           rng.choice(('set', 'load')),
                           rng.randrange(len(pols))])
            ops.append(op)
        tasks.append(ops)
    for t in range(rng.choice((0, 1, 1, 2))):
        tasks.append([[rng.choice(('set', 'set', 'load')),
                       rng.randrange(len(pols))]
                      for _ in range(rng.choice((1, 2, 3)))])
    if len(tasks) == 1:
        tasks.append([['set', len(pols) - 1], ['set', 0]])
    est = rng.choice((200, 800, 3000))
    return {'policies': pols, 'requests': reqs, 'tasks': tasks,
            'sched': W.sched_spec(rng, len(tasks), est),
            'opcode': rng.random() < 0.15}


def run(case, ctx):
    m = W.mods()
    pols, reqs = case['policies'], case['requests']
    xml = [G.to_xml(n).encode() for n in pols]
    objs = [W.load_bytes(x).policy for x in xml]
    pdp = m.PDP(objs[0])
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=800000)
    nested = []

    def install(kind, i):
        if kind == 'set':
            pdp.policy = objs[i]
        else:
            pdp.setPolicyFromSource(io.BytesIO(xml[i]), m.ReaderFactory,
                                    m.LocalPolicyFinder())

    def hook(spec):
        def h(pip, request, designator):
            if pip.n == spec[0]:
                r.seq += 1
                ev = {'kind': 'set', 'value': spec[2], 'inv': r.seq}
                install(spec[1], spec[2])
                r.seq += 1
                ev['ret'] = r.seq
                nested.append(ev)
                ctx.probe('replaced during evaluation')
        return h

    for t, ops in enumerate(case['tasks']):
        lst = []
        for op in ops:
            if op[0] == 'eval':
                q = W.Req(reqs[op[1]], ctx, r.sched)
                if len(op) > 2 and q.pip is not None:
                    q.pip.hook = hook(op[2])
                lst.append(('eval', tuple(op[:2]),
                            lambda q=q: W.decide(pdp, q.obj)))
            else:
                lst.append((op[0], tuple(op),
                            lambda op=op: install(op[0], op[1])))
        r.add('t%d' % t, lst)
    hist = r.run()
    events = list(nested)
    for op in hist:
        if op.out is None:
            continue
        ctx.ev(op.task, op.arg, op.out[:2])
        if op.out[0] != 'ok':
            if op.out[1] != 'StepCap':
                ctx.viol('raised', '%r raised %r' % (op.arg, op.out))
            return
        if op.kind == 'eval':
            may = [i for i, n in enumerate(pols)
                   if op.out[1] in model.decide(n, reqs[op.arg[1]])]
            if not may:
                ctx.viol('mixture', 'evaluation of request %d gave %s, which '
                         'none of the policies gives (%s)' % (
                             op.arg[1], op.out[1],
                             [sorted(model.decide(n, reqs[op.arg[1]]))
                              for n in pols]))
                return
            if len(may) < len(pols):
                ctx.probe('discriminating evaluation')
            events.append({'kind': 'get', 'may': may, 'inv': op.inv,
                           'ret': op.ret})
        else:
            events.append({'kind': 'set', 'value': op.arg[1], 'inv': op.inv,
                           'ret': op.ret})
    if not lin.linearizable(events, 0):
        ctx.viol('not atomic', 'no order of the replacements explains the '
                 'decisions: %s' % sorted(
                     [(e['inv'], e['ret'], e['kind'],
                       e.get('may', e.get('value'))) for e in events]))
