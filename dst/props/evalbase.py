"""Shared workload of the evaluation properties: one PDP, requests whose
attribute sources fail in scripted ways, and exceptions injected at chosen
points of the evaluation; oracle: the set-valued reference model."""
from dst import gen, model, world as W
from dst import common as C


def gen_case(rng, tier, kind, faults=0.5, errors=None, refs=0.0):
    kw = {}
    if errors is not None:
        kw['errors'] = errors
    o = gen.Opts(rng, **kw)
    o.selectors = rng.random() < 0.3
    g = gen.Gen(rng, o)
    for _ in range(8):
        node = {'P': g.policy, 'S': g.policyset,
                'any': g.any_policy}[kind]()
        if rng.random() < refs:
            gen.add_local_refs(rng, node)
        ix = gen.index(node)
        if gen.size(node, ix) > 60:
            continue
        q = C.interesting(rng, g, node, refs=ix)
        if model.decide(node, q, refs=ix) != {'NotApplicable'}:
            break
    else:
        node = g.policy()
        ix = gen.index(node)
        q = C.interesting(rng, g, node)
    ops = []
    nq = rng.choice((2, 3, 4))
    reqs = [q] + [C.interesting(rng, g, node, refs=ix)
                  for _ in range(nq - 1)]
    big = None
    if rng.random() < 0.1:
        big, node, reqs = gen.padded(rng, node, reqs)
    for i in range(rng.choice((3, 4, 6))):
        op = {'q': rng.randrange(nq)}
        x = rng.random()
        if x < faults:
            op['fault'] = C.injected(rng)
        elif x < faults + 0.15 and reqs[op['q']].get('pip'):
            # the attribute source fails once, at its kth query
            op['nth'] = [rng.choice((1, 1, 2, 3)),
                         rng.choice(gen.PIP_FAULTS)]
        ops.append(op)
    return {'policy': node, 'requests': reqs, 'ops': ops, 'big': big,
            'sched': {'kind': 'none'},
            'opcode': rng.random() < 0.15}


def with_nth(q, nth):
    q = dict(q)
    q['pip'] = dict(q['pip'], nth=nth)
    return q


def run_case(case, ctx, prop_raise=False):
    node = case['policy']
    refs = gen.index(node)
    pdp = W.load_bytes(gen.to_xml(node).encode())
    opcode = case.get('opcode', False)
    if case.get('big'):
        ctx.probe('large: ' + case['big'])
    for k, op in enumerate(case['ops']):
        q = case['requests'][op['q']]
        nth = op.get('nth')
        if nth and q.get('pip'):
            q = with_nth(q, nth)
        fault = None
        if op.get('fault'):
            probe = W.Req(q, None)
            dry = W.dry_points(lambda: W.decide(pdp, probe.obj), opcode)
            fault = C.resolve(op['fault'], dry)
        r = W.Runner(ctx, {'kind': 'none'}, opcode=opcode,
                     step_cap=4000000 if case.get('big') else 400000)
        req = W.Req(q, ctx, r.sched)
        r.add('pep', [('eval', k, lambda: W.decide(pdp, req.obj), fault)])
        out = r.run()[0].out
        ctx.ev('eval', k, out[:2])
        base = q if not nth else case['requests'][op['q']]
        allowed = C.model_of(node, base, bool(fault or nth), refs)
        if not fault and not nth:
            ctx.probe('undisturbed')
        C.check_eval(ctx, 'evaluation %d%s' % (
            k, ' (%s)' % (op.get('fault') or nth) if fault or nth else ''),
            out, allowed,
            (fault[1],) if fault else ())
