"""Callers keep the responses they got and write into them."""
from dst import acts, gen as G, model, world as W
from dst import common as C

QUICK = 260
RULE = ('1-3 threads evaluate (part of the evaluations under faults), keep '
        'every response, write into some of them (results list, result, '
        'decision, status) and try to alter the predefined constants, '
        'seeded scheduler.')
ORACLE = ('content of every response recorded when it was returned; the '
          'model for each decision')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'XacmlContextError')
WRITES = ('drop', 'append', 'replace', 'decision', 'value', 'code', 'code',
          'message', 'message', 'detail', 'resource', 'status', 'slice')


def gen(rng, tier):
    w, g = acts.gen_world(rng, npol=rng.choice((1, 2)), remote=0)
    nt = rng.choice((1, 1, 2, 2, 3))
    tasks = []
    faulty = False
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((3, 4, 6))):
            x = rng.random()
            if x < 0.5 or not ops:
                op = {'op': 'eval', 'pdp': rng.randrange(len(w['policies'])),
                      'q': rng.randrange(len(w['requests']))}
                if rng.random() < 0.3:
                    if rng.random() < 0.5:
                        op['nth'] = [1, rng.choice(G.PIP_FAULTS)]
                    else:
                        op['fault'] = C.injected(rng, EXCS)
                        faulty = True
                ops.append(op)
            elif x < 0.9:
                ops.append({'op': 'write', 'at': rng.randrange(8),
                            'what': rng.choice(WRITES),
                            'to': rng.choice(W.DECISIONS)})
            else:
                ops.append({'op': 'const', 'what': rng.randrange(6),
                            'to': rng.choice(('Permit', 'Deny'))})
        tasks.append(ops)
    if rng.random() < 0.08:     # many more answers than are kept anywhere
        ops = rng.choice(tasks)
        for _ in range(rng.choice((12, 30, 60, 90))):
            ops.insert(rng.randrange(len(ops) + 1), {
                'op': 'eval', 'pdp': rng.randrange(len(w['policies'])),
                'q': rng.randrange(len(w['requests']))})
    return {'world': w, 'tasks': tasks, 'sched': W.sched_spec(rng, nt, 800),
            'opcode': C.opcode(rng, 0.15, faulty, nt)}


def content(resp):
    """Everything a response says."""
    out = []
    for r in resp.results:
        s = r.status
        out.append([
            str(getattr(r.decision, 'value', None)), r.resourceId,
            repr(r.obligations),
            None if s is None else [
                None if s.statusCode is None else str(s.statusCode.value),
                s.statusMessage, repr(s.statusDetail)]])
    return out


def write(m, resp, what, to):
    R = m.result
    try:
        if what == 'append':
            resp.results.append(R.Result.createInitialised(
                decision=R.Decision(to)))
            return
        if what == 'drop':
            del resp.results[0]
            return
        if what == 'slice':
            resp.results[:] = []
            return
        r = resp.results[0]
        if what == 'replace':
            resp.results[0] = R.Result.createInitialised(
                decision=R.Decision(to))
        elif what == 'decision':
            r.decision = R.Decision(to)
        elif what == 'value':
            r.decision.value = to
        elif what == 'code':
            r.status.statusCode.value = R.StatusCode.SYNTAX_ERROR
        elif what == 'message':
            r.status.statusMessage = 'written by its owner'
        elif what == 'detail':
            if hasattr(r.status.statusDetail, 'append'):
                r.status.statusDetail.append('x')
            else:
                r.status.statusDetail = ['x']
        elif what == 'resource':
            r.resourceId = 'http://x/mine'
        elif what == 'status':
            r.status = R.Status.createInitialised(message='mine')
    except (AttributeError, IndexError):
        pass            # a read-only constant, or nothing left


def constants(m):
    from ndg.xacml.core.rule import Effect
    D = m.result.Decision
    return [(D.PERMIT, 'Permit'), (D.DENY, 'Deny'),
            (D.INDETERMINATE, 'Indeterminate'),
            (D.NOT_APPLICABLE, 'NotApplicable'),
            (Effect.PERMIT, 'Permit'), (Effect.DENY, 'Deny')]


def run(case, ctx):
    m = W.mods()
    pols, specs = case['world']['policies'], case['world']['requests']
    refs = acts.refs_of(case['world'])
    pdps = [W.load_bytes(G.to_xml(p).encode()) for p in pols]
    consts = constants(m)
    r = W.Runner(ctx, case["sched"], opcode=case["opcode"],
                 step_cap=4000000)
    held = []           # [response, content or None once its owner wrote]
    bad = []

    def check(when):
        for i, (resp, was) in enumerate(held):
            if was is not None and content(resp) != was:
                bad.append('response %d is %r %s, was %r' % (
                    i, content(resp), when, was))
        for c, v in consts:
            if str(c.value) != v or str(c) != v:
                bad.append('constant %s is %s %s' % (v, c.value, when))

    for t, ops in enumerate(case['tasks']):
        mine = []
        lst = []
        for k, op in enumerate(ops):
            if op['op'] == 'eval':
                q = specs[op['q']]
                if op.get('nth') and q.get('pip'):
                    q = dict(q, pip=dict(q['pip'], nth=op['nth']))
                req = W.Req(q, ctx, r.sched)
                fault = None
                if op.get('fault'):
                    d = W.Req(q, None)
                    fault = C.resolve(op['fault'], W.dry_points(
                        lambda: W.decide(pdps[op['pdp']], d.obj),
                        case['opcode']))

                def ev(op=op, req=req, mine=mine):
                    resp = pdps[op['pdp']].evaluate(req.obj)
                    rec = [resp, content(resp)]
                    mine.append(rec)
                    v = W.verdict(resp)
                    for other, _ in held:
                        if other is resp:
                            return 'SHARED'
                    held.append(rec)
                    return v
                lst.append(('eval', k, ev, fault))
            elif op['op'] == 'write':
                def wr(op=op, mine=mine):
                    if mine:
                        x = mine[op['at'] % len(mine)]
                        write(m, x[0], op['what'], op['to'])
                        x[1] = None
                    return op['what']
                lst.append(('write', k, wr))
            else:
                def co(op=op):
                    c, v = consts[op['what']]
                    try:
                        c.value = op['to']
                    except Exception as e:
                        return 'refused'
                    return 'written' if v != op['to'] else 'same'
                lst.append(('const', k, co))
        r.add('t%d' % t, lst)
    for h in r.run():
        if h.out is None:
            continue
        op = case['tasks'][h.task][h.arg]
        ctx.ev(h.task, h.arg, h.out[:2])
        if h.kind == 'eval':
            q = specs[op['q']]
            hurt = bool(op.get('fault') or op.get('nth'))
            if h.out[1] == 'SHARED':
                ctx.viol('shared', 'an evaluation returned a response that '
                         'was returned before')
                return
            if not C.check_eval(ctx, 'evaluation', h.out, C.model_of(
                    pols[op['pdp']], q, hurt, refs[op['pdp']]),
                    (op['fault']['exc'],) if op.get('fault') else ()):
                return
        elif h.out[0] != 'ok':
            ctx.viol('write', '%r raised %r' % (op, h.out))
            return
        elif h.kind == 'const' and h.out[1] == 'written':
            ctx.viol('constant', 'a predefined constant took the value %s' %
                     op['to'])
            return
    check('at the end')
    # and what is evaluated from now on
    for j, q in enumerate(specs):
        req = W.Req(q, None)
        out = W.attempt(lambda: W.decide(pdps[0], req.obj))
        if not C.check_eval(ctx, 'a later evaluation', out, C.model_of(
                pols[0], q, False, refs[0])):
            return
    check('after later evaluations')
    if bad:
        ctx.viol('changed', bad[0])
