"""Operations cancelled at every point, beside others and before others."""
from dst import acts, docs, gen as G, world as W
from dst import common as C

QUICK = 150
RULE = ('1-3 threads run loads, evaluations and response conversions, most '
        'of them cancelled (KeyboardInterrupt, SystemExit, GeneratorExit or '
        'a class of the application) at a point between two lines, or by the '
        'attribute source, the stream or the network; all operations are '
        'repeated afterwards, seeded scheduler.')
ORACLE = ('the cancellation itself must come out; every operation not '
          'cancelled must equal the same one in a forked copy of the process '
          'in which nothing was cancelled')
EXCS = ('SimCancel', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit')
KINDS = ('load', 'load', 'eval', 'eval', 'eval', 'eval', 'resp')


def cancel(rng, w, op, nt):
    x = rng.random()
    e = rng.choice(EXCS)
    if op['op'] == 'load':
        if x < 0.15:
            return {'stream': dict(docs.delivery(rng, False), fault=[
                'error', rng.randrange(1500), e])}
        if x < 0.4 and nt == 1 and acts.fetches(w, op['doc']):
            if rng.random() < 0.5:
                return {'net': 'raise:' + e}
            return {'netstream': dict(docs.delivery(rng, False), fault=[
                'error', rng.randrange(400), e])}
    if w['requests'][op['q']].get('pip') and x < 0.6:
        return {'nth': [rng.choice((1, 1, 2, 3)), rng.choice(
            ('raise:', 'gen-raise:')) + e]}
    return {'inject': C.injected(rng, (e,))}


def gen(rng, tier):
    w, g = acts.gen_world(rng, quiet=rng.random() < 0.8)
    npdp = rng.randint(1, len(w['policies']))
    kinds = KINDS
    if rng.random() < 0.25:
        npdp, kinds = 0, ('load',)
    nt = rng.choice((1, 1, 2, 2, 3))
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((2, 3, 5))):
            op = acts.gen_op(rng, w, npdp, kinds)
            if rng.random() < 0.65:
                op['f'] = cancel(rng, w, op, nt)
            ops.append(op)
        tasks.append(ops)
    return {'world': w, 'npdp': npdp, 'tasks': tasks,
            'sched': W.sched_spec(rng, nt, 1500),
            'opcode': C.opcode(rng, 0.15, True, nt)}


def run(case, ctx):
    a = acts.Acts(case['world'], ctx, case['npdp'])
    try:
        body(case, ctx, a)
    finally:
        a.close()


def exc_of(f):
    if f.get('inject'):
        return f['inject']['exc']
    if f.get('nth'):
        return f['nth'][1].split(':')[1]
    if f.get('net'):
        return f['net'].split(':')[1]
    return (f.get('stream') or f['netstream'])['fault'][2]


def body(case, ctx, a):
    want = []
    for ops in case['tasks']:
        w = []
        for op in ops:
            e = a.expected({k: v for k, v in op.items() if k != 'f'})
            bad = a.check_alone(op, e)
            if bad:
                ctx.viol('alone', bad)
                return
            w.append(e)
        want.append(w)
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=800000)
    fired = {}
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            f = op.get('f')
            fault = None
            if f and f.get('inject'):
                fault = C.resolve(f['inject'], a.dry(op, None,
                                                     case['opcode']))
            fn = a.call(op, f, r.sched, ctx)
            lst.append((op['op'], k, fn, fault))
            if f and f.get('nth'):
                fired[t, k] = lambda p=a.last.pip, x=f['nth'][1]: (
                    p is not None and x in p.failed)
            elif f and f.get('stream'):
                fired[t, k] = lambda f=f: (id(f) in a.faulty and
                                             a.faulty[id(f)].failed)
            elif f and f.get('net'):
                fired[t, k] = lambda: a.net.raised
            elif f and f.get('netstream'):
                fired[t, k] = lambda: sum(1 for s in a.net.streams
                                          if s.failed)
        r.add('t%d' % t, lst)
    a.net.sched = r.sched
    hist = r.run()
    a.net.sched = None
    for h in hist:
        if h.out is None:
            continue
        op = case['tasks'][h.task][h.arg]
        f = op.get('f')
        w = want[h.task][h.arg]
        ctx.ev(h.task, h.arg, h.kind, h.out[:2])
        e = exc_of(f) if f else None
        hit = h.fired
        if f and (h.task, h.arg) in fired:
            hit = bool(fired[h.task, h.arg]())
            if f.get('net') or f.get('netstream'):
                # counted over the run: can only be said if it came out
                hit = None
        if hit is None:
            if h.out[0] == 'exc' and h.out[1] == e:
                ctx.probe('cancelled by the network')
                continue
            if h.out[0] == 'exc' and h.out[1] != 'StepCap':
                ctx.viol('changed', '%r was cancelled with %s; %r came out' %
                         (op, e, h.out))
                return
        if hit:
            ctx.probe('cancelled ' + h.kind)
            if h.out[0] != 'exc' or h.out[1] != e:
                ctx.viol('swallowed', '%s cancelled with %s ended with %r' % (
                    brief(op), e, h.out))
                return
        elif not acts.same(h.out, w):
            ctx.viol('disturbed', '%s not cancelled gave %r, %r without any '
                     'cancellation' % (brief(op), h.out, w))
            return
    for t, ops in enumerate(case['tasks']):
        for k, op in enumerate(ops):
            out = W.attempt(a.call(op))
            ctx.ev('again', t, k, out[:2])
            if not acts.same(out, want[t][k]):
                ctx.viol('damaged', '%s after the cancellations gave %r, %r '
                         'without any' % (brief(op), out, want[t][k]))
                return


def brief(op):
    return repr({k: v for k, v in op.items() if k not in ('stream',)})
