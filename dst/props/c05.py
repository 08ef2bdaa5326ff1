"""Every disturbed operation is repeated once the disturbance is over."""
import sys

from dst import acts, gen as G, world as W
from dst import common as C
from dst.core import fork_eval

QUICK = 170
RULE = ('Histories of loads, evaluations and XML conversions, each first '
        'attempted under a transient fault (failing import, stream or '
        'network error, attribute source failure, exception injected at any '
        'point), then repeated without it; part of the attempts run while '
        'another thread works.')
ORACLE = ('the same operation in a forked copy of the process that never saw '
          'a fault, and the model')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel',
        'KeyboardInterrupt', 'ImportError')


def gen(rng, tier):
    w, g = acts.gen_world(rng)
    npdp = rng.randint(1, len(w['policies']))
    kinds = ('load', 'load', 'eval', 'eval', 'eval', 'xml', 'resp')
    fresh = rng.random() < 0.45
    if fresh:           # nothing loaded before the first fault
        npdp, kinds = 0, ('load', 'load', 'load', 'xml')
    ops = []
    for _ in range(rng.choice((2, 3, 4))):
        op = acts.gen_op(rng, w, npdp, kinds)
        tries = []
        for _ in range(rng.choice((1, 1, 2))):
            if rng.random() < (0.6 if fresh else 0.25):
                tries.append({'imports': rng.choice((
                    'ImportError', 'OSError', 'MemoryError')),
                    'frac': rng.random()})
            else:
                tries.append(acts.gen_fault(rng, w, op, EXCS))
        if rng.random() < 0.12:     # again and again
            tries = tries[:1] * rng.choice((3, 4, 6, 10))
        x = {'call': op, 'tries': tries}
        if rng.random() < 0.25:
            x['beside'] = acts.gen_op(rng, w, npdp, kinds)
        ops.append(x)
    return {'world': w, 'npdp': npdp, 'ops': ops,
            'sched': W.sched_spec(rng, 2, 1500),
            'opcode': C.opcode(rng, 0.1, True, 2)}


def imports_of(fn):
    """Modules of the library the call imports."""
    def go():
        before = set(sys.modules)
        W.attempt(fn)
        return sorted(x for x in set(sys.modules) - before
                      if x.startswith('ndg'))
    return fork_eval(go)


def run(case, ctx):
    a = acts.Acts(case['world'], ctx, case['npdp'])
    try:
        body(case, ctx, a)
    finally:
        a.close()


def body(case, ctx, a):
    want = []
    for o in case['ops']:
        e = a.expected(o['call'])
        bad = a.check_alone(o['call'], e)
        if bad:
            ctx.viol('alone', bad)
            return
        b = a.expected(o['beside']) if o.get('beside') else None
        want.append((e, b))
    for k, o in enumerate(case['ops']):
        op = o['call']
        for f in o['tries']:
            fault = imp = None
            if f.get('imports'):
                mods = imports_of(a.call(op))
                if not mods:
                    continue
                name = mods[int(f['frac'] * len(mods)) % len(mods)]
                imp = W.ImportFaults({name: [f['imports']]}, ctx)
            elif f.get('inject'):
                fault = C.resolve(f['inject'], a.dry(op))
            beside = o.get('beside') if not imp and not f.get('net') \
                and not f.get('netstream') else None
            r = W.Runner(ctx, case['sched'] if beside else {'kind': 'none'},
                         step_cap=800000)
            a.net.sched = r.sched
            if imp:
                imp.install()
            r.add('a', [('try', k, a.call(op, f, r.sched, ctx), fault)])
            if beside:
                r.add('b', [('beside', k, a.call(beside, None, r.sched,
                                                 ctx))])
            hist = r.run()
            if imp:
                imp.remove()
            a.net.sched = None
            for h in hist:
                if h.out is None:
                    continue
                ctx.ev(h.kind, k, h.out[:1], h.out[1] if isinstance(
                    h.out[1], str) else '')
                if h.kind == 'beside' and not acts.same(h.out, want[k][1]):
                    ctx.viol('beside', 'operation %r beside a failing one '
                             'gave %.300r, alone %.300r' % (
                                 beside, h.out, want[k][1]))
                    return
                if h.kind == 'try':
                    ctx.probe('attempt failed' if h.out[0] != 'ok'
                              else 'attempt returned')
        if not clean(ctx, a, k, op, want[k][0], 'repeated'):
            return
    for k, o in enumerate(case['ops']):
        if not clean(ctx, a, k, o['call'], want[k][0], 'at the end'):
            return


def clean(ctx, a, k, op, want, when):
    out = W.attempt(a.call(op))
    ctx.ev(when, k, out[1] if isinstance(out[1], str) else 'xml')
    if not acts.same(out, want):
        ctx.viol('not forgotten', 'operation %d %r %s gave %.300r, without '
                 'the fault %.300r' % (k, op, when, out, want))
        return False
    return True
