"""Loads that fail at every stage on a PDP in service."""
import io
import os

from dst import gen as G, model, docs, lin, world as W
from dst import common as C
from dst.core import fork_eval
from dst.props.c02 import variant

QUICK = 230
RULE = ('One PDP in service; an administrator thread loads good and bad '
        'documents (damaged, unreadable, unresolvable, network faults, an '
        'exception injected at any point of the load), assigns junk and '
        'creates further PDPs while 0-2 threads evaluate, seeded scheduler.')
ORACLE = ('linearizability against a register which failed loads leave '
          'alone; each installed document judged by the model, damaged ones '
          'by loading them alone in a forked copy')
JUNK = ('none', 'str', 'pdp', 'class', 'target', 'rule', 'int', 'elem')


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.2, max_kids=3)
    o.pip = rng.random() < 0.5
    g = G.Gen(rng, o)
    for _ in range(12):
        base = g.any_policy()
        pols = [base]
        for _ in range(rng.choice((1, 2))):
            pols.append(variant(rng, g, base) if rng.random() < 0.6
                        else g.any_policy())
        reqs = [C.interesting(rng, g, rng.choice(pols))
                for _ in range(rng.choice((2, 3)))]
        if len(set(frozenset(model.decide(p, reqs[0])) for p in pols)) > 1:
            break
    for q in reqs:
        if q.get('pip') and rng.random() < 0.4:
            q['pip']['jitter'] = rng.choice((1e-4, 1e-2, 1.0))
    # documents; some name a policy of another document
    remote = {}
    for i, p in enumerate(list(pols)):
        if rng.random() < 0.4:
            url = 'http://h/%d' % i
            sub = dict(g.policy(), id=url)
            remote[url] = sub
            pols.append({'t': 'S', 'id': 'urn:set:%d' % i,
                         'alg': rng.choice(G.ALGS), 'target': None,
                         'kids': [p, {'t': 'R', 'kind': 'P', 'ref': url}]})
    xml = [G.to_xml(p).encode() for p in pols]
    ops = []
    for _ in range(rng.choice((2, 3, 4))):
        x = rng.random()
        if x < 0.1:
            ops.append({'op': 'assign', 'junk': rng.choice(JUNK)})
            continue
        i = rng.randrange(len(pols))
        op = {'op': 'load' if rng.random() < 0.8 else 'create', 'doc': i,
              'via': rng.choice(('stream', 'stream', 'stream', 'path',
                                 'elem')),
              'stream': docs.delivery(rng, False)}
        if rng.random() < 0.3:
            op['stream']['stall'] = rng.choice((1e-4, 1e-2, 1.0))
        y = rng.random()
        if y < 0.3:
            op['damage'] = docs.damage(
                rng, xml[i], xml[rng.randrange(len(pols))])
            op['other'] = rng.randrange(len(pols))
        elif y < 0.42:
            op['via'] = 'stream'
            op['stream'] = docs.delivery(rng, True, len(xml[i]))
        elif y < 0.7:
            op['fault'] = C.injected(rng, ('MemoryError', 'OSError',
                                           'RecursionError', 'SimCancel',
                                           'KeyboardInterrupt'))
        elif y < 0.78:
            op['finder'] = 'local'
        elif y < 0.84:
            op['via'] = rng.choice(('missing', 'closed', 'nothing', 'dir'))
        if 'http://' in str(pols[i]) and rng.random() < 0.5:
            if rng.random() < 0.6:
                op['net'] = rng.choice(W.NET_FAULTS)
            else:
                op['netstream'] = docs.delivery(rng, True, 300)
        ops.append(op)
    tasks = []
    for t in range(rng.choice((0, 1, 1, 2))):
        tasks.append([rng.randrange(len(reqs))
                      for _ in range(rng.choice((1, 2, 4)))])
    return {'policies': pols, 'remote': remote, 'requests': reqs,
            'ops': ops, 'tasks': tasks,
            'sched': W.sched_spec(rng, 1 + len(tasks),
                                  rng.choice((300, 1500, 6000))),
            'opcode': C.opcode(rng, 0.12, any(o.get('fault') for o in ops),
                               1 + len(tasks))}


def all_refs(pols, remote):
    refs = [G.index(p) for p in pols]
    for ix in refs:
        for u, p in remote.items():
            ix[p['t'], u] = p
    return refs


def run(case, ctx):
    files = docs.Files()
    try:
        body(case, ctx, files)
    finally:
        files.close()


def body(case, ctx, files):
    m = W.mods()
    pols, reqs, remote = case['policies'], case['requests'], case['remote']
    xml = [G.to_xml(n).encode() for n in pols]
    refs = all_refs(pols, remote)
    opcode = case['opcode']
    net = W.Net({}, None, None).install()

    def docs_of(op):
        out = {}
        for u, p in remote.items():
            d = {'data': G.to_xml(p).encode()}
            if op and op.get('net'):
                d['fault'] = op['net']
            if op and op.get('netstream'):
                d['spec'] = op['netstream']
            out[u] = d
        return out

    def finder(op=None):
        if op and op.get('finder') == 'local':
            return m.LocalPolicyFinder()
        return m.UrlPolicyFinder('/usr')

    def sent(op):
        return docs.apply(op.get('damage'), xml[op['doc']],
                          xml[op.get('other', 0)])

    def source(op, sched, c):
        v = op['via']
        if v == 'stream':
            s = W.SimStream(sent(op), op['stream'], c, sched)
            return s, s
        if v == 'path':
            return files.write(sent(op)), None
        if v == 'elem':
            data = sent(op)
            if docs.raw_ok(data):
                return m.ET.parse(io.BytesIO(data)).getroot(), None
            return io.BytesIO(data), None
        if v == 'missing':
            return os.path.join(files.dir, 'none.xml'), None
        if v == 'dir':
            return files.dir, None
        if v == 'closed':
            b = io.BytesIO(sent(op))
            b.close()
            return b, None
        return None, None

    # what each loaded document means, found before anything else happens
    table = {}
    net.docs = docs_of(None)

    def alone(data):
        def go():
            try:
                p = W.load_bytes(data, m.UrlPolicyFinder('/usr'))
            except Exception:
                return None
            return [W.attempt(lambda: W.decide(p, W.Req(q, None).obj))
                    for q in reqs]
        return fork_eval(go)
    may = {}            # value -> allowed decisions per request
    for i, p in enumerate(pols):
        may[i] = [sorted(model.decide(p, q, refs=refs[i])) for q in reqs]
    for k, op in enumerate(case['ops']):
        if op.get('damage') and op['op'] != 'assign':
            a = alone(sent(op))
            table[k] = a
            if a is not None:
                may['d%d' % k] = [[o[1]] for o in a]
    if any(pols[0] is p for p in remote.values()):
        return
    pdp = W.load_bytes(xml[0], finder())
    policy0 = pdp.policy
    r = W.Runner(ctx, case['sched'], opcode=opcode, step_cap=1500000)
    net.sched, net.ctx = r.sched, ctx
    state = {}

    def do_load(k, op, target):
        src, st = source(op, r.sched, ctx)
        net.docs = docs_of(op)
        state[k] = (st, net, len(net.streams))
        if target is not None:
            target.setPolicyFromSource(src, m.ReaderFactory, finder(op))
            return 'loaded'
        p = m.PDP.fromPolicySource(src, m.ReaderFactory, finder(op))
        state['new', k] = p
        return 'created'

    def junk(j):
        v = {'none': None, 'str': 'x', 'pdp': pdp, 'class': m.Policy,
             'int': 3, 'target': policy0.target if hasattr(
                 policy0, 'target') else 0,
             'rule': object(), 'elem': m.ET.Element('Policy')}[j]
        pdp.policy = v

    admin = []

    def evals():
        for i, q in enumerate(reqs):
            rq = W.Req(q, ctx, r.sched)
            admin.append(('eval', i, lambda rq=rq: W.decide(pdp, rq.obj)))
    for k, op in enumerate(case['ops']):
        if op['op'] == 'assign':
            admin.append(('assign', k, lambda op=op: junk(op['junk'])))
        else:
            fault = None
            if op.get('fault'):
                net.docs = docs_of(op)
                src, _ = source(op, None, None)
                dry = W.dry_points(
                    lambda: m.PDP.fromPolicySource(src, m.ReaderFactory,
                                                   finder(op)), opcode)
                fault = C.resolve(op['fault'], dry)
            admin.append((op['op'], k,
                          lambda k=k, op=op: do_load(
                              k, op, pdp if op['op'] == 'load' else None),
                          fault))
        evals()
    r.add('admin', admin)
    for t, ops in enumerate(case['tasks']):
        lst = []
        for q in ops:
            rq = W.Req(reqs[q], ctx, r.sched)
            lst.append(('eval', q, lambda rq=rq: W.decide(pdp, rq.obj)))
        r.add('t%d' % t, lst)
    hist = r.run()
    net.sched = None
    events = []
    for op in hist:
        if op.out is None:
            continue
        ctx.ev(op.task, op.kind, op.arg, op.out[:2])
        if op.out[1] == 'StepCap':
            return
        if op.kind == 'eval':
            if op.out[0] != 'ok':
                ctx.viol('evaluation raised', 'request %d: %r' % (
                    op.arg, op.out))
                return
            vals = [v for v in may if op.out[1] in may[v][op.arg]]
            if not vals:
                ctx.viol('mixture', 'request %d gave %s, which no document '
                         'gives' % (op.arg, op.out[1]))
                return
            events.append({'kind': 'get', 'may': vals, 'inv': op.inv,
                           'ret': op.ret})
            continue
        if op.kind == 'assign':
            if op.out[:2] != ('exc', 'TypeError'):
                ctx.viol('assign', 'assigning %r: %r' % (
                    case['ops'][op.arg]['junk'], op.out))
                return
            continue
        o = case['ops'][op.arg]
        k = op.arg
        value = 'd%d' % k if o.get('damage') else o['doc']
        st = state.get(k, (None,))[0]
        ok = op.out[0] == 'ok'
        why = None
        if o.get('damage') and table[k] is None:
            why = 'a damaged document that does not load alone'
        elif st is not None and st.failed:
            why = 'a source that failed'
        elif o['via'] in ('missing', 'closed', 'nothing', 'dir'):
            why = 'no source'
        elif any(s.failed for s in net.streams):
            pass
        if ok and why:
            ctx.viol('load returned', 'load %d of %s returned' % (k, why))
            return
        bad = bool(why or o.get('fault') or o.get('net') or
                   o.get('netstream') or o.get('finder') or
                   o['stream'].get('fault'))
        if not ok and not bad:
            ctx.viol('load raised', 'load %d of an intact document: %r' % (
                k, op.out))
            return
        ctx.probe('%s %s' % (op.kind, 'ok' if ok else 'failed'))
        if op.kind == 'create':
            if not ok:
                continue
            new = state['new', k]
            for i, q in enumerate(reqs):
                out = W.attempt(
                    lambda: W.decide(new, W.Req(q, ctx).obj))
                if not C.check_eval(ctx, 'new PDP %d, request %d' % (k, i),
                                    out, may[value][i]):
                    return
            continue
        if ok:
            events.append({'kind': 'set', 'value': value, 'inv': op.inv,
                           'ret': op.ret})
        elif o.get('fault') and not why:
            events.append({'kind': 'maybe', 'value': value, 'inv': op.inv,
                           'ret': op.ret})
    if not lin.linearizable(events, 0):
        ctx.viol('not atomic', 'no order explains the decisions: %s' %
                 sorted([(e['inv'], e['ret'], e['kind'],
                          e.get('may', e.get('value'))) for e in events],
                        key=str))
