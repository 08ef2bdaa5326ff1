"""Long histories on the same PDPs and the same request objects."""
import copy

from dst import acts, docs, gen as G, model, world as W
from dst import common as C

QUICK = 300
RULE = ('Histories on PDPs and request objects that live on: evaluations '
        '(part of them in 2-3 threads at once), evaluations that fail, '
        'short-lived equal or nearly equal requests, changes of the request '
        'and of the attribute source by the caller, other loads.')
ORACLE = ('each evaluation against a fresh PDP and a fresh request of the '
          'same content in a forked copy and against the model; content of '
          'requests and of kept source answers after every step')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel')


def edit(rng, g, q):
    """One change to a request, as data."""
    r = rng
    x = r.random()
    if q.get('content') is not None and r.random() < 0.3:
        x = 0.2
    if x < 0.16 and q.get('pip') is not None:
        a, dt = r.choice(G.UNIVERSE['S'])
        return {'e': 'table', 'a': a, 'vals': r.choice((
            None, [], r.sample(G.VALUES[dt], 1), r.sample(G.VALUES[dt], 2)))}
    if x < 0.2:
        p = g.pip(False) if r.random() < 0.7 else None
        return {'e': 'pip', 'pip': p}
    if x < 0.26 and q.get('content') is not None:
        return {'e': 'content', 'k': r.choice(G.SELECT), 'new': r.random() <
                0.5, 'vals': r.sample(G.VALUES[G.STR], r.choice((0, 1, 2)))}
    if x < 0.32:
        return {'e': 'subjects', 'at': r.randrange(3),
                'new': g.attrs('S') if r.random() < 0.6 else None}
    if x < 0.36:
        return {'e': 'resources', 'at': r.randrange(3),
                'new': g.attrs('R') if r.random() < 0.7 else None}
    if x < 0.42:
        return {'e': 'action', 'new': g.attrs('A', 0.9)}
    if x < 0.45:
        return {'e': 'env', 'new': g.attrs('E', 0.9)}
    cat = r.choice('SSSRAA')
    a, dt = r.choice(G.UNIVERSE[cat])
    if x < 0.75:
        return {'e': 'value', 'cat': cat, 'h': r.randrange(3),
                'n': r.randrange(4), 'k': r.randrange(2),
                'r': r.randrange(97)}
    if x < 0.83:
        return {'e': 'issuer', 'cat': cat, 'h': r.randrange(3),
                'n': r.randrange(4), 'iss': r.choice(G.ISSUERS + [None])}
    if x < 0.92:
        new = {'id': a, 'dt': dt, 'vals': r.sample(G.VALUES[dt], 1)}
        return {'e': 'add', 'cat': cat, 'h': r.randrange(3), 'new': new,
                'pos': r.randrange(3)}
    return {'e': 'del', 'cat': cat, 'h': r.randrange(3),
            'n': r.randrange(4)}


def holders(q, cat):
    if cat == 'S':
        return q['subjects']
    if cat == 'R':
        return q['resources']
    x = q['action' if cat == 'A' else 'env']
    return [] if x is None else [x]


def objholders(o, cat):
    if cat == 'S':
        return list(o.subjects)
    if cat == 'R':
        return list(o.resources)
    x = o.action if cat == 'A' else o.environment
    return [] if x is None else [x]


def apply(e, q, req=None, ctx=None):
    """Applies an edit to the spec q and, in the same way, to the request
    object (None: to the spec only)."""
    m = W.mods()
    k = e['e']
    o = req.obj if req is not None else None
    if k == 'table':
        if q.get('pip') is None:
            return
        if e['vals'] is None:
            q['pip']['table'].pop(e['a'], None)
        else:
            q['pip']['table'][e['a']] = list(e['vals'])
        if req is not None:
            req.pip.table = q['pip']['table']
    elif k == 'pip':
        q['pip'] = copy.deepcopy(e['pip'])
        if req is not None:
            if q['pip'] is None:
                req.pip = None
                # taking the source away: one that knows nothing
                p = {'table': {}, 'shape': 'list', 'faults': {}}
                o.ctxHandler = W.pip_class()(p, ctx)
            else:
                req.pip = W.pip_class()(q['pip'], ctx)
                o.ctxHandler = req.pip
    elif k == 'content':
        if q.get('content') is None:
            return
        q['content'][e['k']] = list(e['vals'])
        if req is not None:
            root = m.ET.Element('ctx')
            for n in sorted(q['content']):
                for v in q['content'][n]:
                    m.ET.SubElement(root, n).text = v
            old = getattr(req, 'root', None)
            if e['new'] or old is None:
                o.attributeSelector = m.EtreeXPathSelector(root)
                req.root = root
            elif [c.tag for c in old] == [c.tag for c in root]:
                for c, d in zip(old, root):
                    c.text = d.text
            else:
                for c in list(old):
                    old.remove(c)
                for c in list(root):
                    old.append(c)
    elif k in ('subjects', 'resources'):
        lst = q[k]
        cls = m.Subject if k == 'subjects' else m.Resource
        at = min(e['at'], len(lst))
        if e['new'] is None:
            if len(lst) < 2:
                return
            at = min(at, len(lst) - 1)
            del lst[at]
            if o is not None:
                del getattr(o, k)[at]
        elif len(lst) < 3:
            lst.insert(at, copy.deepcopy(e['new']))
            if o is not None:
                getattr(o, k).insert(at, W.Req._fill(cls(), e['new']))
    elif k in ('action', 'env'):
        q[k] = copy.deepcopy(e['new'])
        if o is not None:
            if k == 'action':
                o.action = W.Req._fill(m.Action(), e['new'])
            else:
                o.environment = W.Req._fill(m.Environment(), e['new'])
    else:
        hs = holders(q, e['cat'])
        if not hs:
            return
        i = e['h'] % len(hs)
        h = hs[i]
        oh = objholders(o, e['cat'])[i] if o is not None else None
        if k == 'add':
            p = min(e['pos'], len(h))
            h.insert(p, copy.deepcopy(e['new']))
            if oh is not None:
                oh.attributes.insert(p, W.make_attr(e['new']))
            return
        if not h:
            return
        n = e['n'] % len(h)
        if k == 'del':
            del h[n]
            if oh is not None:
                del oh.attributes[n]
        elif k == 'issuer':
            if e['iss'] is None and h[n].get('iss') is not None:
                return          # (an issuer cannot be taken off again)
            h[n]['iss'] = e['iss']
            if oh is not None and e['iss'] is not None:
                oh.attributes[n].issuer = e['iss']
        elif k == 'value':
            vals = G.VALUES[h[n]['dt']]
            v = vals[e['r'] % len(vals)]
            j = e['k'] % len(h[n]['vals'])
            h[n]['vals'][j] = v
            if oh is not None:
                if e['r'] % 2:
                    oh.attributes[n].attributeValues[j].value = v
                else:
                    oh.attributes[n].attributeValues[j] = W._val(
                        h[n]['dt'], v)


def gen(rng, tier):
    w, g = acts.gen_world(rng, npol=rng.choice((1, 1, 2)), remote=0.1)
    refs = acts.refs_of(w)
    npdp = rng.randint(1, len(w['policies']))
    now = copy.deepcopy(w['requests'])
    for q in now:
        if q.get('pip') and rng.random() < 0.5:
            q['pip']['shape'] = rng.choice(('same', 'samebag'))
    w['requests'] = copy.deepcopy(now)
    ops = []
    if rng.random() < 0.5:
        # the document behind a request changes between two evaluations
        for j in [j for j, q in enumerate(now)
                  if q.get('content') is not None]:
            p = rng.randrange(npdp)
            for _ in range(12):
                e = {'e': 'content', 'k': rng.choice(G.SELECT),
                     'new': rng.random() < 0.4, 'vals': rng.sample(
                         G.VALUES[G.STR], rng.choice((0, 1, 2)))}
                q = copy.deepcopy(now[j])
                apply(e, q)
                if model.decide(w['policies'][p], q, refs=refs[p]) != \
                        model.decide(w['policies'][p], now[j],
                                     refs=refs[p]):
                    now[j] = q
                    ops += [{'op': 'eval', 'pdp': p, 'q': j},
                            {'op': 'edit', 'q': j, 'edit': e},
                            {'op': 'eval', 'pdp': p, 'q': j}]
                    break
    for _ in range(rng.choice((25, 45)) if rng.random() < 0.06 else
                   rng.choice((4, 6, 9))):
        x = rng.random()
        j = rng.randrange(len(now))
        p = rng.randrange(npdp)
        if x < 0.45 and ops:
            # prefer a change that changes the answer
            for _ in range(6):
                e = edit(rng, g, now[j])
                q = copy.deepcopy(now[j])
                apply(e, q)
                if model.decide(w['policies'][p], q, refs=refs[p]) != \
                        model.decide(w['policies'][p], now[j],
                                     refs=refs[p]):
                    break
            now[j] = q
            if rng.random() < 0.5:
                ops.append({'op': 'eval', 'pdp': p, 'q': j})
            ops.append({'op': 'edit', 'q': j, 'edit': e})
            if rng.random() < 0.7:
                ops.append({'op': 'eval', 'pdp': p, 'q': j})
        elif x < 0.6:
            ops.append({'op': 'eval', 'pdp': p, 'q': j})
        elif x < 0.7:
            t = copy.deepcopy(now[j])
            if rng.random() < 0.7:
                apply(edit(rng, g, t), t)
            ops.append({'op': 'temp', 'pdp': p, 'spec': t})
        elif x < 0.8:
            ops.append({'op': 'failing', 'pdp': p, 'q': j,
                        'fault': C.injected(rng, EXCS)} if rng.random() < 0.6
                       else {'op': 'failing', 'pdp': p, 'q': j,
                             'nth': [rng.choice((1, 1, 2)),
                                     rng.choice(G.PIP_FAULTS)]})
        elif x < 0.9:
            n = rng.choice((2, 2, 3))
            ops.append({'op': 'many', 'tasks': [
                [[rng.randrange(npdp), rng.randrange(len(now))]
                 for _ in range(rng.choice((1, 2)))] for _ in range(n)],
                'sched': W.sched_spec(rng, n, 1200)})
        else:
            i = rng.randrange(len(w['policies']))
            ops.append({'op': 'load', 'doc': i, 'stream': docs.delivery(
                rng, rng.random() < 0.4), 'keep': rng.random() < 0.5})
    return {'world': w, 'npdp': npdp, 'ops': ops, 'sched': None}


def run(case, ctx):
    m = W.mods()
    w = copy.deepcopy(case['world'])
    pols, specs = w['policies'], w['requests']
    refs = acts.refs_of(w)
    xml = [G.to_xml(p).encode() for p in pols]
    net = W.Net({acts.address(u): {'data': G.to_xml(p).encode()}
                 for u, p in w["remote"].items()}).install()

    def finder():
        return m.UrlPolicyFinder('/usr')
    pdps = [W.load_bytes(x, finder()) for x in xml[:case['npdp']]]
    reqs = [W.Req(q, ctx) for q in specs]
    memo = {}

    def expected(p, q):
        key = repr((p, q))
        if key not in memo:
            memo[key] = tuple(C.solo(lambda: W.decide(
                W.load_bytes(xml[p], finder()), W.Req(q, None).obj)))
        return memo[key]

    def intact(k, op):
        for j, r in enumerate(reqs):
            want = W.snapshot(W.Req(specs[j], None, pip=False).obj)
            if W.snapshot(r.obj) != want:
                ctx.viol('request changed', 'after step %d %r request %d is '
                         '%r, was %r' % (k, op, j, W.snapshot(r.obj), want))
                return False
            if r.pip is not None and r.pip.spoiled():
                ctx.viol('answer changed', 'step %d %r changed an answer of '
                         'the attribute source: %r' % (
                             k, op, r.pip.spoiled()))
                return False
        return True

    def judge(label, out, p, q):
        want = expected(p, q)
        ctx.ev(label, p, out[:2])
        allowed = model.decide(pols[p], q, refs=refs[p])
        if want[0] != 'ok' or want[1] not in allowed:
            ctx.viol('alone', 'alone %r; only %s possible' % (
                want, sorted(allowed)))
            return False
        ctx.probe('decision %s' % want[1])
        if tuple(out[:2]) != want[:2]:
            ctx.viol('differs', '%s gave %r, a fresh evaluation of the same '
                     'content %r' % (label, out, want))
            return False
        return True

    for k, op in enumerate(case['ops']):
        o = op['op']
        ctx.ops += 1
        if o == 'eval':
            out = W.attempt(lambda: W.decide(pdps[op['pdp']],
                                             reqs[op['q']].obj))
            if not judge('step %d %r' % (k, op), out, op['pdp'],
                         specs[op['q']]):
                return
        elif o == 'temp':
            out = W.attempt(lambda: W.decide(
                pdps[op['pdp']], W.Req(op['spec'], ctx).obj))
            if not judge('step %d (new request)' % k, out, op['pdp'],
                         op['spec']):
                return
        elif o == 'failing':
            req = reqs[op['q']]
            fn = lambda: W.decide(pdps[op['pdp']], req.obj)
            fault = None
            if op.get('nth'):
                if req.pip is None:
                    continue
                req.pip.spec = dict(req.pip.spec, nth=[
                    req.pip.n + op['nth'][0], op['nth'][1]])
            else:
                fault = C.resolve(op['fault'], W.dry_points(fn))
            r = W.Runner(ctx, {'kind': 'none'})
            r.add('a', [('fail', k, fn, fault)])
            out = r.run()[0].out
            ctx.ev('failing', k, out[:2])
            if op.get('nth'):
                req.pip.spec = dict(req.pip.spec, nth=None)
        elif o == 'many':
            r = W.Runner(ctx, op['sched'], step_cap=1200000)
            for x in reqs:
                if x.pip is not None:
                    x.pip.sched = r.sched
            for t, lst in enumerate(op['tasks']):
                r.add('t%d' % t, [
                    ('eval', (p, j), lambda p=p, j=j: W.decide(
                        pdps[p], reqs[j].obj)) for p, j in lst])
            hist = r.run()
            for x in reqs:
                if x.pip is not None:
                    x.pip.sched = None
            for h in hist:
                if h.out is None or h.out[1] == 'StepCap':
                    return
                if not judge('step %d thread %d' % (k, h.task), h.out,
                             h.arg[0], specs[h.arg[1]]):
                    return
        elif o == 'edit':
            apply(op['edit'], specs[op['q']], reqs[op['q']], ctx)
            ctx.probe('edit ' + op['edit']['e'])
        elif o == 'load':
            out = W.attempt(lambda: m.PDP.fromPolicySource(
                W.SimStream(xml[op['doc']], op['stream'], ctx),
                m.ReaderFactory, finder()))
            if out[0] == 'ok' and op['keep']:
                pdps.append(out[1])
                pdps.pop()
            ctx.ev('load', k, out[0])
        if not intact(k, op):
            return
