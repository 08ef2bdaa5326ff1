"""Identifiers that occur twice, and identifiers that only look so."""
import copy
import io

from dst import docs, gen as G, model, xmlnode, world as W
from dst import common as C
from dst.props.c12 import struct, nstruct

QUICK = 260
RULE = ('Policies and sets of up to 4 levels, partly in other documents, '
        'with a second policy, set or rule of one identifier at a random '
        'place, or with equal identifiers that are allowed; loads repeated '
        'after loads that failed for another reason and beside other loads '
        'in other threads.')
ORACLE = ('an independent reader of the documents (dst/xmlnode.py) and the '
          'model on the tree it gives')
EXCS = ('MemoryError', 'OSError', 'SimCancel')


def containers(n, out=None):
    out = [] if out is None else out
    if n['t'] == 'S':
        out.append(n)
        for k in n['kids']:
            containers(k, out)
    return out


def pols(n, out=None):
    out = [] if out is None else out
    if n['t'] == 'P':
        out.append(n)
    for k in n.get('kids', ()):
        pols(k, out)
    return out


def gen(rng, tier):
    o = G.Opts(rng, errors=False, selectors=False, pip=False)
    o.depth = rng.choice((1, 2, 3))
    g = G.Gen(rng, o)
    root = g.policyset() if rng.random() < 0.85 else g.policy()
    remote = {}
    roots = [root]
    for i in range(rng.choice((0, 0, 1, 2, 3))):
        if root['t'] == 'P':
            break
        u = 'http://h/%d' % i
        n = dict(g.policy() if rng.random() < 0.5 else g.policyset(2), id=u)
        remote[u] = n
        s = rng.choice([c for r in roots for c in containers(r)])
        s['kids'].insert(rng.randint(0, len(s['kids'])),
                         {'t': 'R', 'kind': n['t'], 'ref': u})
        roots.append(n)
    what = rng.choice(('none', 'policy', 'policy', 'set', 'set', 'rule',
                       'rule', 'kind', 'rules apart', 'refs', 'case',
                       'nested'))
    sets = [c for r in roots for c in containers(r)]
    ps = [p for r in roots for p in pols(r)]
    dupe = None

    def insert(n):
        s = rng.choice(sets)
        s['kids'].insert(rng.randint(0, len(s['kids'])), n)
    if what == 'policy' and sets and ps:
        src = rng.choice(ps)
        n = copy.deepcopy(src) if rng.random() < 0.5 \
            else dict(g.policy(), id=src['id'])
        if rng.random() < 0.3:
            rng.choice((n, src))['rules'] = []
        insert(n)
    elif what == 'set' and sets:
        src = rng.choice(sets)
        n = g.policyset(rng.choice((1, 2)))
        n['id'] = src['id']
        insert(n)
        if rng.random() < 0.3:
            e = rng.choice((n, src))
            if e is not root and not any(k['t'] == 'R' for k in e['kids']):
                e['kids'] = [n] if n in e['kids'] else []
    elif what == 'nested' and sets:
        # a set inside a set of the same identifier
        s = rng.choice(sets)
        n = dict(g.policyset(1), id=s['id'])
        c = rng.choice(containers(s))
        c['kids'].insert(rng.randint(0, len(c['kids'])), n)
    elif what == 'rule' and ps:
        p = rng.choice(ps)
        while len(p['rules']) < rng.choice((1, 2, 4, 9)):
            p['rules'].append(g.rule())
        r = rng.choice(p['rules'])
        n = copy.deepcopy(r) if rng.random() < 0.4 else dict(
            g.rule(), id=r['id'])
        p['rules'].insert(rng.randint(0, len(p['rules'])), n)
    elif what == 'kind' and sets and ps:
        a, b = rng.choice(ps), rng.choice(sets)
        if rng.random() < 0.5:
            insert(dict(g.policy(), id=b['id']))
        else:
            insert(dict(g.policyset(1), id=a['id']))
    elif what == 'rules apart' and len(ps) > 1:
        a, b = rng.sample(ps, 2)
        b['rules'] = [dict(r, id=a['rules'][i]['id'])
                      if i < len(a['rules']) else r
                      for i, r in enumerate(b['rules'])]
    elif what == 'case' and sets and ps:
        i = rng.choice(ps)['id']
        insert(dict(g.policy(), id=rng.choice((
            i.upper(), i + ' ', i + '0', i[:-1] or 'z'))))
    if what in ('refs', 'none', 'kind', 'case') and root['t'] == 'S':
        for u, n in remote.items():
            if rng.random() < 0.5:
                root['kids'].append({'t': 'R', 'kind': n['t'], 'ref': u})
        if rng.random() < 0.5:
            G.add_local_refs(rng, root, 0.2)
    ops = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        x = rng.random()
        op = {'via': rng.choice(('stream', 'stream', 'elem', 'set'))}
        if x < 0.25:
            op['fault'] = C.injected(rng, EXCS)
        elif x < 0.35:
            op['via'] = 'stream'
            op['stream'] = docs.delivery(rng, True, 2000)
        elif x < 0.45 and remote:
            op['net'] = rng.choice(W.NET_FAULTS)
        elif x < 0.55:
            op['threads'] = rng.choice((2, 2, 3))
        ops.append(op)
    ops.append({'via': rng.choice(('stream', 'set'))})
    tree = xmlnode.graph(G.to_xml(root).encode(), dict(
        (u, G.to_xml(n).encode()) for u, n in remote.items()), '/nowhere')
    return {'root': root, 'remote': remote, 'ops': ops, 'what': what,
            'finder': rng.choice(('url', 'url', 'default', 'local'))
            if not remote else rng.choice(('url', 'default')),
            'requests': [C.interesting(rng, g, tree[1], 3) if tree[0] == 'ok'
                         else g.request() for _ in range(2)],
            'sched': W.sched_spec(rng, 3, 2500)}


def run(case, ctx):
    m = W.mods()
    data = G.to_xml(case['root']).encode()
    texts = dict((u, G.to_xml(n).encode())
                 for u, n in case['remote'].items())
    want = xmlnode.graph(data, texts, '/nowhere')
    ctx.probe('%s: %s' % (case['what'], want[0]))
    served = W.load_bytes(b'<Policy xmlns="%s" PolicyId="zero" '
                          b'RuleCombiningAlgId="%s"/>' % (
                              G.NS.encode(), G.RALG['deny'].encode()))
    net = W.Net({}, ctx, None).install()

    def load(op, sched=None, c=None):
        F = {'url': lambda: m.UrlPolicyFinder('/nowhere'),
             'default': lambda: None,
             'local': m.LocalPolicyFinder}[case['finder']]()
        if op['via'] == 'elem':
            src = m.ET.parse(io.BytesIO(data)).getroot()
        elif op.get('stream'):
            src = W.SimStream(data, op['stream'], c, sched)
        else:
            src = io.BytesIO(data)
        if op['via'] == 'set':
            served.setPolicyFromSource(src, m.ReaderFactory, F or
                                       m.UrlPolicyFinder(None))
            return served
        return m.PDP.fromPolicySource(src, m.ReaderFactory, F)

    for k, op in enumerate(case['ops']):
        net.docs = dict((u, {'data': x, 'fault': op.get('net')})
                        for u, x in texts.items())
        net.sched = None
        fault = None
        if op.get('fault'):
            fault = C.resolve(op['fault'], W.dry_points(lambda: load(op)))
        nt = op.get('threads', 1)
        r = W.Runner(ctx, case['sched'] if nt > 1 else {'kind': 'none'},
                     step_cap=1200000)
        net.sched = r.sched
        for t in range(nt):
            r.add('t%d' % t, [('load', t, lambda: load(op, r.sched, ctx),
                               fault)])
        hist = r.run()
        net.sched = None
        for h in hist:
            if h.out is None or h.out[1] == 'StepCap':
                return
            ok = h.out[0] == 'ok'
            ctx.ev(k, h.task, 'ok' if ok else h.out[1])
            hurt = fault or op.get('stream') or (op.get('net') and
                                                 want[3])
            if want[0] == 'unknown':
                continue
            if want[0] == 'reject':
                if ok:
                    ctx.viol('accepted', 'attempt %d succeeded although %s'
                             % (k, want[1]))
                    return
                continue
            if not ok:
                if hurt or want[2]:
                    continue
                ctx.viol('refused', 'attempt %d of a proper document raised '
                         '%s: %s' % (k, h.out[1], h.out[2]))
                return
            if op['via'] == 'set' and nt > 1:
                continue
            got = struct(h.out[1].policy)
            if got != nstruct(want[1]):
                ctx.viol('other policy', 'loaded %.700r, the documents say '
                         '%.700r' % (got, nstruct(want[1])))
                return
            for j, q in enumerate(case['requests']):
                req = W.Req(q, None)
                out = W.attempt(lambda: W.decide(h.out[1], req.obj))
                if not C.check_eval(ctx, 'request %d' % j, out,
                                    model.decide(want[1], q)):
                    return
