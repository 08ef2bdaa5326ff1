"""Several PDPs over policies that share every identifier and address."""
import copy
import gc
import io
import json
import os

from dst import docs, gen as G, model, xmlnode, world as W
from dst import common as C
from dst.props.c02 import variant

QUICK = 110
RULE = ('1-3 threads create, load, replace, drop and evaluate 1-4 PDPs each, '
        'over versions of one policy with equal identifiers, references and '
        'addresses (directories with equal file names, documents at one URL '
        'that change between loads), default and explicit finders; part of '
        'the loads damaged, unresolvable or hit by an exception; seeded '
        'scheduler.')
ORACLE = ('the model on the version each PDP was last loaded from')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel',
        'KeyboardInterrupt')
FINDERS = ('default', 'default', 'url', 'local')


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.2, max_kids=3)
    o.pip = rng.random() < 0.5
    g = G.Gen(rng, o)
    for _ in range(10):
        base = g.any_policy()
        sub = g.policy() if rng.random() < 0.7 else g.policyset(1)
        vs = []
        for i in range(rng.choice((2, 3, 4))):
            p = variant(rng, g, base) if i else base
            vs.append([p, variant(rng, g, sub) if i else sub])
        reqs = [C.interesting(rng, g, rng.choice(vs)[rng.randrange(2)])
                for _ in range(rng.choice((2, 3)))]
        if len(set(frozenset(model.decide(p, reqs[0]))
                   for p, _ in vs)) > 1:
            break
    # how each version refers to its second document
    out = []
    ver = rng.choice((None,) + G.VERSIONS)
    kind = sub['t']
    style = rng.choice(('none', 'rel', 'rel', 'http', 'http', 'inline'))
    for p, s in vs:
        st = style if rng.random() < 0.85 else rng.choice(
            ('none', 'rel', 'http', 'inline'))
        ref = {'rel': 'sub.xml', 'http': 'http://h/sub',
               'inline': 'urn:sub', 'none': None}[st]
        root = {'t': 'S', 'id': 'urn:root', 'alg': rng.choice(G.ALGS),
                'target': None, 'kids': [p], 'ver': ver}
        if st == 'none':
            if rng.random() < 0.5:
                root = p
            out.append({'root': root, 'sub': None, 'st': st, 'ref': None})
            continue
        s = dict(s, id=ref)
        r = {'t': 'R', 'kind': kind, 'ref': ref}
        if st == 'inline':
            root['kids'] = [s] + root['kids'] + [r]
        else:
            root['kids'].insert(rng.randrange(2), r)
        out.append({'root': root, 'sub': None if st == 'inline' else s,
                    'st': st, 'ref': ref})
    nt = rng.choice((1, 2, 2, 3))
    tasks = []
    for t in range(nt):
        ops = []
        n = rng.choice((1, 2, 3, 4))
        for _ in range(rng.choice((4, 6, 8))):
            x = rng.random()
            slot = rng.randrange(n)
            if x < 0.42:
                v = rng.randrange(len(out))
                op = {'op': rng.choice(('create', 'create', 'set')),
                      'slot': slot, 'v': v, 'dir': rng.randrange(2),
                      'finder': rng.choice(FINDERS)}
                st = out[v]['st']
                if st == 'rel':
                    op['via'] = rng.choice(('path', 'file', 'stream'))
                    if op['via'] == 'stream':
                        op['finder'] = 'url'
                    elif op['finder'] == 'local':
                        op['finder'] = 'default'
                else:
                    op['via'] = rng.choice(('path', 'file', 'stream',
                                            'elem'))
                    if st == 'http' and op['finder'] == 'local':
                        op['finder'] = 'url'
                y = rng.random()
                if y < 0.12:
                    op['damage'] = docs.damage(rng, G.to_xml(
                        out[v]['root']).encode())
                elif y < 0.2:
                    op['finder'] = 'local'
                elif y < 0.26 and st in ('rel', 'http'):
                    op['nosub'] = True
                elif y < 0.36:
                    op['fault'] = C.injected(rng, EXCS)
                ops.append(op)
            elif x < 0.92:
                ops.append({'op': 'eval', 'slot': slot,
                            'q': rng.randrange(len(reqs))})
                if rng.random() < 0.1:
                    ops[-1]['fault'] = C.injected(rng, EXCS)
            else:
                ops.append({'op': 'drop', 'slot': slot})
        tasks.append(ops)
    common = rng.randrange(len(out))
    return {'versions': out, 'requests': reqs, 'tasks': tasks,
            'common': common, 'sched': W.sched_spec(rng, nt, 3000),
            'opcode': C.opcode(rng, 0.1, any(
                o.get('fault') for t in tasks for o in t), nt)}


def run(case, ctx):
    files = docs.Files()
    try:
        body(case, ctx, files)
    finally:
        files.close()


class Docs(object):
    """The documents on the network, as the loading thread finds them."""

    def __init__(self):
        self.now = {}
        self.key = lambda: None

    def get(self, url, default=None):
        return self.now.get(self.key(), {}).get(url)


def resolved(v):
    """The version with its reference replaced."""
    if v['sub'] is None or v['st'] == 'inline':
        n = v['root']
        if v['st'] != 'inline':
            return n
        s = n['kids'][0]
    else:
        n, s = v['root'], v['sub']
    return dict(n, kids=[s if k['t'] == 'R' else k for k in n['kids']])


def body(case, ctx, files):
    m = W.mods()
    vs, reqs = case['versions'], case['requests']
    trees = [resolved(v) for v in vs]
    table = Docs()
    net = W.Net(table, ctx, None, cap=5000).install()
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=3000000)

    def key():
        t = r.sched.task()
        return None if t is None else t.idx
    table.key = key

    def open_file(url):
        """Relative references: the library's own address on the real
        scratch directory."""
        with open(url[7:], 'rb') as fh:
            return fh.read()

    plain_open = net.open

    def opener(url):
        if url.startswith('file:'):
            net.log.append(url)
            if net.sched is not None:
                net.sched.external('file')
            import urllib.error
            try:
                data = open_file(url)
            except OSError as e:
                raise urllib.error.URLError(e)
            return W.HttpStream(url, data, None, None, net.sched)
        return plain_open(url)
    net.open = opener

    def load(op, t, pdp):
        """Loads op's version into pdp, or creates one; returns the PDP."""
        v = vs[op['v']]
        data = docs.apply(op.get('damage'), G.to_xml(v['root']).encode())
        d = os.path.join(files.dir, 't%s-%d' % (t, op['dir']))
        os.makedirs(d, exist_ok=True)
        subfile = os.path.join(d, 'sub.xml')
        if os.path.exists(subfile):
            os.unlink(subfile)
        table.now[key()] = {}
        if v['sub'] is not None and not op.get('nosub'):
            s = G.to_xml(v['sub']).encode()
            if v['st'] == 'rel':
                with open(subfile, 'wb') as fh:
                    fh.write(s)
            else:
                table.now[key()] = {v['ref']: {'data': s}}
        path = os.path.join(d, 'root.xml')
        with open(path, 'wb') as fh:
            fh.write(data)
        src = path
        if op['via'] == 'file':
            src = open(path, 'rb')
        elif op['via'] == 'stream':
            src = io.BytesIO(data)
        elif op['via'] == 'elem':
            if docs.raw_ok(data):
                src = m.ET.parse(io.BytesIO(data)).getroot()
        f = op['finder']
        F = None
        if f == 'url':
            F = m.UrlPolicyFinder(d)
        elif f == 'local':
            F = m.LocalPolicyFinder()
        try:
            if op['op'] == 'set' and pdp is not None:
                if F is None:
                    from ndg.xacml.finder.defaultfinder import \
                        getDefaultPolicyFinder
                    F = getDefaultPolicyFinder(src)
                pdp.setPolicyFromSource(src, m.ReaderFactory, F)
                return pdp
            return m.PDP.fromPolicySource(src, m.ReaderFactory, F) \
                if F is not None else \
                m.PDP.fromPolicySource(src, m.ReaderFactory)
        finally:
            if op['via'] == 'file':
                src.close()

    def must_fail(op):
        v = vs[op['v']]
        return bool(op.get('nosub') or op['finder'] == 'local' and
                    v['st'] in ('rel', 'http'))

    # one PDP that everybody evaluates and nobody replaces
    common = load({'op': 'create', 'v': case['common'], 'dir': 0,
                   'via': 'path', 'finder': 'default'}, 'c', None)
    held = {}           # (thread, slot) -> [pdp, version]

    def slot_of(t, s):
        return held.get((t, s)) or [common, case['common']]

    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            fault = None
            if op['op'] == 'eval':
                def ev(op=op, t=t):
                    p, v = slot_of(t, op['slot'])
                    req = W.Req(reqs[op['q']], ctx, r.sched)
                    return [v, W.decide(p, req.obj)]
                if op.get('fault'):
                    d = W.Req(reqs[op['q']], None)
                    fault = C.resolve(op['fault'], W.dry_points(
                        lambda: W.decide(common, d.obj), case['opcode']))
                lst.append(('eval', k, ev, fault))
            elif op['op'] == 'drop':
                def drop(op=op, t=t):
                    held.pop((t, op['slot']), None)
                    gc.collect()
                    return 'dropped'
                lst.append(('drop', k, drop))
            else:
                def ld(op=op, t=t):
                    old = held.get((t, op['slot']))
                    if op.get('fault') and op['op'] == 'set' and old:
                        # may be replaced when the exception comes
                        held[t, op['slot']] = [old[0], None]
                    p = load(op, t, old[0] if old else None)
                    held[t, op['slot']] = [
                        p, None if op.get('damage') else op['v']]
                    return 'loaded'
                if op.get('fault'):
                    fault = C.resolve(op['fault'], W.dry_points(
                        lambda op=op: load(op, 'dry', None),
                        case['opcode']))
                lst.append(('load', k, ld, fault))
        r.add('t%d' % t, lst)
    net.sched = r.sched
    hist = r.run()
    net.sched = None
    for h in hist:
        if h.out is None or h.out[1] == 'StepCap':
            return
        op = case['tasks'][h.task][h.arg]
        ctx.ev(h.task, h.arg, h.kind, h.out[:2])
        if h.kind == 'eval':
            if h.out[0] == 'ok':
                v, d = h.out[1]
                if v is None:
                    continue
                if not C.check_eval(
                        ctx, 'thread %d, PDP %d of version %d' % (
                            h.task, op['slot'], v), ('ok', d),
                        C.model_of(trees[v], reqs[op['q']],
                                   bool(op.get('fault')))):
                    return
            elif not op.get('fault'):
                ctx.viol('raised', 'evaluation raised %r' % (h.out,))
                return
        elif h.kind == 'load':
            if must_fail(op):
                if h.out[0] == 'ok' and not op.get('damage'):
                    ctx.viol('found', '%r succeeded without the document it '
                             'needs' % (op,))
                    return
            elif h.out[0] != 'ok' and not op.get('damage') and \
                    not op.get('fault'):
                ctx.viol('load', '%r failed: %r' % (op, h.out))
                return
            ctx.probe('load %s' % h.out[0])
    # every PDP still held, and a new one of each version
    ends = [(p, v) for p, v in held.values() if v is not None]
    ends.append((common, case['common']))
    for i in range(len(vs)):
        out = W.attempt(lambda: load(
            {'op': 'create', 'v': i, 'dir': 0, 'via': 'path',
             'finder': 'default'}, 'end', None))
        if out[0] != 'ok':
            ctx.viol('later load', 'version %d: %r' % (i, out))
            return
        ends.append((out[1], i))
    for p, v in ends:
        for j, q in enumerate(reqs):
            req = W.Req(q, None)
            out = W.attempt(lambda: W.decide(p, req.obj))
            ctx.ev('end', v, j, out[:2])
            if not C.check_eval(ctx, 'at the end, version %d' % v, out,
                                C.model_of(trees[v], q)):
                return
