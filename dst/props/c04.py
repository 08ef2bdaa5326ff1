"""Damaged documents and deliveries against an independent reading."""
import io

from dst import gen as G, model, docs, xmlnode, world as W
from dst import common as C

QUICK = 500
RULE = ('Seeded policies delivered through a stream, a file or a parsed '
        'element, whole or damaged (truncation, lost, repeated, moved, '
        'zeroed or torn blocks, bit flips, removed or renamed attributes and '
        'elements, alien elements, altered tokens) or with a failing read; '
        'each loaded policy is asked 4 requests.')
ORACLE = ('an independent expat-based reader of the delivered bytes '
          '(dst/xmlnode.py) and the model')


def gen(rng, tier):
    o = G.Opts(rng, errors=rng.random() < 0.4)
    g = G.Gen(rng, o)
    node = g.any_policy()
    if rng.random() < 0.35:
        G.add_local_refs(rng, node, 0.25)
    if G.size(node, G.index(node)) > 45:
        node = g.policy()
    big = None
    if rng.random() < 0.06:
        big, node, _ = G.padded(rng, node, [], ('rules', 'kids', 'alts',
                                                'conj', 'depth', 'desc'))
    nl = rng.choice(('', '', '\n'))
    case = {'policy': node, 'nl': nl, 'ops': [], 'big': big}
    data = G.to_xml(node, nl=nl).encode()
    other = None
    if rng.random() < 0.3:
        from dst.props.c02 import variant
        try:
            case['other'] = variant(rng, g, node)
            other = G.to_xml(case['other'], nl=nl).encode()
        except KeyError:
            case.pop('other', None)
    case['requests'] = [C.interesting(rng, g, node, refs=G.index(node))
                        for _ in range(4)]
    for q in case['requests']:
        if q.get('pip'):
            q['pip']['faults'] = {}
    for _ in range(rng.choice((2, 4, 6))):
        op = {'via': rng.choice(('stream', 'stream', 'stream', 'path',
                                 'elem'))}
        x = rng.random()
        if x < 0.25:
            op['stream'] = docs.delivery(rng, False)
            if rng.random() < 0.6:
                op['form'] = rng.choice(G.FORMS)
        elif x < 0.4:
            op['via'] = 'stream'
            op['stream'] = docs.delivery(rng, True, len(data))
        else:
            op['damage'] = docs.damage(rng, data, other)
            op['stream'] = docs.delivery(rng, False)
        case['ops'].append(op)
    return case


def run(case, ctx):
    m = W.mods()
    node = case['policy']
    if case.get('big'):
        ctx.probe('large: ' + case['big'])
    data = G.to_xml(node, nl=case['nl']).encode()
    other = (G.to_xml(case['other'], nl=case['nl']).encode()
             if case.get('other') else None)
    files = docs.Files()
    try:
        for k, op in enumerate(case['ops']):
            if not step(case, ctx, m, k, op, data, other, files):
                return
    finally:
        files.close()


def step(case, ctx, m, k, op, data, other, files):
    d = op.get('damage')
    sent = docs.apply(d, data, other)
    if op.get('form'):
        sent = G.form(G.to_xml(case['policy'], nl=case['nl']), op['form'])
    raw = docs.raw_ok(sent)
    if op['via'] == 'elem' and not raw:
        return True
    verdict = xmlnode.read(sent) if d else ('ok', case['policy'], False)
    if d and sent != data:
        ctx.fault('damage ' + d['kind'])
    label = 'load %d (%s, %s)' % (k, op['via'], d or
                                  op['stream'].get('fault') or
                                  op.get('form'))
    r = W.Runner(ctx, {"kind": "none"},
                 step_cap=400000 + 40 * len(sent))
    st = None
    if op['via'] == 'stream':
        src = st = W.SimStream(sent, op['stream'], ctx, r.sched)
    elif op['via'] == 'path':
        src = files.write(sent)
    else:
        src = m.ET.parse(io.BytesIO(sent)).getroot()
    box = []

    def load():
        box.append(m.PDP.fromPolicySource(src, m.ReaderFactory,
                                          m.LocalPolicyFinder()))
        return 'loaded'
    r.add('loader', [('load', k, load)])
    out = r.run()[0].out
    ctx.ev('load', k, out[:2])
    if out[0] != 'ok':
        ctx.probe('load raised')
        if verdict[0] == 'ok' and not verdict[2] and raw and \
                not (st is not None and st.failed):
            ctx.viol('refused', '%s raised %r for a valid document' % (
                label, out))
            return False
        return True
    if st is not None and st.failed:
        ctx.viol('read error ignored', '%s: the source failed and the load '
                 'returned' % label)
        return False
    if not raw:
        ctx.viol('loaded', '%s: loaded a document that is not well-formed' %
                 label)
        return False
    if verdict[0] == 'reject' and 'not well-formed' not in verdict[1] and \
            'encoding' not in verdict[1]:
        ctx.viol('loaded', '%s: loaded although %s' % (label, verdict[1]))
        return False
    if verdict[0] != 'ok':
        ctx.probe('outside the model')
        return True
    ctx.probe('loaded damaged' if d else 'loaded')
    got = verdict[1]
    refs = G.index(got)
    for i, q in enumerate(case['requests']):
        req = W.Req(q, ctx)
        res = W.attempt(lambda: W.decide(box[0], req.obj))
        ctx.ev('eval', k, i, res[:2])
        if not C.check_eval(ctx, '%s, request %d' % (label, i), res,
                            model.decide(got, q, refs=refs)):
            return False
    return True
