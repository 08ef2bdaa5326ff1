"""Bags of attribute designators, observed inside evaluations."""
import collections

from dst import gen as G, model, world as W
from dst import common as C

QUICK = 700
RULE = ('1-3 simulated threads evaluate designators directly or inside a '
        'policy whose conditions hand each bag to a recording function; '
        'attribute sources answer in every shape, delayed, with duplicates, '
        'and fail; seeded scheduler.')
ORACLE = ('the bag recomputed from the request and the scripted answers '
          '(exact for request values, bounds for repeated source values)')
NS = 'urn:test:capture'


def gen(rng, tier):
    o = G.Opts(rng, errors=True, issuers=rng.random() < 0.6)
    o.pip = rng.random() < 0.8
    g = G.Gen(rng, o)
    des = []
    for _ in range(rng.choice((2, 4, 6))):
        d = g.designator(rng.choice('SSSSRAE'))
        if rng.random() < 0.2:
            d['dt'] = rng.choice((G.STR, G.URI, G.MAIL))
        if rng.random() < 0.1:
            d['iss'] = ''
        des.append(d)
    reqs = []
    for _ in range(rng.choice((1, 2))):
        q = g.request()
        q['subjects'] = [g.attrs('S', 0.6)
                         for _ in range(rng.choice((1, 1, 1, 2, 3, 0)))]
        for attrs in q['subjects'] + q['resources'] + \
                [q['action'] or [], q['env'] or []]:
            for a in attrs:
                if rng.random() < 0.12:
                    dt = rng.choice([G.STR, G.URI, G.MAIL])
                    a['mix'] = [dt, rng.choice(G.VALUES[dt])]
                if rng.random() < 0.1:
                    a['vals'] = a['vals'] + a['vals'][:1]
                if rng.random() < 0.1:
                    a['iss'] = ''
        p = q.get('pip')
        if p:
            p['shape'] = rng.choice(('list', 'tuple', 'gen', 'iter', 'same',
                                      'bag', 'samebag', 'dict', 'once'))
            p['none'] = rng.choice((None, None, []))
            for a in p['table']:
                if rng.random() < 0.2 and p['table'][a]:
                    p['table'][a] = p['table'][a] + p['table'][a][:1]
            p['faults'] = {a: rng.choice(G.PIP_FAULTS) for a in p['table']
                           if rng.random() < 0.12}
        reqs.append(q)
    big = None
    if rng.random() < 0.08:
        big, _, reqs = G.padded(rng, {'t': 'P', 'rules': []}, reqs,
                                ('values', 'subjects', 'attrs'))
    tasks = []
    for t in range(rng.choice((1, 1, 2, 3))):
        tasks.append([['direct', rng.randrange(len(des)),
                       rng.randrange(len(reqs))] if rng.random() < 0.6
                      else ['pdp', 0, rng.randrange(len(reqs))]
                      for _ in range(rng.choice((1, 2, 4)))])
    return {'des': des, 'requests': reqs, 'tasks': tasks, 'big': big,
            'share': rng.random() < 0.5,
            'sched': W.sched_spec(rng, len(tasks), 600),
            'opcode': C.opcode(rng, 0.15, False, len(tasks))}


def classes(m):
    from ndg.xacml.core import attributedesignator as D
    return {'S': D.SubjectAttributeDesignator,
            'R': D.ResourceAttributeDesignator,
            'A': D.ActionAttributeDesignator,
            'E': D.EnvironmentAttributeDesignator}


def expect(d, q):
    """(exact counter of request values, {source value: max count}) or E."""
    iss = d.get('iss')
    if d['cat'] in 'AE' and q[{'A': 'action', 'E': 'env'}[d['cat']]] is None:
        return model.E, None
    holders = {'S': q['subjects'], 'R': q['resources'],
               'A': [q['action']], 'E': [q['env']]}[d['cat']]
    base = collections.Counter()
    for h in holders:
        for a in h:
            if a['id'] == d['attr'] and a['dt'] == d['dt'] and \
                    (iss is None or a.get('iss') == iss):
                base.update(a['vals'])
                if a.get('mix') and a['mix'][0] == d['dt']:
                    base[a['mix'][1]] += 1
    extra = {}
    pip = q.get('pip')
    if d['cat'] == 'S' and pip and q['subjects']:
        if pip['faults'].get(d['attr']):
            return model.E, None
        vals = pip['table'].get(d['attr'])
        if vals is not None and \
                dict(G.UNIVERSE['S']).get(d['attr'], d['dt']) == d['dt']:
            for v in vals:
                extra[v] = vals.count(v) * len(q['subjects'])
    if not base and not extra and d.get('mbp'):
        return model.E, None
    return base, extra


def judge(d, q, bag):
    """None or what is wrong with a bag [(type, value), ...]."""
    base, extra = expect(d, q)
    if base is model.E:
        return 'got %r, an error was due' % (bag,)
    for dt, v in bag:
        if dt != d['dt']:
            return 'value %r has type %s' % (v, dt)
    got = collections.Counter(v for _, v in bag)
    one = len(q['subjects']) == 1
    for v in set(base) | set(extra) | set(got):
        lo = base[v] if v in base else 1
        hi = base[v] + (0 if one and v in base else extra.get(v, 0))
        if not lo <= got[v] <= hi:
            return '%r %d times, due %d to %d; bag %r' % (
                v, got[v], lo, hi, sorted(got.items()))
    return None


def run(case, ctx):
    m = W.mods()
    from ndg.xacml.core.functions import functionMap, AbstractFunction
    des, reqs = case['des'], case['requests']
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=800000)
    cap = {}

    class Capture(AbstractFunction):
        FUNCTION_NS = NS

        def evaluate(self, *inputs):
            t = r.sched.task()
            cap[t.idx].append((inputs[0].value,
                               [(v.dataType, v.value) for v in inputs[1]]))
            return False
    functionMap.load_custom_function(NS,
                                     function_factory=lambda ns: Capture)
    D = classes(m)
    objs = []
    for d in des:
        x = D[d['cat']]()
        x.attributeId, x.dataType = d['attr'], d['dt']
        if d.get('iss') is not None:
            x.issuer = d['iss']
        if 'mbp' in d:
            x.mustBePresent = d['mbp']
        objs.append(x)
    inpdp = [k for k, d in enumerate(des) if d['cat'] != 'E']
    node = {'t': 'P', 'id': 'urn:p', 'alg': 'deny', 'target': None,
            'rules': [{'id': 'r%d' % k, 'effect': 'Permit', 'target': None,
                       'cond': {'f': NS, 'args': [
                           {'v': str(k), 'dt': G.STR}, {'d': des[k]}]}}
                      for k in inpdp]}
    pdp = W.load_bytes(G.to_xml(node).encode())
    seen = {}
    wrong = []

    def hook(reqobj):
        def h(pip, request, designator):
            t = r.sched.task()
            seen.setdefault(t.idx, []).append(
                (designator.attributeId, designator.dataType,
                 designator.issuer))
            if request is not reqobj:
                wrong.append('the source was asked about another request')
        return h
    shared = {}

    def request(j):
        if case['share'] and j in shared:
            return shared[j]
        q = W.Req(reqs[j], ctx, r.sched)
        fix_mix(q, reqs[j])
        if q.pip is not None:
            q.pip.hook = hook(q.obj)
        shared[j] = q
        return q
    results = {}

    def direct(k, j, q):
        def go():
            bag = objs[k].evaluate(q.obj)
            return [(v.dataType, v.value) for v in bag]
        return go

    def work(t, i, op, q):
        base = direct(op[1], op[2], q) if op[0] == 'direct' else \
            (lambda: W.decide(pdp, q.obj))

        def go():
            cap[t] = []
            seen[t] = []
            try:
                return base()
            finally:
                results[t, i] = (cap[t], seen[t])
        return go
    for t, ops in enumerate(case['tasks']):
        r.add('t%d' % t, [(op[0], (t, i), work(t, i, op, request(op[2])))
                          for i, op in enumerate(ops)])
    for h in r.run():
        if h.out is None or h.out[1] == 'StepCap':
            continue
        t, i = h.arg
        op = case['tasks'][t][i]
        q = reqs[op[2]]
        caught, asked = results[t, i]
        ctx.ev(t, i, op, h.out[0], caught, asked)
        if wrong:
            ctx.viol('query', wrong[0])
            return
        if h.kind == 'direct':
            ds = [op[1]]
            bags = {op[1]: h.out[1]} if h.out[0] == 'ok' else {}
        else:
            ds = inpdp
            bags = {}
            for k, b in caught:
                if int(k) in bags:
                    ctx.viol('bag', 'designator %s evaluated twice' % k)
                    return
                bags[int(k)] = b
            if h.out[0] != 'ok':
                ctx.viol('raised', 'evaluation: %r' % (h.out,))
                return
            bad = any(expect(des[k], q)[0] is model.E for k in ds)
            due = 'Indeterminate' if bad else 'NotApplicable'
            if h.out[1] != due:
                ctx.viol('bag', 'evaluation gave %s, due %s' % (
                    h.out[1], due))
                return
        for k in ds:
            d = des[k]
            if k not in bags:
                if expect(d, q)[0] is not model.E:
                    ctx.viol('bag', '%r failed: %r' % (d, h.out))
                    return
                ctx.probe('error')
                continue
            w = judge(d, q, bags[k])
            if w:
                ctx.viol('bag', '%r: %s' % (d, w))
                return
            ctx.probe('bag of %s' % (len(bags[k]) if len(bags[k]) < 4
                                     else 'many'))
        # the queries of this call
        subj = [k for k in ds if des[k]['cat'] == 'S']
        due = collections.Counter(
            (des[k]['attr'], des[k]['dt'], des[k].get('iss')) for k in subj)
        got = collections.Counter(asked)
        n = len(q['subjects'])
        if q.get('pip') and n:
            for x in set(due) | set(got):
                if not due[x] <= got[x] <= due[x] * n:
                    ctx.viol('query', 'source asked %d times for %r, due '
                             '%d to %d' % (got[x], x, due[x], due[x] * n))
                    return
        elif got:
            ctx.viol('query', 'source asked %r' % (got,))
            return


def fix_mix(q, spec):
    for holder, attrs in [(s, a) for s, a in zip(q.obj.subjects,
                                                 spec['subjects'])] + \
            [(s, a) for s, a in zip(q.obj.resources, spec['resources'])] + \
            [(q.obj.action, spec['action'] or []),
             (q.obj.environment, spec['env'] or [])]:
        if holder is None:
            continue
        for x, a in zip(holder.attributes, attrs):
            if a.get('mix'):
                x.attributeValues.append(W._val(*a['mix']))
