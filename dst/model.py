"""Small executable reference model of an XACML 2.0 decision.

Outcomes are sets: where the standard (or a harmless short circuit) allows
more than one result once something has failed, all of them are in the set.
Without a failure every set has one member.
"""
import re
import itertools
from . import gen

P, D, I, N = 'Permit', 'Deny', 'Indeterminate', 'NotApplicable'
E = 'E'


def bag_of(d, req, cat=None):
    """Values a designator finds, or E."""
    cat = cat or d['cat']
    iss = d.get('iss')

    def pick(attrs):
        out = []
        for a in attrs:
            if a['id'] == d['attr'] and a['dt'] == d['dt'] and \
                    (iss is None or a.get('iss') == iss):
                out.extend(a['vals'])
        return out
    if cat == 'S':
        bag = []
        pip = req.get('pip')
        for s in req['subjects']:
            bag.extend(pick(s))
            if pip is not None:
                f = pip['faults'].get(d['attr'])
                if f:
                    return E
                vals = pip['table'].get(d['attr'])
                dts = dict(gen.UNIVERSE['S'])
                if vals is not None and dts.get(d['attr']) == d['dt']:
                    have = list(bag)
                    if have:
                        bag.extend(v for v in vals if v not in have)
                    else:
                        bag.extend(vals)
    elif cat == 'R':
        bag = []
        for s in req['resources']:
            bag.extend(pick(s))
    elif cat == 'A':
        if req['action'] is None:
            return E
        bag = pick(req['action'])
    else:
        if req['env'] is None:
            return E
        bag = pick(req['env'])
    if not bag and d.get('mbp'):
        return E
    return tuple(bag)


def sel_of(m, req):
    c = req.get('content')
    if c is None:
        return E
    vals = tuple(c.get(m['sel'], ()))
    if not vals and m.get('mbp'):
        return E
    return vals


def fn_type(fn):
    name = fn.rsplit(':', 1)[-1]
    for dt, s in gen.SHORT.items():
        if name.startswith(s + '-'):
            return dt, name[len(s) + 1:]
    if name.startswith('url-string-'):
        return gen.URI, name[len('url-string-'):]
    return None, name


def binary(fn, a, b):
    """fn over two ('v', dt, value); True / False / E."""
    if not xmlnode().known_fn(fn):
        return E
    dt, op = fn_type(fn)
    if a[0] != 'v' or b[0] != 'v' or a[1] != dt or b[1] != dt:
        return E
    if op == 'same':
        t = gen.TOUCHY[dt]
        if fn.startswith(gen.APP + 'touchy:') and t in (a[2], b[2]):
            return E
        return a[2] == b[2]
    if op == 'equal':
        return a[2] == b[2]
    if op == 'regexp-match':
        try:
            return bool(re.match(a[2], b[2]))
        except re.error:
            return E
    return E            # no such function


def xmlnode():
    from . import xmlnode as x
    return x


def m_match(m, req, cat):
    if 'sel' in m:
        bag, dt = sel_of(m, req), m['dt']
    else:
        bag, dt = bag_of(m['des'], req, cat), m['des']['dt']
    if bag is E:
        return {E}
    res = [binary(m['fn'], ('v', m['vdt'], m['val']), ('v', dt, v))
           for v in bag]
    out = set()
    if E in res:
        out.add(E)
        if True in res:
            out.add('M')
    else:
        out.add('M' if True in res else 'N')
    return out


def fold(sets):
    """Sets of the distinct items of every combination of the sets."""
    states = {frozenset()}
    for s in sets:
        states = {st | {x} for st in states for x in s}
    return states


def firsts(sets):
    """What the first item other than N may be."""
    out = set()
    for s in sets:
        out |= s - {N}
        if N not in s:
            return out
    return out | {N}


def conj(sets):
    out = set()
    for c in fold(sets):
        if E in c:
            out.add(E)
            if 'N' in c:
                out.add('N')
        elif 'N' in c:
            out.add('N')
        else:
            out.add('M')
    return out


def disj(sets):
    out = set()
    for c in fold(sets):
        if E in c:
            out.add(E)
            if 'M' in c:
                out.add('M')
        elif 'M' in c:
            out.add('M')
        else:
            out.add('N')
    return out


def m_target(t, req):
    if t is None:
        return {'M'}
    secs = []
    for cat in 'SRAE':
        if t.get(cat):
            secs.append(disj([conj([m_match(m, req, cat) for m in kid])
                              for kid in t[cat]]))
    return conj(secs) if secs else {'M'}


def m_expr(e, req):
    """Set of outcomes: E, ('b', bool), ('v', dt, v), ('bag', dt, values)."""
    if 'v' in e:
        return {('v', e['dt'], e['v'])}
    if 'd' in e:
        b = bag_of(e['d'], req)
        return {E} if b is E else {('bag', e['d']['dt'], b)}
    if 'sel' in e:
        b = sel_of(e, req)
        return {E} if b is E else {('bag', e['dt'], b)}
    args = [m_expr(a, req) for a in e['args']]
    dt, op = fn_type(e['f'])
    out = set()
    for c in itertools.product(*[list(a) for a in args]):
        if not xmlnode().known_fn(e['f']):
            out.add(E)
            continue
        if op == 'and':
            if E in c or any(x is not E and x[0] != 'b' for x in c):
                out.add(E)
                if ('b', False) in c:
                    out.add(('b', False))
            else:
                out.add(('b', all(x[1] for x in c)))
            continue
        if E in c:
            out.add(E)
            continue
        if op == 'not':
            out.add(('b', not c[0][1]) if c[0][0] == 'b' else E)
        elif op == 'bag':
            out.add(('bag', dt, tuple(x[2] for x in c))
                    if all(x[0] == 'v' and x[1] == dt for x in c) else E)
        elif op == 'one-and-only':
            b = c[0]
            out.add(('v', dt, b[2][0]) if b[0] == 'bag' and b[1] == dt and
                    len(b[2]) == 1 else E)
        elif op == 'at-least-one-member-of':
            a, b = c
            out.add(('b', bool(set(a[2]) & set(b[2])))
                    if a[0] == b[0] == 'bag' and a[1] == b[1] == dt else E)
        elif op == 'concatenate':
            ok = c[0][0] == 'v' and c[0][1] == dt and all(
                x[0] == 'v' and x[1] == gen.STR for x in c[1:]) and \
                len(c) > 1
            out.add(('v', dt, ''.join(x[2] for x in c)) if ok else E)
        else:
            r = binary(e['f'], c[0], c[1])
            out.add(E if r is E else ('b', r))
    return out


def combine_rules(alg, ds, effects):
    """Appendix C of XACML 2.0 on one tuple of rule decisions."""
    if alg not in gen.RALG:
        return I
    if alg == 'first':
        for d in ds:
            if d != N:
                return d
        return N
    if alg == 'deny':
        if D in ds:
            return D
        if any(d == I and e == D for d, e in zip(ds, effects)):
            return I
        if P in ds:
            return P
        return I if I in ds else N
    if P in ds:
        return P
    if any(d == I and e == P for d, e in zip(ds, effects)):
        return I
    if D in ds:
        return D
    return I if I in ds else N


def combine_policies(alg, ds):
    if alg not in gen.PALG:
        return I
    if alg == 'first':
        for d in ds:
            if d != N:
                return d
        return N
    if alg == 'deny':
        if D in ds or I in ds:
            return D
        return P if P in ds else N
    if P in ds:
        return P
    if D in ds:
        return D
    return I if I in ds else N


def m_rule(r, req):
    out = set()
    t = m_target(r.get('target'), req)
    if E in t:
        out.add(I)
    if 'N' in t:
        out.add(N)
    if 'M' in t:
        if r.get('cond') is None:
            out.add(r['effect'])
        else:
            for c in m_expr(r['cond'], req):
                if c is E:
                    out.add(I)
                elif c[0] != 'b':
                    out.add(r['effect'])
                    out.add(I)
                else:
                    out.add(r['effect'] if c[1] else N)
    return out


def decide(n, req, force=None, path=(), refs=None):
    """Set of decisions node n may give.  force: path of one node whose
    evaluation is taken to have failed (Indeterminate)."""
    if n['t'] == 'R':
        n = refs[n['kind'], n['ref']]
    if force == path:
        return {I}
    out = set()
    t = m_target(n.get('target'), req)
    if E in t:
        out.add(I)
    if 'N' in t:
        out.add(N)
    if 'M' in t:
        if n['t'] == 'P':
            rs = [({I} if force == path + (i,) else m_rule(r, req))
                  for i, r in enumerate(n['rules'])]
            effs = [r['effect'] for r in n['rules']]
            if n['alg'] == 'first':
                out |= firsts(rs)
            else:
                for c in fold([{(d, e) for d in s}
                               for s, e in zip(rs, effs)]):
                    out.add(combine_rules(n['alg'], [x[0] for x in c],
                                          [x[1] for x in c]))
        else:
            ks = [decide(k, req, force, path + (i,), refs)
                  for i, k in enumerate(n['kids'])]
            if n['alg'] == 'first':
                out |= firsts(ks)
            else:
                for c in fold(ks):
                    out.add(combine_policies(n['alg'], c))
    return out


def inline(n, refs):
    if n['t'] == 'R':
        return inline(refs[n['kind'], n['ref']], refs)
    if n['t'] == 'S':
        m = dict(n)
        m['kids'] = [inline(k, refs) for k in n['kids']]
        return m
    return n


def decide_one_fault(n, req, refs=None):
    """Decisions allowed when one evaluation step anywhere raised."""
    if refs:
        n = inline(n, refs)
    out = set(decide(n, req))
    for path in gen.nodes(n):
        out |= decide(n, req, force=path)
    return out
