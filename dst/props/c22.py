"""The library's typed, unique, vetted and fixed-key collections under
histories of changes whose inputs fail, call back or change the collection."""
import copy

from dst import gen as G, world as W
from dst import common as C

QUICK = 1200
RULE = ('Histories of 3-14 changes (append, insert, extend, +=, assignment '
        'of items and slices, removal, sort, update, pop, setdefault ...) on '
        'typed and unique lists, vetted dictionaries and dictionaries of '
        'fixed keys, from lists, tuples, sets, iterators and generators that '
        'fail, stall, or change the collection themselves, with filters and '
        'comparisons that fail and exceptions injected at any point; typed '
        'lists and vetted dictionaries also from 2-3 threads, seeded '
        'scheduler.')
ORACLE = ('plain list / dict with the rule applied; content after every '
          'change; in threads the rule at every change and the elements '
          'added and not removed at the end')
EXCS = ('MemoryError', 'OSError', 'SimCancel', 'KeyboardInterrupt')
ITER = ('list', 'list', 'tuple', 'iter', 'gen', 'gen', 'once')
RAISES = ('ValueError', 'KeyError', 'StopIteration', 'TypeError',
          'SimCancel', 'OSError')
TYPES = ('str', 'int', 'str|int', 'float', 'av', 'av-int')
KEYS = ('a', 'b', 'c', 'e')


class Touchy(object):
    """Equal to nothing, and comparing it fails."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise ValueError('simulated failing comparison')

    __hash__ = None

    def __repr__(self):
        return 'Touchy(%d)' % self.n


def value(rng, bad=0.25):
    """(tag, data)"""
    x = rng.random()
    if x < 0.45:
        return ['str', rng.choice('abcdefgh')]
    if x < 0.7:
        return ['int', rng.randrange(6)]
    if x < 0.76:
        return ['float', rng.choice((1.0, 2.5))]
    if x < 0.8:
        return ['bool', rng.random() < 0.5]
    if x < 0.85:
        return ['none', 0]
    if x < 0.95:
        return [rng.choice(('av', 'av-int')), rng.randrange(4)]
    return ['list', rng.randrange(3)]


def good(rng, t):
    t = rng.choice(t.split('|'))
    if t == 'str':
        return ['str', rng.choice('abcdefgh')]
    if t == 'int':
        return ['int', rng.randrange(6)]
    if t == 'float':
        return ['float', rng.choice((1.0, 2.5, -3.0))]
    return [t, rng.randrange(4)]


def values(rng, o, n=None):
    n = rng.choice((0, 1, 2, 3, 4) * 6 + (12, 40)) if n is None else n
    p = rng.choice((0.0, 0.0, 0.3))
    return [item(rng, o, p) for _ in range(n)]


def item(rng, o, p=0.2):
    if o['kind'] == 'typed':
        return value(rng) if rng.random() < p else good(rng, o['type'])
    if o['kind'] == 'uniq':
        if o['touchy'] and rng.random() < 0.1:
            return ['touchy', rng.randrange(3)]
        return rng.choice((['str', rng.choice('abcde')],
                           ['int', rng.randrange(4)]))
    return value(rng) if rng.random() < max(p, 0.3) else \
        ['int', rng.randrange(6)]


def source(rng, o, n=None):
    s = {'vals': values(rng, o, n), 'as': rng.choice(ITER)}
    if s['as'] in ('gen', 'once'):
        x = rng.random()
        if x < 0.2:
            s['raise'] = [rng.randint(0, len(s['vals'])),
                          rng.choice(RAISES)]
        elif x < 0.35 and not o.get('touchy'):
            s['inner'] = [rng.randint(0, len(s['vals'])), item(rng, o)]
        elif x < 0.45:
            s['stall'] = rng.choice((0.0, 0.1, 5.0))
    return s


LISTOPS = ('append', 'append', 'append', 'extend', 'extend', 'iadd', 'iadd',
           'insert', 'pop', 'remove', 'del', 'reverse', 'clear', 'sort',
           'self', 'copy', 'deepcopy', 'new')
DICTOPS = ('set', 'set', 'set', 'set', 'update', 'setdefault', 'pop', 'del',
           'get', 'clear', 'popitem', 'in', 'items')


def gen_op(rng, o, k, threaded):
    kind = o['kind']
    if kind in ('typed', 'uniq'):
        if threaded:
            m = rng.choice(('append', 'append', 'extend', 'iadd', 'insert'))
        else:
            m = rng.choice(LISTOPS + ('setitem', 'setslice', 'imul'))
        if m == 'deepcopy' and 'av' in o.get('type', ''):
            m = 'copy'
        op = {'obj': k, 'm': m}
        if m in ('append', 'remove'):
            op['v'] = item(rng, o)
        elif m in ('insert', 'setitem'):
            op['i'] = rng.randint(-3, 6)
            op['v'] = item(rng, o)
        elif m in ('extend', 'iadd', 'new'):
            op['src'] = source(rng, o)
        elif m == 'setslice':
            op['i'] = rng.randint(-2, 4)
            op['j'] = rng.randint(-2, 5)
            op['step'] = rng.choice((None, None, None, 2, -1))
            op['src'] = source(rng, o)
            op['src'].pop('inner', None)
        elif m in ('pop', 'del'):
            op['i'] = rng.randint(-3, 4)
        elif m == 'imul':
            op['i'] = rng.choice((-1, 0, 1, 2, 3))
    else:
        m = rng.choice(('set', 'set', 'update') if threaded else
                       DICTOPS + (('ior',) if kind == 'fixed' else ()))
        op = {'obj': k, 'm': m, 'key': rng.choice(
            KEYS + (('z', 'y', 'y') if kind == 'fixed' else
                    ('z', 'no', 'fail')))}
        if m in ('set', 'setdefault'):
            op['v'] = item(rng, o)
        elif m in ('update', 'ior'):
            op['form'] = rng.choice(('dict', 'dict', 'pairs', 'kw', 'gen'))
            ks = [rng.choice(KEYS if rng.random() < 0.8 else
                             ('z', 'no', 'y')) for _ in
                  range(rng.randint(0, 3))]
            op['pairs'] = [[x, item(rng, o)] for x in ks]
    if rng.random() < 0.12 and not threaded:
        op['fault'] = C.injected(rng, EXCS)
    return op


def gen(rng, tier):
    threaded = rng.random() < 0.3
    objs = []
    for _ in range(1 if threaded else rng.choice((1, 1, 2))):
        k = rng.choice(('typed', 'typed', 'typed', 'vetted')) if threaded \
            else rng.choice(('typed', 'typed', 'uniq', 'vetted', 'fixed'))
        o = {'kind': k}
        if k == 'typed':
            o['type'] = rng.choice(TYPES)
        if k == 'uniq':
            o['touchy'] = rng.random() < 0.3
        if k == 'vetted':
            o['slow'] = rng.random() < 0.4
        o['start'] = values(rng, o) if k in ('typed', 'uniq') else None
        if k == 'fixed':
            o['keys'] = list(KEYS[:rng.randint(1, 4)]) + \
                (['y'] if rng.random() < 0.3 else [])
        objs.append(o)
    nt = rng.choice((2, 2, 3)) if threaded else 1
    tasks = [[gen_op(rng, objs[k], k, threaded)
              for k in [rng.randrange(len(objs))
                        for _ in range(rng.randint(2, 6) if threaded else
                                       rng.randint(3, 14))]]
             for _ in range(nt)]
    return {'objs': objs, 'tasks': tasks, 'threaded': threaded,
            'sched': W.sched_spec(rng, nt, 60) if threaded else
            {'kind': 'none'},
            'opcode': C.opcode(rng, 0.5, not threaded, nt)}


class World(object):
    """The real object for each tagged value, always the same one."""

    def __init__(self, ctx, sched=None):
        m = W.mods()
        import ndg.xacml.utils as U
        self.U = U
        self.ctx = ctx
        self.sched = sched
        f = m.AttributeValueClassFactory()
        self.av = {'av': f(G.STR),
                   'av-int': f('http://www.w3.org/2001/XMLSchema#integer')}
        self.types = {'str': str, 'int': int, 'str|int': (str, int),
                      'float': float, 'av': self.av['av'],
                      'av-int': self.av['av-int']}
        self.made = {}

    def premake(self, x):
        """Elements are made before the threads start."""
        if isinstance(x, list) and len(x) == 2 and x[0] in (
                'str', 'int', 'float', 'bool', 'none', 'av', 'av-int',
                'list', 'touchy') and not isinstance(x[1], list):
            self.elem(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.premake(y)
        elif isinstance(x, dict):
            for y in x.values():
                self.premake(y)

    def elem(self, v):
        tag, d = v
        k = (tag, d)
        if k not in self.made:
            if tag in self.av:
                x = self.av[tag](value=d if tag == 'av-int' else 'v%d' % d)
            elif tag == 'touchy':
                x = Touchy(d)
            elif tag == 'none':
                x = None
            elif tag == 'list':
                x = [d]
            elif tag == 'bool':
                x = bool(d)
            else:
                x = d
            self.made[k] = x
        return self.made[k]

    def source(self, s, target, seen):
        """The iterable an operation passes; seen records what it did."""
        vals = [self.elem(v) for v in s['vals']]
        if s['as'] == 'list':
            return vals
        if s['as'] == 'tuple':
            return tuple(vals)
        if s['as'] == 'iter':
            return iter(vals)

        def g():
            for i in range(len(vals) + 1):
                if s.get('raise') and s['raise'][0] == i:
                    self.ctx.fault('iterable raises ' + s['raise'][1])
                    raise W.make_exc(s['raise'][1])
                if s.get('inner') and s['inner'][0] == i:
                    self.ctx.fault('iterable changes the collection')
                    x = self.elem(s['inner'][1])
                    target.append(x)
                    seen.append(x)
                if s.get('stall') is not None and self.sched is not None:
                    self.ctx.fault('iterable stalls')
                    self.sched.sleep(s['stall'])
                if i < len(vals):
                    yield vals[i]
        return g() if s['as'] == 'gen' else Shy(g())

    def build(self, o):
        k = o['kind']
        if k == 'typed':
            c = self.U.TypedList(self.types[o['type']])
        elif k == 'uniq':
            c = self.U.UniqList()
        elif k == 'vetted':
            return self.U.VettedDict(*self.filters(o))
        else:
            return self.U.RestrictedKeyNamesDict(
                [(x, 0) for x in o['keys']])
        for v in o['start']:
            x = self.elem(v)
            if self.fits(o, x):
                c.append(x)
        return c

    def filters(self, o):
        def slow():
            if o['slow'] and self.sched is not None:
                self.sched.sleep(0.0)

        def key(x):
            slow()
            if x == 'fail':
                self.ctx.fault('filter raises')
                raise KeyError('simulated refusal of a key')
            return x != 'no'

        def val(x):
            slow()
            if isinstance(x, list):
                self.ctx.fault('filter raises')
                raise ValueError('simulated refusal of a value')
            if type(x) is int:
                return True
            return {str: '', type(None): None}.get(type(x), 0)
        return key, val

    def fits(self, o, x):
        if o['kind'] == 'typed':
            return isinstance(x, self.types[o['type']])
        return True


class Shy(object):
    """An iterable that can be gone through only once."""

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        it, self.it = self.it, None
        return iter(it)


def tag(x):
    v = getattr(x, 'value', None)
    return (type(x).__name__, repr(v if v is not None else x))


def ids(x):
    return [id(i) for i in x]


def uniq(base, vals):
    out = list(base)
    for v in vals:
        if not any(v is i or v == i for i in out):
            out.append(v)
    return out


class Refused(Exception):
    """What the rule of a collection refuses."""


def model_list(w, o, base, op, seen):
    """Applies op to the plain list base; returns the new list."""
    m = op['m']
    u = o['kind'] == 'uniq'
    new = list(base)

    def check(vals):
        for v in vals:
            if not w.fits(o, v):
                raise Refused()
        return vals

    if op.get('src', {}).get('inner'):
        check([w.elem(op['src']['inner'][1])])

    if m == 'append':
        v = check([w.elem(op['v'])])
        return uniq(new, v) if u else new + v
    if m in ('extend', 'iadd', 'new'):
        if op['src'].get('raise'):
            raise W.make_exc(op['src']['raise'][1])
        v = check([w.elem(x) for x in op['src']['vals']])
        if m == 'new':
            new = []
        return uniq(new, v) if u else new + v
    if m == 'self':
        return uniq(new, new) if u else new + new
    if m == 'insert':
        v = check([w.elem(op['v'])])[0]
        if u and any(v is i or v == i for i in new):
            return new
        new.insert(op['i'], v)
        return new
    if m == 'setitem':
        v = check([w.elem(op['v'])])[0]
        rest = list(new)
        new[op['i']] = v
        if u:
            del rest[op['i']]
            if any(v is i or v == i for i in rest):
                return list(base)
        return new
    if m == 'setslice':
        if op['src'].get('raise'):
            raise W.make_exc(op['src']['raise'][1])
        vals = check([w.elem(x) for x in op['src']['vals']])
        if u:
            rest = list(new)
            del rest[op['i']:op['j']:op['step']]
            vals = uniq(rest, vals)[len(rest):]
        new[op['i']:op['j']:op['step']] = vals
        return new
    if m == 'imul':
        return new * (min(op['i'], 1) if u else op['i'])
    if m == 'pop':
        new.pop(op['i'])
    elif m == 'del':
        del new[op['i']]
    elif m == 'remove':
        new.remove(w.elem(op['v']))
    elif m == 'reverse':
        new.reverse()
    elif m == 'clear':
        new.clear()
    elif m == 'sort':
        base.sort()         # as list does, also when it fails
        new = list(base)
    return new


def real_list(w, o, c, op, seen):
    """Applies op to the real collection; returns the collection."""
    m = op['m']
    if m == 'append':
        c.append(w.elem(op['v']))
    elif m == 'extend':
        c.extend(w.source(op['src'], c, seen))
    elif m == 'iadd':
        d = c
        d += w.source(op['src'], c, seen)
        if d is not c:
            return d
    elif m == 'new':
        src = w.source(op['src'], c, seen)
        return w.U.TypedList(w.types[o['type']], src) \
            if o['kind'] == 'typed' else w.U.UniqList(src)
    elif m == 'self':
        c.extend(c)
    elif m == 'insert':
        c.insert(op['i'], w.elem(op['v']))
    elif m == 'setitem':
        c[op['i']] = w.elem(op['v'])
    elif m == 'setslice':
        c[op['i']:op['j']:op['step']] = w.source(op['src'], c, seen)
    elif m == 'imul':
        d = c
        d *= op['i']
        return d
    elif m == 'pop':
        c.pop(op['i'])
    elif m == 'del':
        del c[op['i']]
    elif m == 'remove':
        c.remove(w.elem(op['v']))
    elif m == 'reverse':
        c.reverse()
    elif m == 'clear':
        c.clear()
    elif m == 'sort':
        c.sort()
    elif m == 'copy':
        return copy.copy(c)
    elif m == 'deepcopy':
        return copy.deepcopy(c)
    return c


def pairs_of(w, op):
    return [(k, w.elem(v)) for k, v in op['pairs']]


def model_dict(w, o, base, op):
    """All contents op may leave, and whether it must fail."""
    m = op['m']
    new = dict(base)

    def put(d, k, v):
        if o['kind'] == 'fixed':
            if k not in o['keys']:
                raise Refused()
        else:
            if k == 'fail':
                raise Refused()
            if k == 'no':
                return
            if isinstance(v, list):
                raise Refused()
            if type(v) is not int:
                return
        d[k] = v

    if m == 'set':
        put(new, op['key'], w.elem(op['v']))
    elif m == 'setdefault':
        if op['key'] not in new:
            put(new, op['key'], w.elem(op['v']))
    elif m in ('update', 'ior'):
        for k, v in (dict(pairs_of(w, op)).items() if op['form'] in
                     ('dict', 'kw') or m == 'ior' else pairs_of(w, op)):
            put(new, k, v)
    elif m == 'pop':
        new.pop(op['key'])
    elif m == 'del':
        del new[op['key']]
    elif m == 'clear':
        new.clear()
    elif m == 'popitem':
        new.popitem()
    return new


def real_dict(w, o, c, op):
    m = op['m']
    if m == 'set':
        c[op['key']] = w.elem(op['v'])
    elif m == 'setdefault':
        c.setdefault(op['key'], w.elem(op['v']))
    elif m in ('update', 'ior'):
        p = pairs_of(w, op)
        if m == 'ior':
            c |= dict(p)
        elif op['form'] == 'dict':
            c.update(dict(p))
        elif op['form'] == 'kw':
            c.update({}, **dict(p))
        elif op['form'] == 'pairs':
            c.update(p)
        else:
            c.update(x for x in p)
    elif m == 'pop':
        c.pop(op['key'])
    elif m == 'del':
        del c[op['key']]
    elif m == 'clear':
        c.clear()
    elif m == 'popitem':
        c.popitem()
    return c


def rule(w, o, c):
    """What is wrong with the content of a collection, or None."""
    if o['kind'] == 'typed':
        for x in list(c):
            if not isinstance(x, w.types[o['type']]):
                return '%r in a list of %s' % (x, o['type'])
    elif o['kind'] == 'uniq':
        x = [i for i in c if not isinstance(i, Touchy)]
        for i in range(len(x)):
            if x[i] in x[:i]:
                return '%r twice in a unique list' % (x[i],)
    elif o['kind'] == 'vetted':
        for k, v in list(c.items()):
            if k in ('no', 'fail') or type(v) is not int:
                return '%r: %r in a vetted dictionary' % (k, v)
    else:
        for k in list(c):
            if k not in o['keys']:
                return 'key %r in a dictionary of %r' % (k, o['keys'])
    return None


def run(case, ctx):
    if case['threaded']:
        return threads(case, ctx)
    r = W.Runner(ctx, case['sched'], case['opcode'])
    w = World(ctx, r.sched)
    w.premake(case)
    real = [w.build(o) for o in case['objs']]
    plain = [dict(c) if hasattr(c, 'keys') else list(c) for c in real]
    ops = []
    for k, op in enumerate(case['tasks'][0]):
        fault = None
        if op.get('fault'):
            # counted on a copy of what stands there now: the collections
            # are small, any point will do
            fault = (1 + int(op['fault']['frac'] * 12), op['fault']['exc'])
        ops.append((op['m'], k, lambda op=op, fault=fault: step(
            ctx, w, case['objs'], real, plain, op, fault)))
    r.add('a', ops)
    for h in r.run():
        if h.out is None:
            continue
        ctx.ev(h.kind, h.out[1])


def step(ctx, w, objs, real, plain, op, fault):
    """One change, made on the real collection and on the plain one."""
    k = op['obj']
    o, c, base = objs[k], real[k], plain[k]
    lists = o['kind'] in ('typed', 'uniq')
    before = list(base) if lists else dict(base)
    seen = []
    s = w.sched
    t = s.task()
    s.begin_op(t, t.op, fault)
    if lists:
        out = W.attempt(lambda: real_list(w, o, c, op, seen))
    else:
        out = W.attempt(lambda: real_dict(w, o, c, op))
    # the judge is not a target of injections
    fired = fault is not None and t.armed is None
    t.armed = None
    if fired:
        ctx.fault('inject ' + fault[1])
    if out[0] == 'ok':
        c = real[k] = out[1]
    try:
        after = model_list(w, o, base, op, seen) if lists else \
            model_dict(w, o, base, op)
        bad = None
    except Exception as e:
        after, bad = base, type(e).__name__
    except BaseException as e:
        after, bad = base, type(e).__name__
    what = '%s of %s %r' % (op['m'], o['kind'], {
        x: y for x, y in op.items() if x not in ('obj', 'm')})
    if o.get('touchy') and not bad and out[:2] == ('exc', 'ValueError') and \
            ids(c) == ids(before):
        # compared an item that fails with itself: also a failed change
        after, bad = base, 'ValueError'
    x = rule(w, o, c)
    if x:
        ctx.viol('rule', '%s after %s' % (x, what))
    elif fired:
        if out[0] == 'ok' and bad:
            ctx.viol('accepted', '%s returned under an injected %s' % (
                what, fault[1]))
        if lists and op['m'] != 'sort' and not seen and \
                ids(c) not in (ids(before), ids(after)) and \
                op['m'] != 'deepcopy':
            ctx.viol('half done', '%s with %s left %r, before %r' % (
                what, fault[1], list(c), before))
        if not lists and op['m'] not in ('update', 'clear', 'ior',
                                         'popitem') and \
                dict(c) not in (before, after):
            ctx.viol('half done', '%s with %s left %r, before %r' % (
                what, fault[1], dict(c), before))
    elif (out[0] == 'ok') != (bad is None):
        ctx.viol('outcome', '%s gave %r, expected %s' % (
            what, out[:2], bad or 'no error'))
    elif bad == 'Refused' and o['kind'] == 'typed' and \
            out[1] != 'TypeError' and not seen and \
            op['m'] not in ('setitem', 'setslice'):
        ctx.viol('error', '%s raised %s' % (what, out[1]))
    elif bad == 'Refused' and o['kind'] == 'fixed' and out[1] != 'KeyError':
        ctx.viol('error', '%s raised %s' % (what, out[1]))
    elif lists:
        if op['m'] == 'deepcopy':
            ok = [tag(i) for i in c] == [tag(i) for i in before] and \
                type(c) is type(real[k])
        elif seen:
            want = uniq(base, seen) if o['kind'] == 'uniq' else base + seen
            vals = [w.elem(v) for v in op['src']['vals']] if not bad else []
            if op['m'] == 'new' and not bad:
                want = vals
                ok = None
            elif op['m'] == 'setslice':
                ok = None       # the slice moves under the change
            else:
                want = uniq(want, vals) if o['kind'] == 'uniq' else \
                    want + vals
                ok = sorted(ids(c)) in (sorted(ids(want)),
                                        sorted(ids(before)))
        else:
            ok = ids(c) == ids(after)
        if ok is False:
            ctx.viol('content', '%s of %r left %r, as a list %r' % (
                what, before, list(c), after))
    else:
        if bad and o['kind'] == 'vetted' and op['m'] == 'update':
            d = dict(before)
            okays = [dict(d)]
            for key, v in pairs_of(w, op):
                if type(v) is int and key not in ('no', 'fail'):
                    d[key] = v
                okays.append(dict(d))
            ok = dict(c) in okays
        elif op['m'] == 'popitem' and not bad:
            ok = len(c) == len(before) - 1 and all(
                before.get(x) is y for x, y in dict(c).items())
        else:
            ok = dict(c) == after
        if not ok:
            ctx.viol('content', '%s of %r left %r, as a dict %r' % (
                what, before, dict(c), after))
        for key in KEYS + ('no', 'z', 'y'):
            d = dict(c.items())
            if (key in c) != (key in d) or c.get(key) is not d.get(key) or \
                    c.get(key, 7) is not d.get(key, 7) or \
                    len(c) != len(d):
                ctx.viol('reading', 'after %s, %r is %r in %r' % (
                    what, key, c.get(key), d))
                break
    if o['kind'] == 'typed' and c.elementType != w.types[o['type']]:
        ctx.viol('type', 'type %r after %s' % (c.elementType, what))
    if lists and type(c) not in (w.U.TypedList, w.U.UniqList):
        ctx.viol('type', '%s gave a %s' % (what, type(c).__name__))
    plain[k] = list(c) if lists else dict(c)
    if out[0] == 'ok':
        ctx.probe('changed' if not bad else 'refused')
        return 'ok'
    ctx.probe('refused')
    return out[1]


def threads(case, ctx):
    """The rule at every moment; nothing lost, nothing added twice."""
    r = W.Runner(ctx, case['sched'], case['opcode'])
    w = World(ctx, r.sched)
    w.premake(case)
    o = case['objs'][0]
    c = w.build(o)
    lists = o['kind'] == 'typed'
    start = list(c) if lists else {}
    extra = []

    def act(op):
        def go():
            if lists:
                if real_list(w, o, c, op, extra) is not c:
                    raise AssertionError('another list')
            else:
                real_dict(w, o, c, op)
            x = rule(w, o, c)
            if x:
                ctx.viol('rule', '%s after %r' % (x, op))
            return True
        return go
    for i, t in enumerate(case['tasks']):
        r.add('t%d' % i, [(op['m'], (i, k), act(op))
                          for k, op in enumerate(t)])
    hist = r.run()
    added = list(start)
    written = {}
    for h in hist:
        if h.out is None:
            return
        op = case['tasks'][h.arg[0]][h.arg[1]]
        ctx.ev(h.kind, h.arg, h.out[1])
        try:
            if lists:
                new = model_list(w, o, [], op, [])
            else:
                new = model_dict(w, o, {}, op)
            bad = False
        except BaseException:
            new, bad = [], True
        if (h.out[0] == 'ok') == bad and not (
                lists and op.get('src', {}).get('inner')):
            ctx.viol('outcome', '%r gave %r beside others, alone %s' % (
                op, h.out, 'an error' if bad else 'no error'))
            return
        if h.out[0] != 'ok':
            if not lists and op['m'] == 'update':
                for k, v in pairs_of(w, op):
                    written.setdefault(k, []).append(v)
            continue
        if lists:
            added += new
        else:
            for k, v in new.items():
                written.setdefault(k, []).append(v)
                if k not in c:
                    ctx.viol('lost', 'key %r is gone' % k)
    x = rule(w, o, c)
    if x:
        ctx.viol('rule', x)
    if lists:
        if sorted(ids(c)) != sorted(ids(added + extra)):
            ctx.viol('content', 'holds %r, added were %r' % (
                list(c), added + extra))
    else:
        for k, v in c.items():
            if not any(v is y for y in written.get(k, ())):
                ctx.viol('content', '%r: %r was never written' % (k, v))
    ctx.probe('threads')
