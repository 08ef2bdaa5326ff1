"""The same operations with logging off and with logging in trouble."""
import errno
import json
import logging
import random
import sys

from dst import acts, docs, gen as G, world as W
from dst import common as C
from dst.core import fork_eval

QUICK = 240
RULE = ('1-3 threads load (also damaged or unresolvable documents), evaluate '
        '(also with failing attribute sources) and convert while loggers of '
        'the library and above have various levels and handlers whose '
        'streams fail, fill up, stall, close or write short; seeded '
        'scheduler.')
ORACLE = ('the same operation with logging switched off in a forked copy of '
          'the process: its result, its attribute source queries and its '
          'fetches')
LEVELS = (logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING,
          logging.ERROR, logging.CRITICAL, 1)
LOGGERS = ('', 'ndg', 'ndg.xacml', 'ndg.xacml.core', 'ndg.xacml.core.rule',
           'ndg.xacml.core.policybase', 'ndg.xacml.core.match',
           'ndg.xacml.core.functions', 'ndg.xacml.core.attributedesignator',
           'ndg.xacml.parsers', 'ndg.xacml.finder', 'ndg.xacml.utils',
           'ndg.xacml.core.apply', 'ndg.xacml.utils.urlfetcher')
TROUBLE = ('none', 'none', 'error', 'full', 'closed', 'slow', 'slow',
           'flaky', 'flush', 'memory', 'encode', 'timeout')


def gen(rng, tier):
    o = None
    if rng.random() < 0.45:
        o = G.Opts(rng, errors=True, custom=True)
    w, g = acts.gen_world(rng, o, open_ended=0.6 if o else 0.1)
    npdp = rng.randint(1, len(w['policies']))
    xml = [G.to_xml(p).encode() for p in w['policies']]
    nt = rng.choice((1, 1, 2, 2, 3))
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((2, 3, 4))):
            op = acts.gen_op(rng, w, npdp)
            x = rng.random()
            if op['op'] == 'load' and x < 0.3:
                op['damage'] = docs.damage(rng, xml[op['doc']], xml[0])
                op['via'] = 'stream'
            elif op['op'] != 'xml' and x < 0.4 and w['requests'][
                    op['q']].get('pip'):
                op['f'] = {'nth': [rng.choice((1, 1, 2)),
                                   rng.choice(G.PIP_FAULTS)]}
            elif op['op'] == 'load' and x < 0.5 and nt == 1:
                op['f'] = {'net': rng.choice(W.NET_FAULTS)}
            ops.append(op)
        tasks.append(ops)
    conf = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        c = {'logger': rng.choice(LOGGERS[:4] if rng.random() < 0.7
                                  else LOGGERS),
             'level': rng.choice(LEVELS)}
        if rng.random() < 0.85:
            c['handler'] = rng.choice(TROUBLE)
            c['hlevel'] = rng.choice((0, 0, logging.INFO, logging.ERROR))
            c['seed'] = rng.getrandbits(30)
            c['format'] = rng.choice((
                None, '%(asctime)s %(name)s %(levelname)s %(message)s',
                '%(threadName)s %(funcName)s %(lineno)d %(message)s'))
        if rng.random() < 0.15:
            c['propagate'] = False
        conf.append(c)
    return {'world': w, 'npdp': npdp, 'tasks': tasks, 'conf': conf,
            'applog': rng.random() < 0.3,
            'disable': rng.choice((0, 0, 0, 0, logging.INFO)),
            'raise': rng.random() < 0.5,
            'stderr': rng.choice(('keep', 'none', 'broken')),
            'sched': W.sched_spec(rng, nt, 1500),
            'opcode': rng.random() < 0.1}


class LogStream(object):
    """What a standard stream handler writes to."""
    encoding = 'utf-8'

    def __init__(self, spec, ctx, sched):
        self.kind = spec['handler']
        self.rng = random.Random(spec['seed'])
        self.ctx = ctx
        self.sched = sched
        self.n = 0
        self.busy = False

    def write(self, text):
        self.n += 1
        s = self.sched[0]
        if s is not None and s.task() is not None:
            s.external('log')
            if self.kind == 'slow':
                s.sleep(self.rng.choice((1e-4, 0.1, 5.0)))
        k = self.kind
        if k == 'flaky':
            k = self.rng.choice(('none', 'none', 'error', 'full'))
        if k in ('none', 'slow', 'flush'):
            return len(text)
        self.ctx.fault('log ' + k)
        if k == 'error':
            raise OSError(errno.EIO, 'simulated')
        if k == 'full':
            raise OSError(errno.ENOSPC, 'simulated')
        if k == 'closed':
            raise ValueError('I/O operation on closed file.')
        if k == 'memory':
            raise MemoryError('simulated')
        if k == 'timeout':
            raise TimeoutError('simulated')
        raise UnicodeEncodeError('ascii', 'x\xe9', 1, 2, 'simulated')

    def flush(self):
        if self.kind == 'flush':
            self.ctx.fault('log flush')
            raise OSError(errno.EPIPE, 'simulated')


class Broken(object):
    def write(self, text):
        raise OSError(errno.EIO, 'simulated')

    def flush(self):
        raise OSError(errno.EIO, 'simulated')


def configure(case, ctx, sched):
    logging.raiseExceptions = case['raise']
    if case['stderr'] == 'none':
        sys.stderr = None
    elif case['stderr'] == 'broken':
        sys.stderr = Broken()
    streams = []
    for c in case['conf']:
        lg = logging.getLogger(c['logger'])
        lg.setLevel(c['level'])
        if 'propagate' in c and c['logger']:
            lg.propagate = False
        if c.get('handler'):
            s = LogStream(c, ctx, sched)
            streams.append(s)
            h = logging.StreamHandler(s)
            h.setLevel(c['hlevel'])
            if c['format']:
                h.setFormatter(logging.Formatter(c['format']))
            lg.addHandler(h)
    logging.disable(case['disable'])
    return streams


def run(case, ctx):
    a = acts.Acts(case['world'], ctx, case['npdp'])
    try:
        body(case, ctx, a)
    finally:
        a.close()


def parts(o, out):
    """A policy and the objects in it an application may log."""
    out.append(o)
    for n in ('target', 'condition', 'expression', 'rules', 'policies',
              'subjects', 'resources', 'actions', 'environments', 'matches',
              'expressions', 'attributeDesignator', 'attributeValue'):
        v = getattr(o, n, None)
        if v is not None and not callable(v):
            for x in (v if hasattr(v, '__iter__') else (v,)):
                parts(x, out)
    return out


def applogged(a, op, fn, req):
    lg = logging.getLogger('application')

    def call():
        if req is not None:
            lg.critical('%r %s', req, req)
        if op['op'] == 'eval':
            for x in parts(a.pdps[op['pdp']].policy, []):
                lg.critical('%r %s', x, x)
        return fn()
    return call


def prepare(a, op, sched, ctx, streams):
    fn, pip, req = prepare1(a, op, sched, ctx, streams)
    if sched is not None and a.applog:
        fn = applogged(a, op, fn, req)
    return fn, pip


def prepare1(a, op, sched, ctx, streams):
    """(call, attribute source or None, request or None)"""
    if op.get('damage'):
        data = docs.apply(op['damage'], a.xml[op['doc']], a.xml[0])
        req = a.request(op['q'], op.get('f'), sched, ctx)

        def load():
            s = W.SimStream(data, op['stream'], ctx, sched)
            return W.decide(a.m.PDP.fromPolicySource(
                s, a.m.ReaderFactory, a.finder()), req.obj)
        return load, req.pip, req.obj
    fn = a.call(op, op.get('f'), sched, ctx)
    if op['op'] == 'xml':
        return fn, None, None
    return fn, a.last.pip, a.last.obj


def body(case, ctx, a):
    a.applog = case.get('applog')
    want = []
    for ops in case['tasks']:
        lst = []
        for op in ops:
            def go(op=op):
                logging.disable(logging.CRITICAL + 10)
                fn, pip = prepare(a, op, None, None, None)
                del a.net.log[:]
                out = W.attempt(fn)
                return [out, pip.log if pip is not None else [], a.net.log]
            a.net.sched = None
            lst.append(fork_eval(go))
        want.append(lst)
    sched = [None]
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=1500000)
    streams = configure(case, ctx, sched)
    pips = {}
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            fn, pip = prepare(a, op, r.sched, ctx, streams)
            pips[t, k] = pip
            lst.append((op['op'], k, fn))
        r.add('t%d' % t, lst)
    a.net.sched = r.sched
    sched[0] = r.sched
    del a.net.log[:]
    hist = r.run()
    sched[0] = None
    a.net.sched = None
    fetched = []
    for h in hist:
        if h.out is None or h.out[1] == 'StepCap':
            return
        op = case['tasks'][h.task][h.arg]
        out, log, net = want[h.task][h.arg]
        fetched += net
        ctx.ev(h.task, h.arg, h.kind, h.out[:2] if h.kind != 'xml'
               else h.out[0])
        if not acts.same(h.out, out):
            ctx.viol('result', '%r gave %.300r with logging, %.300r without'
                     % (op, h.out, out))
            return
        p = pips[h.task, h.arg]
        if p is not None and json.loads(json.dumps(p.log)) != log:
            ctx.viol('queries', '%r asked %r with logging, %r without' % (
                op, p.log, log))
            return
        if p is not None and p.spoiled():
            ctx.viol('answers', 'answers of the source were changed: %r' %
                     p.spoiled())
            return
    if sorted(fetched) != sorted(a.net.log):
        ctx.viol('fetches', 'fetched %r with logging, %r without' % (
            a.net.log, fetched))
        return
    ctx.probe('log writes', sum(s.n for s in streams))
