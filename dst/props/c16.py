"""The process before and after histories of library calls."""
import gc
import builtins
import io
import os
import shutil
import sys
import tempfile

from dst import acts, docs, gen as G, world as W, procstate as P
from dst import common as C
from dst.props import c14

QUICK = 230
RULE = ('An application with settings of its own (a random part of '
        'them different from the defaults) runs 1-3 threads of loads, evaluations, XML conversions '
        'and module loads, part of them failing: damaged documents, stream, '
        'network, attribute source and import failures, exceptions injected '
        'at any point.')
ORACLE = ('a snapshot of the process state before and after (search path, '
          'modules, environment, directory, umask, namespace registry, '
          'logging, URL opener, time-outs, limits, gc, signals, warnings, '
          'random state, hooks, locale, open files); every stream')
EXCS = ('MemoryError', 'OSError', 'RecursionError', 'SimCancel',
        'KeyboardInterrupt')
MODS = ('ok', 'ok', 'raise', 'exit', 'interrupt', 'syntax', 'missing',
        'noclass', 'wrongtype', 'nodir', 'ctor', 'nested', 'already',
        'nestedraise')


def gen(rng, tier):
    w, g = acts.gen_world(rng)
    npdp = rng.randint(1, len(w['policies']))
    nt = rng.choice((1, 1, 1, 2, 2, 3))
    xml = [G.to_xml(p).encode() for p in w['policies']]
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice((2, 3, 4))):
            if rng.random() < 0.3:
                ops.append({'op': 'module', 'what': rng.choice(MODS),
                            'dir': rng.randrange(2),
                            'wait': rng.random() < 0.5,
                            'fn': rng.random() < 0.5})
                continue
            if rng.random() < 0.25:
                op = {'op': 'read', 'form': c14.form(rng),
                      'request': c14.dress(rng, g.request())}
                if rng.random() < 0.4:
                    op['damage'] = docs.damage(rng, c14.document(
                        op['request'], op['form']), xml[0])
                if rng.random() < 0.3:
                    op['f'] = {'inject': C.injected(rng, EXCS)}
                ops.append(op)
                continue
            op = acts.gen_op(rng, w, npdp)
            if op['op'] == 'load':
                op['via'] = rng.choice(('stream', 'stream', 'elem', 'path',
                                        'file', 'str'))
                if rng.random() < 0.35:
                    op['damage'] = docs.damage(
                        rng, xml[op['doc']], xml[rng.randrange(len(xml))])
            if rng.random() < 0.5:
                op['f'] = acts.gen_fault(rng, w, op, EXCS)
                if op['f'].get('stream'):
                    op['via'] = 'stream'
            ops.append(op)
        tasks.append(ops)
    return {'world': w, 'npdp': npdp, 'tasks': tasks,
            'plain': [x for x in P.SETTINGS if rng.random() < 0.4],
            'sched': W.sched_spec(rng, nt, 1500),
            'opcode': C.opcode(rng, 0.1, True, nt)}


MODULE = {
    'ok': 'class K(object):\n    def __init__(self, *a, **k): pass\n',
    'already': 'class K(object):\n    def __init__(self, *a, **k): pass\n',
    'wrongtype': 'class K(object):\n    def __init__(self, *a, **k): pass\n',
    'noclass': 'X = 1\n',
    'raise': 'raise RuntimeError("module broken")\n',
    'exit': 'raise SystemExit(3)\n',
    'interrupt': 'raise KeyboardInterrupt()\n',
    'syntax': 'class K(:\n',
    'ctor': 'class K(object):\n    def __init__(self, *a, **k):\n'
            '        raise ValueError("no")\n',
    'nested': 'from ndg.xacml.utils.factory import callModuleObject\n'
              'class K(object):\n    def __init__(self, *a, **k): pass\n'
              'N = callModuleObject("%(name)s_in:K", '
              'moduleFilePath=%(other)r)\n',
    'nestedraise': 'from ndg.xacml.utils.factory import callModuleObject\n'
              'class K(object):\n    def __init__(self, *a, **k): pass\n'
              'N = callModuleObject("%(name)s_not:K", '
              'moduleFilePath=%(other)r)\n',
}


class Modules(object):
    """Modules of the application outside the search path."""

    def __init__(self, scratch):
        self.dirs = [os.path.join(scratch, d) for d in ('m0', 'm1')]
        for d in self.dirs:
            os.mkdir(d)
        self.n = 0

    def call(self, op, sched):
        from ndg.xacml.utils.factory import callModuleObject
        self.n += 1
        name = 'dstmod_%d' % self.n
        d, other = self.dirs[op['dir']], self.dirs[1 - op['dir']]
        what = op['what']
        pre = ''
        if op['wait']:
            pre = ('import sys\n'
                   'sys.modules["dst.world"].module_yield()\n')
        if what in MODULE:
            with open(os.path.join(d, name + '.py'), 'w') as fh:
                fh.write(pre + MODULE[what] % {'name': name, 'other': other}
                         if '%(' in MODULE[what] else pre + MODULE[what])
            if what == 'nested':
                with open(os.path.join(other, name + '_in.py'), 'w') as fh:
                    fh.write(MODULE['ok'])
        if what == 'nodir':
            d = d + '-missing'
        kw = {'moduleFilePath': d}
        if what == 'wrongtype':
            kw['objectType'] = int
        if op['fn']:
            kw['objectProperties'] = {'a': 1}
        # the search path may name the directory already
        return lambda: type(callModuleObject(name + ':K', **kw)).__name__


def module_yield():
    from dst import sched
    s = sched.CURRENT
    if s is not None:
        s.external('module')


W.module_yield = module_yield


def run(case, ctx):
    scratch = tempfile.mkdtemp(prefix='dsts-',
                               dir=os.environ.get('DST_TMP') or None)
    home = os.getcwd()
    try:
        os.mkdir(os.path.join(scratch, 'cwd'))
        body(case, ctx, scratch)
    finally:
        builtins.open = REAL_OPEN
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)


REAL_OPEN = builtins.open


def body(case, ctx, scratch):
    a = acts.Acts(case['world'], ctx, case['npdp'])
    m = a.m
    P.arm(os.path.join(scratch, 'cwd'), case['plain'])
    opened = []

    def open_(*x, **k):
        f = REAL_OPEN(*x, **k)
        opened.append(f)
        return f

    mods = Modules(scratch)
    if any(o.get('what') == 'already' for t in case['tasks'] for o in t):
        sys.path.insert(1, mods.dirs[0])    # as the application set it
        sys.path.append(mods.dirs[1])
    r = W.Runner(ctx, case['sched'], opcode=case['opcode'],
                 step_cap=800000)
    given = []          # (source handed to the library, op)
    keep = []
    for t, ops in enumerate(case['tasks']):
        lst = []
        for k, op in enumerate(ops):
            f = op.get('f')
            if op['op'] == 'module':
                lst.append(('module', k, mods.call(op, r.sched)))
                continue
            fault = None
            if f and f.get('inject'):
                d = dict(op)
                if d['op'] == 'load' and d['via'] in ('file', 'str'):
                    d['via'] = 'stream'
                fault = C.resolve(f['inject'], W.dry_points(
                    op_call(a, d, f, None, None, m, [], scratch),
                    case['opcode']))
            fn = op_call(a, op, f, r.sched, ctx, m, given, scratch)
            lst.append((op['op'], k, fn, fault))
        r.add('t%d' % t, lst)
    a.net.sched = r.sched
    builtins.open = open_
    gc.collect()
    before = P.snap(m.ET)
    hist = r.run()
    gc.collect()
    after = P.snap(m.ET)
    builtins.open = REAL_OPEN
    a.net.sched = None
    failed = set()
    for h in hist:
        if h.out is None:
            continue
        op = case['tasks'][h.task][h.arg]
        ctx.ev(h.task, h.arg, h.kind, h.out[0] if h.kind == 'xml'
               else h.out[:2])
        ctx.probe('%s %s' % (h.kind, 'returned' if h.out[0] == 'ok'
                             else 'failed'))
        if h.out[0] != 'ok':
            failed.add((h.task, h.arg))
    diff = P.differences(before, after)
    for x in keep:
        x.close()
    if diff:
        ctx.viol('process state', '; '.join(diff))
        return
    hurt = any(placed_near_open(w) for w in ctx.placed)
    for s in a.net.streams:
        if not s.closed:
            if hurt or ctx.placed and not s.reads:
                ctx.probe('stream not judged')
            else:
                ctx.viol('stream open', 'the fetched document %s was not '
                         'closed' % s.url)
                return
    for f in opened:
        if not f.closed and not ctx.placed:
            ctx.viol('file open', 'file %r opened during the calls was not '
                     'closed' % (f.name,))
            return
    for s, op in given:
        if s.closed:
            ctx.viol('stream closed', 'the stream of %r was closed for its '
                     'owner' % (op,))
            return
    a.close()


def placed_near_open(where):
    """An exception injected where a document is opened or closed leaves no
    promise about that document."""
    return 'finder/' in where or 'urlfetcher' in where


def reading(op, m):
    from ndg.xacml.parsers.etree import context as X
    from ndg.xacml.utils.etree import prettyPrint
    data = docs.apply(op.get('damage'), c14.document(
        op['request'], op['form']), b'')

    def go():
        q = X.RequestElementTree.fromXML(m.ET.fromstring(data))
        e = X.RequestElementTree.toXML(q)
        prettyPrint(e)
        return 'ok'
    return go


def op_call(a, op, f, sched, ctx, m, given, scratch):
    """Like Acts.call, with damaged documents, more kinds of sources, and
    the sources recorded."""
    if op['op'] == 'read':
        return reading(op, m)
    if op['op'] != 'load':
        return a.call(op, f, sched, ctx)
    data = docs.apply(op.get('damage'), a.xml[op['doc']],
                      a.xml[0]) if op.get('damage') else a.xml[op['doc']]
    if op.get('damage') and ctx is not None:
        ctx.fault('document ' + op['damage']['kind'])
    req = a.request(op['q'], f, sched, ctx)
    net = a.docs(f if f and (f.get('net') or f.get('netstream')) else None)
    via = op['via']
    if via in ('path', 'file'):
        if a.files is None:
            a.files = docs.Files()
        path = a.files.write(data)
        if via == 'file':
            src = REAL_OPEN(path, 'rb')
            given.append((src, op))
        else:
            src = path
    elif via == 'elem' and docs.raw_ok(data):
        src = m.ET.parse(io.BytesIO(data)).getroot()
    elif via == 'str':
        src = data.decode('utf-8', 'replace')
    else:
        src = W.SimStream(data, (f or {}).get('stream') or op['stream'], ctx,
                          sched)
        given.append((src, op))

    def load():
        a.net.docs = net
        try:
            pdp = m.PDP.fromPolicySource(src, m.ReaderFactory, a.finder())
        finally:
            a.quiet()
        return W.decide(pdp, req.obj)
    return load
