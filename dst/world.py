"""The simulated environment around the real library: attribute sources,
streams, the network, log sinks, imports; and builders that turn a case's
data into the library's own objects."""
import io
import os
import ssl
import sys
import random
import logging
import types

from . import gen
from . import model
from . import sched as S

_M = None
WARM_XML = None


def mods():
    """The public API under test (imported on first use)."""
    global _M
    if _M is not None:
        return _M
    m = types.SimpleNamespace()
    from ndg.xacml import Config
    import ndg.xacml
    from ndg.xacml.core.context.pdp import PDP
    from ndg.xacml.core.context.request import Request
    from ndg.xacml.core.context.subject import Subject
    from ndg.xacml.core.context.resource import Resource
    from ndg.xacml.core.context.action import Action
    from ndg.xacml.core.context.environment import Environment
    from ndg.xacml.core.context.handler import CtxHandlerBase
    from ndg.xacml.core.context.response import Response
    from ndg.xacml.core.context import result
    from ndg.xacml.core.context.exceptions import XacmlContextError
    from ndg.xacml.core.attribute import Attribute
    from ndg.xacml.core.attributevalue import (AttributeValue,
                                               AttributeValueClassFactory)
    from ndg.xacml.core.policybase import PolicyBase
    from ndg.xacml.core.policy import Policy
    from ndg.xacml.core.policyset import PolicySet
    from ndg.xacml.parsers import XMLParseError
    from ndg.xacml.parsers.etree.factory import ReaderFactory
    from ndg.xacml.finder.policyfinderbase import PolicyFinderBase
    from ndg.xacml.finder.localpolicyfinder import LocalPolicyFinder
    from ndg.xacml.finder.urlpolicyfinder import UrlPolicyFinder
    from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
    from ndg.xacml.utils import TypedList
    from ndg.xacml.utils.xpath_selector import EtreeXPathSelector
    from ndg.xacml import importElementTree
    from ndg.xacml.core.functions import functionMap
    import ndg.xacml.core.functions as functions
    if not os.path.abspath(ndg.xacml.__file__).startswith(
            S.SCOPE_PREFIX):
        raise RuntimeError('wrong ndg: %s' % ndg.xacml.__file__)
    for k, v in list(locals().items()):
        if k != 'm':
            setattr(m, k, v)
    m.ET = importElementTree()
    _M = m
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    return m


def warm():
    """Load every lazily imported part, as a long-running process has."""
    m = mods()
    import ndg.xacml.parsers.etree.context
    rng = random.Random(1)
    for i in range(60):
        o = gen.Opts(rng, custom=False, errors=False, selectors=True,
                     conditions=True,
                     regex=True, pip=False)
        g = gen.Gen(rng, o)
        n = g.any_policy()
        pdp = load_bytes(gen.to_xml(n).encode())
        for _ in range(2):
            pdp.evaluate(Req(g.request(), None).obj)


def register_app():
    """The functions of the application (gen.fn_app)."""
    from ndg.xacml.core.functions import functionMap, AbstractFunction

    def make(identifier):
        dt, _ = model.fn_type(identifier)
        touchy = gen.TOUCHY[dt] if 'touchy' in identifier else None

        class AppFunction(AbstractFunction):
            FUNCTION_NS = identifier

            def evaluate(self, a, b):
                s = S.CURRENT
                if s is not None and s.task() is not None:
                    s.external('app function')
                for x in (a, b):
                    if getattr(x, 'dataType', None) != dt:
                        raise TypeError(x)
                    if touchy is not None and x.value == touchy:
                        raise TOUCHED[dt]('simulated')
                return a.value == b.value
        return AppFunction
    for dt in gen.SHORT:
        for t in (False, True):
            functionMap.load_custom_function(gen.fn_app(dt, t), make)


TOUCHED = {gen.STR: KeyError, gen.URI: ValueError, gen.MAIL: StopIteration,
           gen.X500: MemoryError, gen.IP: OSError, gen.DNS: TypeError}


def load_bytes(data, finder=None):
    m = mods()
    return m.PDP.fromPolicySource(io.BytesIO(data), m.ReaderFactory,
                                  finder or m.LocalPolicyFinder())


# -- the attribute source -------------------------------------------------
class SourceDown(Exception):
    pass


class QueryFlood(BaseException):
    """More queries than any correct evaluation can need."""


_EXC = {'Exception': Exception, 'OSError': OSError,
        'TimeoutError': TimeoutError, 'KeyError': KeyError,
        'TypeError': TypeError, 'AttributeError': AttributeError,
        'ValueError': ValueError, 'RuntimeError': RuntimeError,
        'StopIteration': StopIteration, 'MemoryError': MemoryError,
        'SourceDown': SourceDown, 'IndexError': IndexError,
        'ImportError': ImportError, 'AssertionError': AssertionError,
        'UnicodeDecodeError': None, 'SimCancel': S.SimCancel,
        'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit,
        'GeneratorExit': GeneratorExit, 'LookupError': LookupError}


def make_exc(name):
    if name == 'XacmlContextError':
        m = mods()
        e = m.XacmlContextError('simulated')
        return e
    if name == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'simulated')
    return _EXC[name]('simulated failure')


def _val(dt, v):
    m = mods()
    return m.AttributeValueClassFactory()(dt)(value=v)


def _bag(dt, vals):
    m = mods()
    b = m.TypedList(m.AttributeValueClassFactory()(dt))
    b.extend(vals)
    return b


class Once(object):
    """An iterable without a length, e.g. a result set."""

    def __init__(self, vals):
        self.vals = vals

    def __iter__(self):
        vals, self.vals = self.vals, None
        return iter(vals)


def pip_class():
    m = mods()
    if hasattr(m, 'SimPIP'):
        return m.SimPIP

    class SimPIP(m.CtxHandlerBase):
        """Attribute source with scripted answers, delays and failures."""

        def __init__(self, spec, ctx, sched=None, name='', cap=100000):
            super(SimPIP, self).__init__()
            self.spec = spec
            self.ctx = ctx
            self.sched = sched
            self.name = name
            self.n = 0
            self.log = []
            self.cap = cap
            self.hook = None
            self.kept = {}
            self.failed = []
            self.table = spec['table']
            self.rng = random.Random(spec.get('seed', 0))

        def handlePEPRequest(self, pepRequest):
            raise NotImplementedError()

        def pipQuery(self, request, designator):
            self.n += 1
            if self.n > self.cap:
                raise QueryFlood('%d queries' % self.n)
            sp = self.spec
            s = self.sched
            a, dt = designator.attributeId, designator.dataType
            self.log.append((a, dt, designator.issuer))
            if s is not None:
                s.external('pip')
                if sp.get('delay'):
                    s.sleep(sp['delay'])
                if sp.get('jitter'):
                    s.sleep(self.rng.random() * sp['jitter'])
            if self.hook is not None:
                self.hook(self, request, designator)
            f = sp['faults'].get(a)
            if sp.get('nth') and sp['nth'][0] == self.n:
                f = sp['nth'][1]
            if f:
                self.failed.append(f)
                if self.ctx is not None:
                    self.ctx.fault('source ' + f)
                return self.fail(f, dt)
            vals = self.table.get(a)
            if vals is None or dict(gen.UNIVERSE['S']).get(a, dt) != dt:
                return sp.get('none', None)
            shape = sp.get('shape', 'list')
            if shape in ('same', 'samebag'):
                # a source that keeps its answer and hands it out each time
                k = (a, dt, tuple(vals))
                if k not in self.kept:
                    self.kept[k] = [_val(dt, v) for v in vals]
                    if shape == 'samebag':
                        self.kept[k] = _bag(dt, self.kept[k])
                return self.kept[k]
            out = [_val(dt, v) for v in vals]
            if shape == 'tuple':
                return tuple(out)
            if shape == 'gen':
                return (x for x in out)
            if shape == 'iter':
                return iter(out)
            if shape == 'bag':
                return _bag(dt, out)
            if shape == 'dict':
                return {i: v for i, v in enumerate(out)}.values()
            if shape == 'once':
                return Once(out)
            return out

        def spoiled(self):
            """Kept answers that somebody changed."""
            return [k for k, v in self.kept.items()
                    if [(x.dataType, x.value) for x in v] !=
                    [(k[1], y) for y in k[2]]]

        def fail(self, f, dt):
            if f.startswith('raise:'):
                raise make_exc(f[6:])
            if f == 'wrong:int':
                return 17
            if f == 'wrong:str-items':
                return ['x', 'y']
            if f == 'wrong:none-items':
                return [None]
            if f == 'wrong:type-items':
                return [_val(gen.MAIL if dt != gen.MAIL else gen.STR, 'w')]
            if f.startswith('gen-raise'):
                def g():
                    raise (make_exc(f[10:]) if f[10:]
                           else SourceDown('mid-iteration'))
                    yield
                return g()
            raise RuntimeError(f)
    m.SimPIP = SimPIP
    return SimPIP


class Req(object):
    """A library Request built from a request spec."""

    def __init__(self, spec, ctx, sched=None, name='', pip=True):
        m = mods()
        self.spec = spec
        r = m.Request()
        for s in spec['subjects']:
            r.subjects.append(self._fill(m.Subject(), s))
        for s in spec['resources']:
            r.resources.append(self._fill(m.Resource(), s))
        if spec['action'] is not None:
            r.action = self._fill(m.Action(), spec['action'])
        if spec['env'] is not None:
            r.environment = self._fill(m.Environment(), spec['env'])
        if spec.get('content') is not None:
            root = m.ET.Element('ctx')
            for k in sorted(spec['content']):
                for v in spec['content'][k]:
                    e = m.ET.SubElement(root, k)
                    e.text = v
            r.attributeSelector = m.EtreeXPathSelector(root)
        self.pip = None
        if pip and spec.get('pip') is not None:
            self.pip = pip_class()(spec['pip'], ctx, sched, name)
            r.ctxHandler = self.pip
        self.obj = r

    @staticmethod
    def _fill(holder, attrs):
        m = mods()
        for a in attrs:
            holder.attributes.append(make_attr(a))
        return holder


def make_attr(a):
    m = mods()
    x = m.Attribute()
    x.attributeId = a['id']
    x.dataType = a['dt']
    if a.get('iss') is not None:
        x.issuer = a['iss']
    for v in a['vals']:
        x.attributeValues.append(_val(a['dt'], v))
    return x


def snapshot(req):
    """Observable content of a Request."""
    def attrs(h):
        return [[a.attributeId, a.dataType, a.issuer,
                 [[type(v).__name__, v.dataType, v.value]
                  for v in a.attributeValues]] for a in h.attributes]
    return [[attrs(s) for s in req.subjects],
            [attrs(s) for s in req.resources],
            None if req.action is None else attrs(req.action),
            None if req.environment is None else attrs(req.environment)]


DECISIONS = ('Permit', 'Deny', 'Indeterminate', 'NotApplicable')


class BadResponse(Exception):
    pass


def verdict(resp):
    """Decision string of a well-formed response, else BadResponse."""
    m = mods()
    if not isinstance(resp, m.Response):
        raise BadResponse('not a Response: %r' % (type(resp),))
    n = len(resp.results)
    if n != 1:
        raise BadResponse('%d results' % n)
    r = resp.results[0]
    d = r.decision
    v = getattr(d, 'value', None)
    if not isinstance(v, str) or v not in DECISIONS:
        raise BadResponse('decision %r' % (v,))
    return str(v)


def decide(pdp, req):
    return verdict(pdp.evaluate(req))


# -- streams --------------------------------------------------------------
class SimStream(object):
    """A readable object over given bytes that delivers them as scripted.

    spec: chunk  'all' | int | 'rand'   how much each read returns
          seed   for 'rand'
          fault  ['error', offset, excname] | ['trunc', offset]
                 | ['zero', offset, n] | ['repeat', offset, n] | None
          stall  virtual delay per read
    """

    def __init__(self, data, spec=None, ctx=None, sched=None, name=None):
        self.spec = spec or {}
        self.ctx = ctx
        self.sched = sched
        self.data = data
        self.pos = 0
        self.closed = False
        self.reads = 0
        self.failed = False
        self.rng = random.Random(self.spec.get('seed', 0))
        self.late = 0
        f = self.spec.get('fault')
        if f and f[0] == 'zero':
            self.data = data[:f[1]] + b'\0' * min(
                f[2], len(data) - f[1]) + data[f[1] + f[2]:]
        elif f and f[0] == 'repeat':
            self.data = data[:f[1] + f[2]] + data[f[1]:]
        elif f and f[0] == 'lost':
            self.data = data[:f[1]] + data[f[1] + f[2]:]
        elif f and f[0] == 'trunc':
            self.data = data[:f[1]]
        if f and f[0] != 'error' and self.data != data and ctx is not None:
            ctx.fault('stream ' + f[0])
        self.delivered = b''

    def read(self, n=-1):
        if self.closed:
            self.late += 1
            raise ValueError('I/O operation on closed file')
        self.reads += 1
        s = self.sched
        if s is not None:
            s.external('read')
            if self.spec.get('stall'):
                s.sleep(self.spec['stall'])
        left = len(self.data) - self.pos
        k = left if n is None or n < 0 else min(n, left)
        c = self.spec.get('chunk', 'all')
        if (n is None or n < 0):
            pass                # read() means everything
        elif c == 'rand':
            k = min(k, 1 + int(self.rng.expovariate(1 / 40.0)))
        elif c != 'all':
            k = min(k, c)
        f = self.spec.get('fault')
        if f and f[0] == 'error':
            if self.pos >= f[1] or self.pos + k > f[1] and (
                    n is None or n < 0) or (left == 0):
                self.failed = True
                if self.ctx is not None:
                    self.ctx.fault('stream error ' + f[2])
                raise make_exc(f[2])
            k = min(k, f[1] - self.pos)
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        return out

    def readable(self):
        return True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class HttpStream(SimStream):
    """What the opener returns for a URL."""
    status = code = 200
    msg = 'OK'

    def __init__(self, url, *a, **k):
        super(HttpStream, self).__init__(*a, **k)
        self.url = url
        self.headers = {}

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return 200


class FetchFlood(BaseException):
    pass


class Net(object):
    """Every URL the library can fetch.  docs: url -> {'data', 'spec',
    'fault': None|'404'|'500'|'urlerror'|'timeout'|'reset', 'delay'}.  A
    'faults' list gives one entry per fetch of that URL, in order."""

    def __init__(self, docs, ctx=None, sched=None, cap=400, files=False):
        self.docs = docs
        self.files = files      # file: addresses go to the real file system
        self.ctx = ctx
        self.sched = sched
        self.log = []
        self.streams = []
        self.raised = 0
        self.cap = cap

    def install(self):
        import urllib.request
        net = self
        real = getattr(urllib.request.OpenerDirector.open, 'dst_real',
                       urllib.request.OpenerDirector.open)

        def open_(self, fullurl, data=None, timeout=None):
            url = fullurl if isinstance(fullurl, str) else fullurl.full_url
            if net.files and url.startswith('file:'):
                if net.sched is not None:
                    net.sched.external('file')
                net.log.append(url)
                f = real(self, fullurl, data)
                net.streams.append(f)
                return f
            return net.open(url)
        open_.dst_real = real
        urllib.request.OpenerDirector.open = open_
        # nothing is verified here; reading the certificates takes 30 ms
        ssl.SSLContext.load_default_certs = lambda *a, **k: None
        return self

    def open(self, url):
        import urllib.error
        import socket
        self.log.append(url)
        if len(self.log) > self.cap:
            raise FetchFlood('%d fetches' % len(self.log))
        s = self.sched
        d = self.docs.get(url)
        if s is not None:
            s.external('net')
            if d and d.get('delay'):
                s.sleep(d['delay'])
        f = None
        if d is not None:
            f = d.get('fault')
            if d.get('faults'):
                f = d['faults'].pop(0)
        if f and self.ctx is not None:
            self.ctx.fault('net ' + f)
        if d is None:
            if url.startswith('file:'):
                raise urllib.error.URLError('no such file: %s' % url)
            raise urllib.error.HTTPError(url, 404, 'Not Found', {},
                                         io.BytesIO(b'<none/>'))
        if f in ('404', '500'):
            # the page may look like the document
            raise urllib.error.HTTPError(url, int(f), 'Simulated', {},
                                         io.BytesIO(d.get('data') or b''))
        if f == 'urlerror':
            raise urllib.error.URLError('simulated unreachable')
        if f == 'timeout':
            raise socket.timeout('simulated timeout')
        if f == 'reset':
            raise ConnectionResetError(104, 'simulated reset')
        if f and f.startswith('raise:'):
            self.raised += 1
            raise make_exc(f[6:])
        st = HttpStream(url, d['data'], d.get('spec'), self.ctx, s)
        self.streams.append(st)
        return st


NET_FAULTS = ('404', '500', 'urlerror', 'timeout', 'reset')


# -- imports --------------------------------------------------------------
class ImportFaults(object):
    """Meta path entry that fails chosen imports for a while."""

    def __init__(self, table, ctx):
        self.table = dict(table)       # module name -> [exc, ...] consumed
        self.ctx = ctx

    def find_spec(self, name, path=None, target=None):
        lst = self.table.get(name)
        if lst:
            e = lst.pop(0)
            self.ctx.fault('import ' + e)
            raise {'ImportError': ImportError, 'OSError': OSError,
                   'MemoryError': MemoryError}[e]('simulated: ' + name)
        return None

    def install(self):
        sys.meta_path.insert(0, self)

    def remove(self):
        if self in sys.meta_path:
            sys.meta_path.remove(self)


# -- running operations ---------------------------------------------------
def attempt(fn):
    """('ok', value) or ('exc', type name, text).  Simulator control flow
    passes through."""
    try:
        return ('ok', fn())
    except S.SimAbort:
        raise
    except S.StepCap:
        return ('exc', 'StepCap', '')
    except BaseException as e:
        return ('exc', type(e).__name__, str(e)[:200])


class Op(object):
    """One operation of a simulated thread, with its recorded interval."""
    __slots__ = ('kind', 'arg', 'inv', 'ret', 'out', 'task', 'fired')

    def __init__(self, kind, arg, task):
        self.kind = kind
        self.arg = arg
        self.task = task
        self.inv = self.ret = self.out = None
        self.fired = False


class Runner(object):
    """Runs per-task operation lists under a Sched.  Returns the history in
    global order of invocation and response."""

    def __init__(self, ctx, spec, opcode=False, step_cap=400000):
        self.ctx = ctx
        self.sched = S.Sched(spec, step_cap=step_cap, opcode=opcode)
        self.hist = []
        self.seq = 0

    def add(self, name, ops):
        """ops: list of (kind, arg, fn[, fault]); fn() -> JSON-able value or
        any object."""
        idx = len(self.sched.tasks)

        def body(t):
            for i, o in enumerate(ops):
                kind, arg, fn = o[:3]
                fault = o[3] if len(o) > 3 else None
                count = o[4] if len(o) > 4 else False
                op = Op(kind, arg, idx)
                self.seq += 1
                op.inv = self.seq
                self.hist.append(op)
                self.ctx.ops += 1
                self.sched.external('op')
                self.sched.begin_op(t, i, fault, count)
                op.out = attempt(fn)
                if count:
                    self.counts = (t.opstep, t.linecount)
                if fault is not None and t.armed is None:
                    op.fired = True
                    self.ctx.fault('inject ' + fault[1])
                self.sched.end_op(t)
                self.seq += 1
                op.ret = self.seq
        self.sched.spawn(name, body)

    def run(self):
        self.sched.run()
        self.ctx.absorb(self.sched)
        return self.hist


def dry_points(fn, opcode=False):
    """(number of points, {line: [points]}) of one undisturbed execution,
    in a forked copy of the process."""
    from .core import fork_eval

    def go():
        sc = S.Sched({'kind': 'none'}, opcode=opcode)
        res = {}

        def body(t):
            sc.begin_op(t, 0, None, True)
            attempt(fn)
            res['n'] = t.opstep
            res['lines'] = sorted(v for v in t.linecount.values())
        sc.spawn('dry', body)
        sc.run()
        return res
    return fork_eval(go)


def place(frac, byline, dry):
    """Turns a fraction into a concrete point of the dry run: by step, or by
    distinct line first so that rarely executed code is hit as often."""
    n = dry['n']
    if n <= 0:
        return 1
    if not byline or not dry['lines']:
        return 1 + int(frac * n) % max(n, 1)
    lines = dry['lines']
    x = frac * len(lines)
    occ = lines[int(x) % len(lines)]
    return occ[int((x - int(x)) * len(occ)) % len(occ)]


def sched_spec(rng, ntasks=2, est=1500):
    """Swarm over scheduling strategies."""
    k = rng.random()
    seed = rng.getrandbits(32)
    if k < 0.15:
        return {'kind': 'rand', 'p': rng.choice((0.3, 0.05, 0.01)),
                'seed': seed}
    if k < 0.40:
        return {'kind': 'gaps', 'm': rng.choice((5, 30, 150, 600)),
                'seed': seed}
    if k < 0.50:
        return {'kind': 'rr', 'seed': seed}
    if k < 0.75:
        return {'kind': 'func', 'p': rng.choice((0.9, 0.5, 0.2)),
                'k': rng.choice((3, 8, 20)), 'seed': seed}
    return {'kind': 'pct', 'd': rng.choice((1, 2, 3, 5)), 'n': est,
            'seed': seed}
