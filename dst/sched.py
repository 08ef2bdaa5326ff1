"""Deterministic scheduler: real threads, one running at a time.

Yield points are the line (optionally opcode) events of the interpreter inside
the code under test, plus explicit points in the simulated seams.  At every
yield point the scheduler decides, from the case's seed or from a recorded
schedule, whether the running thread goes on or which other thread resumes.
The same points are where exceptions (failed allocations, cancellations) are
injected.  Time is virtual: it moves with steps and when every thread sleeps.
"""
import dis
import os
import sys
import time
import _thread
import threading
import random
import hashlib

_real_lock = _thread.allocate_lock
_real_sleep = time.sleep
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock

SCOPE_PREFIX = '/repo/ndg/'
EXCLUDE = '/test/'

CURRENT = None          # scheduler whose threads are running, if any
FORKED = False          # in a child process: the other threads are gone
FORKING = None          # process that is about to fork


class SimCancel(BaseException):
    """Asynchronous cancellation (what a KeyboardInterrupt or an async
    exception from a supervising thread is to the library)."""


class SimAbort(BaseException):
    """Internal: unwinds a simulated thread when a run is given up."""


class StepCap(BaseException):
    pass


class WaitsForever(BaseException):
    """In a forked child: a lock is held by a thread that is not there."""


def forked():
    """Called in a child process forked by a simulated thread."""
    global FORKED
    FORKED = True
    sys.settrace(None)
    if CURRENT is not None:
        CURRENT.active = False


EXC = {
    'MemoryError': lambda: MemoryError('simulated allocation failure'),
    'OSError': lambda: OSError(5, 'simulated I/O error'),
    'SimCancel': lambda: SimCancel('simulated cancellation'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('simulated SIGINT'),
    'SystemExit': lambda: SystemExit('simulated exit'),
    'GeneratorExit': lambda: GeneratorExit('simulated close'),
    'ImportError': lambda: ImportError('simulated import failure'),
    'RecursionError': lambda: RecursionError('simulated stack exhaustion'),
}



def _context_error():
    from ndg.xacml.core.context.exceptions import XacmlContextError
    return XacmlContextError('simulated context error')


EXC['XacmlContextError'] = _context_error
_scope_cache = {}


def in_scope(code):
    r = _scope_cache.get(code)
    if r is None:
        fn = code.co_filename
        r = (1 if fn.startswith(SCOPE_PREFIX) and EXCLUDE not in fn else 0)
        if r and code.co_name == '<module>':
            r = 2
        if r and code.co_name == '__del__':
            r = 3
        _scope_cache[code] = r
    return r


def code_key(code):
    fn = code.co_filename
    return fn[fn.rfind('/', 0, fn.rfind('/')) + 1:] + ':' + code.co_qualname


class Task(object):
    __slots__ = ('idx', 'name', 'fn', 'sem', 'state', 'local', 'wake',
                 'blocked_on', 'noyield', 'op', 'opstep', 'armed', 'fired',
                 'ident', 'linecount')

    def __init__(self, idx, name, fn):
        self.idx = idx
        self.name = name
        self.fn = fn
        self.sem = _real_lock()
        self.sem.acquire()
        self.state = 'ready'
        self.local = 0
        self.wake = 0.0
        self.blocked_on = None
        self.noyield = 0
        self.op = -1
        self.opstep = 0
        self.armed = None
        self.fired = 0
        self.ident = None
        self.linecount = None


class Strategy(object):
    """Decides preemptions.  kind:
    none     run each task until it finishes or blocks
    rand     switch with probability p at every point
    gaps     geometric gaps between switches (mean m)
    rr       switch at every point
    func     switch with probability p only at points inside a seed-chosen
             subset of the functions reached (1 in k)
    pct      d change points, priorities decide otherwise
    replay   recorded schedule
    """

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec.get('kind', 'none')
        self.rng = random.Random(spec.get('seed', 0))
        self.p = spec.get('p', 0.1)
        self.k = spec.get('k', 8)
        self.salt = str(spec.get('seed', 0))
        self.fcache = {}
        self.gap = None
        self.points = None
        self.prio = {}
        if self.kind == 'gaps':
            self.m = spec.get('m', 50)
            self.gap = self._draw()
        if self.kind == 'pct':
            n = max(1, spec.get('n', 2000))
            self.points = set(self.rng.randrange(n)
                              for _ in range(spec.get('d', 3)))
        if self.kind == 'replay':
            self.table = {(a, b): c for a, b, c in spec['switches']}

    def _draw(self):
        return 1 + int(self.rng.expovariate(1.0 / self.m))

    def want(self, sched, task, frame):
        k = self.kind
        if k == 'none':
            return False
        if k == 'rand':
            return self.rng.random() < self.p
        if k == 'gaps':
            self.gap -= 1
            if self.gap <= 0:
                self.gap = self._draw()
                return True
            return False
        if k == 'rr':
            return True
        if k == 'func':
            if frame is None:
                return self.rng.random() < 0.5
            c = frame.f_code
            f = self.fcache.get(c)
            if f is None:
                h = hashlib.md5((self.salt + code_key(c)).encode()).digest()
                f = (h[0] % self.k) == 0
                self.fcache[c] = f
            return f and self.rng.random() < self.p
        if k == 'pct':
            return sched.step in self.points
        return False

    def pick(self, sched, task, others, forced):
        if self.kind == 'replay':
            to = self.table.get((task.idx, task.local))
            for o in others:
                if o.idx == to:
                    return o
            return others[0] if forced else None
        if self.kind in ('none',):
            return others[0]
        return others[self.rng.randrange(len(others))]


class Sched(object):
    def __init__(self, spec=None, step_cap=3000000, opcode=False):
        self.strategy = Strategy(spec or {})
        self.tasks = []
        self.step = 0
        self.vtime = 0.0
        self.cur = None
        self.main = _real_lock()
        self.main.acquire()
        self.switches = []      # [task, local point, to]
        self.trace_hash = hashlib.md5()
        self.preemptions = 0
        self.deadlock = None
        self.stuck = None
        self.errors = []
        self.step_cap = step_cap
        self.opcode = opcode
        self.where = {}
        self.by_ident = {}
        self.aborting = False
        self.active = False

    # -- construction -----------------------------------------------------
    def spawn(self, name, fn):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def run(self):
        global CURRENT
        if not self.tasks:
            return
        CURRENT = self
        self.active = True
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        first = self.strategy.pick(self, _START, list(self.tasks), True) \
            if self.strategy.kind != 'replay' else self._first_replay()
        self.switches.append([-1, 0, first.idx])
        self.cur = first
        first.sem.release()
        self.main.acquire()
        self.active = False
        CURRENT = None

    def _first_replay(self):
        to = self.strategy.table.get((-1, 0), 0)
        for t in self.tasks:
            if t.idx == to:
                return t
        return self.tasks[0]

    def _body(self, t):
        t.sem.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.aborting:
                sys.settrace(self._gtrace)
                t.fn(t)
        except SimAbort:
            pass
        except BaseException as e:      # harness bug: task bodies catch all
            self.errors.append('%s: %r' % (t.name, e))
        finally:
            sys.settrace(None)
            t.state = 'done'
            self._leave(t)

    def _leave(self, t):
        nxt = self._next(t, forced=True)
        if nxt is None:
            if any(x.state != 'done' for x in self.tasks):
                self._on_deadlock()
            self.main.release()
            return
        self.cur = nxt
        nxt.sem.release()

    def _runnable(self, exclude=None):
        out = []
        for x in self.tasks:
            if x is exclude:
                continue
            if x.state == 'ready':
                out.append(x)
            elif x.state == 'sleep' and x.wake <= self.vtime:
                out.append(x)
            elif x.state == 'blocked' and not x.blocked_on._busy(x):
                out.append(x)
        return out

    def _next(self, t, forced):
        while True:
            r = self._runnable(exclude=t if t.state == 'done' else None)
            if not forced or t.state != 'ready':
                r = [x for x in r if x is not t] or (
                    r if t.state != 'done' else [])
            if r:
                n = r[0] if len(r) == 1 else self.strategy.pick(self, t, r,
                                                                True)
                if n is None:
                    n = r[0]
                self.switches.append([t.idx, t.local, n.idx])
                n.state = 'ready'
                n.blocked_on = None
                return n
            sl = [x.wake for x in self.tasks if x.state == 'sleep']
            if not sl:
                return None
            self.vtime = max(self.vtime, min(sl))

    def _on_deadlock(self):
        self.deadlock = [(x.name, x.state) for x in self.tasks
                         if x.state != 'done']

    def _handoff(self, t, nxt):
        if nxt is t:
            return
        self.cur = nxt
        saved = sys.gettrace()
        nxt.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise SimAbort()

    # -- yield points -----------------------------------------------------
    def task(self):
        return self.by_ident.get(_thread.get_ident())

    def _gtrace(self, frame, event, arg):
        s = in_scope(frame.f_code)
        if s == 0 or s == 3:
            return None
        if s == 2:
            t = self.task()
            t.noyield += 1
            return self._modtrace
        if self.opcode:
            frame.f_trace_opcodes = True
        return self._ltrace

    def _modtrace(self, frame, event, arg):
        if event == 'return':
            t = self.task()
            t.noyield -= 1
        return self._modtrace

    def _ltrace(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            t = self.cur
            if t.noyield == 0:
                self.point(t, frame)
        return self._ltrace

    def point(self, t, frame, label=None):
        t.local += 1
        t.opstep += 1
        self.step += 1
        self.vtime += 1e-6
        if self.step > self.step_cap:
            self.stuck = self.stuck or (frame and code_key(frame.f_code)
                                        or label)
            raise StepCap('step cap')
        if t.linecount is not None and frame is not None:
            key = (frame.f_code, frame.f_lineno)
            lst = t.linecount.get(key)
            if lst is None:
                t.linecount[key] = [t.opstep]
            elif len(lst) < 8:
                lst.append(t.opstep)
        a = t.armed
        if a is not None and t.opstep == a[0] and leaving_with(frame):
            # no exception can come between a with block and its __exit__
            t.armed = a = (a[0] + 1, a[1])
        if a is not None and t.opstep == a[0]:
            t.armed = None
            t.fired += 1
            where = ('%s:%d' % (code_key(frame.f_code), frame.f_lineno or 0)
                     if frame is not None else label)
            self.trace_hash.update(('!%s@%s' % (a[1], where)).encode())
            self.where[where] = self.where.get(where, 0) + 1
            raise EXC[a[1]]()
        self._maybe_switch(t, frame, label)

    def _maybe_switch(self, t, frame, label):
        if len(self.tasks) < 2:
            return
        st = self.strategy
        if st.kind == 'replay':
            to = st.table.get((t.idx, t.local))
            if to is None or to == t.idx:
                return
            r = [x for x in self._runnable(t) if x.idx == to]
            if not r:
                return
            n = r[0]
        else:
            if not st.want(self, t, frame):
                return
            r = self._runnable(t)
            if not r:
                return
            n = st.pick(self, t, r, False)
            if n is None:
                return
        n.state = 'ready'
        n.blocked_on = None
        self.switches.append([t.idx, t.local, n.idx])
        self.preemptions += 1
        where = (('%s:%d' % (code_key(frame.f_code), frame.f_lineno or 0))
                 if frame is not None else (label or '?'))
        self.trace_hash.update(('%d>%d@%s' % (t.idx, n.idx, where)).encode())
        self._handoff(t, n)

    # -- explicit seams ---------------------------------------------------
    def external(self, label):
        t = self.task()
        if t is None or t.noyield or not self.active:
            return
        t.local += 1
        t.opstep += 1
        self.step += 1
        self._maybe_switch(t, None, label)

    def sleep(self, dt):
        """Virtual sleep of the calling simulated thread."""
        t = self.task()
        if t is None or not self.active:
            return
        t.local += 1
        self.step += 1
        t.state = 'sleep'
        t.wake = self.vtime + dt
        n = self._next(t, forced=True)
        if n is None:
            t.state = 'ready'
            return
        self.vtime = max(self.vtime, 0)
        if n is not t:
            self.trace_hash.update(('%d~%d' % (t.idx, n.idx)).encode())
        self._handoff(t, n)
        t.state = 'ready'

    def block(self, t, lock):
        t.local += 1
        self.step += 1
        t.state = 'blocked'
        t.blocked_on = lock
        n = self._next(t, forced=True)
        if n is None:
            # nobody can ever release it
            self._on_deadlock()
            self.aborting = True
            t.state = 'ready'
            self.main.release()
            _real_lock_forever()
        self._handoff(t, n)
        t.state = 'ready'
        t.blocked_on = None

    # -- operations and faults --------------------------------------------
    def begin_op(self, t, op, fault=None, count=False):
        """fault: (n, excname) raised at the nth point of this operation."""
        t.op = op
        t.opstep = 0
        t.armed = fault
        t.linecount = {} if count else None
        sys.settrace(self._gtrace)      # re-arm: a raising tracer is removed

    def end_op(self, t):
        t.armed = None


_exits = {}


def leaving_with(frame):
    """Whether a frame stands at the instructions that call the __exit__ of a
    with block.  CPython looks for signals and asynchronous exceptions only
    after calls and at backward jumps, never there."""
    if frame is None:
        return False
    code = frame.f_code
    got = _exits.get(code)
    if got is None:
        got = set()
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.opname == 'WITH_EXCEPT_START':
                got.update(y.offset for y in ins[max(i - 1, 0):i + 1])
            if (x.opname == 'CALL' and x.arg == 2 and i > 2 and all(
                    y.opname == 'LOAD_CONST' and y.argval is None
                    for y in ins[i - 3:i])):
                j = i
                while j > i - 5 and not ins[j].starts_line and j > 0:
                    j -= 1
                got.update(y.offset for y in ins[j:i + 1])
        if not any(x.opname == 'BEFORE_WITH' for x in ins):
            got = set()
        _exits[code] = got
    return frame.f_lasti in got


class _Start(object):
    idx = -1
    local = 0


_START = _Start()


def _real_lock_forever():
    lk = _real_lock()
    lk.acquire()
    lk.acquire()


# -- locks the code under test may create ---------------------------------
class SimLock(object):
    """Stands in for threading.Lock/RLock so that a simulated thread waiting
    for a lock is a scheduling decision and not a real wait."""
    _reentrant = False

    def __init__(self):
        self._real = _real_lock()
        self._owner = None
        self._count = 0

    def _busy(self, task):
        return self._real.locked()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        s = CURRENT
        t = s.task() if s is not None else None
        if t is not None and s.active:
            s.external('lock.acquire')
        while True:
            if self._real.acquire(False):
                self._owner = me
                self._count = 1
                return True
            if not blocking:
                return False
            if FORKED or FORKING and os.getpid() != FORKING:
                if timeout is not None and timeout >= 0:
                    return False
                raise WaitsForever('a lock is held by a thread of the parent')
            if t is None or not s.active:
                ok = self._real.acquire(True, timeout)
                if ok:
                    self._owner = me
                    self._count = 1
                return ok
            if timeout is not None and timeout >= 0:
                s.sleep(timeout)
                ok = self._real.acquire(False)
                if ok:
                    self._owner = me
                    self._count = 1
                return ok
            s.block(t, self)

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        s = CURRENT
        if s is not None and s.active:
            s.external('lock.release')

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._real.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    _reentrant = True


def patch_threading():
    """Before the code under test is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    # what Condition, and so Event, Semaphore and queues, wait on
    threading._allocate_lock = SimLock
    naps = [0]

    def _sleep(dt):
        s = CURRENT
        if FORKED:
            naps[0] += 1
            if naps[0] > 3000:
                raise WaitsForever('sleeps again and again')
        if s is not None and s.task() is not None:
            s.sleep(dt)
        else:
            _real_sleep(min(dt, 0.01))
    time.sleep = _sleep
