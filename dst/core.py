"""Case isolation and result recording.

Every case runs in a forked child of its own, so no state survives from one
case to the next.  The child reports one JSON object through a pipe."""
import _thread
import gc
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import sched as S

REPO = os.environ.get('DST_REPO', '/repo')
APP = 'urn:app:'
CASE_TIMEOUT = float(os.environ.get('DST_CASE_TIMEOUT', '60'))


class Ctx(object):
    """What one simulated run records."""

    def __init__(self, case):
        self.case = case
        self.viols = []
        self.probes = {}
        self.faults = {}
        self.hash = hashlib.md5()
        self.steps = 0
        self.preempt = 0
        self.vtime = 0.0
        self.switches = None
        self.events = []
        self.errors = []
        self.real = set()
        self.nfault = 0
        self.ops = 0
        self.placed = []
        self.skipped = 0

    def viol(self, cls, msg):
        self.viols.append([cls, msg])
        self.ev('VIOL', cls)

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n
        self.nfault += n
        self.hash.update(('f:%s' % k).encode())

    def ev(self, *a):
        """An observable event, in the order of the simulated execution."""
        s = ' '.join(str(x) for x in a)
        self.hash.update(s.encode('utf-8', 'replace'))
        if len(self.events) < 400:
            self.events.append(s)

    def absorb(self, sched):
        """Fold a finished scheduler run into the record."""
        self.steps += sched.step
        self.preempt += sched.preemptions
        self.vtime += sched.vtime
        self.hash.update(sched.trace_hash.digest())
        self.switches = sched.switches
        self.errors.extend(sched.errors)
        self.placed.extend(sched.where)
        if sched.deadlock:
            self.viol('deadlock', 'no thread can proceed: %r' %
                      (sched.deadlock,))
        if sched.stuck:
            self.viol('stuck', 'no end within %d steps, at %s' %
                      (sched.step_cap, sched.stuck))

    def result(self):
        return {'viols': self.viols, 'probes': self.probes,
                'faults': self.faults, 'digest': self.hash.hexdigest(),
                'steps': self.steps, 'preempt': self.preempt,
                'vtime': self.vtime, 'switches': self.switches,
                'events': self.events, 'errors': self.errors,
                'nfault': self.nfault, 'ops': self.ops,
                'placed': self.placed, 'skipped': self.skipped}


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _settle():
    """Threads that have run to their end are still there for a moment,
    cleaning up inside C libraries with the locks of these held (OpenSSL's);
    a child forked then finds the locks held for good."""
    for i in range(2000):
        if len(os.listdir('/proc/self/task')) <= _thread._count() + 1:
            return
        S._real_sleep(0.0001)


def _spawn(fn):
    _settle()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = fn()
                data = json.dumps(out).encode()
            except BaseException:
                data = json.dumps({'harness_error':
                                   traceback.format_exc()}).encode()
            _write_all(w, data)
            os.close(w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def fork_eval(fn):
    """Runs fn in a fresh copy of this process; returns its JSON result."""
    pid, r = _spawn(fn)
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(b''.join(buf) or b'{"harness_error": "no output"}')
    if isinstance(out, dict) and 'harness_error' in out:
        raise RuntimeError('fork_eval: ' + out['harness_error'])
    return out


def fork_here(fn, limit=40):
    """fn in a child forked at this very moment, other threads being where
    they are; its JSON result, or None if it did not end."""
    from . import sched

    def child():
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(limit)
        sched.forked()
        return fn()
    t = sched.CURRENT.task()
    t.noyield += 1
    sched.FORKING = os.getpid()
    try:
        pid, r = _spawn(child)
    finally:
        sched.FORKING = None
        t.noyield -= 1
    buf = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return None
    out = json.loads(b''.join(buf))
    if isinstance(out, dict) and 'harness_error' in out:
        raise RuntimeError('fork_here: ' + out['harness_error'])
    return out


def from_tree(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(
                os.path.join(REPO, 'ndg')):
            return True
        tb = tb.tb_next
    return False


def run_case(mod, case, timeout=None):
    """Runs one case in a forked child; always returns a dict."""
    timeout = timeout or CASE_TIMEOUT

    def child():
        os.setpgid(0, 0)
        gc.disable()
        sys.setrecursionlimit(1000)
        devnull = os.open('/dev/null', os.O_RDWR)
        if not os.environ.get('DST_DEBUG'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        ctx = Ctx(case)
        if APP in json.dumps(case):
            from . import world
            world.register_app()
        try:
            mod.run(case, ctx)
        except Exception as e:
            if not from_tree(e):
                raise
            # preparing the run failed inside the code under test, outside
            # anything this property speaks about
            ctx.ev('not run', type(e).__name__)
            ctx.skipped = 1
        return ctx.result()

    pid, r = _spawn(child)
    end = time.time() + timeout
    buf = []
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(r)
    if timed_out:
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        return {'timeout': timeout}
    _, st = os.waitpid(pid, 0)
    data = b''.join(buf)
    if not data:
        return {'harness_error': 'child died, status %r' % (st,)}
    return json.loads(data)


def h64(*a):
    return int.from_bytes(hashlib.sha256(
        '|'.join(str(x) for x in a).encode()).digest()[:8], 'big')
