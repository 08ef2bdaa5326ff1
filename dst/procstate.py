"""The state of the process that belongs to the application."""
import atexit
import builtins
import copyreg
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import types
import urllib.parse
import urllib.request
import warnings

OWN_NS = 'urn:oasis:names:tc:xacml'
APP_NS = 'http://application/ns'
PROBE = ('<?xml version="1.0"?><!DOCTYPE a [<!ENTITY e "v">]><a xmlns="u:d" '
         'xmlns:p="%s"> <!-- c --><p:b x="1">&e;</p:b><?t d?></a>' % APP_NS)


SETTINGS = ('recursion', 'switch', 'timeout', 'random', 'environment',
            'umask', 'path', 'warnings', 'signal', 'gc', 'decimal',
            'logging', 'opener', 'namespace')


def arm(scratch, plain=()):
    """An application's own settings; those in plain stay at the defaults."""
    def own(x):
        return x not in plain
    if own('recursion'):
        sys.setrecursionlimit(1200)
    if own('switch'):
        sys.setswitchinterval(0.004)
    socket.setdefaulttimeout(17.5 if own('timeout') else None)
    if own('random'):
        random.seed(4711)
    if own('environment'):
        os.environ['DST_APP'] = 'x'
        os.environ['no_proxy'] = 'a.example, h'
        os.environ['http_proxy'] = 'http://proxy.example:3128'
    if own('umask'):
        os.umask(0o027)
    os.chdir(scratch)
    if own('path'):
        sys.path.append('/application/lib')
    if own('warnings'):
        warnings.simplefilter('ignore', ImportWarning)
    if own('signal'):
        signal.signal(signal.SIGUSR1, lambda *a: None)
    if own('gc'):
        gc.set_threshold(710, 11, 9)
    if own('decimal'):
        decimal.getcontext().prec = 31
    if own('logging'):
        root = logging.getLogger()
        h = logging.StreamHandler(io.StringIO())
        h.setLevel(logging.ERROR)
        root.addHandler(h)
        lg = logging.getLogger('ndg.xacml.core')
        lg.setLevel(logging.WARNING)
        lg.propagate = False
        lg.addHandler(logging.NullHandler())
        logging.getLogger('application').setLevel(logging.INFO)
        logging.raiseExceptions = False
    if own('opener'):
        opener = urllib.request.build_opener()
        opener.addheaders = [('User-agent', 'application')]
        urllib.request.install_opener(opener)
    if own('namespace'):
        from . import world as W
        W.mods().ET.register_namespace('app', APP_NS)


def _logger(lg):
    return [lg.level, [(id(h), h.level, len(h.filters))
                       for h in lg.handlers],
            [id(f) for f in lg.filters], lg.propagate, lg.disabled,
            type(lg).__name__]


PRISTINE = [0, [], [], True, False, 'Logger']


def _xml(ET):
    e = ET.Element('{%s}a' % APP_NS)
    out = [repr(ET.tostring(e))]
    try:
        out.append(repr(ET.tostring(ET.fromstring(PROBE))))
    except Exception as x:
        out.append(type(x).__name__)
    return out


def snap(ET):
    """JSON-able dict; everything in it must come out as it went in, except
    that 'ns', 'loggers' and 'modules' may grow."""
    s = {}
    s['sys.path'] = list(sys.path)
    s['sys.meta_path'] = [id(x) for x in sys.meta_path]
    s['sys.path_hooks'] = [id(x) for x in sys.path_hooks]
    s['modules'] = {k: id(v) for k, v in list(sys.modules.items())}
    s['environment'] = dict(os.environ)
    s['working directory'] = os.getcwd()
    u = os.umask(0)
    os.umask(u)
    s['umask'] = u
    s['recursion limit'] = sys.getrecursionlimit()
    s['switch interval'] = sys.getswitchinterval()
    s['garbage collection'] = [gc.isenabled(), gc.get_threshold(),
                               [id(x) for x in gc.callbacks],
                               gc.get_debug()]
    s['signal handlers'] = [repr(signal.getsignal(x)) for x in
                            sorted(signal.valid_signals())]
    s['signal mask'] = sorted(int(x) for x in
                              signal.pthread_sigmask(signal.SIG_BLOCK, []))
    s['timers'] = [signal.getitimer(signal.ITIMER_REAL)]
    s['warning filters'] = [repr(x) for x in warnings.filters]
    s['warning functions'] = [id(warnings.showwarning),
                              id(warnings.formatwarning), id(warnings.warn)]
    s['random state'] = hash(random.getstate())
    s['hooks'] = [id(x) for x in (
        sys.excepthook, sys.displayhook, sys.unraisablehook,
        threading.excepthook, sys.gettrace(), sys.getprofile())]
    s['standard streams'] = [id(x) for x in (sys.stdin, sys.stdout,
                                             sys.stderr)]
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['time zone'] = list(time.tzname)
    s['decimal context'] = repr(decimal.getcontext())
    s['socket time-out'] = socket.getdefaulttimeout()
    s['socket functions'] = [id(socket.socket), id(socket.getaddrinfo),
                             id(socket.create_connection)]
    s['URL opener'] = [id(urllib.request._opener),
                       id(urllib.request.urlopen),
                       id(urllib.request.OpenerDirector.open),
                       id(urllib.request.build_opener),
                       list(getattr(urllib.request._opener, 'addheaders',
                                    ())),
                       [type(h).__name__ for h in getattr(
                           urllib.request._opener, 'handlers', ())]]
    s['URL parsing'] = [list(urllib.parse.uses_relative),
                        list(urllib.parse.uses_netloc)]
    import ssl
    s['SSL default'] = id(ssl._create_default_https_context)
    s['exit handlers'] = atexit._ncallbacks()
    s['threads'] = sorted(
        t.name for t in threading.enumerate()
        if not isinstance(t, threading._DummyThread))
    s['builtins'] = {k: id(v) for k, v in vars(builtins).items()
                     if k != '_'}
    s['copy registry'] = len(copyreg.dispatch_table)
    import tempfile
    s['temporary directory'] = tempfile.tempdir
    m = logging.root.manager
    s['logging'] = [m.disable, logging.raiseExceptions,
                    id(logging.getLoggerClass()),
                    id(logging.getLogRecordFactory()), id(logging.lastResort),
                    logging._levelToName, logging.logThreads,
                    _logger(logging.root)]
    s['loggers'] = {k: _logger(v) for k, v in list(m.loggerDict.items())
                    if isinstance(v, logging.Logger)}
    nm = getattr(ET, '_namespace_map', None)
    s['ns'] = dict(nm) if nm is not None else {}
    s['XML library'] = _xml(ET)
    s['open files'] = sorted(
        os.path.realpath('/proc/self/fd/' + x)
        for x in os.listdir('/proc/self/fd')
        if os.path.exists('/proc/self/fd/' + x))
    s['files'] = sorted(os.listdir('.'))
    return s


def differences(a, b, ET=None):
    out = []
    for k in sorted(a):
        x, y = a[k], b[k]
        if k == 'modules':
            bad = [n for n in x if n not in y or y[n] != x[n]]
            if bad:
                out.append('modules replaced or gone: %r' % bad[:4])
        elif k == 'loggers':
            bad = [n for n in x if y.get(n) != x[n]]
            bad += [n for n in y if n not in x and
                    [y[n][0], [h for h in y[n][1]]] + y[n][2:] != PRISTINE]
            if bad:
                out.append('loggers changed: %r' % [
                    (n, x.get(n), y.get(n)) for n in bad[:2]])
        elif k == 'ns':
            bad = [n for n in x if y.get(n) != x[n]]
            bad += [n for n in y if n not in x and not n.startswith(OWN_NS)]
            if bad:
                out.append('namespace registry: %r' % [
                    (n, x.get(n), y.get(n)) for n in bad[:3]])
        elif x != y:
            if isinstance(x, dict):
                ks = [n for n in set(x) | set(y) if x.get(n) != y.get(n)]
                x, y = {n: x.get(n) for n in ks}, {n: y.get(n) for n in ks}
            out.append('%s: was %.200r, is %.200r' % (k, x, y))
    return out
