"""One simulation worker: a process bound to one backend and warm/cold mode
that runs its share of the cases, or one replay file."""
import sys
import os
import json
import time
import random
import copy
import resource
import importlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from dst import sched as S          # noqa: E402
from dst import core                # noqa: E402


def _prime(repo):
    """Compile the tree under test once per worker, so that lazily imported
    modules cost little in every forked run."""
    import importlib.machinery as im
    cache = {}
    for d, dirs, files in os.walk(os.path.join(repo, 'ndg')):
        dirs[:] = [x for x in dirs if x not in ('test', '__pycache__')]
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    with open(p, 'rb') as fh:
                        src = fh.read()
                    cache[p] = compile(src, p, 'exec', dont_inherit=True)
                except (SyntaxError, ValueError):
                    pass
    orig = im.SourceFileLoader.get_code

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        c = cache.get(p)
        return c if c is not None else orig(self, fullname)
    im.SourceFileLoader.get_code = get_code


def setup(mode):
    import warnings
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    S.SCOPE_PREFIX = os.path.join(core.REPO, 'ndg') + '/'
    sys.path.insert(0, core.REPO)
    _prime(core.REPO)
    S.patch_threading()
    # modules the cases import themselves
    import urllib.request, logging, threading, copy, re, io, xml.parsers.expat  # noqa
    import xml.etree.ElementTree  # noqa
    from dst import world
    world.mods()
    if mode == 'warm':
        world.warm()
    import gc
    gc.collect()
    gc.freeze()


def case_rng(seed, prop, backend, mode, i):
    return random.Random(core.h64(seed, prop, backend, mode, i))


LISTS = ('tasks', 'ops', 'rules', 'kids', 'faults', 'switches', 'steps',
         'probes')
OPTS = ('target', 'cond', 'pip', 'delay', 'content', 'jitter', 'desc')


def _paths(x, path=()):
    """Removable pieces of a case, larger first."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in OPTS and v is not None:
                yield path + (k,), 'none'
            if isinstance(v, list) and (k in LISTS):
                n = len(v)
                size = n // 2
                while size >= 1:
                    for a in range(0, n, size):
                        yield path + (k,), (a, min(n, a + size))
                    size //= 2
                for i, y in enumerate(v):
                    if isinstance(y, (list, dict)):
                        for z in _paths(y, path + (k, i)):
                            yield z
            elif isinstance(v, (dict, list)):
                for z in _paths(v, path + (k,)):
                    yield z
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (list, dict)):
                if isinstance(y, list) and path and path[-1] == 'tasks':
                    for a in range(len(y)):
                        yield path + (i,), (a, a + 1)
                for z in _paths(y, path + (i,)):
                    yield z


def _cut(case, path, what):
    c = copy.deepcopy(case)
    x = c
    for k in path[:-1]:
        x = x[k]
    try:
        if what == 'none':
            if x.get(path[-1]) is None:
                return None
            x[path[-1]] = None
        else:
            lst = x[path[-1]]
            if len(lst) < what[1]:
                return None
            del lst[what[0]:what[1]]
            if not lst and path[-1] in ('tasks', 'kids', 'rules'):
                return None
    except (KeyError, IndexError, TypeError, AttributeError):
        return None
    return c


def shrink(mod, case, res, budget=25.0, log=None):
    """Greedy reduction of schedule, operations, faults and policies while
    the same class of violation persists."""
    cls = res['viols'][0][0]
    end = time.time() + budget

    def fails(c):
        r = core.run_case(mod, c)
        v = r.get('viols')
        return r if v and v[0][0] == cls else None

    best, bres = case, res
    runs = 0
    # freeze the schedule first
    if best.get('sched') and res.get('switches') is not None:
        c = copy.deepcopy(best)
        c['sched'] = {'kind': 'replay', 'switches': res['switches']}
        r = fails(c)
        runs += 1
        if r:
            best, bres = c, r
    progress = True
    while progress and time.time() < end:
        progress = False
        seen = set()
        for path, what in list(_paths(best)):
            if time.time() > end:
                break
            key = (path, what)
            if key in seen:
                continue
            seen.add(key)
            try:
                c = _cut(best, path, what)
            except (KeyError, IndexError, TypeError):
                c = None
            if c is None or c == best:
                continue
            r = fails(c)
            runs += 1
            if r:
                best, bres = c, r
                progress = True
    return best, bres, runs


def load_prop(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def main_run(a):
    """run PROP BACKEND MODE W NW TIER SEED NCASES DEADLINE OUT STOPFILE"""
    (pid, backend, mode, w, nw, tier, seed, ncases, deadline, out,
     stop) = a
    w, nw, seed, ncases = int(w), int(nw), int(seed), int(ncases)
    deadline = float(deadline)
    setup(mode)
    mod = load_prop(pid)
    agg = {'n': 0, 'digests': [], 'nontrivial': 0, 'steps': 0, 'preempt': 0,
           'vtime': 0.0, 'faults': {}, 'probes': {}, 'sites': [],
           'viols': [], 'known': [], 'harness': [], 'samples': [], 'ops': 0, 'skipped': 0,
           'backend': backend, 'mode': mode, 'alldig': ''}
    import hashlib
    alld = hashlib.md5()
    dig = set()
    sites = set()
    i = w
    while i < ncases and time.time() < deadline:
        if agg['n'] % 8 == 0 and os.path.exists(stop):
            break
        rng = case_rng(seed, pid, backend, mode, i)
        case = mod.gen(rng, tier)
        case['env'] = {'backend': backend, 'mode': mode, 'i': i,
                       'seed': seed}
        case = json.loads(json.dumps(case))
        r = core.run_case(mod, case)
        if 'timeout' in r:
            r = core.run_case(mod, case, timeout=core.CASE_TIMEOUT * 2)
        agg['n'] += 1
        if 'timeout' in r or 'harness_error' in r or r.get('errors'):
            agg['harness'].append({'i': i, 'case': case, 'r': {
                k: r[k] for k in ('timeout', 'harness_error', 'errors')
                if k in r}})
            if len(agg['harness']) > 3:
                break
            i += nw
            if not r.get('viols'):
                continue
        alld.update(('%d:%s' % (i, r['digest'])).encode())
        if r['nfault'] or r['preempt']:
            agg['nontrivial'] += 1
            dig.add(r['digest'][:16])
        for k in ('steps', 'preempt', 'vtime', 'ops', 'skipped'):
            agg[k] += r[k]
        for k in ('faults', 'probes'):
            for x, y in r[k].items():
                agg[k][x] = agg[k].get(x, 0) + y
        sites.update(r['placed'])
        if len(agg['samples']) < 2 and (r['nfault'] or r['preempt']):
            agg['samples'].append({'env': case['env'], 'sched': {
                k: v for k, v in (case.get('sched') or {}).items()},
                'steps': r['steps'], 'preemptions': r['preempt'],
                'faults': r['faults'], 'events': r['events'][:12],
                'digest': r['digest']})
        if r['viols']:
            agg['viols'].append({'case': case, 'r': r})
            open(stop, 'w').close()
            break
        i += nw
    if agg['viols'] and not os.environ.get('DST_NOSHRINK'):
        v = agg['viols'][0]
        best, bres, runs = shrink(mod, v['case'], v['r'])
        v['min'] = best
        v['minr'] = bres
        v['shrink_runs'] = runs
    agg['digests'] = sorted(dig)
    agg['sites'] = sorted(sites)
    agg['alldig'] = alld.hexdigest()
    with open(out + '.tmp', 'w') as fh:
        json.dump(agg, fh)
    os.rename(out + '.tmp', out)


def main_replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    case = rec['case']
    setup(case['env']['mode'])
    mod = load_prop(rec['property'])
    r = core.run_case(mod, case)
    print(json.dumps(r))


def main_one(pid, backend, mode, i, tier='quick', seed='1'):
    """Debug: run one case in the foreground."""
    setup(mode)
    mod = load_prop(pid)
    rng = case_rng(int(seed), pid.upper(), backend, mode, int(i))
    case = mod.gen(rng, tier)
    case['env'] = {'backend': backend, 'mode': mode, 'i': int(i),
                   'seed': int(seed)}
    case = json.loads(json.dumps(case))
    t = time.time()
    r = core.run_case(mod, case)
    r['wall'] = time.time() - t
    if os.environ.get('DST_DEBUG'):
        print(json.dumps(case, indent=1))
    print(json.dumps(r, indent=1)[:6000])


if __name__ == '__main__':
    if sys.argv[1] == 'run':
        main_run(sys.argv[2:])
    elif sys.argv[1] == 'replay':
        main_replay(sys.argv[2])
    else:
        main_one(*sys.argv[2:])
