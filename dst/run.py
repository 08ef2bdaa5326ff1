"""Driver of one check: run.py PROP [--tier quick|thorough] [--seed N].

Exit 0: held on everything explored.  1: VIOLATION line.  2: the harness
itself failed (no verdict)."""
import sys
import os
import json
import time
import shutil
import tempfile
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = {'lxml': '/opt/venv/bin/python', 'etree': '/opt/venv-nolxml/bin/python'}
GROUPS = [('lxml', 'warm'), ('lxml', 'cold'), ('etree', 'warm'),
          ('etree', 'cold')]


def env():
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = os.environ.get('DST_HASHSEED', '0')
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['LC_ALL'] = 'C.UTF-8'
    for k in ('no_proxy', 'NO_PROXY', 'http_proxy', 'https_proxy',
              'HTTP_PROXY', 'HTTPS_PROXY', 'PYTHONPATH', 'PYTHONSTARTUP'):
        e.pop(k, None)
    return e


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(ROOT, 'KNOWN_FINDINGS')) as fh:
            for line in fh:
                if line.startswith('known: property=%s ' % pid):
                    out.append(line[len('known: '):].strip())
    except OSError:
        pass
    return out


def replay(path):
    with open(path) as fh:
        rec = json.load(fh)
    p = subprocess.run([PY[rec['case']['env']['backend']],
                        os.path.join(HERE, 'worker.py'), 'replay', path],
                       env=env(), cwd=ROOT, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=400)
    try:
        r = json.loads(p.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {'harness_error': p.stderr.decode()[-2000:]}
    return r


def same(rec, r):
    v = r.get('viols') or []
    return bool(v) and v[0][0] == rec['class']


def main(argv):
    pid = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    nwork = int(os.environ.get('DST_WORKERS', '8'))
    a = argv[1:]
    scale = float(os.environ.get('DST_SCALE', '1'))
    while a:
        k = a.pop(0)
        if k == '--tier':
            tier = a.pop(0)
        elif k == '--seed':
            seed = a.pop(0)
        elif k == '--scale':
            scale = float(a.pop(0))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    print('seed', seed, 'tier', tier, 'property', pid)
    sys.stdout.flush()
    import importlib
    mod = importlib.import_module('dst.props.' + pid.lower())
    t0 = time.time()
    if tier == 'quick':
        ncases = int(getattr(mod, 'QUICK', 400) * scale)
        limit = 240.0
    else:
        ncases = 10 ** 9
        limit = float(os.environ.get('DST_THOROUGH_S', '600')) * scale
    deadline = t0 + limit
    tmp = tempfile.mkdtemp(prefix='dst-')
    os.environ['DST_TMP'] = tmp
    out_dir = os.path.join(ROOT, 'out')
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    groups = getattr(mod, 'GROUPS', GROUPS)
    per = max(1, nwork // len(groups))
    procs = []
    stop = os.path.join(tmp, 'stop')
    rc = 0
    try:
        for backend, mode in groups:
            for w in range(per):
                out = os.path.join(tmp, '%s-%s-%d.json' % (backend, mode, w))
                cmd = [PY[backend], os.path.join(HERE, 'worker.py'), 'run',
                       pid, backend, mode, str(w), str(per), tier, str(seed),
                       str(ncases), str(deadline), out, stop]
                err = open(out + '.err', 'wb')
                procs.append((out, subprocess.Popen(
                    cmd, env=env(), cwd=ROOT, stdout=err, stderr=err,
                    stdin=subprocess.DEVNULL)))
                err.close()
        aggs = []
        harness = []
        for out, p in procs:
            try:
                p.wait(timeout=max(5, deadline + 300 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(out):
                with open(out) as fh:
                    aggs.append(json.load(fh))
            else:
                with open(out + '.err', 'rb') as fh:
                    harness.append('worker %s: rc %s\n%s' % (
                        os.path.basename(out), p.returncode,
                        fh.read().decode('utf-8', 'replace')[-3000:]))
        for g in aggs:
            harness.extend(json.dumps(h['r'])[:3000] + ' case ' +
                           json.dumps(h['case']['env'])
                           for h in g['harness'])
        viol = None
        nv = 0
        for g in aggs:
            nv += len(g['viols'])
            for v in g['viols']:
                if viol is None:
                    viol = v
        known = known_findings(pid)
        for k in known:
            print('KNOWN-FINDING: ' + k)
        wall = time.time() - t0
        if viol is not None:
            path = report(pid, seed, viol, out_dir)
            if path is None:
                harness.append('violation found but it does not replay: %r' %
                               (viol['r']['viols'][:1],))
            else:
                rc = 1
        write_evidence(pid, mod, tier, seed, aggs, wall, nv)
        n = sum(g['n'] for g in aggs)
        if harness:
            for h in harness[:4]:
                print('HARNESS-ERROR', h)
            with open(os.path.join(out_dir, pid + '.harness.json'),
                      'w') as fh:
                json.dump([g['harness'] for g in aggs], fh)
            if rc == 0:
                rc = 2
        skipped = sum(g['skipped'] for g in aggs)
        if rc == 0 and skipped > n // 2:
            print('HARNESS-ERROR %d of %d runs could not be prepared' % (
                skipped, n))
            rc = 2
        if rc == 0 and n < getattr(mod, 'MIN', 40):
            print('HARNESS-ERROR only %d runs completed' % n)
            rc = 2
        if rc == 0:
            print('property %s held on %d simulated runs (%.1f s, %s/h)' % (
                pid, n, wall, int(n / max(wall, .001) * 3600)))
        if os.environ.get('DST_ALLDIG'):
            import hashlib
            h = {}
            for g in aggs:
                h.setdefault(g['backend'] + g['mode'], []).append(
                    g['alldig'])
            print('ALLDIG', json.dumps(h, sort_keys=True))
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def report(pid, seed, v, out_dir):
    """Writes and verifies the replay file; prints the VIOLATION line."""
    for case, r, kind in ((v.get('min'), v.get('minr'), 'minimised'),
                          (v['case'], v['r'], 'original')):
        if case is None:
            continue
        rec = {'property': pid, 'class': r['viols'][0][0],
               'message': r['viols'][0][1], 'digest': r['digest'],
               'events': r['events'], 'kind': kind, 'seed': seed,
               'shrink_runs': v.get('shrink_runs', 0), 'case': case}
        path = os.path.join(out_dir, '%s.replay.json' % pid)
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        for _ in range(3):
            rr = replay(path)
            if same(rec, rr):
                print('violation class: %s' % rec['class'])
                print('violation: %s' % rec['message'])
                for e in rec['events'][-20:]:
                    print('   ', e)
                print('case: seed %s, %s replay, exact trace match: %s' % (
                    seed, kind, rr.get('digest') == rec['digest']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                sys.stdout.flush()
                return path
    return None


def write_evidence(pid, mod, tier, seed, aggs, wall, nv):
    dig = set()
    faults, probes, sites = {}, {}, set()
    samples = []
    groups = {}
    for g in aggs:
        dig.update((g['backend'], g['mode'], d) for d in g['digests'])
        for k, t in (('faults', faults), ('probes', probes)):
            for x, y in g[k].items():
                t[x] = t.get(x, 0) + y
        sites.update(g['sites'])
        samples.extend(g['samples'][:1])
        key = g['backend'] + '/' + g['mode']
        groups[key] = groups.get(key, 0) + g['n']
    n = sum(g['n'] for g in aggs)
    hours = max(wall, .001) / 3600
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(dig),
        'rule': (getattr(mod, 'RULE', '') + ' A run is non-trivial when at '
                 'least one fault actually fired or at least one preemption '
                 'was taken inside the code under test; distinct runs are '
                 'counted by the digest of their full event trace '
                 '(preemption points, fault points, operation results).'),
        'samples': samples[:6],
        'runs_per_hour': int(n / hours),
        'seeds_per_hour': int(n / hours),
        'runs_not_prepared': sum(g['skipped'] for g in aggs),
        'operations': sum(g['ops'] for g in aggs),
        'scheduler_points': sum(g['steps'] for g in aggs),
        'preemptions': sum(g['preempt'] for g in aggs),
        'simulated_seconds': round(sum(g['vtime'] for g in aggs), 3),
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_injection_sites': len(sites),
        'runs_by_backend_and_start': groups,
        'components_real': getattr(mod, 'REAL', REAL),
        'components_stubbed': getattr(mod, 'STUB', STUB),
        'oracle': getattr(mod, 'ORACLE', ''),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', ASSUME),
          'wall_s': round(wall, 3), 'violations': nv}
    path = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(path + '.tmp', path)


REAL = ['ndg.xacml core, context, parsers, finders, utils from /repo (every '
        'line)', 'lxml 6 or xml.etree, expat', 'CPython threads, logging, '
        'urllib request construction']
STUB = ['thread scheduler (which thread runs is decided by the seed)',
        'clock and sleep (virtual)', 'attribute source (PIP)',
        'policy streams', 'network (urllib opener)']
ASSUME = [
    'preemption at source-line boundaries of the library (bytecode '
    'boundaries in a fraction of runs); C code and stdlib code run '
    'atomically, as do module imports',
    'sampled, not exhaustive: a clean run is evidence, not proof']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
