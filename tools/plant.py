#!/usr/bin/env python3
"""plant.py ID...: verify the planted bugs /verif/seeded/ID in a scratch copy
of /repo: applies, compiles, keeps the stable tests passing, its demo passes
without it and fails with it.  With --check also runs the property's quick
check against the changed copy (DST_REPO)."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

SEED = '/verif/seeded'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8',
             PYTHONHASHSEED='0')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tests(d):
    passed = set()
    out = tempfile.mkdtemp()
    for v, pre in (('/opt/venv', 'lxml'), ('/opt/venv-nolxml', 'etree')):
        x = '%s/%s.xml' % (out, pre)
        sh([v + '/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
            '--timeout=300', '-o', 'junit_family=xunit2',
            '--continue-on-collection-errors',
            '--junit-prefix=' + pre, '--junitxml=' + x, 'ndg'], d)
        for tc in ET.parse(x).iter('testcase'):
            if not [c for c in tc if c.tag in ('failure', 'error', 'skipped')]:
                passed.add('%s::%s' % (tc.get('classname'), tc.get('name')))
    shutil.rmtree(out)
    return passed


def demo(ident, d):
    """The demo from elsewhere, in the directory of the tree."""
    t = tempfile.mkdtemp()
    f = os.path.join(t, 'demo')
    shutil.copytree(os.path.join(SEED, ident), f,
                    ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh(['bash', f + '/demo.sh'], d, timeout=300)
    shutil.rmtree(t)
    return r


def one(ident, check):
    meta = json.load(open('%s/%s/meta.json' % (SEED, ident)))
    d = tempfile.mkdtemp(prefix='plant-')
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    msg = []
    try:
        rc, out = demo(ident, r)
        if rc:
            msg.append('demo fails on the clean tree:\n' + out[-800:])
        rc, out = sh(['git', 'apply', '%s/%s/patch.diff' % (SEED, ident)], r)
        if rc:
            return 'does not apply: ' + out
        for v in ('/opt/venv', '/opt/venv-nolxml'):
            rc, out = sh([v + '/bin/python', '-W', 'ignore',
                          '/opt/vp/check_build.py'], r)
            if rc:
                msg.append('build: ' + out[-400:])
        rc, out = demo(ident, r)
        if not rc:
            msg.append('demo passes with the bug')
        miss = base() - tests(r)
        if miss:
            msg.append('breaks tests: %r' % sorted(miss)[:5])
        if check:
            rc, out = sh(['./check.sh', meta['property']], '/verif',
                         {'DST_REPO': r, 'VERIF_SEED': '1'})
            msg.append('check %s exit %d %s' % (
                meta['property'], rc, [x[:160] for x in out.splitlines()
                                       if x.startswith('violation:') or
                                       'VIOLATION' in x][:1]))
    finally:
        shutil.rmtree(d)
    return '; '.join(msg) or 'ok'


BASE = []


def base():
    if not BASE:
        BASE.append(tests('/repo'))
    return BASE[0]


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '--check']
    for i in args or sorted(os.listdir(SEED)):
        print(i, one(i, '--check' in sys.argv), flush=True)
