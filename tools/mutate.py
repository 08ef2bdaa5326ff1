#!/usr/bin/env python3
"""mutate.py gen OUT.json [N SEED FILE...] | run OUT.json [SCALE]

Sensitivity measurement.  gen: makes small syntactic changes to the library,
keeps those with which the stable tests still pass.  run: runs the claimed
checks on each until one raises an alarm and notes which did (or none)."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant      # noqa: E402

REPO = '/repo'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ('/test/', '/functions/v1/', '/functions/v2/', 'obligation.py',
        'variable', 'exceptions.py')


def files():
    out = subprocess.check_output(['git', 'ls-files', 'ndg'], cwd=REPO,
                                  text=True).split()
    return [f for f in out if f.endswith('.py') and
            not any(s in '/' + f for s in SKIP)]


CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is', ast.Lt: '<=', ast.Gt: '>=',
       ast.LtE: '<', ast.GtE: '>'}


def islog(node):
    return (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and
            isinstance(node.value.func, ast.Attribute) and
            isinstance(node.value.func.value, ast.Name) and
            node.value.func.value.id == 'log')


def mutants(path):
    """(start, end, new text, what) byte edits of a file."""
    with open(os.path.join(REPO, path)) as fh:
        src = fh.read()
    lines = [0]
    for ln in src.splitlines(True):
        lines.append(lines[-1] + len(ln))

    def span(n):
        return (lines[n.lineno - 1] + len(src.splitlines()[n.lineno - 1]
                .encode()[:n.col_offset].decode()),
                lines[n.end_lineno - 1] + len(
                    src.splitlines()[n.end_lineno - 1].encode()
                    [:n.end_col_offset].decode()))
    out = []

    def add(n, text, what):
        a, b = span(n)
        out.append((a, b, text, '%s %s:%d' % (what, path, n.lineno)))

    def text(n):
        a, b = span(n)
        return src[a:b]
    tree = ast.parse(src)
    infunc = []

    def visit(n, fn, inraise):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
        if islog(n):
            return
        if fn:
            if isinstance(n, ast.If) and not inraise:
                only_raise = all(isinstance(x, ast.Raise) for x in n.body)
                istype = 'isinstance' in text(n.test) and only_raise
                if not istype:
                    add(n.test, 'not (%s)' % text(n.test), 'negate')
                    if only_raise:
                        add(n.test, 'False', 'norefusal')
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and not inraise:
                op = CMP.get(type(n.ops[0]))
                if op and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE,
                                             ast.GtE, ast.Eq, ast.In):
                    add(n, '%s %s %s' % (text(n.left), op,
                                         text(n.comparators[0])), 'compare')
            if isinstance(n, ast.BoolOp):
                w = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + w.join('(%s)' % text(v) for v in n.values) + ')',
                    'boolop')
            if isinstance(n, ast.Constant) and n.value in (True, False) and \
                    isinstance(n.value, bool):
                add(n, str(not n.value), 'bool')
            if isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, str(n.value + 1), 'int')
            if isinstance(n, ast.Return) and n.value is not None and \
                    not isinstance(n.value, ast.Constant):
                add(n.value, 'None', 'return')
            if isinstance(n, ast.Break):
                add(n, 'pass', 'break')
            if isinstance(n, ast.Continue):
                add(n, 'pass', 'continue')
            if isinstance(n, ast.Raise) and n.exc is None:
                add(n, 'pass', 'noraise')
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, 'pass', 'nocall')
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, (ast.Attribute, ast.Subscript)) or \
                        isinstance(n, ast.AugAssign):
                    add(n, 'pass', 'noassign')
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                add(n.type, 'ZeroDivisionError', 'noexcept')
                if text(n.type) == 'Exception':
                    add(n.type, 'BaseException', 'base')
                else:
                    add(n.type, 'Exception', 'wide')
            if isinstance(n, ast.Try) and n.finalbody:
                for x in n.finalbody:
                    add(x, 'pass', 'nofinally')
            if isinstance(n, ast.With) and len(n.body):
                add(n.items[0].context_expr,
                    '__import__("contextlib").nullcontext(%s)' %
                    text(n.items[0].context_expr), 'nowith')
            if isinstance(n, ast.For):
                add(n.iter, 'list(%s)[:-1]' % text(n.iter), 'notlast')
                add(n.iter, 'list(%s)[::-1]' % text(n.iter), 'reverse')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('strip', 'copy', 'lower', 'close') \
                    and not n.args:
                add(n, text(n.func.value), 'nomethod')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ('list', 'tuple', 'dict', 'set') and \
                    len(n.args) == 1:
                add(n, text(n.args[0]), 'nocopy')
        for c in ast.iter_child_nodes(n):
            visit(c, fn, inraise or isinstance(n, ast.Raise))
    visit(tree, None, False)
    return src, out


def apply(path, m, root):
    with open(os.path.join(REPO, path)) as fh:
        src = fh.read()
    with open(os.path.join(root, path), 'w') as fh:
        fh.write(src[:m[0]] + m[2] + src[m[1]:])


def survives(job):
    path, m = job
    d = tempfile.mkdtemp(prefix='mut-')
    r = d + '/repo'
    try:
        subprocess.check_call(['cp', '-a', REPO, r])
        apply(path, m, r)
        for v in ('/opt/venv', '/opt/venv-nolxml'):
            rc, out = plant.sh([v + '/bin/python', '-W', 'ignore',
                                '/opt/vp/check_build.py'], r)
        try:
            ok = not (plant.base() - plant.tests(r))
        except Exception:
            ok = False
        return path, m, ok
    finally:
        shutil.rmtree(d)


def gen(out, n, seed, only):
    pool = []
    for f in files():
        if only and not any(o in f for o in only):
            continue
        try:
            src, ms = mutants(f)
        except SyntaxError:
            continue
        for m in ms:
            try:
                ast.parse(src[:m[0]] + m[2] + src[m[1]:])
            except SyntaxError:
                continue
            pool.append((f, m))
    print(len(pool), 'mutants')
    random.Random(seed).shuffle(pool)
    plant.base()
    got = []
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for i, (f, m, ok) in enumerate(ex.map(survives, pool[:n])):
            if ok:
                got.append((f, m))
            if i % 20 == 0:
                print(i, len(got), flush=True)
                json.dump(got, open(out, 'w'))
    json.dump(got, open(out, 'w'))
    print('survive the tests:', len(got))


def run(out, scale):
    got = json.load(open(out))
    claims = [c['property'] for c in json.load(
        open(ROOT + '/MANIFEST.json'))['checks']]
    hits = {}
    res = {}
    log = out + '.log'
    if os.path.exists(log):
        for ln in open(log):
            x = json.loads(ln)
            res[x['what']] = x
    for f, m in got:
        if m[3] + m[2] in res:
            continue
        d = tempfile.mkdtemp(prefix='mut-')
        r = d + '/repo'
        subprocess.check_call(['cp', '-a', REPO, r])
        apply(f, m, r)
        order = sorted(claims, key=lambda c: -(hits.get((f, c), 0) * 10 +
                                               hits.get(c, 0)))
        by = None
        for c in order:
            try:
                rc, o = plant.sh(['./check.sh', c], ROOT, {
                    'DST_REPO': r, 'VERIF_SEED': '1', 'DST_SCALE': scale,
                    'DST_NOSHRINK': '1'}, timeout=300)
            except subprocess.TimeoutExpired:
                rc, o = 3, 'timeout'
            if rc == 1:
                v = [x for x in o.splitlines() if x.startswith('violation:')]
                by = [c, (v or [''])[0][:160]]
                hits[f, c] = hits.get((f, c), 0) + 1
                hits[c] = hits.get(c, 0) + 1
                break
            if rc:
                by = [c, 'rc %d %s' % (rc, o[-300:])]
        shutil.rmtree(d)
        with open(log, 'a') as fh:
            fh.write(json.dumps({'what': m[3] + m[2], 'by': by}) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        a = sys.argv[3:]
        gen(sys.argv[2], int(a[0]) if a else 200, int(a[1]) if a[1:] else 1,
            a[2:])
    else:
        run(sys.argv[2], sys.argv[3] if sys.argv[3:] else '0.4')
