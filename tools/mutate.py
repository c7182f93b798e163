"""Mutation survey of the checks (development aid, no check uses it).

mutate.py list            counts the mutants
mutate.py run OUT [k n]   runs the k-th of n parts; a line of json per mutant

Each mutant is one small change of a handler module in a scratch copy of
/repo. The scenarios of all checks run on it, thinned out, until the first
violation; survivors are then given to the repository's tests."""
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
FILES = ['NRWAL/handlers/config.py', 'NRWAL/handlers/equations.py',
         'NRWAL/handlers/groups.py', 'NRWAL/handlers/directories.py',
         'NRWAL/utilities/utilities.py']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.BitOr: '&'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()) + 1)
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, '{}:{} {} -> {}'.format(
                n.lineno, what, raw[a:b].decode()[:90].replace('\n', ' '),
                new[:90].replace('\n', ' '))))

    def skip(n):
        t = text(n)
        return 'logger' in t or t.startswith('msg')

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '{} {} {}'.format(text(n.left), CMP[type(n.ops[0])],
                                     text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o.join(rest) + ')', 'drop')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, 'True' if isinstance(n, ast.IfExp) or
                not isinstance(n, ast.While) else text(n.test), 'cond')
            add(n.test, 'False', 'cond')
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'filter')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not isinstance(n.left, ast.Constant) or not isinstance(
                    n.left.value, str):
                add(n, '{} {} {}'.format(text(n.left), BIN[type(n.op)],
                                         text(n.right)), 'bin')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '({})'.format(text(n.operand)), 'not')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'flip')
            elif isinstance(n.value, (int, float)):
                add(n, repr(n.value + 1), 'const')
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 and all(
                isinstance(e, ast.Constant) for e in n.elts):
            o, c = ('(', ',)') if isinstance(n, ast.Tuple) else ('[', ']')
            for i in range(len(n.elts)):
                add(n, o + ', '.join(text(e) for j, e in enumerate(n.elts)
                                     if j != i) + c, 'elt')
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('copy.deepcopy', 'sorted', 'str', 'list', 'float',
                     'bool', 'set') and len(n.args) == 1:
                add(n, text(n.args[0]), 'unwrap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'strip', 'lower', 'upper', 'lstrip', 'rstrip',
                    'flatten', 'replace', 'to_numpy', 'astype'):
                add(n, text(n.func.value), 'unwrap')
            if n.keywords and 'logger' not in f:
                for k in n.keywords:
                    if k.arg:
                        a, b = span(k)
                        # remove with the comma before or after
                        t = raw[:a].rstrip()
                        if t.endswith(b','):
                            a = len(t) - 1
                        else:
                            while raw[b:b + 1] in (b',', b' ', b'\n'):
                                b += 1
                        out.append((a, b, '', '{}:kw {} in {}'.format(
                            n.lineno, k.arg, f)))
        if isinstance(n, ast.Slice):
            add(n, ':', 'slice')
        if isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(
                n, ast.Assign):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if skip(n):
                continue
            add(n, 'pass', 'del')
        if isinstance(n, (ast.Raise, ast.Assert)):
            add(n, 'pass', 'del')
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'del')
    seen, res = set(), []
    for a, b, new, what in out:
        if (a, b, new) in seen:
            continue
        seen.add((a, b, new))
        m = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            compile(m, 'm', 'exec')
        except SyntaxError:
            continue
        res.append((what, m))
    return res


def all_mutants():
    out = []
    for fn in FILES:
        src = open(os.path.join('/repo', fn)).read()
        for what, m in mutants(src):
            out.append((fn, what, m))
    return out


RUN = r'''
import importlib, os, sys, time, json, resource, logging
sys.path.insert(0, {verif!r})
resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
from nrwalv import core
core.CASE_CPU_S = 60
try:
    core.load_nrwal()
except BaseException as e:
    print('KILLED import', repr(e)[:200]); sys.exit(1)
import tempfile, shutil
step = int(sys.argv[1])
order = sys.argv[2:] or ['C%02d' % i for i in (
    1, 6, 5, 21, 22, 8, 9, 3, 4, 2, 10, 11, 7, 13, 14, 15, 16, 12, 18, 20, 23, 19, 17)]
for p in order:
    mod = importlib.import_module('nrwalv.' + p.lower())
    scratch = tempfile.mkdtemp(prefix='mutrun_')
    try:
        try:
            if hasattr(mod, 'setup'):
                mod.setup()
        except BaseException as e:
            print('KILLED', p, 'setup', repr(e)[:200]); sys.exit(1)
        for name, fun, q, t in mod.SCENARIOS:
            ctx = core.Ctx(p, 'quick', 1, scratch)
            n = 0
            for i in range(0, q, q // 3 if (p, name) == ('C17', 'configs')
                           else min(step, max(1, q // 4))):
                v = core.run_case(ctx, name, fun, i)
                if v is not None:
                    print('KILLED', p, name, v['kind'], v['detail'][:200])
                    sys.exit(1)
            if ctx.known and p != 'C07':
                print('KILLED', p, name, ctx.known); sys.exit(1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
print('SURVIVED')
'''


def main():
    ms = all_mutants()
    if sys.argv[1] == 'list':
        print(len(ms))
        return
    out, k, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    step = sys.argv[5] if len(sys.argv) > 5 else '32'
    scratch = tempfile.mkdtemp(prefix='mutate_')
    copy = os.path.join(scratch, 'repo')
    shutil.copytree('/repo', copy, symlinks=True,
                    ignore=shutil.ignore_patterns('.git'))
    runner = os.path.join(scratch, 'run.py')
    open(runner, 'w').write(RUN.replace('{verif!r}', repr(VERIF)))
    env = dict(os.environ, NRWAL_REPO=copy, PYTHONDONTWRITEBYTECODE='1',
               OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    done = set()
    if os.path.exists(out):
        done = {(json.loads(x)['file'], json.loads(x)['what'])
                for x in open(out)}
    try:
        for i in range(k, len(ms), n):
            fn, what, m = ms[i]
            if (fn, what) in done:
                continue
            fp = os.path.join(copy, fn)
            orig = open(fp).read()
            open(fp, 'w').write(m)
            try:
                r = subprocess.run([PY, '-B', runner, step], env=env, cwd=scratch,
                                   capture_output=True, text=True,
                                   timeout=3000)
                res = (r.stdout.strip().split('\n') or [''])[-1]
                if not res:
                    res = 'KILLED crash ' + r.stderr[-200:]
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT'
            tests = None
            if res == 'SURVIVED':
                t = subprocess.run(
                    [PY, '-m', 'pytest', '-q', '-x', 'tests', '-p',
                     'no:cacheprovider'], cwd=copy,
                    env=dict(env, PYTHONPATH=copy), capture_output=True,
                    text=True)
                tests = t.returncode == 0
            open(fp, 'w').write(orig)
            with open(out, 'a') as f:
                f.write(json.dumps({'i': i, 'file': fn, 'what': what,
                                    'result': res, 'tests': tests}) + '\n')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
