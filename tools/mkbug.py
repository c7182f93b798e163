"""Builds seeded/<id>/ from tools/bugs.py and confirms each planted bug in a
scratch copy: applies, changes original lines, passes the tests, demo fails
with it and passes without it. Then runs the check of its property on the copy.

usage: mkbug.py [--check] [--all-checks] [ids...]"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
BASE = 'b03300e'
sys.path.insert(0, HERE)
from bugs import BUGS  # noqa

DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def build(bug, scratch):
    copy = os.path.join(scratch, bug['id'])
    shutil.copytree('/repo', copy, symlinks=True)
    for fn, old, new in bug['edits']:
        fp = os.path.join(copy, fn)
        s = open(fp).read()
        assert s.count(old) == 1, (bug['id'], fn, s.count(old), old)
        open(fp, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff', '--no-color'], copy).stdout
    # at least one removed line comes from the original repository
    orig = total = 0
    for fn in {e[0] for e in bug['edits']}:
        blame = sh(['git', 'blame', '-s', 'HEAD', '--', fn], copy).stdout
        lines = blame.split('\n')
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(
                ['git', 'diff', '-U0', '--', fn], copy).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            total += n
            orig += sum(1 for x in lines[a - 1:a - 1 + n]
                        if x.lstrip('^').startswith(BASE))
    assert orig, bug['id'] + ': no original line changed'
    out = os.path.join(VERIF, 'seeded', bug['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    open(os.path.join(out, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
    json.dump({'property': bug['property'], 'needs': bug['needs'],
               'what_it_breaks': bug['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    print('{}: {} of {} replaced lines are original'.format(
        bug['id'], orig, total))
    return copy, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    scratch = tempfile.mkdtemp(prefix='mkbug_')
    bad = 0
    try:
        work = []
        for bug in BUGS:
            if args and bug['id'] not in args:
                continue
            try:
                copy, out = build(bug, scratch)
            except AssertionError as e:
                print('NOT BUILT', bug['id'], e)
                bad += 1
                continue
            t = None
            if '--no-tests' not in sys.argv:
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                           OMP_NUM_THREADS='1', PYTHONPATH=copy)
                t = subprocess.Popen(
                    [PY, '-m', 'pytest', '-q', '-x', 'tests', '-p',
                     'no:cacheprovider', '--timeout=600'], cwd=copy, env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True)
            work.append((bug, copy, out, t))
            if len(work) % 7 == 0 and t is not None:
                for w in work[-7:]:
                    w[3].wait()
        for bug, copy, out, t in work:
            msg = [bug['id'], bug['property']]
            if t is not None:
                o = t.communicate()[0]
                ok = ' passed' in o and ' failed' not in o and 'error' not in \
                    o.split('\n')[-2]
                msg.append('tests ' + ('ok' if ok else 'FAIL'))
                if not ok:
                    bad += 1
                    print('\n'.join(x for x in o.split('\n') if 'FAILED' in x))
            a = sh(['bash', os.path.join(out, 'demo.sh')], '/repo')
            b = sh(['bash', os.path.join(out, 'demo.sh')], copy)
            msg.append('demo clean {} patched {}'.format(
                a.returncode, b.returncode))
            if a.returncode or not b.returncode:
                bad += 1
                msg.append('BAD DEMO')
                print(a.stdout[-800:], a.stderr[-1500:], b.stdout[-500:])
            if '--check' in sys.argv or '--all-checks' in sys.argv:
                props = [bug['property']] if '--all-checks' not in sys.argv \
                    else ['C%02d' % i for i in range(1, 21)]
                for p in props:
                    r = sh([PY, '-B', 'run.py', p], VERIF, env=dict(
                        os.environ, NRWAL_REPO=copy, VERIF_SEED='1',
                        VERIF_TIER='quick', NRWALV_NO_EVIDENCE='1'))
                    hit = 'VIOLATION property=' + p in r.stdout
                    msg.append('{} {}'.format(
                        p, 'CAUGHT' if r.returncode == 1 and hit
                        else 'missed' if r.returncode == 0 else
                        'rc{}'.format(r.returncode)))
            print('  '.join(msg), flush=True)
            shutil.rmtree(copy, ignore_errors=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(main())
