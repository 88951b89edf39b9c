"""Create /verif/seeded/<id> from a spec and verify it in a scratch copy of /repo.

usage: mkseed.py SPEC.py [id ...]
A spec is a Python file with SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, gen=bool)].
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('GEMLOG_REPO', '/repo')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD:$here" MPLBACKEND=Agg TZ=UTC PYTHONDONTWRITEBYTECODE=1
work="$(mktemp -d)" || exit 2
trap 'cd /; rm -rf "$work"' EXIT
cd "$work" || exit 2
/opt/venv/bin/python -W ignore "$here/demo.py" > log.txt 2>&1
rc=$?
tail -5 log.txt
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    d = os.path.join(VERIF, 'seeded', spec['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch = tempfile.mkdtemp(prefix='seedmk-')
    try:
        r = os.path.join(scratch, 'repo')
        sh(['cp', '-a', REPO, r])
        for fn, old, new in spec['edits']:
            p = os.path.join(r, fn)
            s = open(p).read()
            assert s.count(old) == 1, (spec['id'], fn, 'matches', s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', r, 'diff']).stdout
        assert diff.strip()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        if spec.get('gen', True):
            shutil.copy(os.path.join(VERIF, 'mc', 'gemgen.py'), d)
            shutil.copy(os.path.join(HERE, 'seedlib.py'), d)
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # verification
        out = []
        a = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
        out.append('clean demo rc=%d' % a.returncode)
        env = dict(os.environ, PYTHONPATH=r, CFLAGS='-O1 -w', MPLBACKEND='Agg', TZ='UTC', PYTHONHASHSEED='0')
        if any(fn.endswith('.pyx') for fn, _, _ in spec['edits']):
            b = sh([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=r, env=env)
            assert b.returncode == 0, b.stdout[-2000:]
        b = sh(['bash', os.path.join(d, 'demo.sh')], cwd=r)
        out.append('patched demo rc=%d' % b.returncode)
        # stable tests, in the scratch copy
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = list(base['stable'])
        x = os.path.join(scratch, 'j.xml')
        t = sh([PY, '-m', 'pytest', 'tests', '-q', '--tb=short', '-p', 'no:cacheprovider', '--timeout=300',
                '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + x], cwd=r, env=env)
        o = os.path.join(scratch, 'o.json')
        sh(['python3', '/opt/vp/results.py', o, 'junit:' + x])
        passed = json.load(open(o))['passed']
        missing = [s for s in stable if s not in passed]
        out.append('missing stable: %s' % missing)
        ok = a.returncode == 0 and b.returncode != 0 and not missing
        print(('OK   ' if ok else 'BAD  ') + spec['id'], '; '.join(out))
        if not ok or '-v' in sys.argv:
            print('   clean:', a.stdout[-600:])
            print('   patched:', b.stdout[-600:])
        return ok
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ProcessPoolExecutor
    args = [a for a in sys.argv[1:] if a != '-v']
    seeds = runpy.run_path(args[0])['SEEDS']
    if args[1:]:
        seeds = [s for s in seeds if s['id'] in args[1:]]
    with ProcessPoolExecutor(4) as pool:
        list(pool.map(make, seeds))
