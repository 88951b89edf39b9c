"""Shared machinery: build the system under test from /repo's current tree in a scratch copy,
run an enumerated space of cases on it in isolated worker processes, compare each with its
reference model, write evidence, print VIOLATION / KNOWN-FINDING lines.

A check module (mc/checks/<id>.py) provides
    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> iterable of JSON-able cases, simplest first; the whole bounded space
    run(case, work)  -> Result
and optionally
    setup(sut)       -> called once in the parent before the workers are forked
    summarize(cov, results, tier) -> extra coverage entries
"""
import contextlib
import importlib
import json
import os
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GEMLOG_REPO', '/repo')
CASE_TIMEOUT = 60
MAX_VIOLATIONS = int(os.environ.get("MC_MAX", 25))


class Violation(Exception):
    """The real code broke the property on this case."""


class Result:
    """Outcome of one case.
    key:    canonical description of the behaviour reached (for distinct counting); None = trivial
    states: iterable of canonical model states visited
    transitions: number of model transitions replayed on the implementation
    violation: None or text; sig: stable identification of the failing case/site
    """

    def __init__(self, key=None, states=(), transitions=0, violation=None, sig=None, sample=None,
                 executions=1):
        self.key, self.states, self.transitions = key, list(states), transitions
        self.violation, self.sig, self.sample, self.executions = violation, sig, sample, executions


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


# ---------------------------------------------------------------------------------------------
_sut_dir = None


def build_sut():
    """Copy /repo's package into a scratch directory, compile its extension there, import it."""
    global _sut_dir
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['TZ'] = 'UTC'
    time.tzset()
    sys.dont_write_bytecode = True
    root = tempfile.mkdtemp(prefix='gemverif-')
    _sut_dir = root
    s = os.path.join(root, 'sut')
    os.mkdir(s)
    shutil.copytree(os.path.join(REPO, 'gemlog'), os.path.join(s, 'gemlog'),
                    ignore=shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.pyc'))
    for f in ('setup.py', 'README.md', 'MANIFEST.in', 'requirements-min.txt', 'pyproject.toml'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, s)
    env = dict(os.environ, CFLAGS='-O1 -w')
    r = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=s,
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise RuntimeError('building the scratch copy failed')
    sys.path.insert(0, s)
    os.environ['PYTHONPATH'] = s
    os.chdir(root)
    import gemlog
    here = os.path.realpath(gemlog.__file__)
    assert here.startswith(os.path.realpath(s) + os.sep), here
    import gemlog.parsers
    assert os.path.realpath(gemlog.parsers.__file__).startswith(os.path.realpath(s) + os.sep)
    return gemlog


def cleanup():
    if _sut_dir and os.path.basename(_sut_dir).startswith('gemverif-') and os.path.isdir(_sut_dir):
        os.chdir('/')
        shutil.rmtree(_sut_dir, ignore_errors=True)


# ---------------------------------------------------------------------------------------------
def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def exact(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n = struct.unpack('>I', exact(4))[0]
    return json.loads(exact(n))


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def run_case(mod, case, work):
    """-> JSON-able result dict; a Violation or any exception escaping from the code under test on an
    in-scope case is a violation, a HarnessError is an error of the check."""
    try:
        r = mod.run(case, work)
    except Violation as e:
        r = Result(violation=str(e), sig=getattr(e, 'sig', None))
    except HarnessError:
        raise
    except SystemExit as e:
        r = Result(violation='the code under test called sys.exit(%s)' % e.code)
    except Exception as e:
        # an exception escaping from the code under test, or a result of a shape the oracle cannot read
        r = Result(violation='unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    return dict(key=canon(r.key) if r.key is not None else None,
                states=sorted({canon(s) for s in r.states}), transitions=r.transitions,
                violation=r.violation, sig=r.sig, sample=r.sample, executions=r.executions)


class HarnessError(Exception):
    pass


def _worker(mod, rfd, wfd, scratch):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w') if not os.environ.get('MC_DEBUG') else sys.__stderr__
    import warnings
    warnings.simplefilter('ignore')
    while True:
        try:
            msg = _recv(rfd)
        except EOFError:
            os._exit(0)
        work = tempfile.mkdtemp(dir=scratch)
        os.chdir(work)
        try:
            res = run_case(mod, msg['case'], work)
        except BaseException:
            res = {'harness_error': traceback.format_exc()}
        os.chdir(scratch)
        shutil.rmtree(work, ignore_errors=True)
        res['i'] = msg['i']
        _send(wfd, res)


class Pool:
    def __init__(self, mod, n):
        self.mod = mod
        self.scratch = tempfile.mkdtemp(prefix='cases-', dir=_sut_dir)
        self.workers = [self._spawn() for _ in range(n)]

    def _spawn(self):
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        others = [fd for w in getattr(self, 'workers', []) for fd in (w['r'], w['w'])]
        pid = os.fork()
        if pid == 0:
            try:
                for fd in others + [pr, pw]:
                    with contextlib.suppress(OSError):
                        os.close(fd)
                os.setsid()
                _worker(self.mod, cr, cw, self.scratch)
            finally:
                os._exit(3)
        os.close(cw)
        os.close(cr)
        return dict(pid=pid, r=pr, w=pw, busy=None, t=0)

    def kill(self, w):
        with contextlib.suppress(OSError):
            os.killpg(w['pid'], signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(w['pid'], signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.waitpid(w['pid'], 0)
        for k in ('r', 'w'):
            with contextlib.suppress(OSError):
                os.close(w[k])

    def map(self, cases, timeout, on_result):
        """on_result(case, res) -> True to stop early.  Returns number of cases dispatched and whether
        the whole iterable was run."""
        it = enumerate(cases)
        pending = {}
        exhausted = stop = False
        while True:
            for k, w in enumerate(self.workers):
                while w['busy'] is None and not exhausted and not stop:
                    try:
                        i, case = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    pending[i] = case
                    w['busy'], w['t'] = i, time.time()
                    _send(w['w'], {'i': i, 'case': case})
            busy = [w for w in self.workers if w['busy'] is not None]
            if not busy:
                return exhausted and not stop
            ready, _, _ = select.select([w['r'] for w in busy], [], [], 1.0)
            now = time.time()
            for k, w in enumerate(self.workers):
                if w['busy'] is None:
                    continue
                res = None
                if w['r'] in ready:
                    try:
                        res = _recv(w['r'])
                    except EOFError:
                        res = dict(i=w['busy'], key=None, states=[], transitions=0, sig=None, sample=None,
                                   executions=1, violation='the process running this case died')
                        self.kill(w)
                        self.workers[k] = self._spawn()
                elif now - w['t'] > timeout:
                    res = dict(i=w['busy'], key=None, states=[], transitions=0, sig=None, sample=None,
                               executions=1, violation='did not terminate within %d s' % timeout)
                    self.kill(w)
                    self.workers[k] = self._spawn()
                if res is not None:
                    w['busy'] = None
                    stop = bool(on_result(pending.pop(res['i']), res)) or stop

    def close(self):
        for w in self.workers:
            self.kill(w)
        shutil.rmtree(self.scratch, ignore_errors=True)


# ---------------------------------------------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f['status'] == 'known']


def main(modname, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if 'thorough' in argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sut = build_sut()
    try:
        mod = importlib.import_module(modname)      # after the build: check modules import gemlog
        prop = mod.PROPERTY
        if hasattr(mod, 'setup'):
            mod.setup(sut)
        if '--replay' in argv:
            return replay(mod, argv[argv.index('--replay') + 1])
        return explore(mod, tier, seed, t0, prop)
    finally:
        cleanup()


def replay(mod, path):
    case = json.load(open(path))['case']
    work = tempfile.mkdtemp(dir=_sut_dir)
    os.chdir(work)
    res = run_case(mod, case, work)
    print(json.dumps(case, indent=1))
    if res['violation']:
        print('REPRODUCED:', res['violation'])
        return 1
    print('not reproduced: the property holds on this case')
    return 0


def explore(mod, tier, seed, t0, prop):
    known = known_findings(prop)
    agg = dict(n=0, exec=0, keys=set(), states=set(), trans=0, samples=[], known={}, errors=[])
    viol = []
    timeouts = [0]

    def on_result(case, res):
        if 'harness_error' in res:
            agg['errors'].append((case, res['harness_error']))
            return True
        agg['n'] += 1
        agg['exec'] += res['executions']
        agg['trans'] += res['transitions']
        agg['states'].update(res['states'])
        if res['violation']:
            for f in known:
                if res['sig'] is not None and res['sig'] in f['signatures']:
                    agg['known'].setdefault(f['id'], [f, 0])[1] += 1
                    return False
            viol.append((res['i'], case, res))
            if 'terminate' in res['violation']:
                timeouts[0] += 1
            return len(viol) >= MAX_VIOLATIONS or timeouts[0] >= 3
        if res['key'] is not None:
            if res['key'] not in agg['keys'] and len(agg['samples']) < 6 and (len(agg['keys']) % 37 == 0):
                agg['samples'].append(res['sample'] or {'case': case, 'outcome': json.loads(res['key'])})
            agg['keys'].add(res['key'])
        return False

    n = int(os.environ.get('MC_JOBS', '8'))
    pool = Pool(mod, n)
    complete = False
    try:
        complete = pool.map(mod.cases(tier), getattr(mod, 'TIMEOUT', CASE_TIMEOUT), on_result)
    finally:
        pool.close()
    if agg['errors']:
        case, tb = agg['errors'][0]
        print('HARNESS ERROR on case %s\n%s' % (canon(case), tb))
        return 2
    cov = dict(rule=mod.RULE, samples=agg['samples'] or [{'note': 'no case completed without violation'}],
               exhaustive=complete, evaluations=agg['exec'], distinct_nontrivial=len(agg['keys']))
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(agg['states']), transitions=agg['trans'],
                   traces_validated_against_impl=agg['n'])
    if hasattr(mod, 'BOUNDS'):
        cov['bounds'] = mod.BOUNDS.get(tier, mod.BOUNDS.get('quick')) if isinstance(mod.BOUNDS, dict) else mod.BOUNDS
    cov['known_findings_seen'] = {k: v[1] for k, v in agg['known'].items()}
    if not viol and len(agg['keys']) < getattr(mod, 'MIN_DISTINCT', 2):
        print('HARNESS ERROR: vacuous exploration, %d distinct behaviours' % len(agg['keys']))
        return 2
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for fid, (f, cnt) in sorted(agg['known'].items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, f['what'], cnt))
    print('%s %s: %d cases, %d executions, %d distinct behaviours, %d model states, %d transitions, '
          'exhaustive=%s, %.1f s' % (prop, tier, agg['n'], agg['exec'], len(agg['keys']),
                                     len(agg['states']), agg['trans'], complete, time.time() - t0))
    if viol:
        viol.sort(key=lambda v: v[0])
        d = os.path.join(VERIF, 'replays', prop)
        os.makedirs(d, exist_ok=True)
        for k, (i, case, res) in enumerate(viol[:int(os.environ.get("MC_SHOW", 5))]):
            p = os.path.join(d, 'violation_%d.json' % k)
            json.dump({'property': prop, 'case': case, 'violation': res['violation'], 'sig': res['sig'],
                       'replay_cmd': 'bash run.sh %s --replay %s' % (prop, p)}, open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('   case %s\n   %s' % (canon(case)[:600], res['violation'][:1500]))
        return 1
    return 0

