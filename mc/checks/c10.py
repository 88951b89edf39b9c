import hashlib
import os
import shutil

import gemlog

from mc import deploy, faults
from mc import gemgen as g
from mc.harness import HarnessError, Result, require

PROPERTY = 'C10'
LEVEL = 'fault_enumeration'
NEEDS_SHIM = True
TECHNIQUE = 'exhaustive enumeration of crash points, torn writes, failed writes and interrupts at every file-system operation'
LEVEL_NOTE = ('the real conversion is killed before, and inside, every file-system operation it makes in each history, or '
              'the operation fails or is interrupted; it is then run again and everything on disk is compared with an '
              'uninterrupted conversion. Operations complete in program order (no loss of data already written to the OS)')
RULE = ('a case is (history, output format, block size, fault kind, operation number, torn length); non-trivial = distinct '
        'state of the folders after the fault')
ASSUMPTIONS = ['a crash keeps all completed system calls (process death, not loss of the disk cache)']
BOUNDS = {'quick': 'one fault at every operation', 'thorough': 'one fault at every operation; every pair of crashes'}
HIST = ['one', 'blocks', 'incremental', 'repeat']
SN = '077'
_ops = {}
_ref = {}


def recordings(hist):
    fs = [{}, {'gap': 3.2}] if hist != 'blocks' else [{}, {'gap': 20, 'skip': 13}, {'gap': 0, 'skip': 12}]
    return deploy.build(fs, dur=13)[0]


def configs(tier):
    for fmt in ('MSEED', 'SAC', 'WAV') if tier == 'quick' else ('MSEED', 'SAC', 'WAV', 'TSPAIR'):
        for hist in HIST:
            if tier != 'quick' or fmt == 'MSEED' or hist in ('one', 'blocks'):
                yield hist, fmt, 1


def convert(fmt, block, raw='raw'):
    gemlog.convert(raw, SN=SN, convertedpath='out/conv', metadatapath='out/meta', gpspath='gps', output_format=fmt,
                   blockdays=block, file_length_hour=10 / 3600)


def prepare(hist, fmt, block):
    """the deployment, and the earlier conversions of the history"""
    recs = recordings(hist)
    if hist == 'incremental':
        deploy.write('raw', recs[:1])
        convert(fmt, block)
    deploy.write('raw', recs)
    if hist == 'repeat':
        convert(fmt, block)


def tree():
    out = {}
    for top in ('out', 'gps', 'raw'):
        for d, _, fs in os.walk(top):
            out[d + '/'] = ''
            for f in fs:
                out[os.path.join(d, f)] = open(os.path.join(d, f), 'rb').read()
    return out


def setup(sut):
    import tempfile
    here = os.getcwd()
    for hist, fmt, block in configs('thorough'):
        d = tempfile.mkdtemp(dir=here)
        os.chdir(d)
        pid = os.fork()     # keep this process's state clean
        if pid == 0:
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            try:
                prepare(hist, fmt, block)
                rc, text, ops = faults.count(lambda: convert(fmt, block))
                open('n', 'w').write('\n'.join('%s %s' % (o[0], o[1]) for o in ops))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        _ops[hist, fmt, block] = [x.split() for x in open('n').read().split('\n')] if os.path.exists('n') else []
        os.chdir(here)
        shutil.rmtree(d)


def cases(tier):
    for hist, fmt, block in configs(tier):
        ops = _ops[hist, fmt, block]
        base = dict(hist=hist, fmt=fmt, block=block)
        if not ops:
            yield dict(base, faults=[])     # conversion itself fails or writes nothing: reported there
            continue
        for k in range(len(ops) + 1):
            yield dict(base, faults=[['kill', k, 0]])
            yield dict(base, faults=[['intr', k, 0]])
            yield dict(base, faults=[['error', k, 0]])
            yield dict(base, faults=[['error_all', k, 0]])
            if k < len(ops) and int(ops[k][1]) > 0:
                for param in (0, 1, 2):
                    yield dict(base, faults=[['torn', k, param]])
        if tier != 'quick':
            for k in range(len(ops)):
                for j in range(len(ops) + 1):
                    for m1, m2 in (('kill', 'kill'), ('torn', 'kill'), ('intr', 'torn')):
                        if fmt in ('MSEED', 'WAV'):
                            yield dict(base, faults=[[m1, k, 1], [m2, j, 1]])


def reference(case):
    key = (case['hist'], case['fmt'], case['block'])
    if key not in _ref:
        os.makedirs('refdir')
        os.chdir('refdir')
        prepare(*key)
        before = tree()
        convert(case['fmt'], case['block'])
        after = tree()
        os.chdir('..')
        shutil.rmtree('refdir')
        require(set(before) <= set(after), 'conversion removed files')
        newlogs = {k: after[k] for k in after if k not in before and ('gps/' in k or 'out/meta' in k) and after[k]}
        _ref[key] = after, newlogs
    return _ref[key]


def log_kind(name):
    return 'gps' if 'gps/' in name else 'meta'


def first_unused(before, kind):
    n = 0
    while True:
        name = ('gps/%sgps_%03d.txt' if kind == 'gps' else 'out/meta/%smetadata_%03d.txt') % (SN, n)
        if name not in before:
            return name
        n += 1


def run(case, work):
    ref, newlogs = reference(case)
    require(sorted(log_kind(k) for k in newlogs) == ['gps', 'meta'], lambda: 'new logs %s' % sorted(newlogs))
    logs = {log_kind(k): v for k, v in newlogs.items()}
    fmt, block = case['fmt'], case['block']
    os.makedirs('w')
    os.chdir('w')
    prepare(case['hist'], fmt, block)
    start = tree()
    oldlogs = {k: v for k, v in start.items() if v and ('gps/' in k or 'out/meta' in k)}
    states = []
    for kind, k, param in case['faults']:
        rc, text = faults.wait(faults.child(lambda: convert(fmt, block), faults.MODES[kind], k, param))
        if rc not in (0, 1, 77, -2):
            require(False, 'conversion with a fault ended with status %d' % rc)
        t = tree()
        states.append([rc, sorted((n, len(v)) for n, v in t.items() if not n.startswith('raw'))])
        for n, v in start.items():
            if n.startswith('raw'):
                require(t.get(n) == v, 'a raw file was changed: ' + n)
        require(set(n for n in t if n.startswith('raw')) == set(n for n in start if n.startswith('raw')),
                'files were added to the raw folder')
        for n, v in oldlogs.items():
            require(t.get(n) == v, 'log of an earlier conversion changed: ' + n)
        if rc == 0 and kind in ('error', 'error_all', 'intr'):
            # it claims success although an operation failed
            for n in ref:
                if 'out/conv' in n:
                    require(t.get(n) == ref[n], 'a failed write went unnoticed: %s is incomplete after a conversion that '
                            'ended normally' % n)
        oldlogs = {n: v for n, v in t.items() if v and ('gps/' in n or 'out/meta' in n)}
    before = tree()
    convert(fmt, block)
    after = tree()
    for n, v in before.items():
        if n.startswith('raw') or 'gps/' in n or 'out/meta' in n:
            require(after.get(n) == v, 'running again changed ' + n)
    a = {n: v for n, v in after.items() if 'out/conv' in n}
    b = {n: v for n, v in ref.items() if 'out/conv' in n}
    require(a == b, lambda: 'converted files after running again differ from an uninterrupted conversion: %s' %
            sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n)))
    for kind in ('gps', 'meta'):
        n = first_unused(before, kind)
        require(n in after, lambda: 'no new log %s' % n)
        require(after[n] == logs[kind], 'log %s after running again is not complete' % n)
    extra = {n for n in after if n not in before and n not in a and not n.endswith('/')}
    require(extra == {first_unused(before, 'gps'), first_unused(before, 'meta')}, lambda: 'unexpected files: %s' % extra)
    return Result(key=[case['hist'], fmt, hashlib.md5(repr(states).encode()).hexdigest()], states=[], transitions=1,
                  executions=len(case['faults']) + 1)
