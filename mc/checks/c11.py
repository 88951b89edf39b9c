import hashlib
import itertools
import os
import shutil

import gemlog
import gemlog.gemconvert

from mc import deploy, faults
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C11'
LEVEL = 'model_checking'
NEEDS_SHIM = True
TECHNIQUE = 'preemption-bounded exploration of all schedules of two conversions at file-system operations, on the real code'
LEVEL_NOTE = ('two conversions run as separate processes under a controlled scheduler that decides, before every file-system '
              'operation outside the raw folder, which of them goes on; every schedule within the preemption bound is run. '
              'Process-pool runs with 1-4 processes and every subset of failing Gems are compared with serial conversion')
RULE = ('a case is (first process, lengths of the alternating runs, initial folders, format), or (number of processes, set '
        'of Gems, which fail, order); non-trivial = distinct interleaving executed')
ASSUMPTIONS = ['file-system operations of one process are atomic with respect to the other']
BOUNDS = {'quick': 'all schedules with at most 2 preemptions (fresh folders), 1 (existing folders); pools of up to 3 Gems',
          'thorough': 'all schedules with at most 3 preemptions; pools of up to 4 Gems'}
SNS = ['061', '123', '077', '200']
_n = {}


def recordings(i):
    return deploy.build([{}, {'gap': 2.5 * i, 'reboot': bool(i)}], phase=0.25 * i, start='plain')[0]


def write_raw(sns, bad=()):
    os.makedirs('raw')
    for sn in sns:
        i = SNS.index(sn)
        if sn in bad:
            for n in (0, 1):
                g.write('raw/FILE%04d.%s' % (n, sn), g.header('0.91', sn) + ['P,1'])
        else:
            deploy.write('raw', recordings(i), sn)


def conv(sn, where='', fmt='MSEED', lay='nested'):
    p = {'nested': ('out/conv', 'out/meta', 'gps'), 'one': ('out', 'out', 'out')}[lay]
    gemlog.convert('raw', SN=sn, convertedpath=where + p[0], metadatapath=where + p[1], gpspath=where + p[2],
                   output_format=fmt, file_length_hour=10 / 3600)


def exist(kind, where=''):
    if kind == 'some':
        os.makedirs(where + 'out')
    elif kind == 'all':
        for d in ('out/conv', 'out/meta', 'gps'):
            os.makedirs(where + d)
        open(where + 'gps/061gps_000.txt', 'w').write('old')
        open(where + 'out/meta/061metadata_000.txt', 'w').write('old')


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top or '.'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), top or '.')
            if not p.startswith(('raw', 'ref', 'gemconvert_logfile', 'child_error')):
                out[p] = open(os.path.join(d, f), 'rb').read()
    return out


def setup(sut):
    """number of operations of one conversion, per configuration"""
    import tempfile
    here = os.getcwd()
    for fresh, lay in (('none', 'nested'), ('some', 'nested'), ('all', 'nested'), ('none', 'one')):
        d = tempfile.mkdtemp(dir=here)
        os.chdir(d)
        pid = os.fork()
        if pid == 0:
            try:
                os.dup2(os.open(os.devnull, os.O_RDWR), 1)
                write_raw(['061'])
                exist(fresh)
                _, _, n = faults.schedule([lambda: conv('061', lay=lay), lambda: None], 0, [])
                open('n', 'w').write(str(n[0]))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        _n[fresh, lay] = int(open('n').read()) if os.path.exists('n') else 30
        os.chdir(here)
        shutil.rmtree(d)


def cases(tier):
    for fresh, lay in (('none', 'nested'), ('some', 'nested'), ('all', 'nested'), ('none', 'one')):
        n = _n[fresh, lay] + 2
        k = 2 if (fresh, lay) in (('none', 'nested'), ('none', 'one')) else 1
        if tier != 'quick':
            k += 1
        for first in (0, 1):
            for m in range(k + 1):
                for cuts in itertools.product(range(1 if m else 0, n), repeat=m):
                    if m == 2 and tier == 'quick' and lay == 'one' and sum(cuts) % 2:
                        continue
                    if m == 3 and max(cuts) > 14:
                        continue        # folder creation and numbering lie within the first operations
                    yield dict(kind='sched', first=first, cuts=list(cuts), exist=fresh, lay=lay)
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for n in ns:
        for sns in itertools.permutations(SNS[:n]):
            for r in range(n + 1):
                for bad in itertools.combinations(sns, r):
                    for par in (1, 2, 4):
                        yield dict(kind='pool', sns=list(sns), bad=list(bad), par=par)


_ref = {}


def run(case, work):
    if case['kind'] == 'pool':
        return run_pool(case)
    write_raw(SNS[:2])
    key = (case['exist'], case['lay'])
    if key not in _ref:
        for first in (0, 1):
            w = 'ref%d/' % first
            exist(case['exist'], w)
            for i in (first, 1 - first):
                conv(SNS[i], w, lay=case['lay'])
        _ref[key] = tree('ref0')
        require(_ref[key] == tree('ref1'), 'the result depends on the order of conversion')
        shutil.rmtree('ref0')
        shutil.rmtree('ref1')
    exist(case['exist'])
    res, trace, n = faults.schedule([lambda: conv(SNS[0], lay=case['lay']), lambda: conv(SNS[1], lay=case['lay'])],
                                    case['first'], case['cuts'])
    for i, (rc, text) in enumerate(res):
        require(rc == 0, lambda: 'schedule %s: conversion of %s failed (status %d): %s' % (
            ''.join(map(str, trace)), SNS[i], rc, text[-800:]))
    t, ref = tree(''), _ref[key]
    require(t == ref, lambda: 'schedule %s: differs from serial conversion: %s' % (
        ''.join(map(str, trace)), sorted(x for x in set(t) | set(ref) if t.get(x) != ref.get(x))))
    return Result(key=[key, trace], states=[[key, sum(trace[:i]), i - sum(trace[:i])] for i in range(len(trace) + 1)],
                  transitions=len(trace))


def run_pool(case):
    write_raw(case['sns'], case['bad'])
    want = {}
    for sn in case['sns']:
        if sn in case['bad']:
            continue
        gemlog.convert('raw', SN=sn, convertedpath='ref/' + sn + '/mseed', metadatapath='ref/' + sn + '/metadata',
                       gpspath='ref/' + sn + '/gps', file_length_hour=0.1)
        t = tree('ref/' + sn)
        require(not set(t) & set(want), 'two Gems write the same file: %s' % (set(t) & set(want)))
        want.update(t)
    shutil.rmtree('ref', ignore_errors=True)
    gemlog.gemconvert.main(['-i', 'raw', '-s', ','.join(case['sns']), '-l', '0.1', '-p', str(case['par'])])
    got = tree('')
    require(got == want, lambda: 'parallel=%d differs from converting one at a time: %s' % (
        case['par'], sorted(x for x in set(got) | set(want) if got.get(x) != want.get(x))))
    return Result(key=['pool', case['sns'], case['bad'], case['par']], states=[[case['sns'], case['bad']]],
                  transitions=len(case['sns']))
