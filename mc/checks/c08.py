import itertools
import os

import gemlog
import numpy as np
import obspy

from mc import deploy, oracle
from mc import gemgen as g
from mc.harness import Result, Violation, require

PROPERTY = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of limit pairs and file-number subsets, differential against the unlimited conversion'
LEVEL_NOTE = ('every pair of limits from a list of critical points of a fixed deployment (whole-second, sub-sample, file, '
              'gap, output-file and block boundaries), as time objects and floats, and every subset of file numbers, '
              'is converted by the real code and compared sample by sample with the unlimited conversion and the ramp truth')
RULE = ('a case is (deployment, start limit, end limit, type of limit, block size, output length) or (deployment, set of '
        'file numbers, way of giving it); non-trivial = distinct output runs')
ASSUMPTIONS = ['with no start limit the conversion starts at the first whole second',
               'limits within 1 ms of a sample time may include or exclude that sample']
BOUNDS = {'quick': '3-file deployment, 18 points, 2 block sizes; 5-file deployment, all 32 subsets of numbers',
          'thorough': '2 deployments, 30 points, 3 block sizes, 3 output lengths; all subsets of 6 files'}
K = 1000.0
B = g.utc(2021, 3, 5)          # a UTC midnight inside file 2


def deployment(which):
    if which == 0:      # gap of 0.5 s inside file 1, 9 s between 1 and 2
        t = B - 20
        clock = g.Clock(t - 50)
        r = [(0, t + .403, 12.6, []), (1, t + 13.003, 13, [(B - 2.2, B - 1.7)]), (2, t + 35.003, 13, [])]
    else:               # numbers in different blocks, a whole day missing
        t = B - 15.995
        clock = g.Clock(t - 50)
        r = [(0, t, 13, []), (1, t + 13, 13, []), (13, t + 40, 13, []), (30, t + 86400 * 1.5, 13, [])]
    return clock, [(n, g.Recording(clock, a, a + d, K=K, tref=B, gaps=gp)) for n, a, d, gp in r]


def points(which, tier):
    if which == 0:
        p = [None, -100, -21, -19.597, -19.59, -14.5, -10, -7.0, -6.997, -2.3, -2.2, -2.0, -1.7, 0, 5.995, 10, 15.003, 20,
             24.75, 28.0, 28.003, 40]
        if tier == 'quick':
            p = [None, -100, -19.597, -14.5, -10, -7.0, -2.205, -2.0, -1.7, 0, 5.995, 10, 15.003, 20, 24.75, 28.003, 40]
    else:
        p = [None, -100, -15.995, -10.004, -3, 0, 3.5, 10, 24.005, 30, 37.01, 50, 43200, 86400, 129584, 129590.25, 129597.1,
             2e5]
    return p


def cases(tier):
    for which in ([0] if tier == 'quick' else [0, 1]):
        ps = points(which, tier)
        for block in ([1, 1 / 12] if tier == 'quick' else [1, 1 / 12, 1 / 6]):
            for L in ([10] if tier == 'quick' else [10, 3600, 7]):
                for a, b in itertools.product(ps, ps):
                    if a is not None and b is not None and a > b:
                        continue
                    for typ in ('utc', 'float'):
                        if typ == 'float' and L != 10:
                            continue
                        yield dict(kind='limits', which=which, t1=a, t2=b, typ=typ, block=block, L=L)
    # no start limit: the first whole second of the data, wherever the data begin relative to it
    for phase in ([0, .0025, .0049, .0051, .01, .5, .985, .99, .9949, .9951, .9975] if tier == 'quick' else
                  [i / 200 for i in range(200)] + [.0049, .0051, .9949, .9951]):
        for up in (50, 50.0004, 3600.3):
            for t2 in (None, 5.0):
                yield dict(kind='first', phase=phase, up=up, t2=t2)
    # the documented shift of the sample times
    ps = [None, -14.5, -2.0, 10, 24.75, 40] if tier == 'quick' else points(0, tier)
    for adj in [1, -1, 18, -.5, .25, .01, 3600, -86400] + ([7, -18, .37, 40, -40, 86400 * 400] if tier != 'quick' else []):
        for block in (1, 1 / 12):
            for a, b in itertools.product(ps, ps):
                if a is None or b is None or a < b:
                    yield dict(kind='adjust', which=0, t1=a, t2=b, block=block, adj=adj, L=10)
    n = 5 if tier == 'quick' else 6
    for r in range(0, n + 2):
        for sub in itertools.combinations(list(range(n)) + [77], r):
            for how in ('list', 'array', 'int', 'read', 'tuple', 'read int', 'read list'):
                if how.endswith('int') and r != 1:
                    continue
                if r == 0 and how != 'read':
                    continue            # documented: no numbers given means all
                for block in ([1] if how.startswith('read') else [1, 1 / 12]):
                    yield dict(kind='nums', n=n, sub=list(sub), how=how, block=block)


def runs_of(dirname, L=None):
    out = []
    if os.path.isdir(dirname):
        for fn, st in oracle.read_outputs(dirname):
            for tr in st:
                tr.stats.delta = 0.01
                out.append((tr, fn))
    return out


def cover(trs):
    """{sample index (1/100 s from B): value}"""
    d = {}
    for tr, fn in trs:
        k0 = int(round((tr.stats.starttime - obspy.UTCDateTime(B)) * 100))
        require(abs((tr.stats.starttime - obspy.UTCDateTime(B)) * 100 - k0) < 1e-3,
                lambda: 'sample times of %s are not multiples of 0.01 s' % tr)
        for j, v in enumerate(tr.data):
            require(k0 + j not in d, lambda: 'sample at %s written twice' % (tr.stats.starttime + j * .01))
            d[k0 + j] = int(v)
    return d


def spans(keys):
    keys = sorted(keys)
    out = []
    for k in keys:
        if out and k == out[-1][1] + 1:
            out[-1][1] = k
        else:
            out.append([k, k])
    return out


def convert(raw, out, **kw):
    gemlog.convert(raw, SN='077', convertedpath=out, metadatapath='m', gpspath='g', **kw)


def run(case, work):
    if case['kind'] == 'nums':
        return run_nums(case)
    if case['kind'] == 'adjust':
        return run_adjust(case)
    if case['kind'] == 'first':
        return run_first(case)
    clock, recs = deployment(case['which'])
    deploy.write('raw', recs)
    L = case['L']
    convert('raw', 'ref', file_length_hour=L / 3600, blockdays=case['block'], t1=B - 1000)
    full = cover(runs_of('ref'))
    kw = {}
    for k in ('t1', 't2'):
        if case[k] is not None:
            kw[k] = obspy.UTCDateTime(B + case[k]) if case['typ'] == 'utc' else float(B + case[k])
    lo = B - np.inf if case['t1'] is None else B + case['t1']
    hi = B + np.inf if case['t2'] is None else B + case['t2']
    t0 = recs[0][1].clock.time(recs[0][1].samples[0][0] + g.CORR)
    if case['t1'] is None:
        lo = np.ceil(t0 - 1e-3)
    want = {k: v for k, v in full.items() if lo - 1e-3 <= B + k / 100 <= hi + 1e-3}
    optional = {k for k in want if abs(B + k / 100 - lo) < 2e-3 or abs(B + k / 100 - hi) < 2e-3}
    try:
        convert('raw', 'out', file_length_hour=L / 3600, blockdays=case['block'], **kw)
        err = None
    except Exception as e:
        err = e
        if len(want) > 3:
            raise
    got = cover(runs_of('out'))
    desc = lambda: 'limits %s..%s: converted %s, expected %s (1/100 s from midnight)%s' % (
        case['t1'], case['t2'], spans(got), spans(want), '' if err is None else '; %r' % err)
    require(set(got) <= set(want), desc)
    require(set(want) - optional <= set(got), desc)
    for k in got:
        require(abs(got[k] - want[k]) <= 1, lambda: 'value at %d changed by the limits: %d, without limits %d' %
                (k, got[k], want[k]))
    # the unlimited conversion itself is right
    bad = oracle.check_stream([tr for tr, _ in runs_of('ref')], oracle.intervals([r for _, r in recs]), K, B,
                              start_slack=.02, end_slack=.012, inner_slack=.012)
    require(bad is None, lambda: bad)
    return Result(key=[spans(got)], states=[[case['t1'], case['t2']], spans(got)], transitions=len(spans(want)),
                  executions=2)


def run_adjust(case):
    clock, recs = deployment(0)
    deploy.write('raw', recs)
    adj = case['adj']
    lim = lambda d: {k: obspy.UTCDateTime(B + case[k] + d) for k in ('t1', 't2') if case[k] is not None}
    if case['t1'] is None and adj == int(adj):
        ref = lim(0)
    else:
        ref = dict(lim(0), t1=obspy.UTCDateTime(B + (case['t1'] if case['t1'] is not None else -1000)))
    convert('raw', 'ref', file_length_hour=10 / 3600, blockdays=case['block'], **ref)
    rows = [l for l in open('g/077gps_000.txt')]
    full = cover(runs_of('ref'))
    want = {k + round(adj * 100): v for k, v in full.items()}
    if case['t1'] is None:
        first = -(-(min(want)) // 100) * 100
        want = {k: v for k, v in want.items() if k >= first}
    convert('raw', 'out', file_length_hour=10 / 3600, blockdays=case['block'], time_adjustment=adj, **lim(adj))
    got = cover(runs_of('out'))
    require(got == want, lambda: 'times adjusted by %g s: %s, expected %s (1/100 s)' % (adj, spans(got), spans(want)))
    new = [l for l in open('g/077gps_001.txt')]
    if case['t1'] is not None or adj == int(adj):
        require(new == rows, lambda: '%d GPS log rows with adjusted times, %d without' % (len(new), len(rows)))
    return Result(key=['adjust', adj, spans(got)], states=[['adjust', adj, case['t1'], case['t2']]], transitions=len(spans(want)), executions=2)


def run_first(case):
    t = B + case['phase']
    deploy.write('raw', [(0, g.Recording(g.Clock(t - case['up']), t, t + 13, K=K, tref=B))])
    full = {}
    for tr in gemlog.read_gem('raw', SN='077')['data']:
        full.update(cover([(tr, None)]))
    kw = {} if case['t2'] is None else {'t2': obspy.UTCDateTime(B + case['t2'])}
    convert('raw', 'out', file_length_hour=10 / 3600, **kw)
    got = cover(runs_of('out'))
    lo = -(-min(full) // 100) * 100
    hi = np.inf if case['t2'] is None else case['t2'] * 100
    want = {k: v for k, v in full.items() if lo <= k <= hi}
    require(got == want, lambda: 'data recorded in %s give %s, expected %s (1/100 s)' % (spans(full), spans(got), spans(want)))
    return Result(key=['first', spans(got)], states=[['first', spans(full)]], transitions=1, executions=2)


def run_nums(case):
    n = case['n']
    t = B - 20.5
    clock = g.Clock(t - 50)
    recs = []
    for i in range(n):
        recs.append(([0, 1, 2, 14, 15, 40][i], g.Recording(clock, t, t + 13, K=K, tref=B)))
        t += [13, 13, 22, 40, 3600, 13][i]
    deploy.write('raw', recs)
    os.makedirs('raw1')
    nums = [recs[i][0] if i < n else 77 for i in case['sub']]
    present = [(m, r) for m, r in recs if m in nums]
    deploy.write('raw1', present)
    if case['how'].startswith('read'):
        return run_read(case, recs, nums, present)
    arg = {'list': list(nums), 'array': np.array(nums), 'tuple': tuple(nums), 'int': nums[0]}[case['how']]
    e1 = e2 = None
    try:
        convert('raw', 'out', nums=arg, blockdays=case['block'], file_length_hour=10 / 3600)
    except Exception as e:
        e1 = e
    if not present:
        require(isinstance(e1, gemlog.exceptions.MissingRawFiles), lambda: 'no such file numbers: got %r' % e1)
        require(not runs_of('out'), 'files written although no such numbers exist')
        return Result(key='none', states=['none'], transitions=1)
    require(e1 is None, lambda: 'file numbers %s: %r' % (nums, e1))
    gemlog.convert('raw1', SN='077', convertedpath='out1', metadatapath='m1', gpspath='g1', blockdays=case['block'],
                   file_length_hour=10 / 3600)
    a, b = cover(runs_of('out')), cover(runs_of('out1'))
    require(sorted(fn for _, fn in runs_of('out')) == sorted(fn for _, fn in runs_of('out1')), 'different output files')
    require(a == b, lambda: 'numbers %s give %s; a folder with only those gives %s' % (nums, spans(a), spans(b)))
    bad = oracle.check_stream([tr for tr, _ in runs_of('out')], oracle.intervals([r for _, r in present]), K, B)
    require(bad is None, lambda: bad)
    for x, y in (('m/077metadata_000.txt', 'm1/077metadata_000.txt'), ('g/077gps_000.txt', 'g1/077gps_000.txt')):
        require(open(x).read() == open(y).read(), 'log %s depends on files not selected' % x)
    return Result(key=[spans(a)], states=[sorted(nums)], transitions=len(nums), executions=2)


def run_read(case, recs, nums, present):
    try:
        L = gemlog.read_gem('raw', nums={'read': np.array(nums, dtype=int), 'read list': nums}[case['how']] if case['how'] != 'read int' else nums[0], SN='077')
    except gemlog.exceptions.MissingRawFiles:
        require(not present, 'read_gem found no files for numbers %s' % nums)
        return Result(key='none', states=['none'], transitions=1)
    require(present, 'read_gem read files that were not asked for')
    bad = oracle.check_stream(list(L['data']), oracle.intervals([r for _, r in present]), K, B, start_slack=.012,
                              end_slack=.012, inner_slack=.012)
    require(bad is None, lambda: bad)
    require(len(L['header']) == len(present), 'header rows')
    return Result(key=['read', [[str(tr.stats.starttime), tr.stats.npts] for tr in L['data']]], states=[sorted(nums)],
                  transitions=len(nums))
