import itertools
import os
import sys

import gemlog
import gemlog.core
import numpy as np

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C02'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of recording shapes, each replayed in all six raw formats and both readers'
LEVEL_NOTE = ('every recording of a bounded family is stored in each format, read and converted by the real code, and all '
              'results compared with each other exactly and with the ramp truth')
RULE = ('a case is a recording shape (wrap phase, clock, gaps, values, position, GPS and metadata pattern, number of files); '
        'non-trivial = distinct outcome')
ASSUMPTIONS = ['the fallback reader is only required for formats it supports (0.85C, 0.9, 0.91)']
BOUNDS = {'quick': 'wrap at every 0.25 s of a file x gap patterns x value ranges, 6 formats',
          'thorough': 'wrap at every 0.05 s x all combinations, 6 formats'}
FORMATS = ['0.91', '0.9', '0.85C', '1.10', '0.85', '0.8']
SN = '061'


def cases(tier):
    step = 0.25 if tier == 'quick' else 0.05
    for k in range(int(8.4 / step)):
        yield dict(up=k * step)
    for k in range(int(67.2 / (step * 4))):
        yield dict(up=60 + k * step * 4)       # wraps of the 16-bit counter of formats 0.8 and 0.85
    for n in (8, 3, 1) if tier == 'quick' else range(1, 17):
        for j in range(12):                    # records of every kind whose counter reads exactly zero
            yield dict(up=n * 8.192 - 6 + j / 1000)
    dims = dict(K=[1, 100.0, -1000.0, 20000.0], files=['one', 'two', 'three', 'gap', 'gapwrap', 'reboot'],
                infile=[None, 'mid03', 'two', 'first', 'last'], ppm=[0, 40.0], pos=['north', 'south', 'east'],
                gps=['all', 'half', 'float', 'late', 'two'])
    names = list(dims)
    k = 2 if tier == 'quick' else 3
    for n in range(k + 1):
        for ds in itertools.combinations(names, n):
            for v in itertools.product(*(dims[d] for d in ds)):
                yield dict(zip(ds, v))


def build(case):
    from mc import deploy
    t = g.utc(2021, 3, 4, 12) + 0.002
    tref = t
    clock = g.Clock(t - case.get('up', 33.3), case.get('ppm', 0))
    lat, lon = {'north': (43.61234, -116.20594), 'south': (-43.61234, -0.00001), 'east': (0.00001, 179.99999)}[
        case.get('pos', 'north')]
    nf = {'one': 1, 'three': 3}.get(case.get('files', 'one'), 2)
    recs = []
    for i in range(nf):
        if i == 1:
            if case['files'] == 'gap':
                t += 50.5
            elif case['files'] == 'gapwrap':
                t += 61.234
            elif case['files'] == 'reboot':
                t += 9
                clock = g.Clock(t - 4, case.get('ppm', 0))
        gps = case.get('gps', 'all')
        times = None
        if gps == 'half':
            times = [x for x in range(int(t) + 1, int(t) + 13) if x < t + 13][:10]
        elif gps == 'two':
            times = [x for x in range(int(t) + 1, int(t) + 14) if x < t + 13 and (x - int(t)) not in (6, 7)]
        rec = g.Recording(clock, t, t + 13, K=case.get('K', 1000.0), tref=tref, lat=lat, lon=lon, gps_times=times,
                          gaps=deploy.infile_gaps(case.get('infile'), t, t + 13))
        for j, m in enumerate(rec.meta):
            m[1], m[2] = round(4 - j / 100, 2), round(-20 + 3.1 * j, 1)
            m[3:] = [round(1 + j / 1000, 3), round(2 + j / 500, 3), j, 74 - j, j % 2, i, j % 2, 48 + j, 118 - j]
        if gps == 'late':                      # fractions that rounding would not average out
            for f in rec.fixes:
                f[0] = int(f[0]) + .47
        elif gps != 'float':
            for f in rec.fixes:
                f[0] = round(f[0])
        recs.append((i, rec))
        t += 13
    return recs, tref


def table(df, cols):
    return np.array([np.asarray(df[c], dtype=float) for c in cols]).T


META = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1',
        'unusedStackIdle', 't']
GPS = ['year', 'date', 'lat', 'lon', 't']


def same(a, b, tol, what):
    require(a.shape == b.shape, lambda: '%s: %s and %s' % (what, a.shape, b.shape))
    ok = (np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))
    require(ok.all(), lambda: '%s differ: %s and %s' % (what, a[~ok][:4], b[~ok][:4]))


def run(case, work):
    recs, tref = build(case)
    res = {}
    K = case.get('K', 1000.0)
    formats = ['0.91', '1.10'] if case.get('gps') in ('float', 'late') else FORMATS
    for ver in formats + ['fallback-0.91'] + ([] if case.get('gps') in ('float', 'late') else ['fallback-0.9', 'fallback-0.85C']):
        fall = ver.startswith('fallback')
        v = ver.split('-')[-1]
        d = 'raw' + v
        if not fall:
            os.makedirs(d)
            for n, r in recs:
                g.write_recording(d, n, SN, r, v, ext=None)
        saved = sys.modules.get('gemlog.parsers')
        if fall:
            sys.modules['gemlog.parsers'] = None        # as if the compiled extension were missing
        try:
            L = gemlog.read_gem(d, SN=SN)
        finally:
            if fall:
                sys.modules['gemlog.parsers'] = saved
        bad = oracle.check_stream(list(L['data']), oracle.intervals([r for _, r in recs]), K, tref, tol=.005 + 1.5 / abs(K) *
                                  (abs(K) < 1000), start_slack=.012, end_slack=.012, inner_slack=.012)
        require(bad is None, lambda: 'format %s: %s' % (ver, bad))
        cols = [c for c in META if not (v == '0.8' and c in ('A2', 'A3'))]
        npts = [int(x) for x in L['header']['num_data_pts']]
        require(npts == [len(r.samples) for _, r in recs], lambda: 'format %s: %s samples read, %s recorded' % (
            ver, npts, [len(r.samples) for _, r in recs]))
        require(list(L['problems']) == [], lambda: 'format %s: %s' % (ver, L['problems']))
        res[ver] = dict(data=[(tr.stats.starttime, np.asarray(tr.data)) for tr in L['data']], gps=table(L['gps'], GPS),
                        meta=table(L['metadata'], cols), cols=cols)
        if case.get('files') or case.get('infile'):
            if not fall:
                gemlog.convert(d, SN=SN, convertedpath='conv' + v, metadatapath='log' + v, gpspath='log' + v)
    ref = res['0.91']
    nfix = sum(len(r.fixes) for _, r in recs)
    nmeta = sum(len(r.meta) for _, r in recs)
    require(ref['gps'].shape[0] == nfix, lambda: '%d fixes read, %d recorded' % (ref['gps'].shape[0], nfix))
    require(ref['meta'].shape[0] == nmeta, lambda: '%d metadata records read, %d recorded' % (ref['meta'].shape[0], nmeta))
    want = np.array([m[1:] for _, r in recs for m in r.meta], dtype=float)
    same(ref['meta'][:, :-1], want, 1e-6, 'metadata values and recorded values')
    for ver, r in res.items():
        require([x[0] for x in r['data']] == [x[0] for x in ref['data']] and
                [len(x[1]) for x in r['data']] == [len(x[1]) for x in ref['data']],
                lambda: 'format %s: traces differ from format 0.91' % ver)
        for (t, x), (_, y) in zip(r['data'], ref['data']):
            require(np.abs(x.astype(float) - y).max() <= 1 + abs(K) * 5e-4, lambda: 'format %s: samples differ from format 0.91' % ver)
        if ver.startswith('fallback'):
            for (t, x), (_, y) in zip(r['data'], res[ver.split('-')[-1]]['data']):
                require(np.abs(x.astype(float) - y).max() <= 1.5 + abs(K) * 1e-5, lambda: 'format %s: samples differ from those of the compiled reader' % ver)
        same(r['gps'], ref['gps'], 1e-6, 'GPS of formats %s and 0.91' % ver)
        sel = [META.index(c) for c in r['cols']]
        same(r['meta'], ref['meta'][:, sel], 1e-3, 'metadata of formats %s and 0.91' % ver)
    if os.path.isdir('conv0.91'):
        ref = {f: open('conv0.91/' + f, 'rb').read() for f in os.listdir('conv0.91')}
        gl = open('log0.91/%sgps_000.txt' % SN).read()
        for v in formats[1:]:
            require(sorted(os.listdir('conv' + v)) == sorted(ref), lambda: 'format %s: other output files than 0.91' % v)
            import obspy
            for f in ref:
                a, b = obspy.read('conv' + v + '/' + f)[0], obspy.read('conv0.91/' + f)[0]
                require(a.stats.starttime == b.stats.starttime and a.stats.npts == b.stats.npts and
                        np.abs(a.data.astype(float) - b.data).max() <= 1 + abs(K) * 5e-4, lambda: 'format %s: %s differs from 0.91' % (v, f))
            require(open('log%s/%sgps_000.txt' % (v, SN)).read() == gl, lambda: 'format %s: GPS log differs from 0.91' % v)
    return Result(key=[case.get('up'), [[str(t), len(x), int(x[0]), int(x[-1])] for t, x in res['0.91']['data']], nfix],
                  states=[sorted(case)], transitions=9, executions=9)
