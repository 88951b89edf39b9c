import itertools
import os

import gemlog
import numpy as np
import obspy
import pandas as pd

from mc import deploy
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of conversion histories against a model of the log folders, replayed on convert'
LEVEL_NOTE = ('every history of conversions up to the stated length, over a small alphabet of Gems, folders, limits, block '
              'sizes and pre-existing logs, is run on the real code; after every step the complete contents of all log '
              'folders are compared with the model')
RULE = ('a case is (pre-existing log numbers, sequence of conversions, deployment shape); a conversion is (Gem, log folder, '
        'block size, start limit); non-trivial = distinct final folder listing with row counts')
ASSUMPTIONS = ['metadata records before the first or after the last sample of their file have no defined true time',
               'a metadata time may differ from the true time by up to 5 ms']
BOUNDS = {'quick': 'histories of up to 3 conversions, up to 14 raw files', 'thorough': 'histories of up to 4'}
B = g.utc(2021, 3, 4, 12)
PRE = [(), (0,), (1,), (0, 1), (1, 3), (0, 1, 3)]


def cases(tier):
    # deployment shapes, one conversion
    shapes = ['plain', 'gap', 'midblock', 'badmid', 'badfirst', 'many', 'newyear', 'phase', 'south', '1.10', '0.85C', '0.85',
              '0.8', 'nodata_block', 'reboot']
    for sh in shapes:
        for block in (1, 1 / 12):
            for t1 in (None, 'file', 'mid', 'early', 'frac', 'mid2', 'midlast'):
                yield dict(shape=sh, pre=[], seq=[['a', 'x', block, t1]])
            for adj in (2.5, -40.25):
                for t1 in (None, 'mid', 'mid2'):
                    if sh in ('plain', 'gap', 'midblock', 'reboot', '0.85') or tier != 'quick':
                        yield dict(shape=sh, pre=[], seq=[['a', 'x', block, t1, adj]])
    # histories
    ops = [['a', 'x', 1 / 12, None], ['b', 'x', 1 / 12, None], ['a', 'y', 1, 'mid'], ['a', 'x', 1, 'file'], ['a', 'n', 1, None]]
    # logs named by the caller
    named = [['a', 'e', 1 / 12, None], ['b', 'e', 1, None], ['a', 'e', 1, 'file'], ['a', 'x', 1 / 12, None], ['a', 'eg', 1, None], ['a', 'em', 1 / 12, 'mid']]
    for pre in ((), (0, 1, 3)):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for seq in itertools.product(named, repeat=n):
                if any(s[1][0] == 'e' for s in seq):
                    yield dict(shape='small', pre=list(pre), seq=[list(s) for s in seq])
    for sh in ('gap', 'midblock', 'nodata_block', '1.10', '0.8'):
        yield dict(shape=sh, pre=[], seq=[['a', 'e', 1 / 12, None], ['a', 'e', 1 / 12, 'mid']])
    for pre in PRE:
        for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for seq in itertools.product(ops, repeat=n):
                if n == 3 and tier == 'quick' and pre not in ((), (1,), (0, 1, 3)):
                    continue
                if n == 4 and pre not in ((), (1,)):
                    continue
                yield dict(shape='small', pre=list(pre), seq=[list(s) for s in seq])


def shape(name):
    """-> [(num, Recording or None (a bad file))], version"""
    ver = name if name[0] in '01' else '0.91'
    t0 = B
    kw = {}
    gaps = [0, 0, 0, 0]
    nums = [0, 1, 2]
    bad = []
    if name == 'newyear':
        t0 = g.utc(2020, 12, 31, 23, 59, 50)
    if name == 'phase':
        t0 = B + .496
    if name == 'south':
        kw = dict(lat=-43.61234, lon=179.99999)
    if name == 'gap':
        gaps = [0, 5.5, 7200.25, 0]
    if name == 'midblock':
        nums = [4, 15, 29]
        gaps = [0, 300, 4000, 0]
    if name == 'nodata_block':
        nums, bad = [0, 13, 26, 27], [1, 2]
    if name == 'badmid':
        nums, bad = [0, 1, 2], [1]
    if name == 'badfirst':
        nums, bad = [0, 1, 2], [0]
    if name == 'many':
        nums = list(range(14))
    if name == 'small':
        nums = [0, 3]
        gaps = [0, 20.5]
    clock = g.Clock(t0 - 50, 12.0)
    out, t = [], t0
    for i, n in enumerate(nums):
        t += gaps[i] if i < len(gaps) else 0
        if name == 'reboot' and i == 1:
            t += 22.5
            clock = g.Clock(t - 3.3, 12.0)
        if i in bad:
            out.append((n, None))
        else:
            r = g.Recording(clock, t, t + 13, tref=t0, K=100, **kw)
            for j, m in enumerate(r.meta):
                m[1], m[2] = 4 - (j + 13 * i) / 100, 20 + (j + 13 * i) / 10
                m[3:] = [round(1 + j / 1000, 3), round(2 + i / 1000, 3), j, 74 - i, j % 2, i, j % 2, 48 + j, 118 - j]
            for j, f in enumerate(r.fixes):
                f[8] = round(f[8] + (j - 6) * 1e-5, 5)
                f[9] = round(f[9] - (i + j) * 1e-5, 5)
            out.append((n, r))
        t += 13
    return out, ver


def write(dirname, recs, ver, sn):
    os.makedirs(dirname)
    for n, r in recs:
        if r is None:
            fn = os.path.join(dirname, 'FILE%04d.%s' % (n, 'TXT' if ver == '0.8' else sn))
            g.write(fn, g.header(ver, sn) + ['P,7'])
        else:
            g.write_recording(dirname, n, sn, r, ver)


def listing():
    out = {}
    for d in ('xg', 'xm', 'own', 'yg', 'ym', 'n/e/sg', 'n/e/sm'):
        if os.path.isdir(d):
            for fn in os.listdir(d):
                out[d + '/' + fn] = open(os.path.join(d, fn)).read()
    return out


def check_gps(text, recs, lo):
    want = []
    for _, r in recs:
        if r is None:
            continue
        for f in r.fixes:
            d = obspy.UTCDateTime(*f[2:8])
            if lo is None or d.timestamp > lo:
                want.append((f[2], d.julday + (d.hour * 3600 + d.minute * 60 + d.second) / 86400, f[8], f[9], d))
    lines = text.splitlines()
    require(lines and lines[0] == 'year,date,lat,lon,t', 'gps log has no header line')
    got = [x.split(',') for x in lines[1:]]
    require(len(got) == len(want), lambda: 'gps log has %d fixes, expected %d' % (len(got), len(want)))
    for a, b in zip(got, want):
        ok = (len(a) == 5 and int(a[0]) == b[0] and abs(float(a[1]) - b[1]) < 1e-7 and abs(float(a[2]) - b[2]) < 1e-9 and
              abs(float(a[3]) - b[3]) < 1e-9 and obspy.UTCDateTime(a[4]) == b[4])
        require(ok, lambda: 'gps log has %s, expected %s' % (a, b))
    return len(got)


COLS = 'millis,batt,temp,A2,A3,maxWriteTime,minFifoFree,maxFifoUsed,maxOverruns,gpsOnFlag,unusedStack1,unusedStackIdle,t'


def check_meta(text, recs, ver):
    import io
    df = pd.read_csv(io.StringIO(text))
    cols = COLS.split(',')
    if ver == '0.8':
        require(set(df.columns) >= set(cols) - {'A2', 'A3'}, 'metadata columns')
    else:
        require([c for c in df.columns if c in cols] == cols, 'metadata columns %s' % list(df.columns))
    want = []
    for _, r in recs:
        if r is None:
            continue
        ts = [r.clock.time(m + g.CORR) for m in (r.samples[0][0], r.samples[-1][0])]
        for m in r.meta:
            want.append((m, r.clock.time(m[0]), ts))
    require(len(df) == len(want), lambda: 'metadata log has %d records, expected %d' % (len(df), len(want)))
    for k, (m, t, (ta, tb)) in enumerate(want):
        row = df.iloc[k]
        for c, v in zip(cols[1:12], m[1:]):
            if ver == '0.8' and c in ('A2', 'A3'):
                continue
            require(abs(float(row[c]) - v) < 1e-6, lambda: 'metadata record %d: %s is %r, recorded %r' % (k, c, row[c], v))
        if np.isnan(row['t']):
            require(t <= ta + .02 or t >= tb - .02, lambda: 'metadata record %d has no time' % k)
        else:
            require(abs(row['t'] - t) < .005, lambda: 'metadata record %d has time %r, truth %r' % (k, row['t'], t))
    return len(df)


def run(case, work):
    recs, ver = shape(case['shape'])
    good = [r for _, r in recs if r is not None]
    write('raw_a', recs, ver, '061')
    recs_b = recs[:1]
    write('raw_b', recs_b, ver, '123')
    for d in ('xg', 'xm'):
        os.makedirs(d)
    for n in case['pre']:
        open('xg/061gps_%03d.txt' % n, 'w').write('old gps %d' % n)
        open('xm/061metadata_%03d.txt' % n, 'w').write('old metadata %d' % n)
    if case['pre']:
        open('xg/999gps_000.txt', 'w').write('other gem')
        open('xm/612metadata_002.txt', 'w').write('other gem')
    before = listing()
    model = dict(before)
    states, keyparts = [], []
    for gem, folder, block, t1, *adj in case['seq']:
        adj = adj[0] if adj else 0
        own = [k for k in 'gm' if folder in ('e', 'e' + k)]
        folder = {'n': 'n/e/s'}.get(folder, 'x' if own else folder)
        sn, rr = ('061', recs) if gem == 'a' else ('123', recs_b)
        kw = {}
        gg = good if gem == 'a' else good[:1]
        first = np.ceil(gg[0].clock.time(gg[0].samples[0][0] + g.CORR) + adj - .004)
        lo = first - 1 - adj
        if t1 == 'file' and len(gg) > 1:
            kw['t1'] = obspy.UTCDateTime(gg[1].ta)
        elif t1 == 'mid':
            kw['t1'] = obspy.UTCDateTime(np.floor(gg[0].ta) + 6)
        elif t1 == 'early':
            kw['t1'] = float(gg[0].ta - 1e5)
        elif t1 == 'frac':
            kw['t1'] = obspy.UTCDateTime(np.floor(gg[0].ta) + 7.25)
        elif t1 == 'mid2' and len(gg) > 1:
            kw['t1'] = obspy.UTCDateTime(np.floor(gg[1].ta + adj) + 6)
        elif t1 == 'midlast':
            kw['t1'] = obspy.UTCDateTime(np.floor(gg[-1].ta) + 4.75)
        if kw:
            lo = float(kw['t1']) - 1 - adj
        if adj:
            kw['time_adjustment'] = adj
        if own:
            os.makedirs('own', exist_ok=True)
        if 'g' in own:
            kw['gpsfile'] = 'own/my fixes.txt'
        if 'm' in own:
            kw['metadatafile'] = os.path.abspath('own/meta.csv')
        gemlog.convert('raw_' + gem, SN=sn, convertedpath='conv', metadatapath=folder + 'm', gpspath=folder + 'g',
                       blockdays=block, **kw)
        after = listing()
        new = sorted(set(after) - set(model))
        want = []
        for d, kind in ((folder + 'g', 'gps'), (folder + 'm', 'metadata')):
            n = 0
            while '%s/%s%s_%03d.txt' % (d, sn, kind, n) in model:
                n += 1
            want.append('%s/%s%s_%03d.txt' % (d, sn, kind, n))
        if 'g' in own:
            want[0] = 'own/my fixes.txt'
        if 'm' in own:
            want[1] = 'own/meta.csv'
        for k in want:
            model.pop(k, None)                  # a log named by the caller is that of the latest conversion
        new = sorted(set(after) - set(model))
        require(new == sorted(want), lambda: 'new logs %s, expected %s' % (new, want))
        for k in model:
            require(after.get(k) == model[k], lambda: 'log %s of an earlier conversion was changed' % k)
        ng = check_gps(after[want[0]], rr, lo)
        nm = check_meta(after[want[1]], rr, ver)
        model = after
        states.append(sorted(model))
        keyparts.append([want, ng, nm])
    return Result(key=[case['shape'], keyparts], states=states, transitions=len(case['seq']), executions=len(case['seq']))
