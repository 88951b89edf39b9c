"""Comparison of the waveforms of Gems recording side by side, with their delays known."""
import contextlib
import io
import itertools
import os

import gemlog
import numpy as np
import obspy
from gemlog import gemlog_aux

from mc import huddle
from mc.checks import c24
from mc.harness import Result, require

PROPERTY = 'C28'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of recording histories (delays, pauses, file divisions, orders, windows) through the real functions, each window compared with the known delays'
LEVEL_NOTE = ('every combination of the listed delays, pause patterns and file divisions for 2 to 4 Gems is written as converted files and compared; for each window of '
              'the grid the reported lags must be the written ones, and windows that some Gem does not fill must be absent; signals other than band-limited noise are not covered')
RULE = 'a case is (Gems, delays, pauses, file division, window); a state is (case, window); non-trivial = distinct (windows reported, windows absent, lags)'
ASSUMPTIONS = ['samples lie on a common 0.01 s grid', 'delays between Gems are below the largest lag searched (0.1 s)',
               'in the first 20 s after a pause the filter has not settled and lags are not judged', 'each file holds one uninterrupted trace, as gemconvert writes them']
BOUNDS = {'quick': '2 to 4 Gems, 400 s; pauses of 1 sample to 1 window at 6 places in 1 or 2 Gems; 5 file divisions', 'thorough': 'longer records, all pairs of pauses'}
SNS = ['012', '003', '250', '101']
FS = 100
N = 40000
REF = {}


def signal(seed, n):
    """noise between 1 and 15 Hz; seed 0 is what all Gems hear"""
    if (seed, n) not in REF:
        t = np.arange(n + 40) / FS
        x = np.zeros(len(t))
        for i in range(50):
            x += np.cos(2 * np.pi * (1.5 + 11 * ((i * 0.6180339887 + .137 * seed) % 1)) * t + 2 * np.pi * ((i * 0.7548776662 + .31 * seed) % 1))
        REF[seed, n] = 150 * x
    return REF[seed, n]


def record(i, delay, n, own=()):
    """what Gem i records: the common signal late by delay samples, slow drift and a hum of its own"""
    x = signal(0, n)[20 - delay:20 - delay + n].copy()
    for a, b, what in own:
        x[a:b] = signal(i + 1, n)[a:b] if what == 'noise' else signal(0, n)[20 - what:20 - what + n][a:b]
    t = np.arange(n) / FS
    return np.round(x + 1500 * np.sin(2 * np.pi * .013 * t + 1.1 * i) + 800 * np.sin(2 * np.pi * 43 * t + i) + 7000 * i).astype('int32')


def put(x, sn, start, pieces, division, folder='mseed'):
    """writes the pieces (sample ranges) of x, divided into files"""
    cuts = []
    if division == 'hour':
        cuts = [int(round((h - start) * FS)) for h in range(int(start // 3600 + 1) * 3600, int(start + len(x) / FS) + 1, 3600)]
    elif division == 'many':
        cuts = list(range(1733, len(x), 3719 + 13 * (int(sn) % 7)))
    elif division == 'grid':
        cuts = [int(round(k * 50 * FS - (start % 50) * FS)) for k in range(1, 60)]
    k = 0
    for a, b in pieces:
        edges = [a] + [c for c in cuts if a < c < b] + [b]
        for u, v in zip(edges, edges[1:]):
            if division == 'twice' and v - u > 300:
                parts = [(u, v - 150), ((u + v) // 2, v)]
            else:
                parts = [(u, v)]
            for p, q in parts:
                tr = obspy.Trace(x[p:q].copy(), dict(station=sn, channel='HDF', sampling_rate=FS, starttime=obspy.UTCDateTime(ns=int(round((start + p / FS) * 1e6)) * 1000)))
                tr.write('%s/%s_%d..%s..HDF.mseed' % (folder, tr.stats.starttime.strftime('%Y-%m-%dT%H_%M_%S'), k, sn), format='MSEED')
                k += 1


H = 1614816000 + 3600 * 5     # an hour
PAUSES = {'first': (0, 1), 'last': (-1, 0), 'middle': (.5, .5), 'before': (-2, -1), 'cross': (-30, 40), 'window': (0, 1.0)}


def pause(kind, w, at, start):
    """the pause, in samples, with respect to the window that starts at grid number 'at'"""
    s = int(round((H + at * w - start) * FS))
    nw = int(round(w * FS))
    return {'first': (s, s + 1), 'last': (s + nw - 1, s + nw), 'middle': (s + nw // 2, s + nw // 2 + 7), 'edge': (s + nw, s + nw + 1),
            'cross': (s + nw - 30, s + nw + 40), 'window': (s, s + nw), 'early': (s + 5, 10 ** 9), 'late': (0, s + 3)}[kind]


KINDS = ['first', 'last', 'middle', 'edge', 'cross', 'window', 'early', 'late']


def cases(tier):
    th = tier != 'quick'
    divisions = ['one', 'hour', 'many', 'grid', 'twice']
    lags = {2: [(0, 0), (3, -4), (-9, 0), (0, 10)], 3: [(0, 0, 0), (3, 0, -2), (-5, 4, 4), (1, 2, 9)], 4: [(0, 0, 0, 0), (2, -3, 4, -5), (0, 0, 7, 0)]}
    for n in lags:
        for d in lags[n]:
            for div in divisions:
                for w in (50, 31.25) if not th else (50, 31.25, 100, 20, 12.5):
                    yield dict(k='lag', d=d, div=div, w=w, start=H - 73.21)
    for start in (H, H + .01, H + 49.99, H + 50, H - .01, H - 400.01 + 60, H + 3333.33):
        for w in (50, 100):
            yield dict(k='lag', d=(3, 0, -2), div='hour', w=w, start=start)
    for at in (2, 4):
        for i in range(3):
            for kind in KINDS:
                for div in divisions if th else ('one', 'many'):
                    yield dict(k='lag', d=(3, 0, -2), div=div, w=50, start=H - 33.3, miss={i: [(kind, at)]})
    for i, j in itertools.combinations(range(3), 2):
        for a, b in itertools.product(KINDS, repeat=2):
            if th or (a in ('edge', 'late', 'window') and b in ('first', 'early', 'cross')):
                yield dict(k='lag', d=(-5, 4, 4), div='one', w=50, start=H - 33.3, miss={i: [(a, 1)], j: [(b, 3)]})
    for order in ('reverse', 'shuffle', 'bystation'):
        for n in lags:
            for d in lags[n][1:2]:
                yield dict(k='lag', d=d, div='many', w=50, start=H - 73.21, order=order)
                yield dict(k='lag', d=d, div='many', w=50, start=H - 73.21, order=order, miss={0: [('window', 2)]})
    for some in itertools.combinations(range(4), 2):
        yield dict(k='lag', d=(2, -3, 4, -5), div='many', w=50, start=H - 73.21, subset=some)
    # pass band and largest lag chosen by the user
    for d, m in (((15, -4, 0), 25), ((15, -4), 19), ((1, 0, -1), 2), ((0, 0, 0, 0), 1), ((19, 0, -2), 100)):
        for kw in (dict(fl=1, fh=14), {}):
            for verbose in (False, True):
                yield dict(k='lag', d=d, div='many', w=50, start=H - 73.21, opt=dict(kw, maxshift=m, verbose=verbose), tone=bool(kw))
    yield dict(k='lag', d=(3, 0, -2), div='one', w=50, start=H - 73.21, opt=dict(fl=1, fh=14), tone=True, miss={1: [('edge', 3)]})
    # the cross-correlation part of the huddle test
    for how, ok in (('zero', 1), ('late', 0), ('early', 0), ('few', 1), ('some', 0), ('noise', 1), ('noiselate', 0), ('gap', 1)):
        for div in ('one', 'hour') if not th else divisions[:4]:
            yield dict(k='huddle', how=how, ok=ok, div=div)
    # interpolation of short pauses
    for n in range(1, 9):
        for at in (1, 2, 57, 300, 598 - n, 599 - n):
            yield dict(k='fill', gaps=[(at, n)])
    for n in (12, 25, 100):
        for at in (1, 57, 300, 480):
            yield dict(k='fill', gaps=[(at, n)])
    for n, m in itertools.product((1, 4, 8, 25) if not th else (1, 2, 4, 7, 8, 25, 60), repeat=2):
        for sp in (1, 5, 40) if n < 9 and m < 9 else (31, 40):
            yield dict(k='fill', gaps=[(200, n), (200 + n + sp, m)])
            if n < 9 and m < 9:
                yield dict(k='fill', gaps=[(200, n), (200 + n + sp, m), (200 + n + 2 * sp + m, n)])
            yield dict(k='fill', gaps=[(200, n), (200 + n + sp, m), (400, 8), (440, 30)])


def fill(case):
    t = np.arange(600) / FS
    x = np.round(20000 * np.sin(2 * np.pi * 1.3 * t) + 3000 * t).astype('int32')
    pieces, a = [], 0
    for p, n in case['gaps']:
        pieces.append((a, p))
        a = p + n
    pieces.append((a, 600))
    results = []
    for order in (1, -1):
        st = obspy.Stream([obspy.Trace(x[u:v].copy(), dict(station='012', channel='HDF', sampling_rate=FS, starttime=obspy.UTCDateTime(H + u / FS))) for u, v in pieces][::order])
        out = gemlog_aux._interpolate_stream(st, gap_limit_sec=.1)
        have = {}
        for tr in out:
            require(not np.ma.isMaskedArray(tr.data), 'a masked trace results')
            k = int(round((tr.stats.starttime - obspy.UTCDateTime(H)) * FS))
            for q, v in enumerate(tr.data):
                require(k + q not in have, 'sample %d occurs twice' % (k + q))
                have[k + q] = v
        want = set(range(600))
        for p, n in case['gaps']:
            if n > 9:
                want -= set(range(p, p + n))
        require(set(have) == want, lambda: 'filled or lost: %s' % sorted(set(have) ^ want)[:20])
        for u, v in pieces:
            for q in range(u, v):
                require(have[q] == x[q], 'recorded sample %d: %r changed to %r' % (q, x[q], have[q]))
        for p, n in case['gaps']:
            if n < 9 and all(v - u >= 10 for u, v in pieces):
                for q in range(p, p + n):
                    require(abs(have[q] - x[q]) < 400, 'sample %d: filled with %r, signal %r' % (q, have[q], x[q]))
        results.append(sorted(have.items()))
    return Result(('fill', len(pieces), sum(n < 9 for p, n in case['gaps'])), [tuple(p) for p in pieces], 2, executions=2)


def pieces_of(case, i, n):
    miss = case.get('miss', {})
    gaps = sorted(pause(k, case['w'], at, case['start']) for k, at in miss.get(i, miss.get(str(i), [])))
    out, a = [], 0
    for u, v in gaps:
        if u > a:
            out.append((a, min(u, n)))
        a = max(a, v)
    if a < n:
        out.append((a, n))
    return out


def lag(case):
    n = N
    sub = case.get('subset') or range(len(case['d']))
    pieces = {}
    for i, d in enumerate(case['d']):
        pieces[i] = pieces_of(case, i, n)
        x = record(i, d, n)
        if case.get('tone'):        # strong waves of its own, outside the chosen band
            x = x + np.round(1500 * np.sin(2 * np.pi * (25 + i) * np.arange(n) / FS) + 1500 * np.sin(2 * np.pi * .3 * np.arange(n) / FS + i)).astype('int32')
        put(x, SNS[i], case['start'], pieces[i], case['div'])
    DB = gemlog.make_db('mseed', '*')
    if case.get('subset'):
        DB = DB.loc[DB.station.isin([SNS[i] for i in sub]), :]
    if case.get('order') == 'reverse':
        DB = DB.iloc[::-1]
    elif case.get('order') == 'shuffle':
        DB = DB.iloc[np.argsort([(7 * k) % 23 for k in range(len(DB))], kind='stable')]
    elif case.get('order') == 'bystation':
        DB = DB.sort_values('station', kind='stable')
    names = list(DB.station.unique())
    require(sorted(names) == sorted(SNS[i] for i in sub), lambda: 'stations in the table: %s' % names)
    ids = [SNS.index(s) for s in names]
    t, lags, coef, cons = gemlog_aux.check_lags(DB, winlength=case['w'], **case.get('opt', {}))
    t = [float(v) for v in t]
    require(len(t) == lags.shape[1] == coef.shape[1] == len(cons) and lags.shape[0] == len(ids) == coef.shape[0],
            lambda: 'shapes %s %s %s %s' % (len(t), lags.shape, coef.shape, len(cons)))
    begin = min(case['start'] + p[0][0] / FS for i, p in pieces.items() if i in sub)
    t0 = begin // 3600 * 3600
    w = case['w']
    expect, settled = [], []
    for k in range(1, int((case['start'] + n / FS - t0) / w) + 2):
        s = t0 + k * w
        if all(any(case['start'] + u / FS <= s + 1e-4 and case['start'] + v / FS >= s + w - 1e-4 for u, v in pieces[i]) for i in ids):
            expect.append(s)
            if all(any(case['start'] + u / FS <= s - 20 and case['start'] + v / FS >= s + w - 1e-4 for u, v in pieces[i]) for i in ids):
                settled.append(s)
    require(len(t) == len(set(t)) and sorted(t) == t, lambda: 'times out of order: %s' % t)
    got = [round(v * 100) / 100 for v in t]
    if got and abs(got[0] - t0) < 1e-3 and expect[:1] != got[:1]:
        got0 = 1          # the first window of the grid may be compared too
    else:
        got0 = 0
    require(len(got) - got0 == len(expect) and all(abs(a - b) < 1e-3 for a, b in zip(got[got0:], expect)),
            lambda: 'windows compared: %s, complete: %s' % ([v - t0 for v in got], [v - t0 for v in expect]))
    checked = 0
    for c, s in enumerate(got):
        if s not in settled and not any(abs(s - q) < 1e-3 for q in settled):
            continue
        for r, i in enumerate(ids):
            j = ids[(r + 1) % len(ids)]
            want = case['d'][i] - case['d'][j]
            require(lags[r, c] == want, lambda: 'window at %.2f s, Gems %s and %s: lag %s, true lag %s' % (s - t0, SNS[i], SNS[j], lags[r, c], want))
            require(coef[r, c] > .9, lambda: 'window at %.2f s, Gems %s and %s: coefficient %.3f' % (s - t0, SNS[i], SNS[j], coef[r, c]))
            checked += 1
        require(cons[c] == 0, lambda: 'window at %.2f s: consistency %s' % (s - t0, cons[c]))
    return Result((len(expect), len(settled), tuple(case['d']), checked > 0), [(i, round(v - t0)) for i, v in enumerate(got)], checked)


def group(case):
    os.mkdir('metadata')
    os.mkdir('gps')
    for j, sn in enumerate(c24.SNS[:3]):
        c24.write(sn, c24.base(900, 1.0, j))
    for f in os.listdir('mseed'):
        os.remove('mseed/' + f)
    n = 150000
    how = case['how']
    start = c24.T0 - 57.3          # thirteen windows of 100 s, the first at T0
    for j, sn in enumerate(c24.SNS[:3]):
        d = {'late': 4, 'early': -1, 'noiselate': 2}.get(how, 0) if j == 1 else 0
        own, pieces = [], [(0, n)]
        w0 = 5730 + 30000
        if j == 1 and how == 'few':
            own = [(w0 + 50, w0 + 19950, 3)]           # two of the windows
        elif j == 1 and how == 'some':
            own = [(w0 + 50, w0 + 29950, 3)]           # three
        elif how in ('noise', 'noiselate'):
            own = [(w0, w0 + 80000, 'noise')]
        elif how == 'gap' and j == 1:
            pieces = [(0, w0 + 50003), (w0 + 50006, n)]
        put(record(j, d, n, own), sn, start, pieces, case['div'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        _, r = huddle.verify('.', run_crosscorrelation_checks=True)
    require(r, 'no report')
    bad = [l for l in r['errors'] if 'lags' in l.lower()]
    good = [l for l in r['group_notes'] if 'lags' in l.lower()]
    require(len(bad) == 1 - case['ok'] and len(good) == case['ok'], lambda: 'errors %s, notes %s' % (bad, good))
    return Result((how, len(bad)), [how], 1)


def run(case, work):
    os.mkdir('mseed')
    return {'lag': lag, 'huddle': group, 'fill': fill}[case['k']](case)
