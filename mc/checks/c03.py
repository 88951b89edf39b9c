import math
import os

import gemlog
import numpy as np
import obspy

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C03'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of clock errors, GPS patterns and positions of wrong fixes, each replayed on convert'
LEVEL_NOTE = ('every case of the stated grid is a synthetic recording whose sample values encode their true time, converted '
              'by the real code; clock errors and fix patterns outside the grid are not covered')
RULE = ('a case is (clock rate, curvature, phase, uptime) or (GPS pattern) or (positions and sizes of wrong fixes) or (time step); '
        'non-trivial = distinct (outcome, timing error class)')
ASSUMPTIONS = ['wrong fixes are isolated when at most 2 of 60 are wrong; with few fixes the file may also be skipped',
               'time steps are at least 0.5 s with at least 3 of 60 fixes on each side']
BOUNDS = {'quick': '60 s files, every position of one wrong fix, pairs on a coarse grid', 'thorough': 'all pairs, finer clock grid'}
SN = '058'
N = 60
DELTAS = [1, -1, 2, -2, 18, -18, 30, -30, 45, -45, 59, -59, 60, -60, 3600, -86400, 90000, 31536000]
MSD = [30, -30, 300, -700, 2500]


class CurvedClock(g.Clock):
    """rate error varying smoothly over the recording"""

    def __init__(self, t0, ppm, tc, curve):
        super().__init__(t0, ppm)
        self.tc, self.curve = tc, curve

    def err(self, t):
        u = (t - self.tc) / N
        return {'quad': 0.010 * u * u, 'cubic': 0.008 * u * u * u - .004 * u}[self.curve]

    def millis(self, t):
        return super().millis(t + self.err(t))

    def time(self, m):
        x = super().time(m)
        t = x
        for _ in range(6):
            t = x - self.err(t)
        return t


def cases(tier):
    th = tier == 'thorough'
    for ppm in ([-80, -20, 0, 5, 80] if not th else [-100, -80, -40, -20, -5, -1, 0, 1, 5, 20, 40, 80, 100]):
        for phase in ([0, .003, .25, .5, .997] if not th else [i / 40 for i in range(40)]):
            for up in [0.5, 8.0, 3600.7, 1e6]:
                yield dict(k='clock', ppm=ppm, phase=phase, up=up)
    for curve in ('quad', 'cubic'):
        for ppm in (-40, 0, 40):
            for phase in (0, .3, .6):
                for up in (.5, 12.3, 1e5):
                    yield dict(k='clock', ppm=ppm, phase=phase, up=up, curve=curve)
    for dur in (7200, 13, 61, 600):
        for ppm in (-60, 60):
            yield dict(k='clock', ppm=ppm, phase=.123, up=77.7, dur=dur)
    # GPS patterns: fixes between a and b (s), every n s
    for a in range(0, 60, 3 if not th else 1):
        for b in range(a, 60, 4 if not th else 1):
            for n in ((1, 3) if not th else (1, 2, 3, 4, 5)):
                yield dict(k='span', a=a, b=b, n=n)
    for n1 in range(0, 8):
        for n2 in range(0, 8):
            yield dict(k='ends', n1=n1, n2=n2)
    for pos in range(0, N):
        for d in DELTAS:
            yield dict(k='bad', pos=[pos], d=[d], u='s')
        for d in MSD:
            yield dict(k='bad', pos=[pos], d=[d], u='ms')
    ps = [0, 1, 2, 7, 29, 30, 31, 50, 57, 58, 59] if not th else range(N)
    for i in ps:
        for j in ps:
            if j > i:
                for d1, d2, u in [(1, 1, 's'), (1, -1, 's'), (-2, 60, 's'), (31536000, 1, 's'), (300, 300, 'ms'), (300, -700, 'ms'),
                                  (3600, 3600, 's')]:
                    yield dict(k='bad', pos=[i, j], d=[d1, d2], u=u)
    for pos in range(3, 58, 3 if not th else 1):
        for d in [.5, -.5, .6, -.6, .7, -.7, .9, -.9, 1, -1, 2, -2, 18, -18, 3600, 500 * 7 * 86400]:
            yield dict(k='step', pos=pos, d=d)
    for pos in (0, 20, 59):
        for d in (1, -1, 90000):
            for which in (0, 1, 2):
                yield dict(k='bad', pos=[pos], d=[d], u='s', which=which)
    for which in (0, 1, 2):
        for d in (1, -18):
            yield dict(k='step', pos=30, d=d, which=which)
    for fs in ((0, .5, 5, 10, 15) if not th else (0, .3, 1, 2, 5, 8, 10, 12, 15, 18)):
        for A in (4, 300, 70000, 8000000) if fs else (0, 1, -1, 7, -250000, 8388607, -8388608):
            for ppm in (-40, 0, 40):
                for phase in (0, .003, .0051) if not th else (0, .001, .003, .0049, .005, .0051, .007):
                    yield dict(k='wave', f=fs, A=A, ppm=ppm, phase=phase)
    yield from cycled(tier)
    # wrong fixes next to a gap between files, within a file, or a reboot
    for gap in (0, 5, 100, 'reboot', 'infile'):
        for which in (0, 1):
            for pos in ((0, 1, 2, 57, 58, 59) if gap != 'infile' else (27, 28, 29, 30, 31, 32)):
                for d, u in ((1, 's'), (-1, 's'), (60, 's'), (-90000, 's'), (300, 'ms')):
                    yield dict(k='bad', pos=[pos], d=[d], u=u, which=which, gap=gap)
            if gap != 'infile':
                for pos in ([0, 58], [0, 59], [1, 59], [58, 59], [0, 1]):
                    for d in ([1, 1], [-2, 60]):
                        yield dict(k='bad', pos=pos, d=d, u='s', which=which, gap=gap)


def cycled(tier):
    """the usual deployment: the GPS is on for a few fixes only, then off for minutes"""
    th = tier == 'thorough'
    for dur, per, n in [(620, 150, 12), (620, 300, 20)] + ([(3600, 900, 20), (7200, 900, 20)] if th else []):
        cyc = dict(k='cycle', dur=dur, per=per, n=n)
        tot = sum(3 <= x % per < 3 + n for x in range(dur))
        for ppm in ((-95, -60, 60, 95) if not th else (-95, -80, -60, -30, 0, 30, 60, 80, 95)):
            yield dict(cyc, ppm=ppm, up=77.7, phase=.123)
        if n != 12 and not th:
            continue
        pos = (0, n - 1, n, 2 * n - 1, tot - 1) if not th or dur > 3000 else range(tot)
        for p in pos:
            for d, u in ((1, 's'), (-1, 's'), (-18, 's'), (90000, 's'), (300, 'ms')):
                yield dict(cyc, ppm=40, pos=[p], d=[d], u=u)
        if dur > 3000:
            continue
        for p in ((n, 2 * n, 2 * n + 3) if not th else range(5, tot - 4)):
            for d in (.5, -1, 18):
                yield dict(cyc, ppm=-40, k='cyclestep', pos=p, d=d)
        for gap in (0, 5, 400, 'reboot'):
            for which in (0, 1):
                for p in (0, tot - 1):
                    yield dict(cyc, ppm=40, pos=[p], d=[1], u='s', which=which, gap=gap, m=2)


def shift(f, t, d):
    """fix f made at true time t reports t + d instead"""
    f[2:8] = g.fields(t + d)
    f[7] += round((t + d) - math.floor(t + d), 1)


def build(case):
    which = case.get('which')
    start = g.utc(2022, 5, 6, 7, 8, 9)
    t = start + case.get('phase', .0)
    dur = case.get('dur', N)
    if case.get('curve'):
        clock = CurvedClock(t - case.get('up', 33.3), case['ppm'], t + N / 2, case['curve'])
    else:
        clock = g.Clock(t - case.get('up', 33.3), case.get('ppm', 0))
    recs = []
    gap = case.get('gap', 0)
    for i in range(1 if which is None else case.get('m', 3)):
        if i and gap not in (0, 'infile', 'reboot'):
            t += gap
        if i and gap == 'reboot':
            t += 20
            clock = g.Clock(t - 4.4, case.get('ppm', 0))
        times = [x for x in range(int(math.ceil(t)), int(t + dur) + 1) if t <= x < t + dur]
        mine = which is None or i == which
        if case['k'] == 'span':
            times = [start + s for s in range(case['a'], case['b'] + 1, case['n'])]
        elif case['k'] == 'ends':
            times = [start + s for s in list(range(case['n1'])) + list(range(N - case['n2'], N))]
        elif case['k'].startswith('cycle'):
            times = [x for x in times if 3 <= (x - int(t)) % case['per'] < 3 + case['n']]
        rec = g.Recording(clock, t, t + dur, tref=start, gps_times=times,
                          gaps=[(start + 29.7, start + 30.1), (start + 89.7, start + 90.1)] if gap == 'infile' else ())
        # a G line is written when its fix arrives, wherever a wrong millisecond value points
        rec.fix_at = {n: f[0] + f[1] for n, f in enumerate(rec.fixes)}
        if mine and case.get('u'):
            for p, d in zip(case['pos'], case['d']):
                f = rec.fixes[p]
                if case['u'] == 's':
                    shift(f, times[p], d)
                else:
                    f[0] += d
        if mine and case['k'] in ('step', 'cyclestep'):
            for p in range(case['pos'], len(times)):
                d = case['d']
                if d != int(d):
                    rec.fixes[p][0] -= d / g.MS
                else:
                    shift(rec.fixes[p], times[p], d)
        recs.append((i, rec, len(times), times))
        t += dur
    return recs, start


def expected(case, recs):
    if case['k'] == 'clock':
        return 'ok'
    if case['k'] in ('span', 'ends'):
        times = recs[0][3]
        if len(times) < 10:
            return 'skip'
        span = times[-1] - times[0]
        if abs(span - N / 2) < .6:
            return 'either'
        return 'ok' if span > N / 2 else 'skip'
    if case['k'] in ('bad', 'cycle'):
        return 'ok'
    return 'skip'


def wave(case):
    """a constant or a sine wave, at the scale of single counts"""
    recs, start = build(dict(case, k='clock'))
    f, A = case['f'], case['A']
    rec = recs[0][1]
    rec.samples = [(m, int(round(A * math.cos(2 * math.pi * f * (rec.clock.time(m + g.CORR) - start) + 1)) if f else A)) for m, _ in rec.samples]
    os.mkdir('raw')
    g.write('raw/FILE0000.' + SN, g.header('0.91', SN) + g.body(rec))
    gemlog.convert('raw', SN=SN, convertedpath='conv', metadatapath='meta', gpspath='gps')
    n = 0
    for fn in sorted(os.listdir('conv')):
        for tr in obspy.read('conv/' + fn):
            y = np.asarray(tr.data, float)
            n += len(y)
            if not f:
                require(np.all(y == A), lambda: 'constant %d became %s' % (A, y[y != A][:3]))
                continue
            t = tr.stats.starttime.timestamp - start + np.arange(len(y)) * .01
            B = np.column_stack([np.cos(2 * np.pi * f * t + 1), np.sin(2 * np.pi * f * t + 1), np.ones(len(t))])
            c = np.linalg.lstsq(B, y, rcond=None)[0]
            amp, delay = np.hypot(*c[:2]), np.arctan2(c[1], c[0]) / (2 * np.pi * f)
            require(abs(amp - A) < .01 * A + .6 and abs(c[2]) < .01 * A + .3, lambda: 'wave of %s Hz and %s counts has %s counts about %s' % (f, A, amp, c[2]))
            require(abs(delay) < oracle.TOL + .1 / A / f, lambda: 'wave of %s Hz is %s s late' % (f, delay))
            res = np.abs(y - B @ c)[3:-3].max()
            require(res < .025 * A + 1.2, lambda: 'wave of %s Hz and %s counts is off by up to %s counts' % (f, A, res))
    require(n > 5800, lambda: '%d samples' % n)
    return Result(key=['wave', f, A])


def run(case, work):
    if case['k'] == 'wave':
        return wave(case)
    recs, start = build(case)
    os.mkdir('raw')
    for i, rec, _, _ in recs:
        g.write('raw/FILE%04d.%s' % (i, SN), g.header('0.91', SN) + g.body(rec))
    want = expected(case, recs)
    which = case.get('which')
    good = [r for i, r, _, _ in recs if not (want == 'skip' and (which is None or i == which))]
    err = None
    try:
        gemlog.convert('raw', SN=SN, convertedpath='conv', metadatapath='meta', gpspath='gps')
    except (gemlog.exceptions.CorruptRawFile, gemlog.exceptions.MissingRawFiles) as e:
        err = type(e).__name__
    trs = [tr for f in (sorted(os.listdir('conv')) if os.path.isdir('conv') else []) for tr in obspy.read('conv/' + f)]
    if which is None and want == 'skip':
        require(err is not None and not trs, lambda: 'a file that cannot be timed was converted: %s' % trs)
        return Result(key=[want, err, case['k']])
    if want == 'either' and err:
        return Result(key=[want, err, case['k']])
    require(err is None, lambda: 'a file with adequate GPS was rejected: ' + str(err))
    ivals = oracle.intervals(good)
    bad = oracle.check_stream(trs, ivals, 1000.0, start, inner_slack=1.0)
    require(bad is None, bad)
    errs = [np.abs(oracle.trace_error(tr, 1000.0, start)[2]).max() for tr in trs]
    h = gemlog.read_gem('raw', SN=SN)['header']
    h = h[h['num_data_pts'] > 0]          # files that were skipped have empty rows
    require(len(h) == len(good) and len(set(h['file'])) == len(h), lambda: 'header rows: %s' % list(h['file']))
    for row, fn in enumerate(h['file']):
        rec = [r for i, r, _, _ in recs if 'FILE%04d.' % i in str(fn)]
        require(len(rec) == 1 and str(h['SN'].iloc[row]) == SN, lambda: 'header rows: %s' % list(h['file']))
        sm = rec[0].samples
        r = h.iloc[row]
        require(r['num_data_pts'] == len(sm), lambda: '%s samples in the header, %d recorded' % (r['num_data_pts'], len(sm)))
        t1, t2 = [rec[0].clock.time(sm[k][0] + 8.93) for k in (0, -1)]
        require(abs(float(r['t1']) - t1) < oracle.TOL and abs(float(r['t2']) - t2) < oracle.TOL,
                lambda: 'header t1, t2 of %s %.4f %.4f, recorded %.4f %.4f' % (fn, r['t1'], r['t2'], t1, t2))
        require(abs(r['end_ms'] - r['start_ms'] - sm[-1][0] + sm[0][0]) < .5, lambda: 'header start_ms, end_ms %s %s' % (r['start_ms'], r['end_ms']))
        for k in (len(sm) // 3, len(sm) // 2, -2):
            x = r['start_ms'] + sm[k][0] - sm[0][0]
            y = r['drift_deg0'] + x * (r['drift_deg1'] + x * (r['drift_deg2'] + x * r['drift_deg3']))
            t = rec[0].clock.time(sm[k][0] + 8.93)
            require(abs(y - t) < oracle.TOL, lambda: 'the fit of %s gives %.4f, recorded at %.4f' % (fn, y, t))
        require(0 <= r['drift_resid_std'] <= r['drift_resid_MAD'] * 1.001 and r['drift_resid_MAD_nonoutliers'] <= r['drift_resid_MAD'] * 1.001 and r['num_gps_nonoutliers'] <= r['num_gps_pts'],
                lambda: 'residuals in the header: %s' % dict(r))
    return Result(key=[want, {k: v for k, v in case.items() if k not in ('d', 'pos')}, len(trs), int(max(errs)), str(trs[0].stats.starttime)])
