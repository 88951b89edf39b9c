import itertools
import os
import shutil
import warnings

import gemlog
import numpy as np
import obspy
import pandas as pd

from mc.harness import Result, require

PROPERTY = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sets of converted files and time windows, summarized by the real code, against a model'
LEVEL_NOTE = ('all subsets (up to the stated size) of an alphabet of files of several stations, hours, lengths, amplitudes and defects, with every window '
              'of a set of limits at, just inside and just outside file starts and ends; every row and statistic is compared with the model')
RULE = 'a case is a set of files with a window or pattern; model state = (files, window); non-trivial = distinct table'
ASSUMPTIONS = ['one trace per file, one channel per station', 'high-passed amplitude of a sine well above 0.5 Hz within 10% of its standard deviation']
BOUNDS = {'quick': 'up to 3 of 15 files, 20 windows', 'thorough': 'up to 5 of 15 files, 72 windows'}
T0 = obspy.UTCDateTime(2021, 3, 4, 22)
DT = .25
H = 3600
# name: station, location, start, seconds, amplitude, offset
F = {'a0': ('061', '', 0, H, 300., 50), 'a1': ('061', '', H, H, 30., -4000), 'a2': ('061', '', 2 * H, H, 40000., 0), 'a3': ('061', '', 3 * H, H, .3, 7),
     'a1s': ('061', '', H + 900, 1200, 100., 0), 'a4t': ('061', '', 4 * H, H - 3, 700., 0),
     'b0': ('STB', '01', .5, H, 50., 10), 'b1': ('STB', '01', H, H, 500., 1), 'b2': ('STB', '01', 2 * H, 1800, 2000., 0), 'c1': ('10', '', H - 600, H, 80., 0),
     'b3': ('STB', '01', 2 * H + 1800, 2 * H, 90., 3), 'a4l': ('061', '', 4 * H + 5, H + 3, 200., -5)}
BAD = ['empty', 'text', 'cut']
LIM = [0, .1, -.1, H, H + .5, 2 * H, 3 * H - DT, 3 * H - 2 * DT, 5 * H]
FILES = {}


def setup(sut):
    d = os.path.abspath('tmpl')
    os.mkdir(d)
    for k, (sta, loc, t, dur, amp, off) in F.items():
        n = int(dur / DT)
        x = np.arange(n) * DT
        tr = obspy.Trace(amp * np.sin(2 * np.pi * 1.3 * x + t) + off + amp * 3 * np.sin(2 * np.pi * x / 700) + x / 100)
        if amp > 1:
            tr.data = np.round(tr.data).astype('int32')
        tr.stats.delta = DT
        tr.stats.station, tr.stats.location, tr.stats.channel = sta, loc, 'HDF'
        tr.stats.starttime = T0 + t
        FILES[k] = (d + '/' + k, tr.copy(), tr.stats.starttime.strftime('%Y-%m-%dT%H_%M_%S') + '..%s.%s.HDF.mseed' % (sta, loc))
        tr.write(d + '/' + k, format='MSEED')


def windows(tier):
    lim = LIM
    ws = [(a, b) for a in lim for b in lim if b > a + 1]
    return ws if tier != 'quick' else [w for w in ws if w[0] in (0, .1, H) or w[1] in (3 * H - DT,)][:20] + [(-.1, 5 * H)]


def cases(tier):
    n = 3 if tier == 'quick' else 5
    names = list(F) + BAD
    for m in range(1, n + 1):
        for fs in itertools.combinations(names, m):
            if not all(f in BAD for f in fs):
                yield dict(k='db', files=fs, wins=windows(tier))
    some = [('a0', 'a1', 'b0', 'b1'), ('a0', 'b1', 'c1', 'text'), tuple(F), ('a1', 'a1s', 'a4t', 'cut', 'empty')]
    for fs in some:
        for pat in ('*', '*061*', '*22_00_00*', '*STB*', '2021-03-05*'):
            for save in (None, 'db.csv'):
                for verbose in (False, True):
                    yield dict(k='db', files=fs, wins=[(0, 5 * H)], pat=pat, save=save, verbose=verbose)
        yield dict(k='db', files=fs, wins=windows('thorough'), form='str')
        yield dict(k='db', files=fs, wins=windows('thorough'), form='float')


def run(case, work):
    import fnmatch
    warnings.simplefilter('ignore')
    os.mkdir('mseed')
    want = {}
    pat = case.get('pat', '*')
    for f in case['files']:
        if f in BAD:
            name = 'mseed/2021-03-05T04_00_00..%s..HDF.mseed' % {'empty': '061', 'text': 'STB', 'cut': '999'}[f]
            open(name, 'wb').write({'empty': b'', 'text': b'not seismic data\n' * 9, 'cut': open(FILES['a0'][0], 'rb').read()[:37]}[f])
        else:
            shutil.copy(FILES[f][0], 'mseed/' + FILES[f][2])
            if fnmatch.fnmatch(FILES[f][2], pat):
                want['mseed/' + FILES[f][2]] = f
    before = {f: open('mseed/' + f, 'rb').read() for f in os.listdir('mseed')}
    if not want:
        return Result(key=None)
    kw = {k: case[n] for k, n in (('savefile', 'save'), ('verbose', 'verbose')) if n in case}
    db = gemlog.make_db('mseed', *([pat] if 'pat' in case else []), **kw)
    require({f: open('mseed/' + f, 'rb').read() for f in os.listdir('mseed')} == before, 'files changed')
    for what, tab in [('database', db)] + ([('saved database', pd.read_csv('db.csv', dtype=dict(station=str, location=str), keep_default_na=False))] if case.get('save') else []):
        require(sorted(tab['filename']) == sorted(want), lambda: '%s has files %s, expected %s' % (what, sorted(tab['filename']), sorted(want)))
        for r in tab.to_dict('records'):
            f = want[r['filename']]
            sta, loc, t, dur, amp, off = F[f]
            tr = FILES[f][1]
            g = (str(r['station']), str(r['location']), float(r['max']), float(r['min']))
            w = (sta, loc, float(tr.data.max()), float(tr.data.min()))
            require(g[:2] == w[:2] and np.allclose(g[2:], w[2:], rtol=1e-9), lambda: '%s: row of %s is %s, expected %s' % (what, f, g, w))
            t1, t2 = obspy.UTCDateTime(str(r['t1'])), obspy.UTCDateTime(str(r['t2']))
            require(abs(t1 - tr.stats.starttime) < 1e-3 and abs(t2 - tr.stats.endtime) < 1e-3, lambda: '%s: times of %s are %s, %s' % (what, f, t1, t2))
            require(abs(float(r['amp_HP']) / (amp / 2 ** .5) - 1) < .1, lambda: '%s: amplitude of %s is %s, expected %s' % (what, f, r['amp_HP'], amp / 2 ** .5))
    key = []
    for a, b in case['wins']:
        t1, t2 = T0 + a, T0 + b
        model = {}
        for f in want.values():
            sta, loc, t, dur, amp, off = F[f]
            tr = FILES[f][1]
            if tr.stats.starttime >= t1 and tr.stats.endtime <= t2:
                model.setdefault(sta, []).append((float(db['amp_HP'][np.array(db['filename']) == 'mseed/' + FILES[f][2]].iloc[0]), dur, .5 < amp / 2 ** .5 < 2e4 and abs(dur - H) < 2))
        form = case.get('form')
        args = (str(t1), str(t2)) if form == 'str' else (float(t1), float(t2)) if form == 'float' else (t1, t2)
        s = gemlog.calc_channel_stats(db, *args)
        require(sorted(s['station']) == sorted(model), lambda: 'statistics of %s, expected %s' % (sorted(s['station']), sorted(model)))
        for r in s.to_dict('records'):
            rows = model[r['station']]
            amps = np.array([x[0] for x in rows])
            exp = (sum(x[2] for x in rows) * H / (b - a), sum(x[1] for x in rows) / (b - a), np.quantile(amps, .25), np.quantile(amps, .75))
            g = (r['goodData'], r['anyData'], r['q1'], r['q3'])
            require(np.allclose(np.array(g, dtype=float), exp, rtol=2e-3, atol=1e-9), lambda: 'statistics of %s in %s..%s: %s, expected %s' % (r['station'], a, b, g, exp))
        key.append([(k, len(v)) for k, v in sorted(model.items())])
    return Result(key=[sorted(want.values()), key], states=[[sorted(want.values()), w] for w in case['wins']], transitions=1 + len(case['wins']))
