import itertools
import os
import warnings

import gemlog
import numpy as np
import obspy
import pandas as pd
from gemlog.gem_network import summarize_gps_terminal

from mc.harness import Result, require

PROPERTY = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sets of GPS logs with selections, windows and outliers, summarized by the real code, against a model'
LEVEL_NOTE = ('all subsets of the log alphabet with every form of naming the folders; all pairs of deviations among window limits, selections, outlier '
              'patterns, unrelated files and station table; rows, read_gps tables, written files and inventories are compared with the model')
RULE = 'a case is a set of logs with options; model state = (logs, window, selection); non-trivial = distinct set of summary rows'
ASSUMPTIONS = ['outliers are gross (0.1 degree or more) and at most 3.5% of the fixes in the window; good fixes spread less than 1e-3 degree',
               'log files named explicitly are all used']
BOUNDS = {'quick': '7 logs in 2 folders, all subsets; all pairs of other deviations for 6 sets of logs',
          'thorough': '9 logs in 3 folders, all subsets; all triples of other deviations for 10 sets of logs'}
LOGS = {'A/061gps_000.txt': 0, 'A/061gps_001.txt': 1, 'A/007gps_000.txt': 2, 'A/0610gps_000.txt': 3, 'B/061gps_000.txt': 4,
        'B/007gps_002.txt': 5, 'A/007gps_010.txt': 6, 'C/061gps_005.txt': 7, 'C/061gps_004.txt': 8}
T0 = obspy.UTCDateTime(2021, 12, 31, 20, 0, 0)
N, DT = 60, 300
POS = {'061': (43.5, -116.2), '007': (-17.25, 179.995), '0610': (0.01, 0.002)}
FORMS = ['glob', 'list', 'slash', 'dir', 'files', 'mixed']
JUNK = {'061gps_001.txt~': 'x', '061metadata_003.txt': 'year,t,lat\n2021,5,3\n', '007.csv': 'a,b\n1,2\n', 'README.txt': 'gps logs', '061x.txt': 'nonsense',
        '.061gps_009.txt.swp': 'x'}
OUT = ['first', 'last', 'mid', 'two', 'lat', 'lon', 'near', 'lab', 'lab2', 'zero', 'hidden']
WIN = [(None, None), (0, None), (None, N - 1), (0, N - 1), (.5, None), (None, N - 1.5), (20, 40), (29.5, None), (None, 29), (7, 7), (7.2, 7.8), (N, None), (None, -1), (45, 10)]
SEL = [(None, None), (['061'], None), (['007', '061'], None), (['061', '999'], None), (None, ['061']), (None, ['0610']), (['0610'], None), (['061', '007'], ['007']), (None, ['999'])]
DEV = dict(win=list(range(1, len(WIN))), sel=list(range(1, len(SEL))), out=OUT, junk=[1], scatter=['lon', 'lat'], mtime=[1], table=['df', 'file', 'part'], form=FORMS[1:], outfile=['o.csv'])


def cases(tier):
    from mc.space import deviations
    names = list(LOGS)[:7 if tier == 'quick' else 9]
    for m in range(1, len(names) + 1):
        for logs in itertools.combinations(names, m):
            for form in FORMS:
                yield dict(k='sum', logs=logs, form=form)
    sets = [names[:3], names[:7], names[:1], names[1:6], names[2:5], names[3:7]]
    if tier != 'quick':
        sets += [names, names[4:9], names[0:9:2], names[7:9]]
    for logs in sets:
        for d in deviations(DEV, 2 if tier == 'quick' else 3):
            yield dict(d, k='sum', logs=logs)
    for logs in sets:
        for win in range(0, len(WIN), 1 if tier != 'quick' else 2):
            for sel in range(len(SEL)):
                for tab in (None, 'file'):
                    yield dict(k='cmd', logs=logs, win=win, sel=sel, table=tab, form='files' if (win + sel) % 2 else 'list')


def fixes(log, out, scatter=None):
    """the rows of one log: (time, lat, lon, is outlier)"""
    sn, j = os.path.basename(log).split('gps')[0], LOGS[log]
    la, lo = POS[sn]
    rows = []
    for i in range(N):
        rows.append([T0 + DT * i + 17 * j, la + 3e-6 * j + 1e-5 * ((i * 7 + j) % 11) / 10, lo + 2.5e-6 * j + 1e-5 * ((i * 5 + 3 * j) % 13) / 12, False])
    for i, r in enumerate(rows):          # a site where one coordinate scatters much more than the other
        if scatter:
            r[2 if scatter == 'lon' else 1] += 1e-4 * (i * 11 % 17 - 8)
    bad = {'first': [0], 'last': [N - 1], 'mid': [35], 'two': [3, 50], 'hidden': [3, 50], 'lat': [10], 'lon': [10], 'near': [22], 'zero': [33]}.get(out, [])
    for k, i in enumerate(bad):
        r = rows[i]
        r[3] = True
        if out == 'zero':
            r[1] += 20
            r[2] -= 30
        if out in ('lat', 'first', 'mid') or (out == 'two' and k):
            r[1] += 10 if out != 'two' else .12
        if out in ('lon', 'last') or out == 'two' and not k:
            r[2] += -10
        if out == 'hidden':     # one far, one near
            r[1] += .2 if k else 40
        if out == 'near':
            r[1] -= .1
    if out == 'lab':          # a test elsewhere before deployment, longer than the deployment
        rows = [[T0 - 86400 * 9 + 60 * i, 35. + 1e-6 * i, -100., True] for i in range(90)] + rows
    if out == 'lab2':         # and afterwards
        rows = rows + [[T0 + 86400 * 9 + 60 * i, 35., -100. + 1e-6 * i, True] for i in range(9)]
    return rows


def write(logs, out, junk, scatter=None, mtime=None):
    for log in logs:
        os.makedirs('proj/' + log.split('/')[0] + '/gps', exist_ok=True)
        with open('proj/' + log.replace('/', '/gps/'), 'w') as f:
            f.write('year,date,lat,lon,t\n')
            if LOGS[log] != 6:       # a log without fixes
                for t, la, lo, _ in fixes(log, out, scatter):
                    f.write('%d,%.10f,%.8f,%.8f,%s\n' % (t.year, t.julday + (t - obspy.UTCDateTime(t.year, t.month, t.day)) / 86400, la, lo, t))
    if mtime:                             # copying the logs left them with other modification times
        for i, log in enumerate(sorted(logs)):
            os.utime('proj/' + log.replace('/', '/gps/'), (1.6e9 - 100 * i,) * 2)
    if junk:
        for d in os.listdir('proj'):
            for f, c in JUNK.items():
                open('proj/%s/gps/%s' % (d, f), 'w').write(c)


def pattern(form, logs):
    dirs = sorted({'proj/%s/gps' % l.split('/')[0] for l in logs})
    if form == 'glob':
        return 'proj/*/gps', dirs
    if form == 'slash':
        return 'proj/[AC]/gps/', [d for d in dirs if d != 'proj/B/gps']
    if form == 'dir':
        return dirs[0], dirs[:1]
    if form == 'list':
        return dirs[::-1], dirs
    if form == 'files':
        return [f for f in latest(logs, dirs)[::-1]], dirs
    return dirs[:1] + [f for f in latest(logs, dirs) if not f.startswith(dirs[0])], dirs


def latest(logs, dirs):
    best = {}
    for l in logs:
        f = 'proj/' + l.replace('/', '/gps/')
        d = os.path.dirname(f)
        if d in dirs:
            k = (d, os.path.basename(f).split('gps')[0])
            best[k] = max(best.get(k, ''), f)
    return sorted(best.values())


TABLE = [('061', 'NM', 'STA', '', '12.5'), ('0610', 'NA', 'STC', '07', ''), ('007', '', '061', '01', '-3')]


def model(case, dirs):
    a, b = WIN[case.get('win', 0)]
    inc, exc = SEL[case.get('sel', 0)]
    t1 = None if a is None else T0 + DT * a
    t2 = None if b is None else T0 + DT * b
    per = {}
    for f in latest(case['logs'], dirs):
        log = f.replace('proj/', '').replace('/gps/', '/')
        sn = os.path.basename(log).split('gps')[0]
        per.setdefault(sn, [])
        if LOGS[log] != 6:
            per[sn] += fixes(log, case.get('out'), case.get('scatter'))
    rows = {}
    for sn, fx in per.items():
        if (inc is not None and sn not in inc) or (exc is not None and sn in exc):
            continue
        fx = [r for r in fx if (t1 is None or r[0] >= t1) and (t2 is None or r[0] <= t2)]
        bad = sum(r[3] for r in fx)
        if bad > .035 * len(fx):
            return None, per, t1, t2
        fx = [r for r in fx if not r[3]]
        if fx:
            la, lo = np.array([r[1] for r in fx]), np.array([r[2] for r in fx])
            rows[sn] = (la.mean(), lo.mean(), la.std() / len(la) ** .5, lo.std() / len(lo) ** .5, min(r[0] for r in fx), max(r[0] for r in fx), len(fx))
    return rows, per, t1, t2


def compare(got, rows, codes, what):
    """got: DataFrame"""
    sns = [str(s) for s in got['SN']]
    require(sorted(sns) == sorted(rows), lambda: '%s has rows for %s, expected %s' % (what, sns, sorted(rows)))
    for i, sn in enumerate(sns):
        r, w = got.iloc[i], rows[sn]
        g = (r['lat'], r['lon'], r['lat_SE'], r['lon_SE'], obspy.UTCDateTime(str(r['starttime'])), obspy.UTCDateTime(str(r['endtime'])), r['num_samples'])
        require(abs(g[0] - w[0]) < 2e-8 and abs(g[1] - w[1]) < 2e-8 and abs(g[2] - w[2]) < 3e-9 and abs(g[3] - w[3]) < 3e-9
                and abs(g[4] - w[4]) < 1e-3 and abs(g[5] - w[5]) < 1e-3 and g[6] == w[6],
                lambda: '%s: row of %s is %s, expected %s' % (what, sn, [str(x) for x in g], [str(x) for x in w]))
        if codes is None:
            require(float(r['elevation']) == -9999, 'elevation without table')
        else:
            c = codes.get(sn, ('', '', '', '-9999'))
            g = [str(r[k]) for k in ('network', 'station', 'location')]
            require(g == list(c[:3]) and float(r['elevation']) == float(c[3] or -9999), lambda: '%s: codes of %s are %s %s, expected %s' % (what, sn, g, r['elevation'], c))


def table(form):
    rows = TABLE[:2] if form == 'part' else TABLE
    if form is None:
        return None, None
    codes = {r[0]: r[1:] for r in rows}
    if form == 'df':
        return pd.DataFrame([r[:4] + (float(r[4] or 'nan'),) for r in rows], columns=['SN', 'network', 'station', 'location', 'elevation']), codes
    open('t.csv', 'w').write('SN,Network,Station,Location,Elevation\n' + ''.join(','.join(r) + '\n' for r in rows))
    return 't.csv', codes


def run(case, work):
    warnings.simplefilter('ignore')
    write(case['logs'], case.get('out'), case.get('junk'), case.get('scatter'), case.get('mtime'))
    pat, dirs = pattern(case.get('form', 'glob'), case['logs'])
    rows, per, t1, t2 = model(case, dirs)
    if rows is None or not pat:
        return Result(key=None)
    arg, codes = table(case.get('table'))
    inc, exc = SEL[case.get('sel', 0)]
    if case['k'] == 'cmd':
        return command(case, pat, rows, arg, codes, t1, t2, inc, exc)
    kw = {}
    if t1 is not None:
        kw['t1'] = t1 if case.get('sel', 0) % 2 else str(t1)
    if t2 is not None:
        kw['t2'] = t2 if case.get('sel', 0) % 2 else t2.strftime('%Y-%m-%d_%H:%M:%S')
    if inc is not None:
        kw['include_SN'] = list(inc)
    if exc is not None:
        kw['exclude_SN'] = list(exc)
    got = gemlog.summarize_gps(pat, station_info=arg, output_file=case.get('outfile'), **kw)
    compare(got, rows, codes, 'summary')
    if case.get('outfile'):
        compare(pd.read_csv('o.csv', dtype=dict(SN=str, network=str, station=str, location=str), keep_default_na=False), rows, codes, 'written summary')
    else:
        require(sorted(os.listdir('.')) == sorted(['proj'] + ['t.csv'] * (arg == 't.csv' if isinstance(arg, str) else 0)), 'unexpected output files')
    for sn in list(per) + ['999', '06']:
        tab = gemlog.read_gps(pat, sn)
        want = sorted([(float(r[0]), round(r[1], 7), round(r[2], 7)) for r in per.get(sn, [])])
        res = sorted([(float(t), round(a, 7), round(b, 7)) for t, a, b in zip(tab.t, tab.lat, tab.lon)])
        require(len(res) == len(want) and np.allclose(np.array(res), np.array(want), atol=2e-7), lambda: 'read_gps of %s: %d fixes, expected %d' % (sn, len(res), len(want)))
    return Result(key=[(s, r[6], '%.6f' % r[0]) for s, r in sorted(rows.items())], states=[[case['logs'], case.get('win'), case.get('sel')]], transitions=1 + len(per))


def command(case, pat, rows, arg, codes, t1, t2, inc, exc):
    if not rows:
        return Result(key=None)
    argv = pat + ['-o', 'net'] + (['-s', arg] if arg else [])
    if t1 is not None:
        argv += ['-1', str(t1)]
    if t2 is not None:
        argv += ['--t2', str(t2)]
    if inc is not None:
        argv += ['-i', ','.join(inc)]
    if exc is not None:
        argv += ['-x', ','.join(exc)]
    summarize_gps_terminal(argv)
    compare(pd.read_csv('net.csv', dtype=dict(SN=str, network=str, station=str, location=str), keep_default_na=False), rows, codes, 'net.csv')
    inv = obspy.read_inventory('net.xml')
    got = {(n.code, s.code, c.location_code): (c.sensor.serial_number, float(c.latitude), float(c.longitude), float(c.elevation), c.start_date, c.end_date)
           for n in inv for s in n for c in s}
    require(len(got) == len(rows), lambda: 'inventory has %s, expected %s' % (sorted(got), sorted(rows)))
    for sn, r in rows.items():
        k = tuple(codes[sn][:3]) if codes else ('', sn, '')
        e = float(codes[sn][3] or -9999) if codes else -9999.
        require(k in got, lambda: 'inventory lacks %s' % (k,))
        g = got[k]
        require(g[0] == sn and abs(g[1] - r[0]) < 1e-7 and abs(g[2] - r[1]) < 1e-7 and g[3] == e and abs(g[4] - (r[4] - 3600)) < 1 and abs(g[5] - (r[5] + 3600)) < 1,
                lambda: 'inventory entry of %s: %s, expected %s' % (sn, g, r))
    require(os.path.getsize('net.kml') > 100, 'no kml written')
    return Result(key=['cmd'] + [(s, r[6], '%.6f' % r[0]) for s, r in sorted(rows.items())], states=[[case['logs'], case['win'], case['sel']]], transitions=1)
