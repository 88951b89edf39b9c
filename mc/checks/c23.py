import itertools
import os
import warnings

import gemlog
import numpy as np
import obspy
import pandas as pd

from mc.harness import Result, require

PROPERTY = 'C23'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of station-table forms and of sets of channels and coordinate rows, on the real code, against a model'
LEVEL_NOTE = ('all column orders, capitalizations, header presence and subsets of optional columns of a table over all small sets of rows; all sets of '
              'channels (up to the stated size) with every choice of located channels and coordinate form; written inventories are read back')
RULE = 'a case is a table form with a set of rows, or a set of channels with coordinates; non-trivial = distinct table or inventory'
ASSUMPTIONS = ['a header names each column sn, network, station, location or elevation in any capitalization', 'sensor numbers are text in the table']
BOUNDS = {'quick': 'up to 2 of 8 rows per form; up to 4 of 10 channels', 'thorough': 'up to 3 of 8 rows; up to 5 of 9 channels'}
COLS = ['SN', 'network', 'station', 'location', 'elevation']
#        SN, network, station, location, elevation
ROWS = [('061', 'NM', 'STA', '', '1022'), ('007', '', '007', '01', ''), ('123', 'NA', 'NAN', '1', '-3.5'), ('010', '00', 'nan', 'NA', '0'),
        ('900', '', 'E', '', '1e3'), ('099', 'X', '1.0', '00', ''), ('008', '7', 'TRUE', '08', '12.25'),
        ('200', 'SN', 'sn', '', '5')]
T0 = obspy.UTCDateTime(2021, 3, 4, 5, 6, 7.25)
CH = [('061', '', 'A', ''), ('007', '', 'A', '01'), ('123', '', 'B', ''), ('010', 'XX', 'A', ''), ('061', 'XX', 'A', '01'),
      ('900', 'XX', 'C', '00'), ('099', 'YY', 'D', ''), ('061', 'YY', 'B', '01'), ('008', 'YY', 'D', '1'),
      ('066', 'XX', 'A', '02')]
COORDS = ['codes', 'codes_SN', 'sn', 'snint', 'perm', 'notime', 'extra', 'noresp', 'table=coords']


def caps(k, j):
    return [k, k.lower(), k.upper(), k.capitalize(), k[0].lower() + k[1:].upper()][j]


def cases(tier):
    n = 2 if tier == 'quick' else 3
    orders = [p for m in range(2, 6) for c in itertools.combinations(range(5), m) if 0 in c and 2 in c for p in itertools.permutations(c)]
    for o in orders:
        for j in range(5):
            for rows in [(1, 3)] + [(0,), (2, 1)] * (j == 0) if tier == 'quick' else [(0,), (1, 3), (2, 1), (4,), (6, 5, 0)]:
                yield dict(k='table', order=o, caps=j, rows=rows, form='file')
        yield dict(k='table', order=o, caps=0, rows=(0, 1), form='crlf')
    for m in range(1, n + 1):
        for rows in itertools.permutations(range(len(ROWS)), m):
            for form in ('file', 'nohead4', 'nohead5', 'df', 'nonl'):
                yield dict(k='table', order=(0, 1, 2, 3, 4), caps=0, rows=rows, form=form)
            yield dict(k='table', order=(0, 1, 2, 3), caps=3, rows=rows, form='file')
            yield dict(k='table', order=(0, 1, 2, 3), caps=1, rows=rows, form='df')
    n = 4 if tier == 'quick' else 5
    for m in range(1, n + 1):
        for chs in itertools.combinations(range(len(CH)), m):
            for loc in itertools.product((1, 0), repeat=m) if m <= 3 or tier != 'quick' else [(1,) * m] + [tuple(int(i != j) for i in range(m)) for j in range(m)]:
                if any(loc):
                    yield dict(k='inv', chs=chs, loc=loc, coords='codes')
            if m <= 3:
                for c in COORDS[1:]:
                    yield dict(k='inv', chs=chs, loc=(1,) * m, coords=c)
                    if m > 1:
                        yield dict(k='inv', chs=chs, loc=(0,) + (1,) * (m - 1), coords=c)
                        yield dict(k='inv', chs=chs[::-1], loc=(1,) * m, coords=c)


def table(case):
    rows = [ROWS[i] for i in case['rows']]
    if case['form'] == 'df':
        df = pd.DataFrame([[r[i] for i in case['order']] for r in rows], columns=[caps(COLS[i], case['caps']) for i in case['order']])
        e = caps('elevation', case['caps'])
        if e in df:
            df[e] = [float(x) if x else np.nan for x in df[e]]
        arg = df
    else:
        order = dict(nohead4=(0, 1, 2, 3), nohead5=(0, 1, 2, 3, 4)).get(case['form'], case['order'])
        lines = [','.join(r[i] for i in order) for r in rows]
        if not case['form'].startswith('nohead'):
            lines.insert(0, ','.join(caps(COLS[i], case['caps']) for i in order))
        nl = '\r\n' if case['form'] == 'crlf' else '\n'
        open('t.csv', 'w', newline='').write(nl.join(lines) + ('' if case['form'] == 'nonl' else nl))
        arg = 't.csv'
        case = dict(case, order=order)
    has = set(case['order'])
    want = [(r[0], r[1] if 1 in has else '', r[2], r[3] if 3 in has else '', float(r[4] or -9999) if 4 in has else -9999.) for r in rows]
    # through the inventory
    coords = pd.DataFrame([dict(SN=w[0], lat=40 + i, lon=-110 - i, elevation=w[4]) for i, w in enumerate(want)])
    inv = gemlog.make_gem_inventory(arg, coords)
    got = sorted((ch.sensor.serial_number, net.code, sta.code, ch.location_code, float(ch.elevation)) for net in inv for sta in net for ch in sta)
    require(got == sorted(want), lambda: 'inventory has %s, table says %s' % (got, want))
    # through renaming
    os.mkdir('in')
    for sn in [w[0] for w in want] + ['999', '100']:
        tr = obspy.Trace(np.arange(5, dtype='int32'))
        tr.stats.station, tr.stats.starttime, tr.stats.channel = sn, T0, 'HDF'
        tr.write('in/2021-03-04T05_06_07..%s..HDF.mseed' % sn, format='MSEED')
    ret = gemlog.rename_files('in/*', arg, 'out')
    ids = sorted(os.listdir('out'))
    exp = sorted('2021-03-04T05_06_07.%s.%s.%s.HDF.mseed' % w[1:4] for w in want)
    require(ids == exp, lambda: 'renamed files %s, table says %s' % (ids, exp))
    got = [(r.SN, r.network, r.station, r.location, float(r.elevation)) for r in ret.itertuples()]
    require(got == want, lambda: 'table returned as %s instead of %s' % (got, want))
    # through the GPS summary
    os.mkdir('gps')
    for i, w in enumerate(want + [('999',)]):
        with open('gps/%sgps_000.txt' % w[0], 'w') as f:
            f.write('year,date,lat,lon,t\n' + '2021,63.2,%d.0,%d.0,%s\n' % (40 + i, -110 - i, T0) * 3)
    s = gemlog.summarize_gps('gps', arg)
    got = sorted((r.SN, r.network, r.station, r.location, float(r.elevation)) for r in s.itertuples())
    exp = sorted(want + [('999', '', '', '', -9999.)])
    require(got == exp, lambda: 'summary has %s, table says %s' % (got, exp))
    return Result(key=['table', want], transitions=3)


def inventory(case):
    chs = [CH[i] for i in case['chs']]
    form = case['coords']
    sts = pd.DataFrame(chs, columns=COLS[:4])
    rows, model = [], {}
    snmode = form in ('sn', 'snint')
    seen = {}
    for j, (c, l) in enumerate(zip(chs, case['loc'])):
        if snmode and c[0] in seen:
            i, l = seen[c[0]]
        else:
            i = case['chs'][j]
            seen[c[0]] = (i, l)
        lat, lon, elev, t1, t2 = 43.5 + .01 * i * i * i, -116.25 - .02 * i * i, 800. + 3 * i * i, T0 + 10 * i, T0 + 1e5 * (i + 1)
        if not l:
            continue
        if not (snmode and j != list(c[0] == x[0] for x in chs).index(True)):
            rows.append(dict(SN=c[0], network=c[1], station=c[2], location=c[3], lat=lat, lon=lon, elevation=elev, starttime=t1, endtime=t2,
                             lat_SE=1e-6, num_samples=5))
        model.setdefault(c[1], {}).setdefault(c[2], {})[c[3]] = (c[0], lat, lon, elev, t1 - 3600, t2 + 3600)
    if form == 'extra':
        rows = [dict(rows[0], SN='555', network='QQ', lat=1.), dict(rows[0], SN='555', station='Q', lat=2.), dict(rows[0], SN='555', location='Q', lat=2.)] + rows
    if not rows:
        return Result(key=None)
    coords = pd.DataFrame(rows)
    if form == 'codes':
        coords = coords.drop(columns='SN')
    elif snmode:
        coords = coords[['SN', 'lat', 'lon', 'elevation', 'starttime', 'endtime']]
        if form == 'snint':
            coords['SN'] = coords['SN'].astype(int)
    elif form == 'perm':
        coords = coords.iloc[::-1]
    elif form == 'notime':
        coords = coords.drop(columns=['starttime', 'endtime'])
    arg = sts
    if form == 'table=coords':          # as the command summarize_gps does
        coords['sn'] = coords['SN']
        arg = coords
    before = coords.copy(), sts.copy()
    inv = gemlog.make_gem_inventory(arg, coords, *([] if form == 'noresp' else [gemlog.get_gem_response()]))
    require(before[0].equals(coords) and before[1].equals(sts), 'the tables given were changed')
    for fmt in ('object', 'xml'):
        if fmt == 'xml':
            inv.write('inv.xml', format='STATIONXML')
            inv = obspy.read_inventory('inv.xml')
        got, n = {}, 0
        for net in inv:
            require(net.code not in got, 'network %s occurs twice' % net.code)
            g = got[net.code] = {}
            require(len(net) > 0, 'network %s is empty' % net.code)
            for sta in net:
                require(sta.code not in g, 'station %s occurs twice' % sta.code)
                s = g[sta.code] = {}
                for ch in sta:
                    require(ch.code == 'HDF' and ch.sample_rate == 100, 'channel %s' % ch)
                    require(ch.location_code not in s, 'location occurs twice')
                    s[ch.location_code] = (ch.sensor.serial_number, float(ch.latitude), float(ch.longitude), float(ch.elevation), ch.start_date, ch.end_date)
                    r = ch.response.instrument_sensitivity.value
                    require(abs(r / gemlog.get_gem_response().instrument_sensitivity.value - 1) < 1e-6, 'channel has response sensitivity %s' % r)
                    if form == 'notime':
                        require(ch.start_date.year <= 1970 and ch.end_date.year >= 2999, 'time span of a channel without times')
                for a, k in (('latitude', 1), ('longitude', 2), ('elevation', 3)):
                    m = sum(v[k] for v in s.values()) / len(s)
                    require(abs(float(getattr(sta, a)) - m) < 1e-7, lambda: '%s of station %s is %s, mean of its channels %s' % (a, sta.code, getattr(sta, a), m))
                require(sta.start_date == min(v[4] for v in s.values()) and sta.end_date == max(v[5] for v in s.values()), 'time span of station ' + sta.code)
            require(net.start_date == min(s.start_date for s in net) and net.end_date == max(s.end_date for s in net), 'time span of network ' + net.code)

        def flat(m):
            return {(a, b, c): v[:4] if form == 'notime' else v for a, x in m.items() for b, y in x.items() for c, v in y.items()}
        got, want = flat(got), flat(model)
        require(sorted(got) == sorted(want), lambda: '%s: channels %s, expected %s' % (fmt, sorted(got), sorted(want)))
        for k in want:
            g, w = got[k], want[k]
            require(g[0] == w[0] and np.allclose(g[1:4], w[1:4], atol=1e-9, rtol=0) and all(abs(a - b) < 1e-5 for a, b in zip(g[4:], w[4:])),
                    lambda: '%s: channel %s is %s, expected %s' % (fmt, '.'.join(k), g, w))
    return Result(key=['inv', sorted((list(k), v[0]) for k, v in want.items())], transitions=2)


def run(case, work):
    warnings.simplefilter('ignore')
    return (table if case['k'] == 'table' else inventory)(case)
