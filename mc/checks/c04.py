import datetime
import itertools
import os

import gemlog
import numpy as np
import obspy

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C04'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of field values around every limit, alone and in pairs, replayed on read_gem and convert'
LEVEL_NOTE = ('every listed value of every field of a GPS line, alone, in pairs of fields and pairs of fixes, at several positions and '
              'in several raw formats, is read by the real code and compared with an independent validity rule')
RULE = 'a case is a set of (fix, field, value) replacements in a recording; non-trivial = distinct (fields, accepted fixes)'
ASSUMPTIONS = ['the plausible ranges are lat +-90, lon +-180, lag 0-1000 ms, years 2014-2040 and existing dates and times']
BOUNDS = {'quick': 'one replacement at 4 positions x 3 formats, pairs of replacements from limits', 'thorough': 'all pairs'}
SN = '061'
NFIX = 60
POS = dict(lag=1, year=2, month=3, day=4, hour=5, minute=6, second=7, lat=8, lon=9)
VALUES = dict(
    lat=[90, -90, 90.00001, -90.00001, 91, -123, 89.99999, -89.99999, 0, 0.00001, -0.00001],
    lon=[180, -180, 180.00001, -180.00001, 181, -300, 179.99999, -179.99999, 0, 0.00001, -0.00001],
    lag=[0, 1, -1, 999, 1000, 1001, 5000], year=[0, 21, 2013, 2014, 2015, 2040, 2041, 9999], month=[0, 1, 2, 12, 13, -1],
    day=[0, 1, 28, 29, 30, 31, 32, -1], hour=[0, 23, 24, 25, -1], minute=[0, 59, 60, 61, -1], second=[0, 59, 60, 61, -1, 30.5, 30.1, 59.9])
EDGE = dict(lat=[90, 90.00001, 0], lon=[-180, -180.00001, 0], lag=[1000, 1001, -1], year=[2014, 2013, 2041], month=[2, 13, 0],
            day=[29, 30, 31, 32], hour=[23, 24], minute=[59, 60], second=[59, 60, 30.5])


def cases(tier):
    for month in (3, 2, 4):
        for f, vs in VALUES.items():
            for v in vs:
                for pos in (0, 1, 29, NFIX - 1):
                    for ver in (('0.91', '0.85C', '0.8') if month == 3 else ('0.91',)):
                        if ver != '0.91' and pos == 1:
                            continue
                        yield dict(month=month, ver=ver, ch=[[pos, f, v]])
    src = EDGE if tier == 'quick' else VALUES
    for a, b in itertools.combinations(src, 2):
        for va in src[a]:
            for vb in src[b]:
                yield dict(month=3, ver='0.91', ch=[[29, a, va], [29, b, vb]])
                if tier != 'quick':
                    yield dict(month=3, ver='0.91', ch=[[29, a, va], [30, b, vb]])
    for a in EDGE:
        for va in EDGE[a]:
            for b in EDGE:
                for vb in EDGE[b][:2] if tier == 'quick' else EDGE[b]:
                    yield dict(month=3, ver='0.91', ch=[[0, a, va], [NFIX - 1, b, vb]])
    for year in (2020, 2021, 2024, 2022):
        for v in (28, 29, 30):
            yield dict(month=2, year=year, ver='0.91', ch=[[29, 'day', v]])
    for f in ('lat', 'lon', 'lag', 'second', 'year'):
        for v in VALUES[f]:
            if f in ('second', 'year') and v not in (30.5, 60, 2013, 2041):
                continue
            for n in (NFIX, NFIX - 9, NFIX - 12, 25):
                yield dict(month=3, ver='0.91', ch=[[p, f, v] for p in range(0, n)])
                yield dict(month=3, ver='0.91', ch=[[p, f, v] for p in range(NFIX - n, NFIX)])
    for ver in ('0.9', '0.91', '0.85C', '0.85', '0.8', '1.10'):
        for lat in (43.61234, -43.61234, 0.00001, -90.0):
            for lon in (116.2, -116.20594, 180.0, -0.00001):
                yield dict(month=3, ver=ver, ch=[], lat=lat, lon=lon)


def valid(f):
    _, lag, y, mo, d, h, mi, s, lat, lon = f
    if not (-90 <= lat <= 90 and -180 <= lon <= 180 and 0 <= lag <= 1000 and 2014 <= y <= 2040):
        return None
    if lat == 0 or lon == 0 or s != int(s):
        return None
    try:
        return datetime.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s), tzinfo=datetime.timezone.utc)
    except ValueError:
        return None


def run(case, work):
    ver = case['ver']
    t = g.utc(case.get('year', 2021), case['month'], 4, 12) + .3
    clock = g.Clock(t - 33, 7.0)
    rec = g.Recording(clock, t, t + NFIX, tref=t, lat=case.get('lat', 43.61234), lon=case.get('lon', -116.20594))
    at = {}
    for i, f in enumerate(rec.fixes):
        at[i] = f[0] + f[1]
        f[8] = round(f[8] + (1e-5 * (i - 20) if abs(f[8]) > 1 and abs(f[8]) < 89 else 0), 5)
    for p, name, v in case['ch']:
        rec.fixes[p][POS[name]] = v
    rec.fix_at = at
    os.mkdir('raw')
    g.write_recording('raw', 0, SN, rec, ver)
    good = [(f, valid(f)) for f in rec.fixes if valid(f)]
    nbad = len({p for p, _, _ in case['ch']})
    err = L = None
    try:
        L = gemlog.read_gem('raw', SN=SN)
    except (gemlog.exceptions.CorruptRawFile, gemlog.exceptions.MissingRawFiles) as e:
        err = type(e).__name__
    right = [(f, d) for f, d in good if abs(d.timestamp() - clock.time(f[0])) < .5]
    span = right[-1][1].timestamp() - right[0][1].timestamp() if right else 0
    if nbad > 2:
        wrong = len(good) - len(right)
        if not right or (wrong == 0 and (len(right) < 10 or span < 29)):
            require(err is not None, lambda: 'a file with %d plausible fixes spanning %d s was read' % (len(right), span))
            return Result(key=[case['ch'][0][1:], len(case['ch']), err])
        if err and (wrong > 2 or span < 31):
            return Result(key=[case['ch'][0][1:], len(case['ch']), err])
    require(err is None, lambda: 'a file with %d plausible fixes was rejected: %s' % (len(right), err))
    G = L['gps']
    got = [(int(a), round(float(b), 8), round(float(c), 5), round(float(d), 5), obspy.UTCDateTime(e).timestamp)
           for a, b, c, d, e in zip(G['year'], G['date'], G['lat'], G['lon'], G['t'])]
    want = [(f[2], round(d.timetuple().tm_yday + (d.hour * 3600 + d.minute * 60 + d.second) / 86400, 8), f[8], f[9], d.timestamp())
            for f, d in good]
    require(len(got) == len(want), lambda: '%d fixes kept, %d are plausible; %s' % (
        len(got), len(want), sorted(set(got) ^ set(want))[:3]))
    for a, b in zip(got, want):
        require(np.allclose(a, b, rtol=0, atol=2e-8), lambda: 'fix %s, written %s' % (a, b))
    h = L['header']
    require(abs(h['lat'][0] - np.median([f[8] for f, _ in good])) < 1e-9 and
            abs(h['lon'][0] - np.median([f[9] for f, _ in good])) < 1e-9,
            lambda: 'reported position %s %s is not the median of the plausible fixes' % (h['lat'][0], h['lon'][0]))
    require(h['num_gps_pts'][0] == len(good), 'number of fixes reported')
    bad = oracle.check_stream(list(L['data']), oracle.intervals([rec]), 1000.0, t, start_slack=.02)
    require(bad is None, bad)
    if nbad <= 2:
        gemlog.convert('raw', SN=SN, convertedpath='conv', metadatapath='log', gpspath='log')
        lines = open('log/%sgps_000.txt' % SN).read().splitlines()[1:]
        want = [w for w in want if w[4] > np.ceil(t) - 1]
        require(len(lines) == len(want), lambda: 'GPS log has %d fixes, expected %d' % (len(lines), len(want)))
        for x, w in zip(lines, want):
            y = x.split(',')
            require([float(v) for v in y[2:4]] == [w[2], w[3]] and obspy.UTCDateTime(y[4]).timestamp == w[4],
                    lambda: 'GPS log has %s, expected %s' % (x, w))
    return Result(key=[case['ch'][:2], ver, len(good)])
