"""The documented workflow from raw files to the direction of a wave, with the wave known."""
import contextlib
import io
import logging
import math
import os

import gemlog
import gemlog.gemconvert
import gemlog.gem_network
import gemlog.xcorr
import numpy as np
import obspy
import pandas as pd

from mc import gemgen as g
from mc.harness import Result, require
from mc.space import deviations

PROPERTY = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of deployment histories and workflow routes within a deviation bound, end to end through the real commands'
LEVEL_NOTE = ('a known plane wave is written into the raw files of an array and every combination of at most two (thorough: three) departures from a plain '
              'campaign is taken through gemconvert, summarize_gps, waveform_calc_lags and waveform_calc_directions; each reported direction is compared with the wave')
RULE = 'a case is a campaign and a route; a state is (campaign, window); non-trivial = distinct (channels, windows with a direction, windows without)'
ASSUMPTIONS = ['the wave delay across the array is below the largest lag searched (1 s)', 'no array spans the 180th meridian']
BOUNDS = {'quick': '3 to 5 Gems, 80 s; all single deviations, all pairs of a reduced menu', 'thorough': 'all pairs of the full menu, all triples of the reduced menu'}
SNS = ['061', '007', '106', '200', '123']
EXTRA = '009'
XY = [(0.0, 0.0), (0.21, 0.02), (0.04, 0.19), (-0.12, 0.11), (0.1, -0.14)]        # km
PLACES = {'boise': (43.6, -116.2), 'south': (-33.3, 151.2), 'zero': (51.5, 0.00052), 'equator': (0.00061, -78.5), 'polar': (78.2, 15.6)}
STARTS = {'plain': g.utc(2021, 3, 4, 0, 10, 3), 'hour': g.utc(2021, 3, 4, 0, 59, 21), 'newyear': g.utc(2020, 12, 31, 23, 59, 17), 'leapday': g.utc(2020, 2, 28, 23, 59, 33)}
DUR = 40.0
CODES = {
    'plain': [('NM', 'A%d' % i, '') for i in range(5)],
    'loc': [('XP', 'PARK', '%02d' % (5 - i)) for i in range(5)],
    'nets': [('N' + 'BACED'[i], 'S', '') for i in range(5)],
    'nonet': [('', 'ST%d' % (9 - i), '0%d' % i) for i in range(5)],
    'numeric': [('01', '00%d' % i, '10') for i in range(5)],
    'swapped': [('', s, '') for s in SNS[1:] + SNS[:1]],         # stations named like other Gems
    'sn': [('', s, '') for s in SNS],                             # no codes table
}
MENU = dict(ver=['1.10', 'mix'], clock=['ppm', 'reboot'], codes=['loc', 'nets', 'nonet', 'swapped'], start=['hour', 'newyear'], wave=[(200.0, 3.4), (301.0, 1.2)],
            place=['south', 'zero'], n=[3, 5], trouble=['gap', 'infile', 'missing', 'late', 'wrongfix'], route=['func', 'rename'], sel=['time', 'half'], extra=['listed', 'unlisted'])
MORE = dict(ver=['1.10', 'mix', '0.85C', '0.9'], clock=['ppm', 'reboot', 'long'], codes=['loc', 'nets', 'nonet', 'swapped', 'sn', 'numeric'], start=['hour', 'newyear', 'leapday'],
            wave=[(200.0, 3.4), (301.0, 1.2), (0.0, 2.9), (90.0, 3.1)], place=['south', 'zero', 'equator', 'polar'], n=[3, 5],
            trouble=['gap', 'infile', 'missing', 'late', 'wrongfix', 'badfile', 'torn', 'nofix', 'short'], which=[0, 2], route=['func', 'rename', 'cat', 'twice'],
            sel=['time', 'half', 'include', 'exclude', 'short'], extra=['listed', 'unlisted'], fmt=['sac'], len=['0.01', '24'], table=['nohead', 'order', 'shuffled'], files=['reverse', 'junk'], p=[3])
T0 = g.utc(2020, 1, 1)
FREQ = np.array([1.0 + 8.0 * ((i * 0.6180339887) % 1) for i in range(60)])
PHASE = np.array([2 * np.pi * ((i * 0.7548776662) % 1) for i in range(60)])


def sane(c):
    if c.get('codes') == 'sn' and ('table' in c or c.get('route') == 'rename' or 'extra' in c):
        return False
    if c.get('route') == 'rename' and (c.get('fmt') or c.get('trouble') in ('gap', 'infile')):
        return False
    if c.get('route') == 'cat' and (c.get('ver') in ('mix', '1.10', '0.9', '0.85C') or c.get('trouble') in ('badfile', 'torn')):
        return False
    if c.get('route') == 'func' and ('p' in c or c.get('trouble') == 'badfile'):
        return False
    if c.get('n') == 3 and c.get('sel') in ('include', 'exclude') or c.get('n') == 3 and c.get('which') == 3:
        return False
    return not ('which' in c and 'trouble' not in c)


def cases(tier):
    seen = set()
    menus = [(MORE, 1), (MENU, 2)] if tier == 'quick' else [(MORE, 2), (MENU, 3)]
    for menu, k in menus:
        for c in deviations(menu, k, sane):
            key = repr(sorted(c.items()))
            if key not in seen:
                seen.add(key)
                yield c
    for tr in MORE['trouble']:
        for w in MORE['which']:
            c = dict(trouble=tr, which=w)
            if repr(sorted(c.items())) not in seen:
                yield c


def wave(t):
    """the pressure at the origin of the array"""
    return 400 * np.cos(2 * np.pi * np.outer(np.asarray(t), FREQ) + PHASE).sum(1)


def place(name, n):
    """-> latitudes and longitudes as the GPS writes them, and metres east and north of the first"""
    lat0, lon0 = PLACES[name]
    e2, a = 0.00669438, 6378.137
    s = math.sin(math.radians(lat0))
    north = a * (1 - e2) / (1 - e2 * s * s) ** 1.5 * math.pi / 180
    east = a / math.sqrt(1 - e2 * s * s) * math.cos(math.radians(lat0)) * math.pi / 180
    pos = []
    for x, y in XY[:n]:
        lat, lon = round(lat0 + y / north, 5), round(lon0 + x / east, 5)
        pos.append((lat, lon, (lon - lon0) * east, (lat - lat0) * north))
    return pos


def campaign(case, where):
    """writes the raw files -> truth"""
    n = case.get('n', 4)
    baz, slow = case.get('wave', (37.0, 2.9))
    t0 = STARTS[case.get('start', 'plain')]
    base = math.floor(t0) - 1000
    pos = place(case.get('place', 'boise'), n)
    bad = case.get('which', 1)
    os.makedirs(where)
    cover = []
    for i, sn in enumerate(SNS[:n] + [EXTRA]):
        if sn == EXTRA and 'extra' not in case:
            continue
        trouble = case.get('trouble') if i == bad else None
        lat, lon, x, y = pos[i] if i < n else (10.0, 20.0, 0.0, 0.0)
        delay = -slow * (x * math.sin(math.radians(baz)) + y * math.cos(math.radians(baz)))
        ver = case.get('ver', '0.91')
        if ver == 'mix':
            ver = ['0.91', '1.10', '0.9', '0.85C', '1.10'][i % 5]
        ta = t0 + 0.37 * i + (13.0 if trouble == 'late' else 0)
        ppm = [8.0, -11.0, 3.0, 25.0, -20.0, 0.0][i] if case.get('clock') == 'ppm' else 0.0
        clock = g.Clock(ta - (40000.0 if case.get('clock') == 'long' else 3.3) - 1.1 * i, ppm)
        spans = []
        for num in (0, 1):
            tb = ta + DUR - (17 if trouble == 'short' and num == 1 else 0)
            gaps = [(ta + 20.0, ta + 20.6)] if trouble == 'infile' and num == 1 else []
            times = [t for t in range(int(ta) - 1, int(tb) + 2) if ta <= t < tb]
            if trouble == 'nofix' and num == 1:
                times = [t for t in times if not ta + 8 < t < ta + 17]
            rec = g.Recording(clock, ta, tb, lat=lat, lon=lon, gaps=gaps, gps_times=times)
            ms = np.array([m for m, _ in rec.samples])
            val = wave(clock.time(ms + g.CORR) - delay - base)
            rec.samples = [(int(m), int(round(v))) for m, v in zip(ms, val)]
            if ver in ('0.85C', '0.9'):
                for f in rec.fixes:
                    f[0] = round(f[0])
            if trouble == 'wrongfix' and num == 0:
                rec.fixes[4][8:10] = [lat + 1.5, lon - 2.25]
            if trouble == 'missing' and num == 1:
                break
            fn = g.write_recording(where, num, sn, rec, ver)
            if trouble == 'torn' and num == 1:
                text = open(fn, newline='').read()
                lines = text.split('\n')
                cut = int(len(lines) * 0.6)
                g.write(fn, lines[:cut])
                data = open(fn, newline='').read()
                open(fn, 'w', newline='').write(data[:-4])
                spans.append([ta, None])                   # the end is found from the last complete line
                tb = ta + 0.6 * DUR
                spans[-1][1] = tb
            elif gaps:
                spans += [[ta, gaps[0][0]], [gaps[0][1], tb]]
            else:
                spans.append([ta, tb])
            ta = tb + (7.0 if trouble == 'gap' else 0)
            if case.get('clock') == 'reboot' and i == 2:
                ta += 4.0
                clock = g.Clock(ta - 2.2, ppm)
        if trouble == 'badfile':
            g.write(os.path.join(where, 'FILE0002.%s' % sn), g.header(ver, sn) + ['P,1'])
        if sn == EXTRA:
            continue
        joined = [spans[0]]
        for a, b in spans[1:]:
            if a - joined[-1][1] < 0.015:
                joined[-1][1] = b
            else:
                joined.append([a, b])
        cover.append(joined)
    return pos, baz, slow, cover


def command(f, *args):
    for h in logging.getLogger().handlers[:]:
        logging.getLogger().removeHandler(h)
        h.close()
    try:
        return f(*args)
    except SystemExit as e:
        require(not e.code, lambda: '%s ended with %s' % (args, e.code))


def table(case, n):
    rows = [(s,) + c for s, c in zip(SNS[:n], CODES[case.get('codes', 'plain')])]
    if case.get('extra') == 'listed':
        rows.append((EXTRA, 'ZZ', 'OTHER', '99'))
    form = case.get('table')
    if form == 'shuffled':
        rows = rows[2:] + rows[:2][::-1]
    if form == 'order':
        return ['Location,Station,SN,Network'] + [','.join((r[3], r[2], r[0], r[1])) for r in rows]
    return ([] if form == 'nohead' else ['SN,Network,Station,Location']) + [','.join(r) for r in rows]


def run(case, work):
    n = case.get('n', 4)
    pos, baz, slow, cover = campaign(case, 'raw')
    codes = CODES[case.get('codes', 'plain')][:n]
    fmt, route = case.get('fmt', 'mseed'), case.get('route', 'main')
    names = ['%s.%s.%s' % c for c in codes]
    open('codes.csv', 'w').write('\n'.join(table(dict(case, extra='unlisted' if case.get('extra') != 'listed' else 'listed'), n)) + '\n')
    raw = 'raw'
    length = float(case.get('len', '1'))
    if route == 'cat':
        raw = 'cat'
        os.mkdir(raw)
        for sn in sorted({f.split('.')[-1] for f in os.listdir('raw')}):
            gemlog.gem_cat('raw', raw, ext=sn)
    if route == 'func':
        for sn in SNS[:n] + ([EXTRA] if 'extra' in case else []):
            c = dict(zip(SNS, codes)).get(sn)
            if c is None and case['extra'] == 'unlisted':
                continue
            c = c or ('ZZ', 'OTHER', '99')
            gemlog.convert(raw, SN=sn, convertedpath='out', network=c[0], station=c[1], location=c[2], file_length_hour=length, output_format=fmt)
    else:
        argv = ['-i', raw, '-o', 'out', '-f', fmt, '-l', case.get('len', '1')]
        if case.get('codes') != 'sn' and route != 'rename':
            argv += ['-c', 'codes.csv']
        if 'p' in case:
            argv += ['-p', str(case['p'])]
        for _ in range(2 if route == 'twice' else 1):
            command(gemlog.gemconvert.main, argv)
    out = 'out'
    if route == 'rename':
        gemlog.gem_network.rename_files('out/*', 'codes.csv', 'renamed', output_format=fmt)
        gemlog.gem_network.merge_files_day('renamed', outfile_dir='merged')
        out = 'merged'
    gps = ['gps', '-s', 'codes.csv', '-o', 'sites'] if case.get('codes') != 'sn' else ['gps', '-o', 'sites']
    if case.get('codes') == 'sn':
        coords = gemlog.gem_network.summarize_gps('gps', station_info='codes.csv')
        coords['elevation'] = 12.0
        gemlog.gem_network.make_gem_inventory('codes.csv', coords).write('sites.xml', format='STATIONXML')
    else:
        command(gemlog.gem_network.summarize_gps_terminal, gps)
    # positions and channels
    inv = obspy.read_inventory('sites.xml')
    got = {'.'.join(c.split('.')[:3]): c for c in inv.get_contents()['channels']}
    want = dict(zip(names, pos))
    known = sorted(want) + (['ZZ.OTHER.99'] if case.get('extra') == 'listed' else [])
    if route == 'rename' and case.get('extra') == 'unlisted':
        known = known + ['..']                                # a located Gem without codes
    require(sorted(got) == sorted(known) and len(inv.get_contents()['channels']) == len(known), lambda: 'the inventory has channels %s, expected %s' % (sorted(got), sorted(known)))
    for name, p in want.items():
        require(got[name] == name + '.HDF', lambda: 'the inventory calls %s %s' % (name, got[name]))
        c = inv.get_coordinates(got[name])
        require(abs(c['latitude'] - p[0]) < 2e-5 and abs(c['longitude'] - p[1]) < 2e-5,
                lambda: 'the inventory puts %s at %.5f %.5f; it recorded at %.5f %.5f' % (name, c['latitude'], c['longitude'], p[0], p[1]))
    known = [k for k in known if k != '..']
    files = [os.path.join(out, f) for f in sorted(os.listdir(out))]
    ids = {tr.id for f in files for tr in obspy.read(f, headonly=True)}
    require(sorted(ids) == sorted(k + '.HDF' for k in known), lambda: 'the converted files hold %s, expected %s' % (sorted(ids), known))
    # lags and directions
    if case.get('files') == 'reverse':
        files.reverse()
    if case.get('files') == 'junk':
        open('out/notes.txt', 'w').write('hello\n')
        files.insert(0, 'out/notes.txt')
    sel = case.get('sel')
    win = 10.0 if sel == 'short' else 20.0
    overlap = 0.5 if sel == 'half' else 0.0
    argv = ['-L', '1', '-H', '9', '-u', '5', '-w', '%g' % win, '-p', '%g' % overlap, '-o', 'lags.csv']
    used = set(names)
    lo, hi = -1e99, 1e99
    if sel == 'time':
        lo, hi = (math.floor(STARTS[case.get('start', 'plain')]) + s for s in (9, 61))
        argv += ['-1', obspy.UTCDateTime(lo).strftime('%Y-%m-%d_%H:%M:%S'), '-2', obspy.UTCDateTime(hi).strftime('%Y-%m-%d_%H:%M:%S')]
    anchor = ['^%s[.]HDF$' % k.replace('.', '[.]') for k in names]
    if sel == 'include':
        used = set(names[:3])
        argv += ['-i', ','.join(anchor[:3])]
    elif sel == 'exclude':
        used.discard(names[-1])
        argv += ['-x', anchor[-1] + (',ZZ' if case.get('extra') == 'listed' else '')]
    elif case.get('extra') == 'listed':
        argv += ['-x', 'ZZ']
    command(gemlog.xcorr.xcorr_all_terminal, argv + files)
    command(gemlog.xcorr.calculate_direction_terminal, ['-i', 'lags.csv', '-l', 'sites.xml', '-o', 'directions.csv'])
    d = pd.read_csv('directions.csv', keep_default_na=True)
    rms = sorted(k.split('_', 1)[1] for k in d.keys() if k.startswith('rms_'))
    require(rms == sorted(used), lambda: 'the lags are of channels %s, expected %s' % (rms, sorted(used)))
    full = none = 0
    for i in range(d.shape[0]):
        a = obspy.UTCDateTime(d.t_mid[i]).timestamp - win / 2
        b = a + win
        require(a > lo - 0.02 and b < hi + 0.02, lambda: 'window %s lies outside the times asked for' % d.t_mid[i])
        state = 'all'
        for name, c in zip(names, cover):
            if name not in used:
                continue
            # a window has this Gem if one of its continuous stretches fills it
            if any(s + 0.03 <= a and b <= e - 0.03 for s, e in c):
                continue
            near = any(s - 0.03 <= a and b <= e + 0.03 for s, e in c)
            state = 'edge' if near and state != 'lacking' else 'lacking'
        if out == 'merged' and state == 'lacking':
            state = 'edge'                                # merged day files have their gaps filled
            continue
        dirs = (d.backazimuth[i], d.slowness[i])
        if state == 'lacking':
            none += 1
            require(np.isnan(dirs).all(), lambda: 'window %s, which not all Gems recorded, gets direction %.1f, slowness %.3f' % ((d.t_mid[i],) + dirs))
            continue
        if state == 'edge' and np.isnan(dirs).any():
            continue
        full += state == 'all'
        require(abs((dirs[0] - baz + 180) % 360 - 180) < 3.0 and abs(dirs[1] / slow - 1) < 0.04,
                lambda: 'window %s: the wave came from %.1f with slowness %.2f, reported %.2f and %.3f' % ((d.t_mid[i], baz, slow) + dirs))
    # every stretch that all Gems recorded gets its directions
    common = [[-1e99, 1e99]]
    for name, c in zip(names, cover):
        if name in used:
            common = [[max(a, s), min(b, e)] for a, b in common for s, e in c if min(b, e) - max(a, s) > 0]
    t_all = [max(max(s for s, _ in [c[0]]) for c in cover), min(c[-1][1] for c in cover)]
    cuts = [86400 * k for k in (math.floor(t_all[1] / 86400),) if t_all[0] < 86400 * k < t_all[1]]
    floor = 0
    for a, b in common:
        a, b = max(a, lo), min(b, hi)
        edges = [a] + [c for c in cuts if a < c < b] + [b]
        for x, y in zip(edges, edges[1:]):
            floor += max(0, int((y - x - 0.1) // win) - 1)
    require(full >= floor, lambda: '%d windows with a direction; at least %d stretches of %g s were recorded by all Gems' % (full, floor, win))
    return Result(key=[sorted(used), full, none], states=[[sorted(case.items(), key=str), i] for i in range(d.shape[0])], transitions=d.shape[0], executions=1)
