import itertools
import os

import gemlog
import numpy as np
import obspy
import pandas as pd

from mc.harness import Result, require

PROPERTY = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sets of converted files and station tables, renamed and merged by the real code, against a model'
LEVEL_NOTE = ('all subsets up to the stated size of an alphabet of files (Gems, codes, days, times within a second of each other, gaps), '
              'all table forms and name patterns; every output header, name and sample is compared with the model')
RULE = 'a case is a set of files with a table form and pattern, or a set of files to merge; non-trivial = distinct set of outputs'
ASSUMPTIONS = ['converted files lie within one day and follow the naming of convert',
               'gaps between the files of a day are bridged with the last value (obspy fill_value latest, as coded)']
BOUNDS = {'quick': 'up to 3 of 13 files (rename), up to 4 of 13 files (merge)', 'thorough': 'up to 4 of 13 files (rename), up to 6 of 13 files (merge)'}
D1 = obspy.UTCDateTime(2021, 2, 28)
D2 = obspy.UTCDateTime(2021, 3, 1)
# name: (network, serial number, location, start, samples)
RF = {'a0': ('', '061', '', D1 + 3600 * 5 + 3.25, 150), 'a1': ('', '061', '', D2 + 7, 60), 'a2': ('', '061', '', D1 + 86400 - .5, 40),
      'a0x': ('', '061', '', D1 + 3600 * 5 + 3.05, 10), 'x0': ('XX', '061', '00', D1 + 3600 * 5 + 4, 30),
      'b0': ('', '007', '', D1 + 3600 * 5 + 3.25, 70), 'b1': ('', '007', '', D2, 55), 'c0': ('', '123', '', D1 + 9, 44),
      'u0': ('', '099', '', D1 + 9, 33), 'm0': ('', '007', '', D1 + 11 * 3600, 30, [(2.5, 20), (30.02, 11)]),
      'c1': ('', '123', '', D1 + 3600 * 5 + 3.5, 20), 'm1': ('', '123', '', D1 + 600.25, 25, [(-.45, 7), (100, 40)]), 'u1': ('', '610', '', D1 + 9, 33)}
TABLE = [('061', 'NM', 'STA', ''), ('007', '', 'STB', '01'), ('123', 'NA', '007', '00'), ('700', 'ZZ', 'STZ', '')]
PATTERNS = [None, '{year}-{mon}-{day}T{hour}_{min}_{sec}.{net}.{sta}.{loc}.{chan}.{fmt}',
            '{net}_{sta}_{loc}_{year}{jd}{hour}{min}{sec}.{fmt}', '{sta}.{chan}.{year}.{jd}.{hour}.{min}.{sec}.{net}{loc}.{fmt}',
            '{sta}{net}{loc}-{sec}{min}{hour}{day}{mon}{year}.{fmt}']
FORMS = ['header', 'lower', 'order', 'nohead4', 'nohead5', 'df', 'dflow', 'dfidx', 'dfcols']
H = 3600
MF = {'a00': ('', '061', '', D1, 100), 'a01': ('', '061', '', D1 + 1.0, 100), 'a02': ('', '061', '', D1 + 5 * H, 50),
      'a2': ('', '061', '', D2, 80), 'x00': ('XX', '061', '', D1, 70), 'x2': ('XX', '061', '', D2 + H, 50),
      'l00': ('', '061', '61', D1, 90), 'b00': ('', '161', '', D1, 60), 's00': ('', '61', '', D1 + 10, 40),
      'y00': ('', '061', '', D1 + 5 * H + .5 + .37, 33), 'g00': ('', '061', '', D1 + 9 * H, 40, [(1, 30), (77.7, 12)]),
      'p00': ('', '061', '', D1 + 9 * H - 1.7, 290), 'q00': ('', '061', '', D1 + 5 * H - .3, 50)}     # these two overlap others


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for fs in itertools.combinations(RF, k):
            yield dict(k='rename', files=fs, form='header', fmt='mseed', pat=None, infmt='mseed')
    for fs in itertools.combinations(RF, 2):
        for form in FORMS:
            yield dict(k='rename', files=fs, form=form, fmt='mseed', pat=None, infmt='mseed')
        for i, pat in enumerate(PATTERNS):
            for fmt, infmt in (('mseed', 'mseed'), ('sac', 'mseed'), ('mseed', 'sac'), ('sac', 'sac')):
                if 'sac' in (fmt, infmt) and any(len(RF[f]) > 5 for f in fs):
                    continue
                yield dict(k='rename', files=fs, form='header', fmt=fmt, pat=i, infmt=infmt)
    n = 4 if tier == 'quick' else 6
    for k in range(1, n + 1):
        for fs in itertools.combinations(MF, k):
            yield dict(k='merge', files=fs, fmt='mseed', pattern='*')
            if k == 2 and all(len(MF[f]) == 5 for f in fs):
                yield dict(k='merge', files=fs, fmt='sac', pattern='*')
            if k < 4 and any(MF[f][0] == '' and MF[f][1] == '061' for f in fs):
                yield dict(k='merge', files=fs, fmt='mseed', pattern='*Z*..061..HDF*')
                yield dict(k='merge', files=fs, fmt='mseed', pattern='*T*..061..HDF*')
                yield dict(k='merge', files=fs, fmt='mseed', pattern='2021-02*')


def series(name, n):
    """distinct values for every file"""
    seed = sum(ord(c) * 131 ** i for i, c in enumerate(name))
    return ((np.arange(n) * 7919 + seed * 104729) % 20011 - 10000).astype('int32')


def segments(name, spec):
    """[(start, values)] of the segments of a file, in the order they stand in it"""
    return [(spec[3] + off, series(name + '*' * i, n)) for i, (off, n) in enumerate([(0, spec[4])] + list(spec[5] if len(spec) > 5 else []))]


def start(spec):
    return spec[3] + min([0] + [off for off, n in (spec[5] if len(spec) > 5 else [])])


def make(name, spec, fmt, taken):
    net, sta, loc, t, n = spec[:5]
    if len(spec) > 5:
        st = obspy.Stream()
        for t, x in segments(name, spec):
            tr = obspy.Trace(x)
            tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = net, sta, loc, 'HDF'
            tr.stats.starttime = t
            tr.stats.delta = .01
            st += tr
        t = start(spec)
        fn = t.strftime('%Y-%m-%dT%H_%M_%S') + '.%s.%s.%s.HDF.%s' % (net, sta, loc, fmt)
        assert fn not in taken
        st.write('in/' + fn, format=fmt)
        return fn
    tr = obspy.Trace(series(name, n))
    tr.stats.network, tr.stats.station, tr.stats.location, tr.stats.channel = net, sta, loc, 'HDF'
    tr.stats.starttime = t
    tr.stats.delta = .01
    fn = t.strftime('%Y-%m-%dT%H_%M_%S') + '.%s.%s.%s.HDF.%s' % (net, sta, loc, fmt)
    if fn in taken:      # as convert names the data after a gap within a second
        fn = t.strftime('%Y-%m-%dT%H_%M_%S_') + '%02d' % round(t.microsecond / 1e4) + '.%s.%s.%s.HDF.%s' % (net, sta, loc, fmt)
    tr.write('in/' + fn, format=fmt)
    return fn


def table(form):
    rows = TABLE
    head = ['SN', 'network', 'station', 'location']
    if form.startswith('df'):
        df = pd.DataFrame(rows, columns=head)
        if form == 'dflow':
            df = df.rename(columns=str.lower)
        if form == 'dfidx':
            df = pd.DataFrame([('061', 'NO', 'NOT', '99')] + rows[::-1], columns=head).iloc[1:]
        if form == 'dfcols':
            df = df[['location', 'SN', 'station', 'network']]
            df['elevation'] = [1.0, 2.0, 3.0, 4.0]
        return df
    if form == 'lower':
        lines = ['sn,network,station,location'] + [','.join(r) for r in rows]
    elif form == 'order':
        lines = ['LOCATION,Station,SN,Network'] + [','.join([r[3], r[2], r[0], r[1]]) for r in rows]
    elif form == 'nohead4':
        lines = [','.join(r) for r in rows]
    elif form == 'nohead5':
        lines = [','.join(r) + e for r, e in zip(rows, (',10', ',', ',-3.5', ',0'))]
    else:
        lines = ['SN,Network,Station,Location'] + [','.join(r) for r in rows]
    open('table.txt', 'w').write('\n'.join(lines) + '\n')
    return 'table.txt'


def contents(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}


def rename(case):
    names = {}
    for f in sorted(case['files'], key=lambda f: start(RF[f])):
        names[f] = make(f, RF[f], case['infmt'], names.values())
    before = contents('in')
    kw = {} if case['pat'] in (None, 0) else dict(outfile_pattern=PATTERNS[case['pat']])
    gemlog.rename_files('in/*', table(case['form']), 'out/dir', output_format=case['fmt'], **kw)
    require(contents('in') == before, 'rename_files changed its input')
    codes = {r[0]: r[1:] for r in TABLE}
    got = []
    for f in sorted(os.listdir('out/dir')):
        st = obspy.read('out/dir/' + f)
        got.append((f, st))
    want = {f: codes[RF[f][1]] for f in case['files'] if RF[f][1] in codes}
    require(len(got) == len(want), lambda: 'outputs %s for inputs %s' % ([f for f, _ in got], sorted(names[f] for f in want)))
    ntr = sum(len(segments(f, RF[f])) for f in want)
    require(sum(len(st) for _, st in got) == ntr, lambda: 'outputs hold %s' % [str(st) for _, st in got])
    single = sum(len(RF[f]) == 5 for f in want)
    require(sum(len(st) == 1 for _, st in got) == single, 'segments of a file spread over files')
    got = [(f, tr) for f, st in got for tr in st]
    out = []
    pat = PATTERNS[case['pat'] or 1]
    for f, (net, sta, loc) in want.items():
        for t, x in segments(f, RF[f]):
            hit = [(fn, tr) for fn, tr in got if abs(tr.stats.starttime - t) < 1e-5 and tr.id == '%s.%s.%s.HDF' % (net, sta, loc)
                   and tr.stats.npts == len(x)]
            require(len(hit) == 1, lambda: 'no single output for %s with codes %s.%s.%s: %s' % (names[f], net, sta, loc, [str(tr) for _, tr in got]))
            fn, tr = hit[0]
            require(np.array_equal(tr.data, x) and tr.stats.delta == .01, lambda: 'samples of %s changed' % names[f])
        t = start(RF[f])
        exp = pat
        for key, val in dict(year='%04d' % t.year, mon='%02d' % t.month, day='%02d' % t.day, jd='%03d' % t.julday, hour='%02d' % t.hour,
                             min='%02d' % t.minute, sec='%02d' % t.second, net=net, sta=sta, loc=loc, chan='HDF', fmt=case['fmt']).items():
            exp = exp.replace('{%s}' % key, val)
        alone = sum(RF[h][1] == RF[f][1] and start(RF[h]).strftime('%Y%j%H%M%S') == t.strftime('%Y%j%H%M%S') for h in case['files']) == 1
        require(fn == exp or not alone, lambda: 'output of %s is named %s, expected %s' % (names[f], fn, exp))
        out.append(fn)
    return out, len(names)


def merge(case):
    import fnmatch
    names = {}
    for f in sorted(case['files'], key=lambda f: MF[f][3]):
        names[f] = make(f, MF[f], case['fmt'], names.values())
    before = contents('in')
    sel = [f for f in names if fnmatch.fnmatch(names[f], case['pattern'])]
    gemlog.merge_files_day('in', case['pattern'], 'out/dir')
    require(contents('in') == before, 'merge_files_day changed its input')
    want = {}
    for f in sel:
        net, sta, loc, t, n = MF[f][:5]
        want.setdefault(t.strftime('%Y-%m-%dT00_00_00') + '.%s.%s.%s.HDF.%s' % (net, sta, loc, case['fmt']), []).append(f)
    got = sorted(os.listdir('out/dir'))
    require(got == sorted(want), lambda: 'outputs %s, expected %s' % (got, sorted(want)))
    for fn, fs in want.items():
        st = obspy.read('out/dir/' + fn)
        require(len(st) == 1, lambda: '%s holds %d traces' % (fn, len(st)))
        tr = st[0]
        net, sta, loc = MF[fs[0]][:3]
        require(tr.id == '%s.%s.%s.HDF' % (net, sta, loc), lambda: '%s holds %s' % (fn, tr.id))
        fs.sort(key=lambda f: MF[f][3])
        t0 = MF[fs[0]][3]
        segs = [(int(round((t - t0) * 100)), x) for f in fs for t, x in segments(f, MF[f])]
        end = max(i + len(x) for i, x in segs)
        exp = np.zeros(end, dtype='int64')
        known = np.zeros(end, dtype=bool)
        other = np.zeros(end, dtype='int64')
        for i, x in segs:
            other[i:i + len(x)] = np.where(known[i:i + len(x)], exp[i:i + len(x)], x)
            exp[i:i + len(x)] = x
            known[i:i + len(x)] = True
        idx = np.maximum.accumulate(np.where(known, np.arange(end), 0))
        exp, other = exp[idx], other[idx]        # where two files overlap, either may be kept
        require(tr.stats.starttime == t0 and tr.stats.npts == end and np.all((tr.data == exp) | (tr.data == other)),
                lambda: '%s: %s does not hold the samples of %s' % (fn, tr, [names[f] for f in fs]))
    return got, len(names)


def run(case, work):
    os.mkdir('in')
    if case['k'] == 'merge' and not [f for f in case['files']]:
        return Result(key=None)
    out, n = (rename if case['k'] == 'rename' else merge)(case)
    return Result(key=[case['k'], out, case.get('form')], states=[case['files']], transitions=n)
