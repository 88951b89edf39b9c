import contextlib
import io
import itertools
import logging
import os
import shutil

import gemlog
import gemlog.gemconvert
import numpy as np
import obspy

from mc import deploy
from mc import gemgen as g
from mc.harness import Result, require
from mc.space import deviations

PROPERTY = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of folder contents and command options, run through the real command, against a model'
LEVEL_NOTE = ('all combinations of present, included, excluded and listed Gems, and all pairs of deviations among failing Gems, other files, processes, '
              'format, length, folders, test run and option spelling; all output folders and samples are compared with the model')
RULE = 'a case is a folder and an argument list; model state = (present, included, excluded, listed); non-trivial = distinct set of converted channels'
ASSUMPTIONS = ['raw files have the serial number as extension (format 0.85 and later)']
BOUNDS = {'quick': '3 Gems; selections: full product; other options: all pairs', 'thorough': '4 Gems; selections: full product; other options: all triples'}
SNS = ['061', '007', '106', '200']
CODES = {'061': ('NM', 'STA', ''), '007': ('', '061', '01'), '106': ('XX', '7', '00'), '200': ('', 'E', ''), '300': ('QQ', 'Q', 'Q')}
INC = [None, ['061'], ['106', '007'], ['007', '007', '061'], ['999'], ['999', '061']]
EXC = [None, ['061'], ['007', '999'], ['061', '007', '106', '200'], ['06', '1'], ['0610', '1061', '0617', '10']]
LISTED = [None, ['061', '007', '106', '200', '300'], ['300', '061'], ['106'], ['300']]
DEV = dict(bad=[['061'], ['106'], ['061', '106']], junk=[1, 2], p=[2, 3, 8], fmt=['SAC', 'mseed', 'TSPAIR', 'wav'], len=['0.004', '1', '0.0025', '48'], indir=['in put', 'a/raw/'],
           out=['conv/erted', 'X'], test=[1], long=[1], head=['nohead', 'lower', 'order'], dbg=[1], inc=[1, 2], exc=[1, 5], listed=[1, 2], again=[1])
T = {}


def recordings(i):
    return deploy.build([{}, {'gap': 2.5 * i, 'reboot': bool(i)}], phase=0.25 * i, start='plain')[0]


def setup(sut):
    d = os.path.abspath('templates')
    os.mkdir(d)
    for i, sn in enumerate(SNS):
        deploy.write(d + '/raw', recordings(i), sn)
        for n in (0, 1):
            os.makedirs(d + '/bad', exist_ok=True)
            g.write(d + '/bad/FILE%04d.%s' % (n, sn), g.header('0.91', sn) + ['P,1'])
    cwd = os.getcwd()
    os.mkdir(d + '/w')
    os.chdir(d + '/w')
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for sn in SNS:
            gemlog.convert(d + '/raw', SN=sn, convertedpath='c' + sn, file_length_hour=24)
            st = obspy.Stream()
            for f in sorted(os.listdir('c' + sn)):
                st += obspy.read('c%s/%s' % (sn, f))
            T[sn] = collect(st)
            assert T[sn] and list(T[sn]) == ['.%s..HDF' % sn], T[sn].keys()
            T[sn] = list(T[sn].values())[0]
    os.chdir(cwd)
    T['dir'] = d


def collect(st):
    """{id: (times in 0.01 s, values)}"""
    out = {}
    for tr in sorted(st, key=lambda tr: tr.stats.starttime):
        k0 = round((tr.stats.starttime - obspy.UTCDateTime(2021, 1, 1)) * 100)
        a, b = out.setdefault(tr.id, ([], []))
        a.append(np.arange(k0, k0 + tr.stats.npts))
        b.append(np.asarray(tr.data))
    return {k: (np.concatenate(a), np.concatenate(b)) for k, (a, b) in out.items()}


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for m in range(1, n + 1):
        for present in itertools.combinations(SNS[:n], m):
            for inc, exc, listed in itertools.product(range(len(INC)), range(5), range(len(LISTED))):
                yield dict(present=present, inc=inc, exc=exc, listed=listed)
    for d in deviations(DEV, 2 if tier == 'quick' else 3):
        yield dict(d, present=SNS[:3])
    for k in (1, 2):
        yield dict(present=[], junk=k, inc=0, exc=0, listed=0)


def run(case, work):
    present = case['present']
    ind = case.get('indir', 'raw')
    os.makedirs(ind)
    for sn in present:
        for n in (0, 1):
            f = 'FILE%04d.%s' % (n, sn)
            shutil.copy(os.path.join(T['dir'], 'bad' if sn in case.get('bad', []) else 'raw', f), ind)
    if case.get('junk'):
        for f in ['README.md', '.DS_Store', 'notes', 'FILE0001.TXT', 'some longer file name.txt', 'x'] + (['FILE0000.061~', 'FILE0000', 'raw.tar.gz'] if case['junk'] == 2 else []):
            open(os.path.join(ind, f), 'w').write('hello\n' * 5)
    raw = {f: open(os.path.join(ind, f), 'rb').read() for f in os.listdir(ind)}
    argv = []

    def opt(short, long, val=None):
        if case.get('long'):
            argv.append('--' + long + ('' if val is None else '=' + val))
        else:
            argv.append('-' + short)
            if val is not None:
                argv.append(val)
    if ind != 'raw':
        opt('i', 'inputdir', ind)
    inc, exc, listed = INC[case.get('inc', 0)], EXC[case.get('exc', 0)], LISTED[case.get('listed', 0)]
    if inc is not None:
        opt('s', 'serialnumbers', ','.join(inc))
    if exc is not None:
        opt('x', 'exclude_serialnumbers', ','.join(exc))
    if listed is not None:
        head = case.get('head')
        rows = [(s,) + CODES[s] for s in listed]
        if head == 'order':
            lines = ['Station,Network,Location,SN'] + [','.join((r[2], r[1], r[3], r[0])) for r in rows]
        else:
            lines = ([] if head == 'nohead' else ['sn,network,station,location' if head == 'lower' else 'SN,Network,Station,Location']) + [','.join(r) for r in rows]
        open('codes.csv', 'w').write('\n'.join(lines) + '\n')
        opt('c', 'codesfile', 'codes.csv')
    fmt, out = case.get('fmt'), case.get('out')
    if fmt:
        opt('f', 'format', fmt)
    if out:
        opt('o', 'outputdir', out)
    if 'len' in case:
        opt('l', 'length', case['len'])
    if 'p' in case:
        opt('p', 'parallel', str(case['p']))
    if case.get('dbg'):
        opt('d', 'debug')
    if case.get('test'):
        opt('t', 'test')
    for _ in range(2 if case.get('again') else 1):
        for h in logging.getLogger().handlers[:]:
            logging.getLogger().removeHandler(h)
            h.close()
        try:
            gemlog.gemconvert.main(argv)
        except SystemExit:
            pass
    require({f: open(os.path.join(ind, f), 'rb').read() for f in os.listdir(ind)} == raw, 'raw files changed')
    sel = [s for s in present if (inc is None or s in inc) and (exc is None or s not in exc) and (listed is None or s in listed)]
    good = [s for s in sel if s not in case.get('bad', [])]
    outdir = out or (fmt or 'mseed').lower()
    if case.get('test'):
        require(not os.path.exists(outdir) and not os.path.exists('gps') and not os.path.exists('metadata'), 'a test run wrote output')
        return Result(key=['test', sel], states=[[present, inc, exc, listed]], transitions=1)
    files = sorted(os.listdir(outdir)) if os.path.isdir(outdir) else []
    ext = (fmt or 'mseed').lower()
    reps = 2 if case.get('again') else 1
    for kind in ('gps', 'metadata'):
        got = sorted(os.listdir(kind)) if os.path.isdir(kind) else []
        got = [f for f in got if f[:3] in good or f[:3] not in sel]
        want = sorted('%s%s_%03d.txt' % (s, kind, r) for s in good for r in range(reps))
        require(got == want, lambda: '%s logs %s, expected %s' % (kind, got, want))
    codes = {s: (CODES[s] if listed is not None else ('', s, '')) for s in good}
    if ext == 'wav':
        ids = sorted({'.'.join(f.split('.')[1:4]) for f in files})
        require(ids == sorted('.'.join(c) for c in codes.values()) and all(f.endswith('.HDF.wav') for f in files), lambda: 'wav files %s, expected Gems %s' % (files, good))
        return Result(key=['wav', ids], states=[[present, inc, exc, listed]], transitions=1)
    hours = float(case.get('len', 24))
    st = obspy.Stream()
    for f in files:
        require(f.endswith('.' + ext), lambda: 'file %s in output folder' % f)
        s = obspy.read(os.path.join(outdir, f))
        require(s[0].stats._format == ext.upper(), lambda: '%s has format %s' % (f, s[0].stats._format))
        st += s
        require(len(s) == 1 and '.'.join(f.split('.')[1:5]) == s[0].id, lambda: '%s holds %s' % (f, s))
        a, b = (int(((t - obspy.UTCDateTime(2021, 1, 1)) + 1e-4) // (hours * 3600)) for t in (s[0].stats.starttime, s[0].stats.endtime))
        require(a == b, lambda: '%s crosses a boundary of %s h' % (f, hours))
    got = collect(st)
    want = {'.'.join(codes[s]) + '.HDF': T[s] for s in good}
    require(sorted(got) == sorted(want), lambda: 'converted channels %s, expected %s' % (sorted(got), sorted(want)))
    for k in want:
        require(np.array_equal(got[k][0], want[k][0]) and np.array_equal(np.round(got[k][1]), want[k][1]), lambda: 'samples of %s differ from those of its Gem' % k)
    return Result(key=[sorted(want), len(files), ext], states=[[present, inc, exc, listed]], transitions=reps)
