import contextlib
import io
import itertools
import os

import gemlog
import gemlog.gemconvert_single
import numpy as np
import obspy

from mc import deploy, oracle
from mc import gemgen as g
from mc.harness import Result, require
from mc.space import deviations

PROPERTY = 'C19'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of GPS amounts, gaps, formats and options of a single file, run through the real command, against the known recording'
LEVEL_NOTE = ('the full product of amount and place of GPS fixes, format and force option, and all pairs of deviations in gap, clock, tail, header and '
              'output name; every sample is compared with the recorded signal and with the conversion of the folder')
RULE = 'a case is a recording with a GPS pattern and options; non-trivial = distinct set of output traces or error'
ASSUMPTIONS = ['the file holds at least one metadata line and no interruption over 1 s', 'all GPS fixes are right']
BOUNDS = {'quick': 'full product of 14 GPS patterns, 6 formats, force; pairs of other deviations for 5 GPS patterns', 'thorough': 'triples of other deviations for all GPS patterns'}
# GPS pattern: (seconds with a fix), recording of 26 s; adequate or not
PAT = {'none': [], 'one': [7], 'onelast': [25], 'two': [1, 2], 'twofar': [1, 24], 'nine': range(2, 20, 2), 'five': [0, 6, 12, 18, 24], 'tennear': range(3, 13),
       'tenend': range(15, 25), 'ten': range(1, 25, 2), 'half': range(0, 17), 'lasthalf': range(9, 26), 'all': range(0, 26), 'ends': list(range(6)) + list(range(20, 26))}
ADEQUATE = {'ten', 'half', 'lasthalf', 'all', 'ends'}
FORMATS = ['0.8', '0.85', '0.85C', '0.9', '0.91', '1.10']
DEV = dict(gap=['mid006', 'mid03', 'mid09', 'first', 'last', 'two'], up=[0.5, 5.0, 8.385, 100.0, 3000.3], ppm=[-25, 25], K=[-1000., 3e4], ver=FORMATS[:4] + FORMATS[5:],
           out=['sub/x.mseed', 'x.sac', 'x.MSEED.mseed'], long=[1], tail=['torn', 'crlf', 'junk', 'noeol'], head=['bad', 'noS', 'noC'], name=['other.dat', 'FILE0012.123'], ext=[1])


def cases(tier):
    for pat, ver, force in itertools.product(PAT, FORMATS, (0, 1)):
        yield dict(pat=pat, ver=ver, force=force)
    for pat in PAT if tier != 'quick' else ['none', 'one', 'tennear', 'half', 'all']:
        for force in (0, 1):
            for d in deviations(DEV, 2 if tier == 'quick' else 3, lambda c: len(c) > 0 and not (c.get('out') == 'x.sac' and 'gap' in c)):
                yield dict(d, pat=pat, force=force)
    for force in (0, 1):
        for bad in ('missing', 'empty', 'dir', 'binary', 'headeronly'):
            yield dict(k='bad', bad=bad, force=force)


def command(argv):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        try:
            gemlog.gemconvert_single.main(argv)
        except SystemExit:
            pass
    return b.getvalue()


def run(case, work):
    os.makedirs('raw')
    if case.get('k') == 'bad':
        fn = 'raw/FILE0000.061'
        if case['bad'] == 'dir':
            os.mkdir(fn)
        elif case['bad'] != 'missing':
            open(fn, 'wb').write({'empty': b'', 'binary': bytes(range(256)) * 20, 'headeronly': ('\n'.join(g.header('0.91', '061')) + '\n').encode()}[case['bad']])
        before = sorted(os.listdir('.'))
        msg = command(['-i', fn] + ['-f'] * case['force'])
        require(sorted(os.listdir('.')) == before, lambda: 'output %s for a file without data' % os.listdir('.'))
        require(msg.strip().split('\n')[-1] != '', 'no message')
        return Result(key=['bad', case['bad']])
    ver = case.get('ver', '0.91')
    t = g.utc(2021, 3, 4, 12) + .002
    ppm = case.get('ppm', 0)
    K = case.get('K', 1000.)
    clock = g.Clock(t - case.get('up', 33.3), ppm)
    gaps = deploy.infile_gaps(case.get('gap'), t, t + 26)
    rec = g.Recording(clock, t, t + 26, K=K, tref=t, gps=bool(len(PAT[case['pat']])), gps_times=[int(t) + 1 + s for s in PAT[case['pat']] if int(t) + 1 + s < t + 26], gaps=gaps)
    sn = '061'
    lines = g.header(ver, sn, None if case.get('head') == 'noC' else (1, 15, 20, 0, 0, 0)) + g.body(rec, ver)
    if case.get('head') == 'noS':
        lines = [x for x in lines if not x.startswith('S,')]
    nl = '\r\n' if case.get('tail') == 'crlf' else '\n'
    text = nl.join(lines) + nl
    tail = case.get('tail')
    if tail == 'torn':
        text += 'D12' if not g.is_old(ver) else 'D,12'
    elif tail == 'junk':
        text += '\0' * 300
    elif tail == 'noeol':
        pass
    if case.get('head') == 'bad':
        text = '#GemC\x01\x02\xb5' + nl + text.split(nl, 1)[1]
        if g.is_old(ver):
            return Result(key=None)     # the format is not known then
    fn = 'raw/' + case.get('name', 'FILE0000.TXT' if ver == '0.8' else 'FILE0000.061')
    with open(fn, 'w', newline='', encoding='latin-1') as f:
        f.write(text)
    raw = open(fn, 'rb').read()
    out = case.get('out', os.path.basename(fn) + '.mseed')
    if '/' in out:
        os.makedirs(os.path.dirname(out))
    argv = (['--input_file=' + fn] if case.get('long') else ['-i', fn])
    if 'out' in case:
        argv += ['--output_file=' + out] if case.get('long') else ['-o', out]
    if case['force']:
        argv.append('--force-conversion' if case.get('long') else '-f')
    if case.get('head') == 'noS':
        # the serial number is part of a readable file; without it a report is enough
        command(argv)
        if not os.path.exists(out):
            return Result(key=['noS'])
    else:
        msg = command(argv)
    require(open(fn, 'rb').read() == raw, 'raw file changed')
    made = sorted(os.path.join(a, f)[2:] for a, _, fs in os.walk('.') for f in fs if not a.startswith('./raw'))
    if not case['force'] and case['pat'] not in ADEQUATE:
        require(made == [], lambda: 'output %s without adequate GPS and without force option' % made)
        require('ailed' in msg or 'GPS' in msg, lambda: 'no error reported: ' + msg[-300:])
        return Result(key=['error', case['pat']])
    require(made == [out], lambda: 'outputs %s, expected %s; %s' % (made, out, msg[-300:]))
    st = obspy.read(out)
    trs = list(st)
    n_exp = len(oracle.intervals([rec]))
    if case['pat'] == 'none':
        for i, tr in enumerate(sorted(trs, key=lambda tr: tr.stats.starttime)):
            if i == 0:
                k = min(5, tr.stats.npts - 1)
                shift = t + float(tr.data[k]) / K - (float(tr.stats.starttime) + k * tr.stats.delta)
        require(abs(shift) > 1e6, 'time invented without GPS')
        for tr in trs:
            tr.stats.starttime += shift
    tol = .005 + (.001 if ppm else 0) + (.002 if case['pat'] == 'none' else 0)
    for tr in trs:
        require(abs(tr.stats.delta - .01) < 1e-9, 'sample interval %s' % tr.stats.delta)
    bad = oracle.check_stream(trs, oracle.intervals([rec]), K, t, tol=tol, start_slack=.0125, end_slack=.0125, inner_slack=.0125)
    require(bad is None, lambda: '%s (%d intervals recorded)' % (bad, n_exp))
    if not case.get('name') and case.get('head') is None and case['pat'] in ADEQUATE and case.get('out') != 'x.sac':
        gemlog.convert('raw', SN=sn, convertedpath='conv', metadatapath='log', gpspath='log')
        single = {}
        for tr in trs:
            k0 = round((tr.stats.starttime - obspy.UTCDateTime(2021, 3, 4)) * 100)
            single.update(zip(range(k0, k0 + tr.stats.npts), np.asarray(tr.data).tolist()))
        n = 0
        for f in os.listdir('conv'):
            for tr in obspy.read('conv/' + f):
                k0 = round((tr.stats.starttime - obspy.UTCDateTime(2021, 3, 4)) * 100)
                diff = [k for k, v in zip(range(k0, k0 + tr.stats.npts), np.asarray(tr.data).tolist()) if abs(single.get(k, 1e9) - v) > 1]
                require(not diff, lambda: 'the conversion of the folder differs at %d samples' % len(diff))
                n += tr.stats.npts
        require(len(single) - n in range(0, 101), lambda: '%d samples, in folder %d' % (len(single), n))
    return Result(key=[case['pat'], [(str(tr.stats.starttime), tr.stats.npts) for tr in trs], out])
