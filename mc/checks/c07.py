import os
import re

import gemlog
import numpy as np
import obspy
from gemlog import core

from mc import deploy, oracle, space
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of output layouts against a period-partition model, replayed on convert'
LEVEL_NOTE = ('all listed combinations of file length, format, block size, start phase, gap position and codes are '
              'converted by the real code and compared sample by sample; values beyond the grid are not covered')
RULE = ('a case is (file length, format, block size, offset of the recording from a period boundary, gap kind at the '
        'boundary) or a choice of codes; non-trivial = distinct list of (file name, samples)')
ASSUMPTIONS = ['file lengths are at least 7 s', 'WAV output is centred and scaled per file, as documented in the code']
BOUNDS = {'quick': '3 files, one boundary of interest', 'thorough': '3 files, finer grid of offsets and lengths'}
CAL = {'a': g.utc(2021, 3, 5), 'leap': g.utc(2020, 2, 29), 'year': g.utc(2021, 1, 1), 'hour': g.utc(2022, 7, 9, 9)}
GAPS = ['none', 'cross', 'at', 'until', 'same_second', 'same_second2', 'whole', 'day']


def cases(tier):
    lens = [7, 10, 60, 3600, 86400] if tier == 'quick' else [7, 9.5, 10, 15, 36, 60, 360, 3600, 7200, 43200, 86400]
    offs = [0, .004, .01, .5, 5.0] if tier == 'quick' else [0, .004, .005, .006, .01, .015, .5, .99, .995, 5.0, 7.3]
    for L in lens:
        for gap in GAPS:
            for fmt in ['MSEED', 'SAC', 'WAV', 'TSPAIR']:
                for off in offs:
                    for block in [1, 1 / 12]:
                        if tier == 'quick' and fmt == 'TSPAIR' and (off not in (0, .5) or block == 1):
                            continue
                        yield dict(L=L, gap=gap, fmt=fmt, off=off, block=block, cal='a')
    for gap in ['early1', 'early2', 'early3', 'late2', 'dayearly', 'dayearly2']:     # data resume just before, or stop just after, a boundary
        for L in (10, 3600, 86400) if tier == 'quick' else lens:
            for off in (0, .004, .5):
                for fmt in ('MSEED', 'SAC') if tier == 'quick' else ('MSEED', 'SAC', 'WAV'):
                    yield dict(L=L, gap=gap, fmt=fmt, off=off, block=1, cal='a')
    for shape in ('hill', 'bowl', 'low', 'flat'):          # signals that are not symmetric about their mean
        for gap in ('none', 'cross', 'early2'):
            for L in (10, 7):
                yield dict(L=L, gap=gap, fmt='WAV', off=.5, block=1, cal='a', shape=shape)
    for cal in ('leap', 'year', 'hour'):
        for L in (86400, 3600, 43200, 10):
            for gap in ('none', 'cross', 'at'):
                for off in (0, .004, .5):
                    yield dict(L=L, gap=gap, fmt='MSEED', off=off, block=1, cal=cal)
    for net in ('', 'X', 'XY'):
        for sta in ('', 'A', 'STA12', '007'):
            for loc in ('', '00', '1'):
                for fmt in ('MSEED', 'SAC', 'mseed', 'sac'):
                    yield dict(L=10, gap='cross', fmt=fmt, off=0.5, block=1 / 12, cal='a', net=net, sta=sta, loc=loc)
    for fs in (100, 50, 1, 99.5):
        for name in (None, 'a.wav', 'b c.wav'):
            for fmt in (None, '%Y%m%d_%H%M%S', '%j'):
                for data in ('int', 'float', 'neg', 'flat', 'one'):
                    yield dict(k='wav', fs=fs, name=name, tf=fmt, data=data)


def direct(case):
    """write_wav by itself"""
    from scipy.io import wavfile
    x = {'int': np.array([5, 9, -3, 400, 7, 7], dtype='int32'), 'float': np.array([.25, .5, -1e-3, .125]), 'neg': np.array([-5, -6, -7, -10 ** 6, -4], dtype='int32'),
         'flat': np.array([7] * 5, dtype='int32'), 'one': np.array([3], dtype='int32')}[case['data']]
    t0 = obspy.UTCDateTime(2020, 12, 31, 23, 59, 58.25)
    tr = obspy.Trace(x.copy(), dict(network='XY', station='077', location='1', channel='HDF', sampling_rate=case['fs'], starttime=t0))
    os.mkdir('out')
    kw = dict(path='out')
    if case['name']:
        kw['filename'] = case['name']
    if case['tf']:
        kw['time_format'] = case['tf']
    try:
        core.write_wav(tr, **kw)
    except TypeError:
        require(case['fs'] % 1 and not os.listdir('out'), 'the trace is rejected')
        return Result(key=None)
    require(case['fs'] % 1 == 0, 'a rate that a WAV file cannot hold is accepted')
    name = case['name'] or t0.strftime(case['tf'] or '%Y-%m-%dT%H_%M_%S') + '.XY.077.1.HDF.wav'
    require(os.listdir('out') == [name], lambda: 'files: %s, should be %s' % (os.listdir('out'), name))
    rate, y = wavfile.read('out/' + name)
    c = x - x.mean()
    c = c / (np.abs(c).max() or 1)
    require(rate == case['fs'] and y.shape == x.shape and np.allclose(y, c, atol=1e-6), lambda: 'rate %s, samples %s, should be %s' % (rate, y, c))
    return Result(key=['wav', case['data']], states=[name], transitions=1)


def run(case, work):
    if case.get('k') == 'wav':
        return direct(case)
    B = CAL[case['cal']]
    L = case['L']
    if 86400 % L:
        B = np.ceil(B / L) * L
    t = B - 13 - case['off']
    gp = {'none': [], 'cross': [(B - .3, B + .4)], 'at': [(B - .001, B + .5)], 'until': [(B - .5, B - 0.001)],
          'same_second': [(B + .4, B + .6)], 'same_second2': [(B + 1.2, B + 1.3), (B + 1.5, B + 1.6)],
          'early1': [(B - .5, B - .011)], 'early2': [(B - .5, B - .021)], 'early3': [(B - .5, B - .031)], 'late2': [(B + .015, B + .5)],
          'whole': [], 'day': [], 'dayearly': [], 'dayearly2': []}[case['gap']]
    extra = {'whole': 25.3, 'day': 86400 * 1.3,
             'dayearly': B + 86400 - .011 - t - 13, 'dayearly2': B + 86400 - .031 - t - 13}.get(case['gap'], 0)
    clock = g.Clock(t - 50)
    recs = []
    for i in range(3):
        ta = t + 13 * i + (extra if i >= 1 else 0)
        recs.append((i, g.Recording(clock, ta, ta + 13, tref=B - 100, K=100.0, gaps=gp)))
    if 'shape' in case:
        f = {'hill': lambda u: 9e4 - 300 * u * u, 'bowl': lambda u: 300 * u * u - 50, 'low': lambda u: -1e6 - 4e4 / (1 + u * u), 'flat': lambda u: 77}[case['shape']]
        for _, r in recs:
            r.samples = [(m, int(f(clock.time(m + g.CORR) - B))) for m, _ in r.samples]
    deploy.write('raw', recs)
    codes = dict(network=case.get('net', ''), station=case.get('sta', ''), location=case.get('loc', ''))
    gemlog.convert('raw', SN='077', convertedpath='out', file_length_hour=L / 3600, blockdays=case['block'],
                   output_format=case['fmt'], **codes)
    ivals = oracle.intervals([r for _, r in recs])
    names, traces = [], []
    ext = case['fmt'].lower()
    wav = ext == 'wav'
    ident = '%s.%s.%s.HDF' % (codes['network'], codes['station'] or '077', codes['location'])
    for fn in sorted(os.listdir('out')):
        m = re.fullmatch(r'(\d{4}-\d\d-\d\dT\d\d_\d\d_\d\d)(_\d\d)?\.(.*)\.(\w+)', fn)
        require(m is not None, 'unexpected output file name %r' % fn)
        require(m.group(3) == ident and m.group(4) == ext, 'file %s should be named for %s, %s' % (fn, ident, ext))
        t_name = obspy.UTCDateTime.strptime(m.group(1), '%Y-%m-%dT%H_%M_%S')
        if wav:
            from scipy.io import wavfile
            sr, x = wavfile.read('out/' + fn)
            require(sr == 100, 'sampling rate %r in %s' % (sr, fn))
            names.append((fn, len(x)))
            traces.append((t_name.timestamp, m.group(2), np.asarray(x, dtype=float)))
            continue
        st = obspy.read('out/' + fn)
        require(len(st) == 1, '%d traces in %s' % (len(st), fn))
        tr = st[0]
        require(abs(tr.stats.delta - 0.01) < 1e-8, 'sample interval %r in %s' % (tr.stats.delta, fn))
        tr.stats.delta = 0.01
        require(tr.id == ident, 'file %s holds channel %s, expected %s' % (fn, tr.id, ident))
        t0 = tr.stats.starttime
        require(int(t0.timestamp + 1e-6) == int(t_name.timestamp),
                lambda: 'file %s begins at %s' % (fn, t0))
        if m.group(2):
            require(abs((t0.timestamp % 1) * 100 - int(m.group(2)[1:])) < 0.1, lambda: 'file %s begins at %s' % (fn, t0))
        k0 = np.floor(t0.timestamp / L + 1e-7)
        k1 = np.floor(tr.stats.endtime.timestamp / L + 1e-7)
        require(k0 == k1, lambda: 'file %s holds %s: crosses a %g s boundary' % (fn, tr, L))
        names.append((fn, tr.stats.npts))
        traces.append(tr)
    # model: runs of recorded data cut at multiples of L
    pieces = []
    for i, (a, b) in enumerate(ivals):
        if i == 0:
            a = np.ceil(a - 1e-4)
        k = np.floor(a / L + 1e-9)
        while k * L <= b + 1e-9:
            pieces.append((max(a, k * L), min(b, (k + 1) * L - 0.01)))
            k += 1
    pieces = [p for p in pieces if p[1] - p[0] > 0.02]
    if wav:
        # check centring, scaling and shape (a ramp), and number of samples, per file
        got = {}
        for t_name, sub, x in traces:
            require(len(x) < 3 or case.get('shape') == 'flat' or abs(np.abs(x).max() - 1) < 1e-6, 'wav data not scaled to 1')
            require(abs(x.mean()) < 1e-6, 'wav data not centred')
            if len(x) > 3 and 'shape' not in case:
                ramp = np.linspace(-1, 1, len(x))
                require(np.abs(x - ramp).max() < 0.02 + 3 / len(x), 'wav data do not follow the recorded signal')
            got.setdefault(t_name, []).append(len(x))
        want = {}
        for a, b in pieces:
            want.setdefault(float(np.floor(a + 0.0051)), []).append(int(round((b - a) / 0.01)) + 1)
        for k in want:
            require(k in got and len(got[k]) == len(want[k]) and
                    all(abs(p - q) <= 2 for p, q in zip(sorted(got[k]), sorted(want[k]))),
                    lambda: 'wav files hold %s samples, expected about %s' % (got, want))
        n_extra = sum(1 for _, _, x in traces if len(x) > 3) - len(pieces)
        if 'shape' in case:
            gemlog.convert('raw', SN='077', convertedpath='out2', file_length_hour=L / 3600, blockdays=case['block'], output_format='MSEED', **codes)
            require(sorted(f[:-6] for f in os.listdir('out2')) == sorted(f[:-4] for f in os.listdir('out')), 'wav and miniSEED output have different files')
            for (fn, _), (_, _, x) in zip(names, traces):
                y = obspy.read('out2/' + fn[:-4] + '.mseed')[0].data.astype(float)
                y -= y.mean()
                y /= max(np.abs(y).max(), 1e-9)
                require(len(x) == len(y) and np.abs(x - y).max() < 1e-6, lambda: '%s does not hold the signal of the miniSEED file, centred and scaled' % fn)
    else:
        bad = oracle.check_stream(traces, ivals, 100.0, B - 100, tol=0.006, start_slack=1.0, end_slack=0.012,
                                  inner_slack=0.008)
        require(bad is None, lambda: bad)
        n_extra = sum(1 for tr in traces if tr.stats.npts > 3) - len(pieces)
    require(n_extra <= 0, lambda: '%d files where %d are needed: %s' % (len(traces), len(pieces), names))
    return Result(key=[names, case['block']], states=[[round(a - B, 1), round(b - B, 1), L] for a, b in pieces],
                  transitions=len(pieces))
