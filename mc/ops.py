"""An alphabet of calls of gemlog's functions and commands on one small data set, and canonical forms of what they
return and write.  Used by the checks of call sequences and of the surroundings of a call."""
import contextlib
import glob
import hashlib
import io
import os
import re
import shutil
import warnings

import gemlog
import gemlog.gemconvert
import gemlog.gemconvert_single
import gemlog.xcorr as xc
import numpy as np
import obspy
import pandas as pd
from gemlog.gem_network import summarize_gps_terminal

from mc import deploy
from mc import gemgen as g
from mc.huddle import verify

T = g.utc(2021, 3, 4, 23, 59, 30)
SNS = ['061', '077', '123']


def recordings(i, v=0):
    """three files, a gap before the last, midnight within"""
    out, t = [], T + [.003, 4.506, 11.111][i] + .7 * v
    clock = g.Clock(t - 40 - i, [0, 30, -20][i])
    for n, gap in enumerate([0, 0, 3.5] if i != 1 else [0, 2.25]):
        t += gap
        r = g.Recording(clock, t, t + 13, K=1000.0 + 100 * i + 37 * v, tref=T, lat=43.6 + .01 * i + v, lon=-116.2 - .01 * i, temp=20 + i + 3 * v,
                        gaps=[(t + 5.1, t + 5.9)] if i == 2 and n == 1 else [])
        out.append((n, r))
        t += 13
    return out


def sine(sta, loc, t, n, fs, k):
    x = np.arange(n) / fs + k * .37
    d = np.round(1e4 * (np.sin(9.1 * x + .3 * x ** 2) + np.cos(5.3 * x) * np.sin(.7 * x))).astype('int32')
    return obspy.Trace(d, dict(network='XP', station=sta, location=loc, channel='HDF', sampling_rate=fs, starttime=obspy.UTCDateTime(t)))


def dataset(v=0):
    """everything the calls read, in the current folder; v=1: other contents under the same names"""
    from functools import partial
    recordings = partial(globals()['recordings'], v=v)
    low = (1, 15, 20, 1, 0, 0)
    for i, sn in enumerate(SNS):
        deploy.write('raw', recordings(i), sn, **(dict(version='1.10', config=low) if v else {}))
    deploy.write('rawbad', recordings(0), '061')
    g.write('rawbad/FILE0001.061', g.header('0.91', '061') + ['P,1'])
    os.makedirs('rawnone')
    a, b = ('123', '077') if v else ('077', '123')
    deploy.write('rawtxt', recordings(1)[:1], a, version='0.8')
    deploy.write('rawtxt', [(3, recordings(2)[0][1])], b, version='0.8')
    deploy.write('rawlow', recordings(0), '061', **({} if v else dict(config=low)))
    os.makedirs('rawone')
    g.write_recording('rawone', 5, '061', g.Recording(g.Clock(T - 9), T, T + 20 + v, tref=T, gps=False))
    for sn in SNS:
        gemlog.convert('raw', SN=sn, convertedpath='mseed', metadatapath='metadata', gpspath='gps', file_length_hour=10 / 3600)
    for i in (0, 2):
        gemlog.convert('raw', SN=SNS[i], convertedpath='m2', metadatapath='m2', gpspath='gps2', t1=T + 15)
    with open('codes.csv', 'w') as f:
        f.write('SN,Network,Station,Location\n061,XP,AAA,00\n077,XP,BBB,01\n123,XQ,BBB,02\n' if not v else
                'SN,Network,Station,Location\n077,XP,AAA,00\n061,XP,BBB,01\n123,XR,CCC,02\n')
    os.makedirs('xc')
    t = T - 20
    for k, sta in enumerate(('ABC', 'DEF', 'GHI')):
        tr = sine(sta, '', t, 1600, 20., k * (1 - 1.5 * v))
        for a, b in ((0, 600), (600, 1600)):
            p = tr.copy()
            p.data = tr.data[a:b]
            p.stats.starttime += a / 20.
            p.write('xc/%s_%d.mseed' % (sta, a), format='MSEED', encoding='STEIM2')
    from mc.checks import c24
    os.makedirs('huddle')
    here = os.getcwd()
    os.chdir('huddle')
    for d in ('metadata', 'gps', 'mseed'):
        os.mkdir(d)
    for j, sn in enumerate(SNS):
        m = c24.base(1500, 1.0, j)
        if j == 1 + v:
            m['temp'][700:900] += 3
        c24.write(sn, m)
    os.chdir(here)


class World:
    """objects a caller holds and passes to calls"""

    def __init__(self, spell=lambda p: p, literal=False):
        self.p = spell
        pat = glob.escape if literal else lambda p: p     # where a pattern is expected
        self.pat = lambda p: pat(spell(p))
        self.table = pd.DataFrame(dict(SN=SNS, network=['XP', 'XP', 'XQ'], station=['AAA', 'BBB', 'BBB'], location=['00', '01', '02']))
        self.coords = pd.DataFrame(dict(SN=SNS, lat=[43.1, 43.2, 43.3], lon=[-116., -116.1, -116.2], elevation=[800., 810., 820.]))
        self.nums = [0, 1]
        self.numarr = np.array([2, 0])
        self.sns = ['061', '123']
        self.some = ['061', '077', '123']
        self.skip = ['077']
        self.files = sorted(self.pat('xc') + '/' + f for f in os.listdir(spell('xc')))
        self.stream = obspy.Stream([sine('061', '', T, 900, 100., 1)])
        self.stream[0].stats.calib = 1.
        self.freqs = np.array([.01, .1, 1., 10.])
        self.lags = pd.DataFrame({'t_mid': ['2021-03-04T00:00:05', '2021-03-04T00:00:10'], 'rms_XP.A.': 1., 'rms_XP.B.': 1., 'rms_XP.C.': 1., 'lag_XP.A._XP.B.': [.1, .2], 'lag_XP.B._XP.C.': [-.05, .02],
                                  'lag_XP.C._XP.A.': [-.05, -.22]}, index=[4, 2])
        self.loc = pd.DataFrame(dict(x=[0., 100, 0], y=[0., 0, 90], z=0., network='XP', station=['A', 'B', 'C'], location=''), index=[7, 3, 5])
        self.ids = ['DEF', 'ABC']
        self.not_ids = ['GHI']
        self.gpslist = [self.p('gps')]
        self.db = pd.DataFrame(dict(filename='f', station=['A', 'A', 'B'], location='', amp_HP=[1., 20., 3e4], max=5, min=-5,
                                    t1=['2021-03-04T00:00:00', '2021-03-04T01:00:00', '2021-03-04T00:00:00'], t2=['2021-03-04T00:59:59.99', '2021-03-04T01:30:00', '2021-03-04T00:59:59.99']), index=[0, 1, 0])


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f()
        except SystemExit as e:
            return 'exit %s' % e.code
        except Exception as e:
            return 'raised %s' % type(e).__name__


def conv(w, raw, o, **kw):
    return gemlog.convert(w.p(raw), convertedpath=o + '/c', metadatapath=o + '/m', gpspath=o + '/g', **kw)


def in_dir(o, f):
    """commands that write in the current folder"""
    here = os.getcwd()
    os.chdir(o)
    try:
        return f()
    finally:
        require_cwd = os.getcwd()
        os.chdir(here)
        assert os.path.samefile(require_cwd, o), 'the command changed the current folder'


def gemconvert(w, argv, o):
    src = os.path.abspath(w.p('raw')) + '/' * w.p('raw').endswith('/')
    import logging
    try:
        return in_dir(o, lambda: gemlog.gemconvert.main(['-i', src] + argv))
    finally:
        for h in logging.getLogger().handlers[:]:
            logging.getLogger().removeHandler(h)
            h.close()


def huddle(w, o, **kw):
    shutil.copytree(w.p('huddle'), o + '/huddle')
    try:
        return verify(o + '/huddle', **kw)
    finally:
        for d in ('gps', 'metadata', 'mseed'):
            shutil.rmtree(o + '/huddle/' + d)


def gcat(w, o):
    os.makedirs(o + '/joined', exist_ok=True)
    return gemlog.gem_cat(w.p('raw'), o + '/joined', '061')


# name -> call(world, output folder)
OPS = {
    'convert061': lambda w, o: conv(w, 'raw', o, SN='061', file_length_hour=10 / 3600),
    'convert077V': lambda w, o: conv(w, 'raw', o, SN='077', units='V', output_format='sac', network='XX', location='03'),
    'convertnums': lambda w, o: conv(w, 'raw', o, SN='123', nums=w.nums, blockdays=1 / 12, t1=T + 15, output_format='wav'),
    'converttxt': lambda w, o: conv(w, 'rawtxt', o, SN='077'),
    'convertnone': lambda w, o: conv(w, 'rawnone', o, SN='077'),
    'convertbad': lambda w, o: conv(w, 'rawbad', o, SN='061', blockdays=1 / 12),
    'convertlow': lambda w, o: conv(w, 'rawlow', o, SN='061'),
    'read': lambda w, o: gemlog.read_gem(w.p('raw'), nums=w.numarr, SN='061'),
    'read123': lambda w, o: gemlog.read_gem(w.p('raw'), SN='123', station='ABC'),
    'command': lambda w, o: gemconvert(w, ['-s', '061,123', '-l', '0.01'], o),
    'commandcodes': lambda w, o: gemconvert(w, ['-x', '061', '-c', os.path.abspath(w.p('codes.csv')), '-o', 'res', '-p', '2'], o),
    'single': lambda w, o: (lambda p: in_dir(o, lambda: gemlog.gemconvert_single.main(['-i', p, '-f'])))(os.path.abspath(w.p('rawone/FILE0005.061'))),
    'cat': lambda w, o: gcat(w, o),
    'gps': lambda w, o: gemlog.read_gps(w.pat('gps'), '123'),
    'gpslist': lambda w, o: (gemlog.read_gps(w.gpslist, '061'), gemlog.summarize_gps(w.gpslist, exclude_SN=w.skip)),
    'gpsdirs': lambda w, o: gemlog.read_gps(w.pat('gps').rstrip('/') + '*', '123'),
    'summarydirs': lambda w, o: gemlog.summarize_gps(w.pat('gps').rstrip('/') + '*', output_file=o + '/coords.csv'),
    'summary': lambda w, o: gemlog.summarize_gps(w.pat('gps'), station_info=w.table, output_file=o + '/coords.csv', include_SN=w.sns),
    'summarycmd': lambda w, o: summarize_gps_terminal([w.p('gps'), '-o', o + '/net', '-s', w.p('codes.csv'), '-x', '077']),
    'inventory': lambda w, o: gemlog.make_gem_inventory(w.table, w.coords),
    'rename': lambda w, o: gemlog.rename_files(w.pat('mseed') + '/*', w.table, o + '/r'),
    'merge': lambda w, o: gemlog.merge_files_day(w.p('mseed'), '*', o + '/merged'),
    'db': lambda w, o: gemlog.make_db(w.p('mseed'), '*', savefile=o + '/db.csv'),
    'stats': lambda w, o: gemlog.calc_channel_stats(gemlog.make_db(w.p('xc'), '*'), obspy.UTCDateTime(T - 20), obspy.UTCDateTime(T + 60)),
    'statsread': lambda w, o: gemlog.calc_channel_stats(w.db, '2021-03-04', '2021-03-04T03:00:00'),
    'response': lambda w, o: gemlog.get_gem_response('low'),
    'deconvolve': lambda w, o: gemlog.deconvolve_gem_response(w.stream.copy(), 'high'),
    'noise': lambda w, o: (gemlog.gem_noise(version='0.98', spectype='power', freq=w.freqs), gemlog.ims_noise('low', freq=w.freqs)),
    'specs': lambda w, o: (gemlog.get_gem_specs('061'), gemlog.get_gem_specs('020')),
    'xcorr': lambda w, o: xc.xcorr_all(w.files, fl=1, fh=6, win_length_sec=10, overlap=.5, IDs=w.ids, quiet=True),
    'xcorrall': lambda w, o: xc.xcorr_all(w.files, t1='2021-03-04T23:59:40', fl=.5, fh=4, win_length_sec=8, upsample_ratio=2, exclude_IDs=w.not_ids, quiet=True),
    'xcorrcmd': lambda w, o: xc.xcorr_all_terminal(w.files + ['-L', '1', '-H', '6', '-w', '10', '-o', o + '/x.csv', '-x', 'GHI']),
    'slowness': lambda w, o: xc.invert_for_slowness(w.lags.copy(), w.loc),
    'huddle': lambda w, o: huddle(w, o),
    'huddlesome': lambda w, o: huddle(w, o, SN_list=w.some, SN_to_exclude=w.skip),
    'huddlenone': lambda w, o: verify(o, w.skip, []),
}


def num(x):
    x = float(x)
    return '%.9g' % x


def form(x, o=None):
    """canonical form; paths of the output folder are written OUT"""
    if isinstance(x, str):
        if '/' in x and os.path.exists(x):      # however the path of an input is spelled
            x = '/'.join(os.path.realpath(x).split('/')[-2:])
        return x.replace(os.path.abspath(o), 'OUT').replace(o, 'OUT') if o else x
    if isinstance(x, (bool, np.bool_)) or x is None:
        return str(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return num(x)
    if isinstance(x, obspy.UTCDateTime):
        return str(x)
    if isinstance(x, obspy.Trace):
        s = x.stats
        return [x.id, str(s.starttime), num(s.delta), num(s.calib), len(x.data), form(np.asarray(x.data))]
    if isinstance(x, obspy.Stream):
        return [form(tr) for tr in x]
    if isinstance(x, obspy.Inventory):
        b = io.BytesIO()
        x.write(b, format='STATIONXML')
        return xml(b.getvalue())
    if isinstance(x, pd.DataFrame):
        return ['table', [str(c) for c in x.columns], [form(v, o) for v in x.index], [[form(v, o) for v in x[c]] if len(x) < 200 else form(x[c].values, o) for c in x.columns]]
    if isinstance(x, pd.Series):
        return ['series', [str(v) for v in x.index], [form(v, o) for v in x]]
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'iufb' and x.size > 20:
            return hashlib.sha1(np.round(x.astype(float), 9).tobytes()).hexdigest() if x.dtype.kind in 'iub' else \
                hashlib.sha1(' '.join('%.7g' % v for v in x.ravel()).encode()).hexdigest()
        return [form(v, o) for v in x.ravel()]
    if isinstance(x, dict):
        return {str(k): form(v, o) for k, v in x.items()}
    if isinstance(x, (list, tuple, pd.Index)):
        return [form(v, o) for v in x]
    if hasattr(x, '__dict__'):
        return [type(x).__name__, {k: form(v, o) for k, v in sorted(vars(x).items())}]
    return repr(x)


def xml(b):
    """a station file without the time it was written at"""
    return hashlib.sha1(re.sub(rb'<(Created|Module|ModuleURI)>.*?</\1>', b'', b)).hexdigest()


def files(o, spelled=()):
    out = {}
    for d, _, fs in os.walk(o):
        for f in fs:
            p = os.path.join(d, f)
            b = open(p, 'rb').read()
            r = os.path.relpath(p, o)
            for a, c in spelled if f.endswith('.csv') else ():
                b = b.replace(a, c)
            if f.endswith('.xml'):
                out[r] = xml(b)
            elif 'log' in f and f.endswith('.txt'):
                out[r] = 'a log file'       # holds the time of the call
            else:
                out[r] = hashlib.sha1(b).hexdigest() if len(b) > 300 else b.decode('latin-1')
    return out


def scribble(x):
    """a caller changes what a call gave it"""
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            x[k] = None
        x['scribble'] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in 'iufcb':
            x[...] = 0
    elif isinstance(x, (pd.DataFrame, pd.Series)):
        x.drop(index=x.index, inplace=True)
    elif isinstance(x, obspy.Stream):
        for tr in x:
            scribble(tr.data)
            tr.stats.station = 'ZZZ'
        x.clear()
    elif isinstance(x, obspy.Inventory):
        x.networks = []
    elif hasattr(x, '__dict__') and 'obspy' in type(x).__module__:
        for k, v in vars(x).items():
            scribble(v)


def do(name, w, o, keep=None):
    os.makedirs(o, exist_ok=True)
    r = quiet(lambda: OPS[name](w, o))
    if keep is not None:
        keep.append(r)
    m = w.p('mseed').rstrip('/').encode()
    spelled = [(m + b'//', b'mseed/'), (m + b'/', b'mseed/')]
    return dict(ret=form(r, o), files=files(o, spelled))


def inputs(skip=()):
    """digest of everything in the current folder except output folders"""
    out = {}
    for d, ds, fs in os.walk('.'):
        if d == '.':
            ds[:] = [x for x in ds if not x.startswith('o_')]
        ds.sort()
        for f in fs + [x + '/' for x in ds]:
            p = os.path.join(d, f)
            out[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest() if not f.endswith('/') else ''
    return out


def child(f):
    """run f in a forked process; its JSON result"""
    import json
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            b = json.dumps(f()).encode()
            while b:
                b = b[os.write(wr, b):]
            code = 0
        except BaseException:
            import traceback
            b = json.dumps({'crash': traceback.format_exc()[-1500:]}).encode()
            while b:
                b = b[os.write(wr, b):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    b = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b) if b else {'crash': 'the process died'}
