import itertools
import os

import gemlog
import numpy as np
import obspy

from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C12'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of all serial numbers, gains, units, user factors and configuration lines, each read by the real code'
LEVEL_NOTE = ('all serial numbers 003-999 at both gains are read and compared with an independent copy of the hardware table; options and '
              'positions of the configuration line are enumerated for representatives of every hardware version')
RULE = 'a case is (serial number, gain, units, user factor, configuration line and its place); non-trivial = distinct factors and settings'
ASSUMPTIONS = ['all files of a folder have the configuration of the first (the one the code reads)']
BOUNDS = {'quick': 'all serial numbers x gains; representatives x options', 'thorough': 'all serial numbers x gains x units'}
# hardware version, first and last serial number, preamplifier resistor (kOhm), supply voltage
HW = [(0.5, 3, 7, 49.4, 3.373), (0.7, 8, 14, 49.4, 3.373), (0.8, 15, 19, 49.4, 3.373), (0.82, 20, 37, 49.4, 3.373),
      (0.9, 38, 40, 49.4, 3.1), (0.91, 41, 43, 49.4, 3.1), (0.92, 44, 46, 49.4, 3.1), (0.98, 47, 49, 50, 3.1),
      (0.99, 50, 51, 50, 3.1), (0.991, 52, 54, 50, 3.1), (0.992, 55, 57, 50, 3.1), (1, 58, 107, 50, 3.1), (1.01, 108, 10**9, 50, 3.1)]
KEYS = ['gps_mode', 'gps_cycle', 'gps_quota', 'adc_range', 'led_shutoff', 'serial_output']
DEFAULT = [1, 15, 20, 0, 0, 0]
EDGES = sorted({s for _, a, b, _, _ in HW for s in (a, b) if s < 10**9} | {999, 150})


def factors(sn, low):
    for ver, a, b, r, v in HW:
        if a <= sn <= b:
            volt = 0.256 / 2 ** 15 / (1 + r / 0.470)
            return ver, volt * (1 + low), volt * (1 + low) / (45.13e-6 * v / 7.0)


def cases(tier):
    yield dict(k='specs', lo=3, hi=1000)
    for sn in range(3, 1000):
        for low in (0, 1):
            for units in (['Pa'] if tier == 'quick' else ['Pa', 'V', 'counts']):
                yield dict(k='read', sn=sn, low=low, units=units)
    for sn in EDGES:
        for low in (0, 1):
            for units in ('Pa', 'V', 'counts', 'pa', 'v', 'Counts'):
                yield dict(k='read', sn=sn, low=low, units=units)
            for units in ('Pa', 'V', 'counts'):
                for user in (None, 0.0123):
                    for block in (1, 1 / 12):
                        yield dict(k='sac', sn=sn, low=low, units=units, user=user, block=block)
    for sn in (20, 61):
        for low in (0, 1):
            for units in ('Pa', 'V', 'counts'):
                for u in itertools.product((None, 2e-3), repeat=3):
                    yield dict(k='read', sn=sn, low=low, units=units, user=u)
    vals = dict(gps_mode=[0, 2, 3], gps_cycle=[1, 255], gps_quota=[0, 60], adc_range=[1], led_shutoff=[1, 9], serial_output=[1])
    for ver in ('0.9', '0.91', '1.10', '0.85C'):
        n = len(g.header(ver, '061', None))
        for key, vs in vals.items():
            for v in vs:
                for pos in range(n - 1, 9):
                    yield dict(k='conf', ver=ver, conf={key: v}, pos=pos)
        for pos in [None] + list(range(n, 9)):
            yield dict(k='conf', ver=ver, conf={}, pos=pos)
    for bad in ('C', 'C,', 'C,1,15,20,1', 'C,1,15,20,1,0,x', 'C,,,,,,', 'CC,2,3,4,1,6,7', '#C,2,3,4,1,6,7', 'Cfg', 'C,1,15,20,1,0,'):
        for second in (None, [2, 10, 30, 1, 1, 1]):
            yield dict(k='badconf', line=bad, second=second)
    for sn in ('061', '61', 61):
        yield dict(k='sntype', sn=sn)


def write(sn, conf, ver='0.91', lines=None, n=1):
    os.mkdir('raw')
    t = g.utc(2021, 3, 4, 12)
    clock = g.Clock(t - 33)
    for i in range(n):
        rec = g.Recording(clock, t + 13 * i, t + 13 * i + 13, tref=t)
        h = lines if lines is not None else g.header(ver, sn, conf)
        g.write('raw/FILE%04d.%s' % (13 * i, sn), h + g.body(rec, ver))


def close(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def run(case, work):
    k = case['k']
    if k == 'specs':
        out = []
        for sn in range(case['lo'], case['hi']):
            for form in (sn, '%03d' % sn, str(sn)):
                s = gemlog.get_gem_specs(form)
                v, volt, pa = factors(sn, 0)
                require(s['version'] == v and close(s['bitweight_V'], volt) and close(s['bitweight_Pa'], pa),
                        lambda: 'serial number %r: %s, expected %s %s %s' % (form, s, v, volt, pa))
        return Result(key=k, executions=3 * (case['hi'] - case['lo']))
    if k == 'read':
        sn = '%03d' % case['sn']
        write(sn, DEFAULT[:3] + [case['low']] + DEFAULT[4:])
        kw = {n: u for n, u in zip(('bitweight', 'bitweight_V', 'bitweight_Pa'), case.get('user', ())) if u is not None}
        h = gemlog.read_gem('raw', SN=sn, units=case['units'], **kw)['header']
        v, volt, pa = factors(case['sn'], case['low'])
        volt, pa = kw.get('bitweight_V', volt), kw.get('bitweight_Pa', pa)
        want = kw.get('bitweight', {'pa': pa, 'v': volt, 'counts': 1}[case['units'].lower()])
        got = [h[x][0] for x in ('version', 'bitweight_V', 'bitweight_Pa', 'bitweight')]
        require(got[0] == v and all(close(a, b) for a, b in zip(got[1:], (volt, pa, want))),
                lambda: 'header has version, V, Pa, factor %s; expected %s' % (got, [v, volt, pa, want]))
        return Result(key=[v, case['low'], case['units'], case.get('user')])
    if k == 'sac':
        sn = '%03d' % case['sn']
        write(sn, DEFAULT[:3] + [case['low']] + DEFAULT[4:], n=2)
        kw = {} if case['user'] is None else dict(bitweight=case['user'])
        gemlog.convert('raw', SN=sn, convertedpath='conv', metadatapath='log', gpspath='log', units=case['units'],
                       output_format='SAC', blockdays=case['block'], file_length_hour=10 / 3600, **kw)
        v, volt, pa = factors(case['sn'], case['low'])
        want = case['user'] or {'Pa': pa, 'V': volt, 'counts': 1}[case['units']]
        names = sorted(os.listdir('conv'))
        require(len(names) >= 3, 'output files %s' % names)
        for f in names:
            tr = obspy.read('conv/' + f)[0]
            require(abs(tr.stats.calib - want) < 1e-6 * want, lambda: '%s has scale %r, expected %r' % (f, tr.stats.calib, want))
        return Result(key=[want, len(names)])
    if k == 'conf':
        conf = dict(zip(KEYS, DEFAULT), **case['conf'])
        h = g.header(case['ver'], '061', None)
        if case['pos'] is not None:
            while len(h) < case['pos'] + 1:
                h.append('#x')
            if case['conf'] == {}:      # a configuration whose every setting differs from the default
                conf = dict(zip(KEYS, [2, 10, 30, 1, 1, 1]))
            h.insert(case['pos'], 'C,' + ','.join(str(conf[x]) for x in KEYS))
        write('061', None, case['ver'], h)
    elif k == 'badconf':
        h = g.header('0.91', '061', None) + [case['line']]
        conf = dict(zip(KEYS, DEFAULT))
        if case['second']:
            conf = dict(zip(KEYS, case['second']))
            h.append('C,' + ','.join(str(x) for x in case['second']))
        write('061', None, '0.91', h)
    else:
        conf = dict(zip(KEYS, DEFAULT))
        write('061', DEFAULT)
        if case['sn'] != '061':
            s = gemlog.get_gem_specs(case['sn'])
            require(s['version'] == 1, 'version')
            return Result(key=str(case['sn']))
    h = gemlog.read_gem('raw', SN='061')['header']
    got = [int(h[x][0]) for x in KEYS]
    want = [conf[x] for x in KEYS]
    require(got == want, lambda: 'settings %s, expected %s' % (dict(zip(KEYS, got)), want))
    v, volt, pa = factors(61, conf['adc_range'])
    require(close(h['bitweight_V'][0], volt) and close(h['bitweight_Pa'][0], pa), 'factors do not follow the gain setting')
    return Result(key=[want, case.get('ver'), case.get('line'), case.get('pos')])
