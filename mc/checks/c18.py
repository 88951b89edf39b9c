import itertools
import os
import warnings

import gemlog
import numpy as np
import obspy

from mc.harness import REPO, Result, require

PROPERTY = 'C18'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of models, spectrum types, gains, frequencies and bands of a grid, on the real code, against the published response and tables'
LEVEL_NOTE = ('all noise models and spectrum types at every tabulated frequency and every grid frequency, all ordered triples of band limits; all gains and '
              'containers for every grid frequency of the response and of a recorded signal')
RULE = 'a case is a model with a spectrum type and frequency set, a band triple, or a recording with a gain; non-trivial = distinct value'
ASSUMPTIONS = ['bands lie within the tabulated range', 'the signal lies between 0.02 and 12 Hz, and its ends are tapered']
BOUNDS = {'quick': '13 band limits, 13 frequencies', 'thorough': '22 band limits, 40 frequencies'}
PTS = [.0056, .01, .02, .039, .05, .1, .18, .2, .5, 1., 2., 5., 9.9]
MODELS = {'low': 1, 'LOW': 1, 'min': 1, 'med': 2, 'medium': 2, 'Medium': 2, 'high': 3, 'hi': 3, 'max': 3, 'gem': 0}
TYPES = ['power', 'Power', 'amp', 'amplitude', 'db', 'dB']
G, FC = 128000 * .002231378, .244 / 2 / np.pi
FREQS = [.02, .03, .039, .05, .08, .1, .2, .5, 1., 2., 4., 7., 12.]

SENSORS = ['', 'RESP.XX.IS000..BDF.GEMV0.26.0_0005', 'RESP.XX.IS000..BDF.GEMV0.26.0_0016', 'RESP.XX.IS000..BDF.GEMV0.26.0_0023', 'RESP.XX.IS025..BDF.GEMV1.26.0_0022']
LOGGERS = ['', 'RESP.XX.GM000..HHZ.GEMINFRAV0.0.100', 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100', 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100']


def tables():
    d = os.path.join(REPO, 'gemlog', 'data', 'noise')
    ims = np.loadtxt(d + '/IMSNOISE_MIN_MED_MAX.txt')
    lines = open(d + '/Gem_v0.98_Noise_spec.txt').read().replace('"', '').split('\n')
    head = lines[0].split(',')
    gem = np.array([[float(x) for x in l.split(',')[-2:]] for l in lines[1:] if l.strip()])
    assert head[-2:] == ['f', 'amp'], head
    return ims, gem


def cases(tier):
    q = tier == 'quick'
    for m in MODELS:
        for ty in TYPES:
            yield dict(k='spec', model=m, type=ty)
    pts = PTS if q else sorted(PTS + [.007, .03, .07, .13, .3, .7, 1.5, 3.3, 7.7])
    for m in ('low', 'med', 'high', 'gem'):
        for a in range(len(pts)):
            yield dict(k='band', model=m, pts=pts, a=a)
    for gain in ('high', 'low', 'High', 'LOW'):
        yield dict(k='resp', gain=gain)
    fs = FREQS if q else sorted(set(FREQS) | set(np.round(np.geomspace(.02, 12, 28), 4).tolist()))
    for f in fs:
        for gain in ('high', 'low', 'default'):
            for form in ('trace', 'stream', 'two', 'int'):
                yield dict(k='dec', f=f, gain=gain, form=form)
    for s in SENSORS:
        for l in LOGGERS:
            yield dict(k='files', sensor=s, logger=l)
    for m in ('middle', ''):
        yield dict(k='err', model=m)
    yield dict(k='err', gain='mid')
    yield dict(k='err', type='psd')
    yield dict(k='err', version='0.8')
    for v in ('0.97', '0.98', '1.0', '1.01'):
        yield dict(k='ver', version=v)


def noise(model, **kw):
    return gemlog.gem_noise(**kw) if model == 'gem' else gemlog.ims_noise(model, **kw)


def power(x, ty):
    x = np.asarray(x, dtype=float)
    return x if ty.lower() == 'power' else x ** 2 if ty.lower().startswith('amp') else 10 ** (x / 10)


UNITS = dict(power=('Pa^2/Hz', 'Pa^2'), amp=('Pa/sqrt(Hz)', 'Pa'), db=('dB Pa/sqrt(Hz)', 'dB Pa'))


def spec(case):
    ims, gem = tables()
    col = MODELS[case['model']]
    f, p = (gem[:, 0], gem[:, 1] ** 2) if col == 0 else (ims[:, 0], 10 ** ims[:, col])
    ty = case['type']
    d = noise(case['model'], spectype=ty)
    require(np.allclose(d['freqs'], f, rtol=1e-9) and np.allclose(power(d['spectrum'], ty), p, rtol=1e-6), 'default spectrum is not the table')
    u = UNITS[ty.lower()[:5] if ty.lower().startswith('p') else ty.lower()[:3] if ty.lower().startswith('a') else 'db']
    require((d['spectrum_units'], d['noise_units']) == u, lambda: 'units %s' % d['noise_units'])
    # any order and number of requested frequencies
    for sel in (slice(None, None, -7), slice(3, 4), slice(0, None, 11)):
        g = f[sel]
        s = power(noise(case['model'], freq=g, spectype=ty)['spectrum'], ty)
        require(s.shape == g.shape and np.allclose(s, p[sel], rtol=1e-6), 'spectrum at tabulated frequencies is not the table')
    for w in (.1, .5, .9):
        g = f[:-1] + w * (f[1:] - f[:-1])
        d = noise(case['model'], freq=g, spectype=ty, freq_min=.5, freq_max=2)
        require(np.array_equal(d['freqs'], g), 'frequencies returned differ from those requested')
        s = power(d['spectrum'], ty)
        lo, hi = np.minimum(p[1:], p[:-1]), np.maximum(p[1:], p[:-1])
        require(np.all((s > .6 * lo) & (s < 1.3 * hi)), lambda: 'spectrum between tabulated frequencies is off at %s' % g[~((s > .6 * lo) & (s < 1.3 * hi))][:3])
        one = [float(power(noise(case['model'], freq=x, spectype=ty)['spectrum'], ty)) for x in g[::97]]
        require(np.allclose(one, s[::97], rtol=1e-9), 'a single frequency gives another value than an array')
    # no noise is made up beyond the table
    below = [f[0] * .5, f[0] * .999] if f[0] > 0 else [f[-1] * 1.0001, f[-1] * 7]     # the IMS tables begin at 0
    out = np.array(below + [f[-1] * 1.001, f[-1] * 2])
    mix = np.concatenate([out[:2], f[::50], out[2:]])
    for g in (out, mix):
        s = np.asarray(noise(case['model'], freq=g, spectype=ty)['spectrum'], float)
        require(np.isnan(s[:2]).all() and np.isnan(s[-2:]).all() and not np.isnan(s[2:-2]).any(), lambda: 'spectrum at %s Hz is %s; the table covers %s to %s Hz' % (g, s, f[0], f[-1]))
    for a, b in ((below[0], f[3] if f[0] > 0 else 2 * below[0]), (f[-4], f[-1] * 2), (f[-1] * 2, f[-1] * 3)):
        x = noise(case['model'], freq_min=a, freq_max=b, spectype=ty)['noise']
        require(np.isnan(x), lambda: 'noise in %s-%s Hz is %s; the table covers %s to %s Hz' % (a, b, x, f[0], f[-1]))
    return Result(key=['spec', case['model'], ty])


def band(case):
    ims, gem = tables()
    m, a = case['model'], case['pts'][case['a']]
    col = MODELS[m]
    lo, hi = (gem[0, 0], gem[-1, 0]) if col == 0 else (ims[0, 0], ims[-1, 0])
    f, p = (gem[:, 0], gem[:, 1] ** 2) if col == 0 else (ims[:, 0], 10 ** ims[:, col])
    n = 0
    for b in case['pts']:
        if b <= a or a < lo or b > hi:
            continue
        P = noise(m, freq_min=a, freq_max=b)
        require(P['freq_min'] == a and P['freq_max'] == b, 'band limits returned')
        ab = P['noise']
        g = np.unique(np.concatenate([np.linspace(a, b, 20001), np.geomspace(a, b, 20001)])[:-1].clip(a, b))
        s = noise(m, freq=g)['spectrum']
        t = float(np.sum((s[1:] + s[:-1]) / 2 * np.diff(g)))
        require(abs(ab / t - 1) < 2e-3, lambda: 'noise in %s-%s Hz is %s, integral of the spectrum %s' % (a, b, ab, t))
        for ty in ('amp', 'dB'):
            x = float(power(noise(m, freq_min=a, freq_max=b, spectype=ty)['noise'], ty))
            require(abs(x / ab - 1) < 1e-9, lambda: 'noise in %s-%s Hz as %s is %s, as power %s' % (a, b, ty, x, ab))
        for c in case['pts']:
            if b < c <= hi:
                bc, ac = noise(m, freq_min=b, freq_max=c)['noise'], noise(m, freq_min=a, freq_max=c)['noise']
                require(abs((ab + bc) / ac - 1) < 1e-4, lambda: 'noise in %s-%s and %s-%s Hz adds up to %s, not %s' % (a, b, b, c, ab + bc, ac))
                n += 1
    return Result(key=['band', m, a, n], executions=max(n, 1)) if n else Result(key=None)


def H(f):
    s = 2j * np.pi * f
    a = s / (s + .244)
    for p in (622.1227, 853.2195, 1601.773):
        a = a * p / (s + p)
    return G * a


def resp(case):
    f = np.geomspace(.002, 20, 200)
    r = gemlog.get_gem_response(case['gain'])
    k = 1 if case['gain'].lower() == 'high' else .5
    v = r.get_evalresp_response_for_frequencies(f, output='DEF')
    r10 = np.abs(v) / np.abs(H(f)) / k
    require(np.all(np.abs(r10[f < 8] - 1) < .02) and np.all((r10 > .85) & (r10 < 1.02)), lambda: 'gain differs from the published one by a factor %s' % r10[[0, 100, -1]])
    require(np.all(np.abs(np.angle(v[f < 5] / H(f[f < 5]))) < .05), 'phase differs from the published one')
    up = r.get_evalresp_response_for_frequencies([27.1], output='DEF')
    require(.66 < abs(up[0]) / (k * G) < .75, lambda: 'gain at the documented upper corner, 27.1 Hz, is %s of the passband' % (abs(up[0]) / k / G))
    c = abs(r.get_evalresp_response_for_frequencies([FC, 1.], output='DEF'))
    require(abs(c[0] / c[1] - .5 ** .5) < .01, 'corner frequency')
    require(abs(r.instrument_sensitivity.value / abs(k * H(.05)) - 1) < .02, lambda: 'sensitivity %s' % r.instrument_sensitivity.value)
    require(abs(c[1] / (k * gemlog.get_gem_response('high').get_evalresp_response_for_frequencies([1.], output='DEF').__abs__()[0]) - 1) < 1e-6, 'low gain is not half of high gain')
    return Result(key=['resp', k])


def fields(path):
    """gains of the stages, zeros and poles of a RESP file"""
    gain, zp, stage = {}, dict(Z=[], P=[]), None
    for l in open(path):
        v = l.split()
        if l.startswith('B058F03'):
            stage = int(v[-1])
        if l.startswith('B058F04'):
            gain[stage] = float(v[-1])
        if l.startswith(('B053F10-13', 'B053F15-18')):
            zp['Z' if '10-13' in l else 'P'].append(complex(float(v[2]), float(v[3])))
    return gain, zp['Z'], zp['P']


def files(case):
    d = os.path.join(REPO, 'gemlog', 'data', 'response')
    g, z, p = fields(os.path.join(d, 'sensor', case['sensor'] or SENSORS[-1]))
    f = np.geomspace(.02, 5, 40)

    def shape(f):
        s = 2j * np.pi * np.asarray(f)
        v = np.ones_like(s)
        for x in z:
            v = v * (s - x)
        for x in p:
            v = v / (s - x)
        return v
    for gain in ('high', 'low'):
        logger = case['logger'] or LOGGERS[3 if gain == 'high' else 2]
        k = np.prod([v for i, v in fields(os.path.join(d, 'datalogger', logger))[0].items() if i > 0])
        true = shape(f) / abs(shape(1.)) * g[1] * k
        for r in (gemlog.get_gem_response(gain, case['sensor'], case['logger']), gemlog.get_gem_response(gain=gain, logger_file=case['logger'], sensor_file=case['sensor'])):
            v = r.get_evalresp_response_for_frequencies(f, output='DEF')
            require(np.all(np.abs(v / true - 1) < .05) and abs(abs(v[20] / true[20]) - 1) < .02, lambda: 'response of %s with %s is %s times the product of both' % (case['sensor'], logger, abs(v / true)[[0, 20, -1]]))
            require(abs(r.instrument_sensitivity.value / abs(true[np.argmin(abs(f - .05))]) - 1) < .1, lambda: 'sensitivity %s' % r.instrument_sensitivity.value)
        n = 6000
        t = np.arange(n) * .01
        env = np.clip(np.minimum(t, t[-1] - t) / 15, 0, 1)
        env = env * env * (3 - 2 * env)
        w = np.exp(2j * np.pi * t)
        one = complex(shape(1.) / abs(shape(1.)) * g[1] * k)
        tr = obspy.Trace((env * w * one).real.copy())
        tr.stats.delta = .01
        st = gemlog.deconvolve_gem_response(obspy.Stream([tr.copy(), tr.copy()]), gain, case['sensor'], case['logger'])
        out = gemlog.deconvolve_gem_response(tr, gain, case['sensor'], case['logger'])
        mid = slice(2000, 4000)
        err = max(np.abs(x.data[mid] - (env * w).real[mid]).max() for x in [out] + list(st))
        require(err < .05, lambda: 'pressure recovered from %s with %s with an error of %.1f%%' % (case['sensor'], logger, 100 * err))
    return Result(key=['files', case['sensor'], case['logger']], executions=6)


def dec(case):
    f, gain = case['f'], case['gain']
    k = .5 if gain == 'low' else 1
    n = int(100 * max(60, 40 / f))
    t = np.arange(n) * .01
    ramp = np.clip(np.minimum(t, t[-1] - t) / (t[-1] * .25), 0, 1)
    env = ramp * ramp * (3 - 2 * ramp)
    p = env * np.cos(2 * np.pi * f * t) * 1.7
    F = np.fft.rfftfreq(4 * n, .01)
    c = np.fft.irfft(np.fft.rfft(p, 4 * n) * H(F) * k, 4 * n)[:n]
    tr = obspy.Trace(np.round(c * 64).astype('int32') if case['form'] == 'int' else c)
    scale = 64 if case['form'] == 'int' else 1
    tr.stats.delta = .01
    tr.stats.starttime = obspy.UTCDateTime(2021, 3, 4, 5, 6, 7.25)
    tr.stats.station = '061'
    arg = tr if case['form'] in ('trace', 'int') else obspy.Stream([tr] + ([obspy.Trace(3 * c, dict(tr.stats))] if case['form'] == 'two' else []))
    out = gemlog.deconvolve_gem_response(arg, *([] if gain == 'default' else [gain]))
    outs = [out] if case['form'] in ('trace', 'int') else list(out)
    require(len(outs) == (2 if case['form'] == 'two' else 1), 'number of traces')
    mid = slice(n // 3, 2 * n // 3)
    for o, m in zip(outs, (1, 3)):
        x = np.asarray(o.data) / scale / m
        require(o.stats.npts == n and o.stats.starttime == tr.stats.starttime, 'time or length changed')
        err = np.abs(x[mid] - p[mid]).max() / 1.7
        require(err < .05, lambda: 'pressure at %s Hz recovered with an error of %.1f%%' % (f, 100 * err))
    return Result(key=['dec', f, k])


def run(case, work):
    warnings.simplefilter('ignore')
    if case['k'] == 'err':
        try:
            if 'gain' in case:
                gemlog.get_gem_response(case['gain'])
            elif 'version' in case:
                gemlog.gem_noise(version=case['version'])
            else:
                gemlog.ims_noise(case.get('model', 'low'), spectype=case.get('type', 'amp'))
        except Exception:
            return Result(key=None)
        require(False, 'an invalid option was accepted')
    if case['k'] == 'ver':
        _, gem = tables()
        d = gemlog.gem_noise(version=case['version'])
        require(np.allclose(d['spectrum'], gem[:, 1] ** 2, rtol=1e-6), 'noise of version ' + case['version'])
        return Result(key=['ver'])
    return dict(spec=spec, band=band, resp=resp, dec=dec, files=files)[case['k']](case)
