import contextlib
import io
import itertools
import os
import warnings

import gemlog.xcorr as xc
import numpy as np
import obspy
import pandas as pd
from obspy.core.inventory import Channel, Inventory, Network, Station
from obspy.core.util import AttribDict

from mc.harness import Result, require

PROPERTY = 'C17'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of arrays, plane waves, table orders and coordinate forms, on the real code, against the plane-wave model'
LEVEL_NOTE = ('every non-collinear array on a lattice, every wave of a grid of back-azimuths and slownesses, every order of the location table and of the '
              'rows, with every set of other stations, through tables, inventories, streams, files and the terminal command')
RULE = 'a case is an array with an order, a form of the coordinates and other stations, run for all waves; non-trivial = distinct array and form'
ASSUMPTIONS = ['arrays are a few kilometres wide (geographic coordinates are projected on a plane)', 'lags are those of a table of waveform_calc_lags (in km and s)']
BOUNDS = {'quick': '3 to 5 sensors on a 3 x 3 lattice; 24 back-azimuths x 3 slownesses', 'thorough': '3 to 6 sensors; 72 back-azimuths x 5 slownesses'}
TIMEOUT = 200
LAT = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)]
# skewed so that no two sensors are alike
POS = [(x * .21 + .013 * y * y + .004 * x * y, y * .17 - .011 * x + .007 * x * x) for x, y in LAT]
NAMES = [('', '061', ''), ('', '077', ''), ('XX', 'AAA', '01'), ('', '123', ''), ('XX', 'AAA', '02'), ('YY', 'A1', ''), ('', '9', ''), ('XX', 'AAAA', '00'), ('ZZ', 'RMS', '10')]
FAR = [('QQ', 'FAR', '', 1.7, -2.2), ('', '06', '', -.8, .9), ('', '0617', '', .3, 2.5), ('XX', 'AAA', '', 1.1, 1.2)]
FORMS = ['plain', 'perm', 'rev', 'index', 'sorted', 'inv', 'invrev', 'stream', 'streamxy', 'csv', 'csvlong', 'invepochs']


def collinear(idx):
    p = np.array([POS[i] for i in idx])
    return np.linalg.svd(p - p.mean(0))[1][1] < .06


def cases(tier):
    th = tier != 'quick'
    for n in (3, 4, 5, 6) if th else (3, 4, 5):
        for k, idx in enumerate(itertools.combinations(range(9), n)):
            if collinear(idx):
                continue
            if n == 3:
                for p in itertools.permutations(range(3)):
                    yield dict(idx=idx, form='plain', perm=p)
            for f in FORMS[1:]:
                if n == 3 or (th and n < 6) or k % (3 if n == 4 else 7) == FORMS.index(f) % 3 or f in ('index', 'sorted'):
                    for far in ((), (0,), (1, 2), (0, 1, 2, 3)) if n == 3 and k % 4 == 0 or th else ((), (0, 3))[k % 2:][:1]:
                        yield dict(idx=idx, form=f, far=far)
            if n < 5:                              # two sensors at the same place
                for twin in range(1, n + 1) if th else (1 + k % n,):
                    for f in ('plain', 'rev', 'csv', 'streamxy', 'inv'):
                        yield dict(idx=idx, form=f, twin=twin)
            yield dict(idx=idx, form='plain', lagcols=1)
            yield dict(idx=idx, form='plain', rows='rev')
            yield dict(idx=idx, form='perm', rows='subset', far=(0, 1))
            yield dict(idx=idx, form='perm', rows='index', far=(2,))
            yield dict(idx=idx, form='perm', extra=1)


def waves(tier_n):
    return [(b, s) for b in range(0, 360, tier_n) for s in (.05, 2.9, 30.)]


def geo(x, y, lat0=43.6, lon0=-116.2):
    """WGS84: km east and north of the centre -> degrees"""
    a, e2 = 6378.137, 0.00669437999
    p = np.radians(lat0)
    m = a * (1 - e2) / (1 - e2 * np.sin(p) ** 2) ** 1.5
    nn = a / np.sqrt(1 - e2 * np.sin(p) ** 2)
    return lat0 + np.degrees(y / m), lon0 + np.degrees(x / (nn * np.cos(p)))


def run(case, work):
    idx = list(case['idx'])
    names = [NAMES[(i * 2 + 3) % 9] for i in idx]
    if 'twin' in case:
        idx.append(idx[case['twin'] - 1])
        names.append([v for v in NAMES if v not in names][case['twin'] % 3])
    order = sorted(range(len(idx)), key=lambda k: names[k])
    ids = ['%s.%s.%s' % names[k] for k in order]
    pos = [POS[idx[k]] for k in order]
    wv = waves(15)
    cols = {}
    cols['t_mid'] = ['2021-03-04T%02d:%02d:00.000000Z' % divmod(i, 60) for i in range(len(wv))]
    cols['mean_coef'] = [.9] * len(wv)
    n = len(ids)
    lag = lambda w, p, q: -w[1] * (np.sin(np.radians(w[0])) * (p[0] - q[0]) + np.cos(np.radians(w[0])) * (p[1] - q[1]))
    # a wave from back-azimuth b reaches the sensors nearer to b earlier
    for k in range(n):
        j = (k + 1) % n
        cols['rms_' + ids[k]] = [1.] * len(wv)
        cols['lag_%s_%s' % (ids[k], ids[j])] = [lag(w, pos[k], pos[j]) for w in wv]
        cols['r_%s_%s' % (ids[k], ids[j])] = [.9] * len(wv)
    cols['consistency'] = [True] * len(wv)
    df = pd.DataFrame(cols)
    want = np.array(wv, float)
    if case.get('lagcols'):
        df = df[list(df.columns)[::-1]]
    if case.get('extra'):
        # windows without one of the channels, first in the table
        k = 1
        e = df.iloc[:2].copy()
        for c in list(e.columns):
            if ids[k] in c.split('_'):
                e[c] = np.nan
        e['lag_%s_%s' % (ids[0], ids[2])] = .1
        e = e[[c for c in e.columns if ids[k] not in c.split('_')]]
        df = pd.concat([e, df], ignore_index=True)
        want = np.concatenate([np.full((2, 2), np.nan), want])
    r = case.get('rows')
    if r == 'rev':
        df, want = df.iloc[::-1], want[::-1]
    elif r == 'subset':
        keep = np.arange(len(df)) % 3 == 1
        df, want = df[keep], want[keep]
    elif r == 'index':
        df.index = pd.to_datetime(df.t_mid)
    f = case['form']
    xs = [(nm[0], nm[1], nm[2], POS[i][0], POS[i][1]) for nm, i in zip(names, idx)] + [FAR[j] for j in case.get('far', ())]
    if 'perm' in case:
        xs = [xs[i] for i in case['perm']]
    if f in ('perm', 'csv', 'streamxy'):
        xs = xs[1::2] + xs[::2]
    elif f in ('rev', 'invrev'):
        xs = xs[::-1]
    tol = 1e-6
    if f in ('plain', 'perm', 'rev', 'index', 'sorted'):
        loc = pd.DataFrame(dict(x=[v[3] for v in xs], y=[v[4] for v in xs], z=0., network=[v[0] for v in xs], station=[v[1] for v in xs], location=[v[2] for v in xs]))
        if f == 'index':
            loc.index = [10 * i + 5 for i in range(len(loc))]
        elif f == 'sorted':
            loc = loc.sort_values('x', ascending=bool(len(idx) % 2))
    elif f == 'streamxy':
        loc = xc.get_coordinates(obspy.Stream([obspy.Trace(np.zeros(3), dict(network=v[0], station=v[1], location=v[2], channel='HDF', coordinates=AttribDict(x=v[3], y=v[4], elevation=10.))) for v in xs]))
    else:
        tol = 2e-3
        g = [geo(v[3], v[4]) for v in xs]
        if f == 'stream':
            loc = xc.get_coordinates(obspy.Stream([obspy.Trace(np.zeros(3), dict(network=v[0], station=v[1], location=v[2], channel='HDF',
                                     coordinates=AttribDict(latitude=a, longitude=b, elevation=800.))) for v, (a, b) in zip(xs, g)]))
        else:
            nets = {}
            for v, (a, b) in zip(xs, g):
                chans = [Channel('HDF', v[2], a, b, 800., 0.)]
                if f == 'invepochs':
                    chans = [Channel('HDF', v[2], a, b, 800., 0., start_date=obspy.UTCDateTime(2020 + i, 1, 1), end_date=obspy.UTCDateTime(2021 + i, 1, 1)) for i in (0, 1)]
                nets.setdefault(v[0], []).append(Station(v[1], a, b, 800., channels=chans))
            inv = Inventory([Network(k, stations=v) for k, v in nets.items()], source='x')
            if f[:3] == 'inv':
                loc = xc.get_coordinates(inv)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        if f[:3] == 'csv':
            df.to_csv('lags.csv', index=False)
            inv.write('sta.xml', format='STATIONXML')
            o = ('-i', '-l', '-o') if f == 'csv' else ('--input_file', '--location_file', '--output_file')
            xc.calculate_direction_terminal([o[2], 'out.csv', o[1], 'sta.xml', o[0], 'lags.csv'])
            out = pd.read_csv('out.csv')
        else:
            out = xc.invert_for_slowness(df.copy(), loc)
            if r is None and f != 'plain':  # the location table can be used again
                again = xc.invert_for_slowness(df.copy(), loc)
                require(again[['backazimuth', 'slowness']].equals(out[['backazimuth', 'slowness']]), 'a second inversion with the same tables differs')
    require(len(out) == len(want), lambda: '%d rows, expected %d' % (len(out), len(want)))
    require(list(out.t_mid) == list(df.t_mid), 'rows do not belong to their windows')
    baz, slo = np.array(out.backazimuth, float), np.array(out.slowness, float)
    for i, (b, s) in enumerate(want):
        if np.isnan(b):
            require(np.isnan(baz[i]) and np.isnan(slo[i]), lambda: 'row %d has no lags: %s %s' % (i, baz[i], slo[i]))
            continue
        d = (baz[i] - b + 180) % 360 - 180
        require(abs(d) < tol * 60 and abs(slo[i] / s - 1) < tol, lambda: 'row %d: back-azimuth %.3f (%g), slowness %.5f (%g)' % (i, baz[i], b, slo[i], s))
    return Result(key='%s %s %s' % (idx, f, case.get('far')), states=[(tuple(idx), f)], transitions=len(want))
