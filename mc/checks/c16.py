import contextlib
import io
import itertools
import os
import warnings

import gemlog.xcorr as xc
import numpy as np
import obspy
import pandas as pd

from mc.harness import Result, require

PROPERTY = 'C16'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of recordings, window settings, time selections, file splits and orders, on the real code, against a model'
LEVEL_NOTE = ('window length x overlap x length of the data to the sample; every start, end and selection around midnight; every listed split of the '
              'recording into files in several orders must give the same table; delays are known exactly and change in the course of the recording')
RULE = 'a case is a recording, a selection and one set of window settings, run with several splits into files; non-trivial = distinct tables'
ASSUMPTIONS = ['all channels are on the same sampling grid', 'data between two gaps shorter than a window need not be analysed', 'lags are less than a second and constant in a window',
               'a part of a UTC day shorter than one window need not be analysed']
BOUNDS = {'quick': '2 to 4 channels, up to 62 hours, 8 splits x 3 orders', 'thorough': 'the same with more lengths, starts, ends and overlaps'}
TIMEOUT = 300
IDS = [('', '061', '', 'HDF'), ('', '077', '', 'HDF'), ('XX', 'AAA', '01', 'HDF'), ('', '123', '', 'HDF')]
DAY = obspy.UTCDateTime(2021, 3, 4)


def cases(tier):
    th = tier != 'quick'
    # windows: every length of data around every number of windows
    for w in (10, 5.5, 20) if th else (10, 5.5):
        for ov in (0, .5, .25, .9, 1 / 3) if th else (0, .5, .9):
            for m in (1, 2, 3, 5):
                for k in (-1, 0, 1, 2) if th else (0, 1):
                    L = w * (1 + (m - 1) * (1 - ov))
                    yield dict(fs=10, start=3600 + 7.3, n=int(round(L * 10)) + k, w=w, ov=ov, nch=3)
            yield dict(fs=10, start=3607.3, n=int(w * 43.7), w=w, ov=ov, nch=3)
    # several days
    H = 3600
    spans = [(0, 24), (0, 48), (12, 20), (12, 30), (12, 50), (23.99972222, 30), (18, 62)]
    if th:
        spans += [(0, 23.9), (0, 24.6), (1, 24), (23, 26), (23.5, 24.5), (23.5, 49), (.0002777, 24), (12, 12), (7.123456, 53.2)]
    for a, n in spans:
        for w, ov in ((1800, 0), (1700, .5)):
            yield dict(fs=2, start=a * H, n=int(n * H * 2), w=w, ov=ov, nch=3)
    # selection of times
    base = dict(fs=2, start=12 * H, n=50 * H * 2, w=1800, ov=0, nch=3)
    ts = [12, 13.3, 18, 24, 30, 36, 40, 48, 61]
    for a, b in itertools.combinations(ts if th else ts[::2], 2):
        yield dict(base, t1=a * H, t2=b * H)
    for a, b in ((0, 30), (40, 90), (0, 90), (30, None), (None, 30), (None, 48), (24, None), (86399.5 / 3600, 49)):
        yield dict(base, t1=a and a * H, t2=b and b * H)
    # channels that start late, stop early or pause
    base = dict(fs=10, start=3607.3, n=1211, w=10, ov=0, nch=3)
    pieces = dict(late=[(333, 1211)], early=[(0, 801)], gap=[(0, 555), (608, 1211)], gap1=[(0, 555), (556, 1211)], both=[(217, 503), (781, 1103)], bits=[(0, 300), (306, 308), (309, 310), (320, 1211)])
    for i in range(3):
        for k in pieces:
            yield dict(base, miss={i: pieces[k]})
            yield dict(base, miss={i: pieces[k]}, nch=4, ov=.5)
            yield dict(base, miss={i: pieces[k]}, nch=2)
            for j in range(i):
                for k2 in pieces if th else ('late', 'gap'):
                    yield dict(base, miss={i: pieces[k], j: pieces[k2]})
    for k in pieces:
        yield dict(base, miss={0: pieces[k], 1: pieces[k], 2: pieces[k]})
        yield dict(fs=20, start=1000.05, n=1601, w=10, ov=0, nch=3, up=2, d=(.3, -.2), miss={1: pieces[k]})
    for i in range(3):
        yield dict(fs=2, start=12 * H, n=50 * H * 2, w=1800, ov=0, nch=3, miss={i: [(0, 7000), (16000, 90001), (93000, 50 * H * 2)]})
        yield dict(fs=2, start=12 * H, n=50 * H * 2, w=1800, ov=0, nch=3, miss={i: [(0, 24 * H), (24 * H * 3, 50 * H * 2)]})
    # selection of channels
    for nch in (2, 3, 4):
        for m in range(2, nch + 1):
            for c in itertools.combinations(range(nch), m):
                for form in ('station', 'full', 'exclude', 'regex', 'both', 'netsta'):
                    yield dict(fs=10, start=3607.3, n=411, w=10, ov=0, nch=nch, ids=c, form=form)
                yield dict(fs=10, start=86400 - 21.3, n=511, w=10, ov=0, nch=nch, ids=c, form='station')
    # upsampling and delays between the samples
    for up in (1, 2, 4, 5):
        for d in itertools.product((-.275, -.1, 0, .05, .325), repeat=2) if th else [(-.275, .1), (.325, -.1), (.05, 0), (0, .325), (-.1, -.2), (.4, .7)]:
            yield dict(fs=20, start=1000.05, n=1601, w=20, ov=0, nch=3, up=up, d=d)
    for kw in ({}, dict(ov=.5), dict(up=2), dict(up=2, ov=.5)):
        yield dict(dict(fs=100, start=1000.05, n=3601, w=5, ov=0, nch=3, d=(.3, -.2), cmd='days', **kw) if 'ov' not in kw else dict(fs=100, start=1000.05, n=3601, w=5, nch=3, d=(.3, -.2), cmd='days', **kw))
    # sensors that hear other things: the lags need not add up
    for nch in (2, 3, 4):
        for w in (10, 5.5, 3):
            for ov in (0, .5):
                for scale in ((1, 1, 1, 1), (1, 2, 5, .5)):
                    yield dict(fs=10, start=3607.3, n=1411, w=w, ov=ov, nch=nch, own=1, scale=scale)
        yield dict(fs=10, start=3607.3, n=1411, w=10, ov=0, nch=nch, scale=(1, 3, .5, 2))
        yield dict(fs=20, start=1000.05, n=1601, w=20, ov=0, nch=nch, up=4, d=(.3, -.2, .05), scale=(1, 3, .5, 2))
    # any function on the windows of a stream
    for fs in (10, 100, 3):
        for w in (2, 3.3, 10) if fs != 3 else (2, 10):
            for ov in (0, .5, .9, 1 / 3, .75):
                for m in (1, 1.3, 2, 2.95, 4, 7.5):
                    for k in (-1, 0, 1):
                        n = int(round(w * fs * m)) + k
                        if n >= round(w * fs) and w * fs * (1 - ov) > 1:
                            yield dict(k='win', fs=fs, w=w, ov=ov, n=n)
                            if m > 2 and k == 0:
                                yield dict(k='win', fs=fs, w=w, ov=ov, n=n, short=int(w * fs * (m - 1)))
    for up in (1, 2, 3, 10):
        for fs in (1, 50, 100):
            for n in (2, 3, 17, 200):
                yield dict(k='up', up=up, fs=fs, n=n)
    for days in (.3, 1, 2.2):
        for start in (0, .4, .9999):
            for fail in (False, True):
                yield dict(k='loop', days=days, start=start, fail=fail)
    for k in ('csv', 'csvopt', 'csvlong'):
        yield dict(fs=10, start=3607.3, n=1411, w=10, ov=.5, nch=4, ids=(0, 1, 3), form='station', cmd=k)
        yield dict(fs=10, start=3607.3, n=1411, w=10, ov=.5, nch=4, ids=(0, 1, 2), form='exclude', cmd=k, t1=3620, t2=3700)
        yield dict(fs=20, start=1000.05, n=1601, w=20, ov=0, nch=3, up=4, d=(.3, -.2), cmd=k)
        yield dict(fs=20, start=1000.05, n=1601, w=20, ov=0, nch=3, up=4, d=(.275, -.225), cmd=k)
        yield dict(fs=20, start=1000.05, n=1601, w=20, ov=.5, nch=3, cmd=k)


def signal(case):
    """-> {channel: integers}, delay(channel, time since start)"""
    n, fs = case['n'], case['fs']
    rng = np.random.RandomState(7)
    nch = case['nch']
    out = []
    if 'd' in case:
        t = np.arange(n) / fs
        f = rng.uniform(1, 5, 60)
        ph = rng.uniform(0, 6.28, 60)
        d = (0,) + tuple(case['d'])

        def at(t):
            return sum(np.sin(2 * np.pi * a * t + b) for a, b in zip(f, ph)) * 1e4
        out = [np.round(at(t - d[i]) * case.get('scale', [1] * 4)[i]).astype('int32') for i in range(nch)]
        return out, lambda i, s: d[i]
    pad = 20
    x = rng.normal(size=n + 2 * pad) * 1e4
    step = max(int(round(case['w'] * fs * 3.7)), 60)
    table = [(0, 0, 0, 0), (1, -2, 3, 0), (0, 2, -1, 1), (2, 0, 0, -3)]
    if fs == 2:
        table = [(0, 0, 0, 0), (0, 1, -1, 0), (1, 0, 0, 1)]

    def delay(i, s):
        return table[int(s * fs / step + 1e-6) % len(table)][i] / fs
    for i in range(nch):
        idx = np.arange(n)
        dl = np.array([r[i] for r in table])[(idx // step) % len(table)]
        if case.get('own'):
            own = rng.normal(size=len(x)) * 1e4
            y = own if i == 0 else .5 * x + own
        else:
            y = x
        out.append(np.round(y[pad + idx - dl] * case.get('scale', [1] * 4)[i]).astype('int32'))
    return out, delay


def change(case, s0, s1):
    """do the delays change between the two times (since the start)?"""
    if 'd' in case:
        return False
    step = max(int(round(case['w'] * case['fs'] * 3.7)), 60)
    return int((s0 * case['fs'] - 8) // step) != int((s1 * case['fs'] + 8) // step)


def write(case, data, split, d):
    """write the recording as files; returns their names"""
    os.mkdir(d)
    fs, n = case['fs'], case['n']
    t0 = DAY + case['start']
    trs = []
    for i, x in enumerate(data):
        net, sta, loc, ch = IDS[i]
        trs.append(obspy.Trace(x, dict(network=net, station=sta, location=loc, channel=ch, sampling_rate=fs, starttime=t0)))
    if split in ('one', 'multi', 'pair'):
        cuts = [0, n]
    elif split == 'third':
        cuts = [0, n // 3, n // 3 + 1, 2 * n // 3, n]
    elif split == 'many':
        cuts = sorted({0, n, *range(n // 11, n, max(n // 9, 1))})
    else:  # at midnight or hour
        per = dict(day=86400, hour=3600 * 7, dayish=86400)[split]
        k0 = int(np.ceil(((per - (t0 - DAY)) % per) * fs - 1e-6)) + (split == 'dayish')
        cuts = sorted({0, n, *range(k0, n, per * fs)} - set(range(n + 1, 10 ** 8, 10 ** 9)))
        cuts = [c for c in cuts if c <= n]
    names = []
    miss = {int(k): v for k, v in case.get('miss', {}).items()}
    for a, b in zip(cuts, cuts[1:]):
        parts = []
        if miss:
            for i, tr in enumerate(trs):
                for u, v in miss.get(i, [(0, n)]):
                    if max(u, a) < min(v, b):
                        p = tr.copy()
                        p.data = tr.data[max(u, a):min(v, b)]
                        p.stats.starttime = t0 + max(u, a) / fs
                        parts.append(p)
            names.append('%s/%d.mseed' % (d, a))
            if not parts:
                names.pop()
                continue
            obspy.Stream(parts).write(names[-1], format='MSEED', encoding='STEIM2')
            continue
        for tr in trs:
            p = tr.copy()
            p.data = tr.data[a:b]
            p.stats.starttime = t0 + a / fs
            parts.append(p)
        groups = [parts] if split in ('multi', 'many') else [parts[:2], parts[2:]] if split == 'pair' else [[p] for p in parts]
        for j, gp in enumerate(groups):
            if gp:
                names.append('%s/%s_%d.mseed' % (d, parts[0].stats.starttime.strftime('%Y%m%dT%H%M%S'), j))
                while names[-1] in names[:-1]:
                    names[-1] += 'x'
                obspy.Stream(gp).write(names[-1], format='MSEED', encoding='STEIM2')
    return names


def selection(case):
    ids = case.get('ids')
    if ids is None:
        return None, None, list(range(case['nch']))
    rest = [i for i in range(case['nch']) if i not in ids]
    full = ['.'.join(IDS[i]) for i in ids]
    st = [IDS[i][1] for i in ids]
    form = case['form']
    if form == 'station':
        return st, None, list(ids)
    if form == 'full':
        return full, None, list(ids)
    if form == 'netsta':                 # part of the channel name
        return ['.'.join(IDS[i][:3]) for i in ids], None, list(ids)
    if form == 'exclude':
        return None, [IDS[i][1] for i in rest], list(ids)
    if form == 'regex':
        return ['(%s)' % '|'.join(st)], None, list(ids)
    return st + [IDS[i][1] for i in rest[:1]], [IDS[i][1] for i in rest[:1]], list(ids)


def call(case, files):
    inc, exc, _ = selection(case)
    fl, fh = (.05, .8) if case['fs'] == 2 else (.5, 4) if case['fs'] == 10 else (.8, 6)
    t1 = DAY + case['t1'] if case.get('t1') is not None else None
    t2 = DAY + case['t2'] if case.get('t2') is not None else None
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case.get('cmd') == 'days':
            args = dict(quiet=True, **{a: case[b] for a, b in (('overlap', 'ov'), ('upsample_ratio', 'up')) if b in case and case[b]})
            if case['n'] % 2:
                args.update(fl=.8, fh=6)
            df = xc.loop_through_days(xc.xcorr_one_day, files, IDs=inc, args=args, quiet=True)
        elif 'cmd' not in case:
            kw = dict(IDs=inc, exclude_IDs=exc, fl=fl, fh=fh, win_length_sec=case['w'], overlap=case['ov'], upsample_ratio=case.get('up', 1), quiet=True)
            if t1 is not None:
                kw['t1'] = t1 if case['n'] % 2 else t1.isoformat()
            if t2 is not None:
                kw['t2'] = t2.isoformat()
            df = xc.xcorr_all(files, **kw)
        else:
            lng = case['cmd'] == 'csvlong'
            o = dict(o='--output_file', i='--include_IDs', x='--exclude_IDs', t1='--t1', t2='--t2', L='--freq_low', H='--freq_high', w='--win_length_sec',
                     p='--overlap', u='--upsample_ratio') if lng else dict(o='-o', i='-i', x='-x', t1='-1', t2='-2', L='-L', H='-H', w='-w', p='-p', u='-u')
            argv = [o['L'], '%g' % fl, o['H'], '%g' % fh, o['w'], '%g' % case['w'], o['o'], 'out.csv']
            argv += [o['p'], '%g' % case['ov']] if case['ov'] else []
            argv += [o['u'], '%g' % case['up']] if case.get('up', 1) != 1 else []
            argv += [o['i'], ','.join(inc)] if inc else []
            argv += [o['x'], ','.join(exc)] if exc else []
            argv += [o['t1'], t1.strftime('%Y-%m-%d_%H:%M:%S')] if t1 is not None else []
            argv += [o['t2'], t2.strftime('%Y-%m-%d_%H:%M:%S')] if t2 is not None else []
            argv += ['-q'] if case['cmd'] == 'csvopt' else []
            try:
                xc.xcorr_all_terminal(files + argv if case['cmd'] != 'csvopt' else argv + files)
            except SystemExit:
                require(False, 'the command rejects %s' % argv)
            df = pd.read_csv('out.csv')
    require(df is not None, lambda: 'no result: ' + out.getvalue()[-300:])
    return df


def columns(case, df, data, starts, short):
    """amplitudes, coefficients and consistency of every window"""
    fs, up, w = case['fs'], case.get('up', 1), case['w']
    fl, fh = (.05, .8) if fs == 2 else (.5, 4) if fs == 10 else (.8, 6)
    lags = [c for c in df.columns if c.startswith('lag_')]
    num = df[lags].to_numpy(float)
    coef = df[['r_' + c[4:] for c in lags]].to_numpy(float)
    require(np.array_equal(np.isnan(num), np.isnan(coef)), 'coefficients without lags or lags without coefficients')
    require(not np.any(np.abs(coef) > 1.0001), lambda: 'coefficient %s' % np.nanmax(np.abs(coef)))
    kinds = set()
    for row in range(len(df)):
        ok = ~np.isnan(num[row])
        m, flag = df['mean_coef'][row], df['consistency'][row]
        if not ok.any():
            require(not m > -2, lambda: 'mean coefficient %s in a window without lags' % m)
            continue
        require(abs(m - coef[row][ok].mean()) < 1e-6, lambda: 'mean coefficient %s of %s' % (m, coef[row][ok]))
        k = int(round(abs(num[row][ok].sum()) * fs * up))
        require(str(flag) in (str(k <= ok.sum()), str(float(k <= ok.sum()))), lambda: 'lags of %s samples, adding up to %d, marked %s' % (np.round(num[row][ok] * fs * up), k, flag))
        kinds.add((int(ok.sum()), bool(k <= ok.sum())))
        if not case.get('own') and 'miss' not in case and not change(case, starts[row] - case['start'], starts[row] + w - case['start']) and w * fs > 80:
            require(coef[row].min() > .6, lambda: 'the same waves have the coefficients %s' % coef[row])
    if case.get('cmd') == 'days' or 'miss' in case or len(df) > 60 or w * fs < 80:
        return kinds
    for row, s in enumerate(starts):
        for c, i in short.items():
            a = int(round((s - case['start']) * fs))
            m = int(round(w * fs))
            x = data[i][max(a, 0):a + m].astype(float)
            f = np.fft.rfftfreq(len(x), 1 / fs)
            F = np.fft.rfft(x - x.mean())
            true = np.sqrt(2 * np.sum(np.abs(F[(f > fl) & (f < fh)]) ** 2)) / len(x)
            got = df['rms_' + c][row]
            require(.75 * true < got < 1.2 * true or row == 0 and got < 1.5 * true, lambda: 'amplitude of %s in the window at %.2f s: %s, recorded %s' % (c, s, got, true))
    return kinds


def missing(case, df, starts, short, delay, dtu):
    """every window: the channels that cover it are compared, the others are not"""
    fs, n, w = case['fs'], case['n'], case['w']
    miss = {int(k): v for k, v in case['miss'].items()}
    checked = 0
    for row, s in enumerate(starts - case['start']):
        there, unsure = set(), set()
        for c, i in short.items():
            for u, v in miss.get(i, [(0, n)]):
                if u / fs <= s + 1e-4 and (v - 1) / fs >= s + w - 1 / fs - 1e-4:
                    there.add(c)
                if u / fs <= s + 1.01 / fs and (v - 1) / fs >= s + w - 2.01 / fs or (v - u) < 1.02 * w * fs:
                    unsure.add(c)
        links = set()
        for col in df.columns:
            if not col.startswith('lag_') or np.isnan(df[col][row]):
                continue
            a, b = col[4:].split('_')
            require(a in unsure and b in unsure, lambda: '%s in the window at %.2f s, which lacks data: %.3f' % (col, s, df[col][row]))
            links |= {(a, b), (b, a)}
            if not change(case, s, s + w):
                want = delay(short[a], s + w / 2) - delay(short[b], s + w / 2)
                require(abs(df[col][row] - want) <= dtu * 1.01, lambda: '%s in the window at %.2f s: %.4f, should be %.4f' % (col, s, df[col][row], want))
                checked += 1
        if len(there) > 1:
            seen = set(sorted(there)[:1])
            for _ in short:
                seen |= {b for a, b in links if a in seen}
            require(seen >= there, lambda: 'window at %.2f s: channels %s have data, pairs %s analysed' % (s, sorted(there), sorted(links)))
    return checked


def win(case):
    fs, w, ov, n = case['fs'], case['w'], case['ov'], case['n']
    t0 = DAY + 1234.56
    st = obspy.Stream([obspy.Trace(np.arange(n) + 1000000. * i, dict(station=IDS[i][1], channel='HDF', sampling_rate=fs, starttime=t0)) for i in range(3)])
    if 'short' in case:
        st[1].data = st[1].data[:case['short']]
    seen = []
    args = dict(what=7)

    def f(s, a):
        require(a == args, 'arguments not passed on')
        seen.append({tr.stats.station: (int(tr.data[0]) % 1000000, len(tr.data), int(tr.data[0]) // 1000000) for tr in s})
        d = {'first_' + tr.stats.station: tr.data[0] for tr in s}
        if len(seen) % 3 != 1:
            d['now_and_then'] = len(seen)
        return d
    out = xc.apply_function_windows(st, f, w, ov, args)
    size = int(w * fs + 1e-4)
    require(len(out['t_mid']) == len(seen) and all(len(v) == len(seen) for v in out.values()), lambda: 'results of different length: %s' % {k: len(v) for k, v in out.items()})
    at = []
    for i, d in enumerate(seen):
        require('061' in d, lambda: 'window %d holds %s' % (i, d))
        a, m, _ = d['061']
        require(abs(m - w * fs) < 1 + 1e-6, lambda: 'window %d holds %d samples, not %s' % (i, m, w * fs))
        require(all(v[0] == a and m - 1 <= v[1] <= m and v[2] == [x[1] for x in IDS].index(k) for k, v in d.items()), lambda: 'window %d: %s' % (i, d))
        full = 'short' not in case or a + m <= case['short']
        require(('077' in d) == full or abs(a + m - case.get('short', n)) <= 1, lambda: 'window %d: %s' % (i, d))
        require(abs(out['t_mid'][i] - (t0 + a / fs + w / 2)) < 1.01 / fs, lambda: 'window %d from sample %d has middle %s' % (i, a, out['t_mid'][i]))
        for k, v in d.items():
            require(out['first_' + k][i] == a + 1000000 * v[2], lambda: 'window %d: result %s' % (i, out['first_' + k][i]))
        if 'now_and_then' in out:
            x = out['now_and_then'][i]
            require(np.isnan(x) if (i + 1) % 3 == 1 else x == i + 1, lambda: 'window %d: result %s' % (i, x))
        at.append(a)
    require('now_and_then' in out or len(seen) < 2, 'result lost')
    require(at[0] == 0 and at[-1] + size >= n - 1, lambda: 'windows of %d samples at %s of %d' % (size, at, n))
    step = w * fs * (1 - ov)
    require(all(0 < b - a <= step + 1 + 1e-6 for a, b in zip(at, at[1:])), lambda: 'windows at %s, at most %s apart' % (at, step))
    need = 1 + int(np.ceil((n - w * fs) / step - 1e-6))
    require(len(at) <= need, lambda: '%d windows, %d suffice' % (len(at), need))
    return Result(key=['win', size, len(at), round(ov, 2)], states=[(size, a) for a in at[:20]], transitions=len(at))


def up(case):
    N, fs, n = case['up'], case['fs'], case['n']
    t = np.arange(n) / fs
    xs = [np.cos(2 * np.pi * t * fs / 12 + p) * 1000 for p in (0, 1)]
    st = obspy.Stream([obspy.Trace(x.copy(), dict(sampling_rate=fs, starttime=DAY + 5.5, station='%03d' % i)) for i, x in enumerate(xs)])
    out = xc.upsample_stream(st, N)
    require(len(out) == 2, 'traces lost')
    for tr, x, p in zip(out, xs, (0, 1)):
        require(abs(tr.stats.delta * N * fs - 1) < 1e-9 and tr.stats.starttime == DAY + 5.5, 'sample interval or start')
        require(N * (n - 1) <= tr.stats.npts <= N * n, lambda: '%d samples from %d' % (tr.stats.npts, n))
        y = tr.data[::N]
        require(np.allclose(y, x[:len(y)], atol=1e-6), 'recorded samples changed')
        if n > 16:
            tu = np.arange(tr.stats.npts) / fs / N
            e = np.abs(tr.data - 1000 * np.cos(2 * np.pi * tu * fs / 12 + p))[2 * N:N * (n - 3)].max()
            require(e < 10, lambda: 'interpolated with an error of %.1f%%' % (e / 10))
    return Result(key=['up', N, n])


def loop(case):
    n = int(case['days'] * 86400)
    t0 = DAY + round(case['start'] * 86400)
    x = np.arange(n, dtype='int32')
    os.mkdir('f')
    files = []
    for a in range(0, n, 30011):
        files.append('f/%d.mseed' % a)
        obspy.Trace(x[a:a + 30011], dict(station='061', channel='HDF', sampling_rate=1, starttime=t0 + a)).write(files[-1], format='MSEED')
    calls = []

    def f(st, args):
        require(args == dict(a=1), 'arguments not passed on')
        calls.append([(int(tr.data[0]), int(tr.data[-1]), tr.stats.starttime) for tr in st])
        if case['fail'] and len(calls) == 2:
            raise ValueError('a bad day')
        return pd.DataFrame(dict(n=[len(calls)], first=[st[0].data[0]]))
    with contextlib.redirect_stdout(io.StringIO()):
        df = xc.loop_through_days(f, files[::-1], args=dict(a=1), quiet=True)
    mids = [int(k * 86400 - (t0 - DAY)) for k in range(1, 5) if 0 < k * 86400 - (t0 - DAY) < n - 1]
    edges = [0] + mids + [n - 1]
    require(len(calls) == len(edges) - 1, lambda: '%d days, should be %d' % (len(calls), len(edges) - 1))
    for c, a, b in zip(calls, edges, edges[1:]):
        require(len(c) == 1 and c[0][0] == a and b - 1 <= c[0][1] <= b and c[0][2] == t0 + a, lambda: 'day from sample %d to %d holds %s' % (a, b, c))
    keep = [i for i in range(len(calls)) if not (case['fail'] and i == 1)]
    require(list(df.n) == [i + 1 for i in keep] and list(df['first']) == [edges[i] for i in keep] and list(df.index) == list(range(len(keep))), lambda: 'results: %s' % df.values.tolist())
    return Result(key=['loop', len(calls), case['fail']], states=[('day', a) for a in edges], transitions=len(calls))


def run(case, work):
    if 'k' in case:
        return dict(win=win, up=up, loop=loop)[case['k']](case)
    case.setdefault('ov', 0)
    data, delay = signal(case)
    fs, n, w, ov = case['fs'], case['n'], case['w'], case['ov']
    dt = 1 / fs
    s1 = max(case['start'], case['t1']) if case.get('t1') is not None else case['start']
    end = case['start'] + (n - 1) * dt
    s2 = min(end, case['t2']) if case.get('t2') is not None else end
    splits = ['one', 'multi', 'many'] if n < 3000 else ['one', 'day', 'third']
    if n % 3 == 0:
        splits += ['pair', 'hour', 'dayish']
    first = None
    tables = []
    if 'miss' in case:
        splits = ['multi', 'third'] if n > 3000 else ['multi', 'many']
        lo, hi = zip(*[(p[0][0], p[-1][1]) for i in range(case['nch']) for p in [case['miss'].get(i, case['miss'].get(str(i), [(0, n)]))]])
        s1, s2 = case['start'] + min(lo) * dt, case['start'] + (max(hi) - 1) * dt
    for split in splits:
        files = write(case, data, split, split)
        orders = [files] if split != splits[-1] else [files, files[::-1], files[len(files) // 2:] + files[:len(files) // 2]]
        for k, fl in enumerate(orders):
            if k == 1:
                open('junk.mseed', 'w').write('no data\n')
                fl = fl[:1] + ['junk.mseed'] + fl[1:]
            df = call(case, list(fl))
            if first is None:
                first = df
            else:
                same = list(df.columns) == list(first.columns) and len(df) == len(first) and all(
                    np.allclose(np.array([(x - DAY) if c == 't_mid' and 'cmd' not in case else obspy.UTCDateTime(x) - DAY if c == 't_mid' else x for x in df[c]], float),
                                np.array([(x - DAY) if c == 't_mid' and 'cmd' not in case else obspy.UTCDateTime(x) - DAY if c == 't_mid' else x for x in first[c]], float),
                                rtol=1e-6, atol=1e-9, equal_nan=True) for c in df.columns)
                require(same, lambda: 'files split as %s, order %d: %d rows %s; as %s: %d rows %s' % (split, k, len(df), list(df.columns)[:4], splits[0], len(first), list(first.columns)[:4]))
    df = first
    _, _, sel = selection(case)
    short = {'.'.join(IDS[i][:3]): i for i in sel}
    rms = [c[4:] for c in df.columns if c.startswith('rms_')]
    require(sorted(rms) == sorted(short), lambda: 'channels analysed: %s, selected %s' % (rms, sorted(short)))
    # windows
    mids = np.array([obspy.UTCDateTime(t) - DAY for t in df.t_mid])
    starts = mids - w / 2
    require(len(starts) > 0, 'no windows')
    tol = 1.5 * dt
    midnights = [86400. * k for k in range(1, 5) if s1 + 1e-6 < 86400 * k < s2 - 1e-6]
    segs = list(zip([s1] + midnights, midnights + [s2]))
    require(np.all(np.diff(starts) > .2 * dt), lambda: 'windows out of order or repeated: %s' % np.diff(starts)[np.diff(starts) <= .2 * dt][:5])
    require(starts[0] > s1 - tol and starts[-1] + w < s2 + tol, lambda: 'windows from %.3f to %.3f, selected %.3f to %.3f' % (starts[0], starts[-1] + w, s1, s2))
    need = 0
    for a, b in segs:
        if b - a + dt < w:
            continue
        need += 1 + int(np.ceil((b - a - w) / (w * (1 - ov)) - 1e-6)) + 1
    require(len(starts) <= need, lambda: '%d windows, %d suffice' % (len(starts), need))
    covered = s1
    for a, b in zip(starts, np.append(starts[1:], np.nan)):
        if not (a <= covered + tol):
            small = [g for g in segs if g[0] <= covered + tol and g[1] >= a - tol and g[1] - g[0] + dt < w]
            require(small, lambda: 'not analysed: %.2f to %.2f s' % (covered, a))
        covered = max(covered, a + w)
        if not np.isnan(b) and not any(a - 3 <= m <= b + w + 3 for m in midnights):
            require(b - a <= w * (1 - ov) + tol, lambda: 'windows at %.3f and %.3f overlap too little' % (a, b))
    if covered < s2 - tol:
        require(any(g[0] <= covered + tol and g[1] >= s2 - tol and g[1] - g[0] + dt < w for g in segs), lambda: 'not analysed: %.2f to %.2f s' % (covered, s2))
    kinds = columns(case, df, data, starts, short)
    # lags
    dtu = dt / case.get('up', 1)
    links = set()
    checked = 0
    if 'miss' in case:
        checked = missing(case, df, starts, short, delay, dtu)
    for c in df.columns:
        if not c.startswith('lag_') or 'miss' in case:
            continue
        a, b = c[4:].split('_')
        require(a in short and b in short, lambda: 'column %s' % c)
        links |= {(a, b), (b, a)}
        for s, lag in zip(starts, df[c]):
            if case.get('own') or change(case, s - case['start'], s + w - case['start']) and len(short) > 1:
                continue
            o = s + w / 2 - case['start']
            want = delay(short[a], o) - delay(short[b], o)
            require(abs(lag - want) <= dtu * 1.01, lambda: '%s in the window at %.2f s: %.4f, should be %.4f' % (c, s, lag, want))
            checked += 1
    seen = {rms[0]}
    for _ in rms:
        seen |= {b for a, b in links if a in seen}
    require('miss' in case or seen == set(rms), lambda: 'pairs %s do not connect the channels' % sorted(links))
    require('d' not in case or checked, 'nothing checked')
    return Result(key='%s %s %s %s' % (len(df), sorted(rms), np.round(starts[:3], 2), sorted(kinds)), states=[(len(sel), round(float(x), 3)) for x in starts[:40]],
                  transitions=checked + len(splits), executions=len(splits) + 2)
