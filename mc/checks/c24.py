import contextlib
import io
import os
import re

import gemlog.huddle_test as ht
import numpy as np
import obspy

from mc import huddle
from mc.harness import Result, Violation, require

PROPERTY = 'C24'
LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of Gem records with excursions around every limit, placed at every position, on the real code, against a model'
LEVEL_NOTE = ('every value around every limit of every quantity x the place of the excursion in the record x the Gem it happens to x the state of '
              'the other Gems; all offsets of starts, ends and temperatures around the group limits at several sampling intervals')
RULE = 'a case is a set of records (metadata, GPS, waveform files) and a selection of Gems; non-trivial = distinct table of results'
ASSUMPTIONS = ['all files are as written by gemconvert for one deployment (…_000.txt)', 'figures are not inspected (they are not saved)',
               'GPS cycles after the first one begin after the tenth line with the GPS off']
BOUNDS = {'quick': '4 Gems; each excursion at first, middle and last line', 'thorough': '4 Gems; each excursion at 7 lines; pairs of excursions'}
TIMEOUT = 200
T0 = 1614849000.0
SNS = ['061', '007', '123', '900']
# quantity -> [(value, results column, expected)]
LIM = {
    'batt': [(v, c, e) for v, c, e in [(1.69, 'Battery min', 'ERROR'), (0., 'Battery min', 'ERROR'), (1.7, 'Battery min', 'WARNING'), (2.19, 'Battery min', 'WARNING'),
             (2.21, 'Battery min', 'OKAY'), (14.49, 'Battery max', 'OKAY'), (14.51, 'Battery max', 'WARNING'), (15., 'Battery max', 'WARNING'),
             (15.01, 'Battery max', 'ERROR'), (17.19, 'Battery max', 'ERROR')]],
    'temp': [(-20.1, 'Temperature min', 'ERROR'), (-40., 'Temperature min', 'ERROR'), (-20., 'Temperature min', 'WARNING'), (-15.1, 'Temperature min', 'WARNING'),
             (-14.9, 'Temperature min', 'OKAY'), (0., 'Temperature min', 'OKAY'), (54.9, 'Temperature max', 'OKAY'), (55.1, 'Temperature max', 'WARNING'),
             (60., 'Temperature max', 'WARNING'), (60.1, 'Temperature max', 'ERROR'), (140., 'Temperature max', 'ERROR')],
    'A2': [(-.001, 'A2 range', 'ERROR'), (0., 'A2 range', 'OKAY'), (3.1, 'A2 range', 'OKAY'), (3.101, 'A2 range', 'ERROR')],
    'A3': [(-.001, 'A3 range', 'ERROR'), (0., 'A3 range', 'OKAY'), (3.1, 'A3 range', 'OKAY'), (3.101, 'A3 range', 'ERROR')],
    'maxFifoUsed': [(50, 'Excessive FIFO use', 'OKAY'), (51, 'Excessive FIFO use', 'NOTE'), (75, 'Excessive FIFO use', 'NOTE')],
    'maxOverruns': [(1, 'Max overruns', 'WARNING'), (300, 'Max overruns', 'WARNING')],
    'unusedStack1': [(31, 'Unused stack', 'OKAY'), (30, 'Unused stack', 'WARNING'), (0, 'Unused stack', 'WARNING')],
    'unusedStackIdle': [(31, 'Unused stack', 'OKAY'), (30, 'Unused stack', 'WARNING'), (0, 'Unused stack', 'WARNING')],
}
ALL = ['Battery min', 'Battery max', 'Temperature min', 'Temperature max', 'A2 flat', 'A2 range', 'A3 flat', 'A3 range', 'Unusual FIFO use',
       'Excessive FIFO use', 'Max overruns', 'Unused stack', 'GPS run time']
# other quantities: (kind, amount, column, expected)
PROP = [('flatA2', .94, 'A2 flat', 'OKAY'), ('flatA2', .96, 'A2 flat', 'WARNING'), ('flatA2', .985, 'A2 flat', 'WARNING'), ('flatA2', .995, 'A2 flat', 'ERROR'),
        ('flatA2', 1., 'A2 flat', 'ERROR'), ('flatA3', .94, 'A3 flat', 'OKAY'), ('flatA3', .96, 'A3 flat', 'WARNING'), ('flatA3', .985, 'A3 flat', 'WARNING'),
        ('flatA3', .995, 'A3 flat', 'ERROR'), ('flatA3', 1., 'A3 flat', 'ERROR'), ('fifo', .009, 'Unusual FIFO use', 'OKAY'),
        ('fifo', .012, 'Unusual FIFO use', 'NOTE'), ('fifo5', .5, 'Unusual FIFO use', 'OKAY'), ('fifo', 1., 'Unusual FIFO use', 'NOTE'),
        ('gps', 178, 'GPS run time', 'OKAY'), ('gps', 182, 'GPS run time', 'WARNING'), ('gps', 400, 'GPS run time', 'WARNING'), ('gpsfirst', 800, 'GPS run time', 'OKAY')]
HEAD = 'millis,batt,temp,A2,A3,maxWriteTime,minFifoFree,maxFifoUsed,maxOverruns,gpsOnFlag,unusedStack1,unusedStackIdle,index,t'.split(',')
WORD = {'Battery': 'BATTERY', 'Temperature': 'TEMPERATURE', 'A2': 'A2', 'A3': 'A3', 'Max': 'OVERRUNS', 'Unused': 'STACK', 'GPS': 'GPS'}


def excursions():
    for q in LIM:
        for v, col, e in LIM[q]:
            yield (q, v, col, e)
    yield from PROP


EXC = list(excursions())


def cases(tier):
    pos = [0, .5, 1] if tier == 'quick' else [0, .02, .31, .5, .9, .97, 1]
    n = len(EXC)
    # each excursion on each Gem, in company of other excursions on the others or of none
    for i in range(n):
        yield dict(k='one', ex=[[i, pos[i % len(pos)]], None, None, None][i % 4:] + [[i, pos[i % len(pos)]], None, None, None][:i % 4])
    for p in pos:
        for step in (0, 1, 7) if tier == 'quick' else (0, 1, 5, 7, 11, 13, 16, 20):
            for i in range(n):
                ex = [[(i + step * j) % n, p] for j in range(4)]
                yield dict(k='one', ex=ex if step else ex[:3] + [None])
    for sel in ([['061'], []], [['900', '007'], []], [[], ['123']], [['061', '123', '900'], ['123']], [[], ['061', '900']]):
        for i in range(0, n, 5):
            yield dict(k='one', ex=[[(i + j) % n, .5] for j in range(4)], sel=sel)
    yield dict(k='back', ex=[None] * 4)
    for o in (('-i', '-s', '-x'), ('--inputdir', '--serialnumbers', '--exclude_serialnumbers')):
        for sel in ([['061'], []], [['900', '007'], []], [[], ['123']], [['061', '123', '900'], ['123']], [[], ['061', '900']]):
            for eq in (' ', '=')[:len(o[0]) - 1]:
                yield dict(k='one', ex=[[j, .5] for j in range(4)], sel=sel, opt=o, eq=eq)
    for dt in (1.0, .99998, 1.00003, .999, 10.0, 9.9998, 10.0002):
        for g in (0, 1, 2):
            for a in (0, 1190, 1210, 2400):
                yield dict(k='group', dt=dt, g=g, start=a)
                yield dict(k='group', dt=dt, g=g, stop=-a)
                yield dict(k='group', dt=dt, g=g, start=a, stop=-a)
            for d in (1.35, 1.7, -1.35, -1.7, 9.):
                for p in (0, .3, .7):
                    yield dict(k='group', dt=dt, g=g, dtemp=d, at=p)
                yield dict(k='group', dt=dt, g=g, dtemp=d, at=.5, stop=-600)
                yield dict(k='group', dt=dt, g=g, dtemp=d, at=.5, start=600)


def base(n, dt, seed):
    i = np.arange(n)
    m = dict(millis=(i * 1000) % 8192, batt=3.6 + .01 * (i % 3), temp=20 + .1 * (i // 97 % 3), A2=1 + .001 * ((i + seed) % 7), A3=2 - .001 * (i % 5),
             maxWriteTime=90 + 0 * i, minFifoFree=70 + 0 * i, maxFifoUsed=1 + i % 3, maxOverruns=0 * i, gpsOnFlag=0 * i, unusedStack1=57 + i % 2,
             unusedStackIdle=86 + 0 * i, index=100 * i, t=T0 + dt * i + .19 * seed)
    m = {k: np.array(v, dtype=float) for k, v in m.items()}
    per = int(900 / dt)
    m['gpsOnFlag'][:int(500 / dt)] = 1
    for j in range(per, n, per):
        m['gpsOnFlag'][j:j + int(40 / dt)] = 1
    return m


def flat(n, share):
    """a sequence of n values of which (to the nearest one) the given share of steps is zero"""
    steps = np.zeros(n - 1)
    k = int(round((1 - share) * (n - 1)))
    steps[np.linspace(0, n - 2, k).astype(int)] = .001
    steps[steps > 0] *= np.where(np.arange(k) % 2, -1, 1)
    return 1 + np.concatenate([[0], np.cumsum(steps)])


def excite(m, ex, pos, dt=1.0):
    q, v = ex[:2]
    n = len(m['t'])
    at = int(round(pos * (n - 1)))
    if q in m:
        m[q][at] = v
    elif q[:4] == 'flat':
        m[q[4:]] = flat(n, v)
    elif q == 'fifo':
        m['maxFifoUsed'][:] = 1
        k = int(round(v * n))
        m['maxFifoUsed'][min(at, n - k):min(at, n - k) + k] = 6
    elif q == 'fifo5':
        m['maxFifoUsed'][:] = 5
    elif q == 'gps':
        m['gpsOnFlag'][int(500 / dt):] = 0
        a = min(max(at, int(560 / dt)), n - v - 20)
        m['gpsOnFlag'][a:a + v - 1] = 1
    elif q == 'gpsfirst':
        m['gpsOnFlag'][:v] = 1
    return m


def write(sn, m, lat=43.6, amp=1.0):
    rows = [','.join(HEAD)] + [','.join(['%r' % float(x) if k == 't' else '%g' % x for k, x in zip(HEAD, r)]) for r in zip(*[m[k] for k in HEAD])]
    open('metadata/%smetadata_000.txt' % sn, 'w').write('\n'.join(rows) + '\n')
    with open('gps/%sgps_000.txt' % sn, 'w') as f:
        f.write('year,date,lat,lon,t\n')
        for j in range(5):
            t = obspy.UTCDateTime(T0 + 100 + j)
            f.write('%d,%.8f,%.5f,%.5f,%s\n' % (t.year, t.julday, lat, -116.2 + 1e-5 * (j % 2), t))
    x = np.random.RandomState(int(sn)).randint(-99, 99, int(10 * (m['t'][-1] - m['t'][0]))).astype('int32')
    tr = obspy.Trace(x, dict(station=sn, channel='HDF', sampling_rate=10, starttime=obspy.UTCDateTime(round(m['t'][0]))))
    tr.write('mseed/%s..%s..HDF.mseed' % (tr.stats.starttime.strftime('%Y-%m-%dT%H_%M_%S'), sn), format='MSEED', encoding='STEIM2')


def expected(ex):
    want = {c: 'OKAY' for c in ALL}
    if ex:
        want[ex[2]] = ex[3]
        if ex[0] == 'maxFifoUsed' and ex[1] > 5:
            pass
    return want


def fail(what, sig):
    v = Violation(what)
    v.sig = sig
    raise v


def command(case, sel):
    """the terminal command"""
    os.chdir('..')
    argv = []
    for o, v in zip(case['opt'], ('./' + case['dir'], ','.join(sel[0]), ','.join(sel[1]))):
        if v:
            argv += [o, v] if case['eq'] == ' ' else ['%s=%s' % (o, v)]
    try:
        return huddle.recorded(lambda: ht.main(argv))
    except SystemExit:
        fail('the command rejects %s' % argv, 'long options rejected' if case['opt'][0] == '--inputdir' else None)
    finally:
        os.chdir(case['dir'])


def run(case, work):
    case['dir'] = 'data'
    os.mkdir('data')
    os.chdir('data')
    for d in ('metadata', 'gps', 'mseed'):
        os.mkdir(d)
    sel = case.get('sel', [[], []])
    group = []
    want = {}
    truth = {}
    warm = None
    if case['k'] in ('one', 'back'):
        for j, (sn, e) in enumerate(zip(SNS, case['ex'])):
            m = base(1800, 1.0, j)
            if e:
                excite(m, EXC[e[0]], e[1])
            want[sn] = expected(EXC[e[0]] if e else None)
            truth[sn] = m
            write(sn, m)
    else:
        dt, g = case['dt'], case['g']
        for j, sn in enumerate(SNS[:3]):
            n = int(7000 / dt)
            m = base(n, dt, j)
            want[sn] = expected(None)
            if j == g:
                if 'dtemp' in case:
                    a = int(case['at'] * (n - 1300 / dt))
                    m['temp'][a:a + int(400 / dt)] += case['dtemp']
                i0 = int(round(case.get('start', 0) / dt))
                i1 = int(round(-case.get('stop', 0) / dt))
                m = {k: v[i0:len(v) - i1] for k, v in m.items()}
                m['gpsOnFlag'][:int(30 / dt)] = 1
                warm = np.abs(m['temp'] - 20) > 1.3
            truth[sn] = m
            # temperatures are within .2 of each other otherwise
            write(sn, m)
    picked = [sn for sn in sorted(want) if (not sel[0] or sn in sel[0]) and sn not in sel[1]]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if 'opt' not in case:
            try:
                back, r = huddle.verify('.', sel[0], sel[1])
            except (ZeroDivisionError, KeyError) as e:
                require(case['k'] == 'group', lambda: 'huddle test: %r' % e)
                fail('huddle test of records of mean interval %s s: %r' % (case['dt'], e),
                     {(.99998, 'ZeroDivisionError'): 'mean interval below 1 s', (.999, 'ZeroDivisionError'): 'mean interval below 1 s',
                      (9.9998, 'KeyError'): 'mean interval below 10 s'}.get((case['dt'], type(e).__name__)))
        else:
            back, r = command(case, sel)
    require(r, 'no report')
    if case['k'] == 'back':
        ok = isinstance(back, dict) and {'errors', 'warnings', 'stats', 'results'} <= set(back)
        if not ok:
            fail('verify_huddle_test returned %r' % (back,), 'returned None' if back is None else None)
    res = r['results']
    require(sorted(res.index) == picked and sorted(r['stats'].index) == picked, lambda: 'Gems examined: %s, expected %s' % (list(res.index), picked))
    for sn in picked:
        got = {c: res.loc[sn, c] for c in res.columns}
        require(got == want[sn], lambda: 'Gem %s: %s' % (sn, {c: (got.get(c), want[sn].get(c)) for c in {*got, *want[sn]} if got.get(c) != want[sn].get(c)}))
    lines = [l for l in r['errors'] if 'GROUP' not in l and 'median' not in l]
    for name, lst, word in (('errors', lines, 'ERROR'), ('warnings', r['warnings'], 'WARNING')):
        lst = [l for l in lst if 'only includes one' not in l]
        n = sum(v == word for sn in picked for v in want[sn].values())
        require(len(lst) == n, lambda: '%d %s expected, got %s' % (n, name, lst))
        for sn in picked:
            for c, v in want[sn].items():
                if v == word:
                    require(any((l.startswith(sn) or c == 'Unused stack') and WORD[c.split()[0]] in l for l in lst), lambda: 'no message about %s %s in %s' % (sn, c, lst))
    stats = r['stats']
    for sn in picked:
        m = truth[sn]
        for c, v in (('Battery min', min(m['batt'])), ('Battery max', max(m['batt'])), ('Temperature min', min(m['temp'])),
                     ('Temperature max', max(m['temp'])), ('Temperature average', np.mean(m['temp'])), ('Max overruns', max(m['maxOverruns']))):
            require(c in stats.columns and abs(stats.loc[sn, c] - v) < 1e-3 * (1 + abs(v)),
                    lambda: 'statistics of %s: %s should be %g: %s' % (sn, c, v, stats.loc[sn].to_dict()))
    if case['k'] == 'group':
        bad = [l for l in r['errors'] if 'GROUP' in l or 'median' in l]
        sn = SNS[case['g']]
        exp = []
        if case.get('start', 0) > 1200:
            exp.append(('%s' % sn, 'start time'))
        if case.get('stop', 0) < -1200:
            exp.append(('%s' % sn, 'stop time'))
        times = [l for l in bad if 'GROUP' in l]
        require(len(times) == len(exp) and all(any(l.startswith(a) and b in l for l in times) for a, b in exp), lambda: 'start/stop times: %s, expected %s' % (times, exp))
        temps = [l for l in bad if 'median' in l]
        # known: a Gem that starts later is compared with other Gems at other times, and times are right for 1-s records only
        late = 'Gem with a later start' if case.get('start') and 'dtemp' in case else None
        if abs(case.get('dtemp', 0)) > 1.5:
            require(temps and all([x for x in SNS if x in l.split(' recorded')[0]] == [sn] for l in temps), lambda: 'temperature of %s deviates; reported %s' % (sn, temps[:3]))
            when = [re.search(r'(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)', l) for l in temps]
            when = [obspy.UTCDateTime(*map(int, x.groups())).timestamp for x in when if x]
            m = truth[sn]['t'][warm]
            tol = max(2, 2 * case['dt'])
            # one comparison a minute
            if abs(len(temps) - (m[-1] - m[0]) / 60) > 1.1:
                fail('a temperature deviating for %.0f s is reported %d times' % (m[-1] - m[0], len(temps)), late)
            if not all(m[0] - tol <= x <= m[-1] + tol for x in when):
                fail('temperature of %s deviates between %.0f and %.0f; reported at %s' % (sn, m[0], m[-1], when), late or ('10-s records' if case['dt'] > 9 else None))
        elif temps:
            fail('temperatures agree; reported %s' % temps[:3], late)
    key = res.to_csv() + '%s' % sorted(r['errors'])[:4]
    return Result(key=key, states=[(case['k'], sn, c, v) for sn in picked for c, v in want[sn].items()], transitions=len(picked) * len(ALL))
