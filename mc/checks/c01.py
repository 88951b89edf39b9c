import itertools
import math

import gemlog
import gemlog.core
import numpy as np

from mc import oracle
from mc import gemgen as g
from mc.harness import HarnessError, Result, require

PROPERTY = 'C01'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of raw-line sequences and wrap phases against a line-by-line reference parser'
LEVEL_NOTE = ('every sequence of line kinds to the stated depth, at every listed phase of the wrapping counter, is parsed by '
              'the real reader and compared exactly with a reference; short sequences are also read through read_gem')
RULE = ('a case is a batch of line-kind sequences (all those with a given prefix) at one wrap phase, or a file boundary at one '
        'phase, or a sequence inside a file read with read_gem; non-trivial = distinct parsed contents')
ASSUMPTIONS = ['consecutive lines are less than half a counter period (4.096 s) apart']
BOUNDS = {'quick': 'all sequences of 4 of 13 line kinds x 5 phases; 2-line sequences through read_gem; one file of 1.6 million lines',
          'thorough': 'all sequences of 5 of 15 line kinds x 7 phases; 3-line sequences through read_gem; lengths around the size of the parser\'s buffer'}
TIMEOUT = 200
ROLL = 8192
# D full, d one-element, c compact, C compact with other interval, G, M, and lines that contribute nothing
KINDS = 'DdcCGMPbxyzug'
EXTRA = 'Rk'
NOISE = {'P': ['P,%d.00', 'P'], 'b': ['', ' '], 'x': ['D', 'D,7', 'D-'], 'y': ['G,12.00,90.00,2021,3,4', 'G', 'G,1', 'G,,,'],
         'z': ['M,1,2', 'M', 'M,77,4.00,20.0,1.500,2.100,3,74,1,0,1,48'], 'u': ['#D100,5', 'S,123', 'E,5', '\\D44,4', '1,2', '?'],
         'g': ['\xff\xfe\x01', '\xe9D5,5', 'Z' + 'm' * 210, 'R,2,' + 'D5,5,' * 60, 'Z' + 'm' * 700], 'R': ['R,2,$GPRMC,190031.928,A,8900.0012,N,00059.9610,E,0.02,278,,,A*6D'],
         'k': ['C,1,15,20,0,0,0', 'T,1,2,3']}
DIFFS = [5, -3, 0, 12, -12, 1, 250000, -250011, 7, -1, 8388607, -8388000]
SMALL = [5, -3, 0, 12, -12, 1, -1, 7, -8, 13]
DMS = [-1, 1, -12, 12, 2, -3, 13]
PHASES = [0, 1, 2, 3, 4]


class Writer:
    """writes lines and keeps the truth"""

    def __init__(self, ms0):
        self.lines, self.D, self.G, self.M = [], [], [], []
        self.first = None
        self.ms, self.adc, self.k = ms0, 0, 0

    def note(self, ms):
        if self.first is None:
            self.first = ms

    def sample(self, dms, diff, text):
        self.ms += dms
        self.adc += diff
        self.note(self.ms)
        self.D.append((self.ms, self.adc))
        self.lines.append(text % {'ms': self.ms % ROLL, 'd': diff})

    def emit(self, kind):
        self.k += 1
        k = self.k
        if kind == 'D':
            self.sample(10, DIFFS[k % len(DIFFS)], 'D%(ms)d,%(d)d')
        elif kind == 'd':
            self.sample(10, DIFFS[k % len(DIFFS)], 'D%(d)d')
        elif kind == 'c':
            d = SMALL[k % len(SMALL)]
            self.sample(10, d, chr(109 + d))
        elif kind == 'C':
            d, x = SMALL[k % len(SMALL)], DMS[k % len(DMS)]
            self.sample(10 + x, d, chr(109 + x) + chr(109 + d))
        elif kind == 'G':
            ms = round(self.ms - [90.25, 5.5, 600.0, 0.75, 14.99][k % 5], 2)
            self.note(ms)
            row = (ms, 90.25 + k % 7, 2020 + k % 3, 1 + k % 12, 1 + k % 28, k % 24, k % 60, (k * 7) % 60,
                   round(43 + (k % 1000) * 1e-5, 5), round(-116 - (k % 1000) * 1e-5, 5))
            self.G.append(row)
            self.lines.append('G,%.2f,%.2f,%d,%d,%d,%d,%d,%.1f,%.5f,%.5f' % ((ms % ROLL,) + row[1:]))
        elif kind == 'M':
            ms = self.ms + [3, -7, 9, 0][k % 4]
            self.note(ms)
            row = (ms, round(3 + (k % 200) / 100, 2), round(-10 + (k % 500) / 10, 1), round(1 + (k % 900) / 1000, 3),
                   round(2 + (k % 800) / 1000, 3), k % 97, k % 83, k % 76, k % 5, k % 2, 40 + k % 50, 100 + k % 50)
            self.M.append(row)
            self.lines.append('M,%d,%.2f,%.1f,%.3f,%.3f,%d,%d,%d,%d,%d,%d,%d' % ((ms % ROLL,) + row[1:]))
        else:
            s = NOISE[kind][k % len(NOISE[kind])]
            self.lines.append(s % k if '%d' in s else s)

    def to_phase(self, lead):
        """full D lines (less than half a period apart) up to `lead` ms before the next wrap"""
        goal = (self.ms // ROLL + 1) * ROLL - lead
        if goal <= self.ms + 10:
            goal += ROLL
        while self.ms < goal:
            step = min(3000, goal - self.ms)
            self.sample(step, DIFFS[self.k % len(DIFFS)], 'D%(ms)d,%(d)d')
            self.k += 1


def cases(tier):
    kinds = KINDS if tier == 'quick' else KINDS + EXTRA
    depth = 4 if tier == 'quick' else 5
    phases = PHASES if tier == 'quick' else PHASES + [5, 9]
    for ph in phases:
        for pre in itertools.product(kinds, repeat=depth - 2 if tier == 'quick' else depth - 2):
            if tier == 'quick' and pre[0] in 'bu':
                pass
            yield dict(kind='seq', pre=''.join(pre), tail=2, phase=ph, kinds=kinds)
    # first line of the file and of the next file, at every phase of the running clock
    for first in 'DGM':
        for off in ([0, 1, 10, 4090, 4096, 4100, 8180, 8191, 8192, 12288, 16380, 100007, 7200000 - 5] if tier == 'quick' else
                    list(range(0, 8193, 64)) + [100007, 10 ** 7]):
            for gap in (10, 11, 500, 2000, 3400, 4000):
                yield dict(kind='offset', first=first, off=off, gap=gap)
    # files longer than the reader's first buffer (1560000 lines)
    for n in ([1600000] if tier == 'quick' else [1559990, 1559998, 1559999, 1560000, 1560001, 1560010, 1600000, 3130000]):
        yield dict(kind='long', n=n)
    n = 2 if tier == 'quick' else 3
    for m in range(1, n + 1):
        for seq in itertools.product(kinds, repeat=m):
            if m == 3 and not set(seq) & set('dcCGM'):
                continue
            for ph in (0, 1, 2):
                yield dict(kind='read', seq=''.join(seq), phase=ph)


def compare(fn, w, offset, what):
    L = gemlog.core._read_single(fn, offset, require_gps=False)
    data = np.asarray(L['data'], dtype=float)
    require(data.shape[0] == len(w.D), lambda: '%s: %d samples read, %d in the file' % (what, data.shape[0], len(w.D)))
    shift = 0
    if offset == 0:
        shift = -((w.first + ROLL // 2) // ROLL) * ROLL
    ms = np.array([d[0] for d in w.D]) + shift
    bad = np.where(np.abs(data[:, 0] - g.CORR - ms) > 1e-6)[0]
    require(len(bad) == 0, lambda: '%s: sample %d has running time %g, should be %g' %
            (what, bad[0], data[bad[0], 0] - g.CORR, ms[bad[0]]))
    bad = np.where(data[:, 1] != np.array([d[1] for d in w.D]))[0]
    require(len(bad) == 0, lambda: '%s: sample %d has value %r, should be %r' % (what, bad[0], data[bad[0], 1], w.D[bad[0]][1]))
    for name, key, rows, cols in (
            ('GPS', 'gps', w.G, ['msPPS', 'msLag', 'year', 'month', 'day', 'hour', 'minute', 'second', 'lat', 'lon']),
            ('metadata', 'metadata', w.M, ['millis', 'batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
                                           'maxOverruns', 'gpsOnFlag', 'unusedStack1', 'unusedStackIdle'])):
        df = L[key]
        require(len(df) == len(rows), lambda: '%s: %d %s records read, %d in the file' % (what, len(df), name, len(rows)))
        if not rows:
            continue
        got = np.array([np.asarray(df[c], dtype=float) for c in cols]).T
        want = np.array(rows, dtype=float)
        want[:, 0] += shift
        bad = np.argwhere(np.abs(got - want) > 1e-6)
        require(len(bad) == 0, lambda: '%s: %s record %d: %s is %r, should be %r' %
                (what, name, bad[0][0], cols[bad[0][1]], got[tuple(bad[0])], want[tuple(bad[0])]))
        if key == 'gps':
            import obspy
            for i in (0, len(rows) - 1):
                r = rows[i]
                require(abs(float(df['t'].iloc[i]) - obspy.UTCDateTime(*[int(x) for x in r[2:8]]).timestamp) < 1e-6,
                        '%s: time of GPS record %d' % (what, i))


def write(fn, w, hd=True):
    with open(fn, 'w', newline='', encoding='latin-1') as f:
        f.write('\n'.join(g.header('0.91', '061') + w.lines) + '\n')


def run_long(case):
    """one file of n data lines and 100 more GPS and metadata lines, through read_gem"""
    t0 = g.utc(2021, 3, 4, 12)
    n = case['n'] - 100
    clock = g.Clock(t0 - 5.0)
    m0 = int(clock.millis(t0))
    every = n // 50
    with open('FILE0000.061', 'w', newline='') as f:
        f.write('\n'.join(g.header('1.10', '061')) + '\n')
        for i in range(50):
            m = m0 + 10 * every * i
            t = math.ceil(clock.time(m))
            f.write('D%d,%d\n' % (m % ROLL, 0 if i == 0 else 1))
            f.write('G,%.2f,90.00,%d,%d,%d,%d,%d,%d.0,43.60000,-116.20000\n' % ((clock.millis(t) % ROLL,) + g.fields(t)))
            f.write('M,%d,4.00,20.0,1.500,2.100,3,74,1,0,1,48,118\n' % ((m + 3) % ROLL))
            k = (every if i < 49 else n - 49 * every) - 1
            f.write('n\n' * k)
    L = gemlog.read_gem('.', SN='061')
    require(len(L['gps']) == 50 and len(L['metadata']) == 50,
            lambda: '%d GPS and %d metadata records read of 50 and 50' % (len(L['gps']), len(L['metadata'])))
    require(int(L['header']['num_data_pts'].iloc[0]) == n,
            lambda: '%s samples read, %d in the file' % (L['header']['num_data_pts'].iloc[0], n))
    require(len(L['data']) == 1, 'spurious gap')
    tr = L['data'][0]
    tn = tr.times() + (tr.stats.starttime.timestamp - clock.time(m0 + g.CORR))
    err = np.abs(tr.data - tn / (10 * g.MS))
    require(err.max() < 1.1, lambda: 'value off by %g at %g s' % (err.max(), tn[err.argmax()]))
    require(abs(tn[-1] - (n - 1) * 10 * g.MS) < .0101 and abs(tn[0]) < .0101,
            lambda: 'covers %g to %g s, recorded 0 to %g' % (tn[0], tn[-1], (n - 1) * 10 * g.MS))
    return Result(key=['long', case['n']], states=[['long', case['n']]], transitions=case['n'])


def run(case, work):
    if case['kind'] == 'long':
        return run_long(case)
    if case['kind'] == 'read':
        return run_read(case)
    if not hasattr(gemlog.core, '_read_single'):
        return Result(key=None)
    if case['kind'] == 'offset':
        w = Writer(case['off'] + case['gap'] - 10)
        if case['first'] == 'D':
            w.emit('D')
        elif case['first'] == 'M':
            w.k = 3
            w.emit('M')
        else:
            w.emit('G')
        for k in 'DcMGDcMdcG' + 'D' * 5:
            w.emit(k)
        write('FILE0001.061', w)
        compare('FILE0001.061', w, case['off'] + 0.0, 'file after %d ms' % case['off'])
        return Result(key=['offset', case['first'], case['off'], case['gap']], states=[[case['off'] % ROLL, case['gap']]],
                      transitions=len(w.lines))
    w = Writer(100)
    w.emit('D')
    w.emit('M')
    n = 0
    states = set()
    for tail in itertools.product(case['kinds'], repeat=case['tail']):
        seq = case['pre'] + ''.join(tail)
        w.to_phase(case['phase'] * 10 + 5 + (n % 9))
        for k in seq:
            w.emit(k)
        n += 1
    w.emit('D')
    write('FILE0000.061', w)
    try:
        compare('FILE0000.061', w, 0, 'sequences %s??' % case['pre'])
    except Exception as e:
        # find the sequence
        for tail in itertools.product(case['kinds'], repeat=case['tail']):
            v = Writer(100)
            v.emit('D')
            v.emit('M')
            v.to_phase(case['phase'] * 10 + 5 + (n % 9))
            for k in case['pre'] + ''.join(tail):
                v.emit(k)
            v.emit('D')
            write('FILE0000.061', v)
            compare('FILE0000.061', v, 0, 'lines %r' % v.lines[3:])
        raise
    return Result(key=['seq', case['pre'], case['phase'], len(w.D), len(w.G), len(w.M)],
                  states=[[case['pre'], case['phase'], w.D[-1][0] % ROLL]], transitions=len(w.lines), executions=n)


def run_read(case):
    """the sequence inside an ordinary file, at the wrap, read with read_gem"""
    t0 = g.utc(2021, 3, 4, 12)
    K = 1000.0
    clock = g.Clock(t0 - 5.0)
    rec = g.Recording(clock, t0, t0 + 13, K=K, tref=t0)
    ev = rec.events()
    lines, prev, done = [], 0, False
    base = rec.samples[0][0]
    wrap = (base // ROLL + 1) * ROLL
    metas = [e[3] for e in ev if e[2] == 'M']
    fixes = [e[3] for e in ev if e[2] == 'G']
    nM = nG = 0
    samples = list(rec.samples)
    i = 0
    pendG, pendM = [], []
    pos = 0
    out = []
    while i < len(samples):
        m, a = samples[i]
        if not done and m >= wrap - 10 * case['phase'] - 5:
            done = True
            for j, k in enumerate(case['seq']):
                m, a = samples[i]
                dm = m - pm
                if k == 'D':
                    out.append('D%d,%d' % (m % ROLL, a - prev))
                elif k == 'd':
                    # firmware writes this form only for the nominal interval
                    samples[i] = (pm + 10, a)
                    out.append('D%d' % (a - prev))
                elif k in 'cC':
                    x = -1 if k == 'C' and dm == 10 else dm - 10 if k == 'C' else 0
                    samples[i] = (pm + 10 + x, prev + 3)
                    out.append((chr(109 + x) if k == 'C' else '') + chr(109 + 3))
                    a = prev + 3
                elif k == 'G' and fixes:
                    out.append(g.fmt_g(fixes[0], ROLL))
                    fixes.pop(0)
                    nG += 1
                elif k == 'M' and metas:
                    out.append(g.fmt_m(metas[0], ROLL))
                    metas.pop(0)
                    nM += 1
                else:
                    s = NOISE[k][j % len(NOISE[k])]
                    out.append(s % 5 if '%d' in s else s)
                if k in 'DdcC':
                    pm, prev = samples[i][0], a
                    i += 1
            continue
        out.append('D%d,%d' % (m % ROLL, a - prev))
        prev, pm = a, m
        i += 1
        # keep GPS and metadata lines at most about 1 s late
        while fixes and fixes[0][0] + fixes[0][1] <= m:
            out.append(g.fmt_g(fixes.pop(0), ROLL))
            nG += 1
        while metas and metas[0][0] <= m:
            out.append(g.fmt_m(metas.pop(0), ROLL))
            nM += 1
    with open('FILE0000.061', 'w', newline='', encoding='latin-1') as f:
        f.write('\n'.join(g.header('0.91', '061') + out) + '\n')
    L = gemlog.read_gem('.', SN='061')
    require(len(L['gps']) == nG, lambda: '%d GPS records read, %d in the file' % (len(L['gps']), nG))
    require(len(L['metadata']) == nM, lambda: '%d metadata records read, %d in the file' % (len(L['metadata']), nM))
    require(int(L['header']['num_data_pts'].iloc[0]) == len(samples),
            lambda: '%s samples read, %d in the file' % (L['header']['num_data_pts'].iloc[0], len(samples)))
    require(len(L['data']) == 1, 'spurious gap')
    # away from the inserted lines the ramp must be intact (values there need not lie on the ramp)
    tr = L['data'][0]
    t0_, t, err = oracle.trace_error(tr, K, t0)
    tw = clock.time(wrap + g.CORR) - t0
    off = np.abs(t - tw) > 0.3
    worst = np.abs(err[off]).max()
    require(worst < K * .004 + 2, lambda: 'values off the ramp by %g counts after the lines %s' % (worst, case['seq']))
    return Result(key=['read', case['seq'], case['phase']], states=[['read', case['seq']]], transitions=len(case['seq']))
