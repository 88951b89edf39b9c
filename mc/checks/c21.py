import os

import gemlog
import numpy as np

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C21'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of crash points: a raw file cut at every byte, in every format, read by the real code'
LEVEL_NOTE = ('every byte of the header and of the last lines (thorough: of the whole file) is a crash point; the file stands first, between '
              'or after others, with and without unwritten (NUL) bytes after the cut')
RULE = 'a case is (format, position of the file, byte at which it ends, what follows); non-trivial = distinct (outcome, lines kept)'
ASSUMPTIONS = ['a last line complete but for its newline may be used or dropped',
               'a file with less than 10 fixes, fixes over less than half its length, or no metadata line may be skipped']
BOUNDS = {'quick': 'all header bytes, last 45 to 130 bytes, every 211th or 1999th other byte', 'thorough': 'every byte of the file'}
SN = '061'
FORMATS = ['0.91', '0.9', '0.85C', '1.10', '0.85', '0.8', 'fallback']


def make(ver, K):
    """-> [(number, Recording, text)] : three files, the logger restarting before the third"""
    t = g.utc(2021, 3, 4, 12) + .304
    clock = g.Clock(t - 7.3, 9.0)
    out = []
    tref = t
    for i in range(3):
        t += 1.7 * i
        if i == 2:
            t += 11.5
            clock = g.Clock(t - 2.2, 9.0)
        rec = g.Recording(clock, t, t + 13, tref=tref, K=K)
        for j, f in enumerate(rec.fixes):
            if ver in ('0.8', '0.85', '0.85C', '0.9'):
                f[0] = round(f[0])
        for j, m in enumerate(rec.meta):
            m[1], m[2] = round(4 - j / 100, 2), round(20 + 3.1 * j, 1)
            m[3:] = [round(1 + j / 1000, 3), round(2 + j / 500, 3), 10 + j, 74 - j, j % 2, i, j % 2, 48 + j, 118 - j]
        text = '\n'.join(g.header(ver, SN) + g.body(rec, ver)) + '\n'
        out.append((i, rec, text))
        t += 13
    return out, tref


def cases(tier):
    for ver in FORMATS:
        v = '0.91' if ver == 'fallback' else ver
        for K in (1000.0, 3.0) if v == '1.10' else (1000.0,):
            files, _ = make(v, K)
            for which in (0, 1, 2):
                if tier == 'quick' and which != 1 and (K == 3.0 or v in ('0.9', '0.85C')):
                    continue
                n = len(files[which][2])
                head = len('\n'.join(g.header(v, SN)))
                tail = 130 if which == 1 or v in ('0.91', '0.8') else 45
                if tier == 'thorough':
                    tail = 260
                    body = range(head + 2, n - tail, 1 if which == 1 else 11)
                else:
                    body = range(head + 2, n - tail, 211 if which == 1 else 1999)
                for c in list(range(n - tail, n + 1)) + list(range(0, head + 2)) + list(body):
                    yield dict(ver=ver, K=K, which=which, cut=c)
                for c in list(range(n - 40, n + 1)) + list(range(0, head, 11)):
                    yield dict(ver=ver, K=K, which=which, cut=c, tail=64)


def truncated(rec, text):
    """the recording of the complete lines of the text"""
    kinds = [l[0] for l in text.split('\n')[:-1] if l]
    nd = sum(k == 'D' or k.islower() for k in kinds)
    out = g.Recording.__new__(g.Recording)
    out.__dict__.update(rec.__dict__)
    out.samples = rec.samples[:nd]
    out.fixes = rec.fixes[:kinds.count('G')]
    out.meta = rec.meta[:kinds.count('M')]
    return out


def adequate(rec):
    if len(rec.fixes) < 10 or len(rec.samples) < 10 or not rec.meta:
        return False
    span = rec.clock.time(rec.samples[-1][0]) - rec.clock.time(rec.samples[0][0])
    return (rec.fixes[-1][0] - rec.fixes[0][0]) * g.MS > span / 2 + .5


def run(case, work):
    import sys
    fall = case['ver'] == 'fallback'
    ver = '0.91' if fall else case['ver']
    files, tref = make(ver, case['K'])
    os.mkdir('raw')
    alternatives = []
    for i, rec, text in files:
        if i == case['which']:
            cut = text[:case['cut']]
            data = cut.encode() + b'\0' * case.get('tail', 0)
            short = truncated(rec, cut)
            alternatives = [short]
            if not cut.endswith('\n') and text[case['cut']:case['cut'] + 1] == '\n':
                alternatives.append(truncated(rec, cut + '\n'))
        else:
            data = text.encode()
        open('raw/FILE%04d.%s' % (i, 'TXT' if ver == '0.8' else SN), 'wb').write(data)
    others = [r for i, r, _ in files if i != case['which']]
    saved = sys.modules.get('gemlog.parsers')
    if fall:
        sys.modules['gemlog.parsers'] = None
    try:
        L = gemlog.read_gem('raw', SN=SN)
    finally:
        if fall:
            sys.modules['gemlog.parsers'] = saved
    why = []
    options = [] if adequate(alternatives[0]) else [(None, others)]
    options += [(a, others[:case['which']] + [a] + others[case['which']:]) for a in alternatives if a.samples]
    for a, recs in options:
        w = agrees(L, recs, case['K'], tref, ver)
        # an empty file, or one whose serial number is missing, need not be reported
        known = case['cut'] >= len('\n'.join(g.header(ver, SN))) and (case['cut'] > 10)
        if w is None and a is None and known and not any('FILE%04d' % case['which'] in str(p) for p in L['problems']):
            w = 'the file was skipped without a report'
        if w is None:
            return Result(key=[case['ver'], a is not None, len(alternatives[0].samples), len(alternatives[0].fixes),
                               len(alternatives[0].meta)])
        why.append(w)
    require(False, lambda: 'cut at byte %d (%r): %s' % (case['cut'], cut[-30:], '; or: '.join(why)))


def agrees(L, recs, K, tref, ver):
    w = oracle.check_stream(list(L['data']), oracle.intervals(recs), K, tref, tol=.005 + (1.5 / K if K < 1000 else 0), start_slack=.012,
                            end_slack=.012, inner_slack=.012)
    if w:
        return w
    want = [[f[2], f[8], f[9], g.utc(*f[2:8])] for r in recs for f in r.fixes]
    G = L['gps']
    got = [[int(a), b, c, float(d)] for a, b, c, d in zip(G['year'], G['lat'], G['lon'], G['t'])]
    if len(got) != len(want):
        return '%d fixes read, %d complete ones recorded' % (len(got), len(want))
    if np.abs(np.array(got, float) - np.array(want, float)).max() > 1e-5:
        return 'fixes read differ from those recorded'
    cols = ['batt', 'temp', 'A2', 'A3', 'maxWriteTime', 'minFifoFree', 'maxFifoUsed', 'maxOverruns', 'gpsOnFlag', 'unusedStack1',
            'unusedStackIdle']
    sel = [i for i, c in enumerate(cols) if not (ver == '0.8' and c in ('A2', 'A3'))]
    M = L['metadata']
    want = np.array([[m[1:][i] for i in sel] for r in recs for m in r.meta], float)
    got = np.array([np.asarray(M[cols[i]], float) for i in sel]).T
    if got.shape != want.shape:
        return '%d metadata records read, %d complete ones recorded' % (len(got), len(want))
    if not np.allclose(got, want, rtol=0, atol=1e-6):
        return 'metadata read differ from those recorded'
