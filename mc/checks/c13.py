import itertools
import os
import sys

import gemlog
import gemlog.gem_cat
import numpy as np
import obspy

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sequences of raw files with and without GPS, merged by the real code and decoded independently'
LEVEL_NOTE = ('all sequences up to the stated length, in every format, with torn last lines, metadata or GPS lines before the first sample, '
              'CR-LF line ends, missing numbers and another Gem in the folder; merged files are decoded by an independent reader')
RULE = ('a case is a sequence of files (GPS or not) with a format and line style; model state = (files seen, GPS pattern, current output); '
        'non-trivial = distinct assignment of inputs to outputs')
ASSUMPTIONS = ['files before the first one with GPS are left out (documented in the code)',
               'recording is uninterrupted between merged files, and no file is empty (demo_missing_gps/README)']
BOUNDS = {'quick': 'up to 5 files; up to 4 with one variation', 'thorough': 'up to 7 files; up to 5 with one variation'}
SN = '061'


def cases(tier):
    n = 5 if tier == 'quick' else 7
    for k in range(1, n + 1):
        for p in itertools.product((1, 0), repeat=k):
            if any(p):
                for ver in ('0.91', '1.10') if k == n else ('0.91', '0.9', '0.85C', '1.10', '0.85', '0.8'):
                    yield dict(gps=p, ver=ver)
    for k in range(1, n - 1):                   # everything into one file
        for p in itertools.product((1, 0), repeat=k):
            for ver in ('0.91', '1.10', '0.8') if k > 2 else ('0.91', '0.9', '0.85C', '1.10', '0.85', '0.8'):
                yield dict(gps=p, ver=ver, all=True)
                for i in range(k) if k == 2 else ():
                    yield dict(gps=p, ver=ver, all=True, torn=[i, 7])
                    for first in ('M', 'MG' if p[i] else 'P'):
                        yield dict(gps=p, ver=ver, all=True, first=[i, first])
                for x in ('nums', 'other', 'old', 'neg', 'big', 'wrap') if k == 2 else ():
                    yield dict(gps=p, ver=ver, all=True, var=x)
    m = 4 if tier == 'quick' else 5
    for k in range(2, m + 1):
        for p in itertools.product((1, 0), repeat=k):
            if not any(p):
                continue
            for ver in ('0.91', '1.10', '0.8') if k > 2 else ('0.91', '0.9', '0.85C', '1.10', '0.85', '0.8'):
                for i in range(k):
                    for cut in (3, 7, 13):
                        yield dict(gps=p, ver=ver, torn=[i, cut])
                    for first in ('M', 'G', 'GM', 'MG', 'P'):
                        if 'G' in first and not p[i]:
                            continue
                        yield dict(gps=p, ver=ver, first=[i, first])
                for x in ('sent', 'crlf', 'nums', 'other', 'main', 'abs', 'old', 'neg', 'big', 'wrap'):
                    yield dict(gps=p, ver=ver, var=x)


def decode(text, ver):
    """complete lines -> (samples as (ms, value)), G lines, M lines; first field of the first sample is absolute"""
    D, G, M = [], [], []
    ms = acc = 0
    lines = text.replace('\r\n', '\n').split('\n')[:-1]
    for l in lines:
        if l[:2] == 'G,':
            G.append(l)
        elif l[:2] == 'M,':
            M.append(l)
        elif g.is_old(ver):
            if l[:2] == 'D,':
                a = l.split(',')
                D.append((int(a[1]), int(a[2])))
        elif l[:1] == 'D':
            a = l[1:].split(',')
            ms = int(a[0])
            acc += int(a[1])
            D.append((ms, acc))
        elif l[:1].islower():
            if len(l) == 2:
                ms = (ms + 10 + ord(l[0]) - 109) % 8192
            else:
                ms = (ms + 10) % 8192
            acc += ord(l[-1]) - 109
            D.append((ms, acc))
    return D, G, M


def build(case):
    ver = case['ver']
    t = g.utc(2021, 3, 4, 12) + .3
    var = case.get('var')
    clock = g.Clock(t - (7.5 if var != 'wrap' else 8192 * g.MS - 13), 8.0)
    K = {'neg': -777.0, 'big': 40000.0}.get(var, 3.0 if ver == '1.10' else 1000.0)
    texts, recs, tref = [], [], t
    for i, gps in enumerate(case['gps']):
        rec = g.Recording(clock, t, t + 13, tref=tref - (5000 if var == 'abs' else 0), K=K, gps=bool(gps))
        for j, m in enumerate(rec.meta):
            m[1], m[2] = round(4 - j / 100, 2), round(20 + i, 1)
        if ver not in ('0.91', '1.10'):
            for f in rec.fixes:
                f[0] = round(f[0])
        first = case.get('first', [None, ''])
        body = g.body(rec, ver)
        if first[0] == i:
            k = next(n for n, l in enumerate(body) if l[0] == 'D')
            pick = []
            for kind in first[1]:
                pick.append('P,1.00' if kind == 'P' else next(l for l in body if l[:2] == kind + ','))
            for l in pick:
                if l in body:
                    body.remove(l)
            k = next(n for n, l in enumerate(body) if l[0] == 'D')
            body[k:k] = pick
        if var == 'sent':       # GPS on, with or without a fix: raw sentences and PPS times
            for k in range(len(body) - 1, 0, -97):
                body[k:k] = ['P,%d.00' % (k % 8192), 'R,2,$GPRMC,190031.928,V,,,,,,,250122,,,N*4C', 'R,2,$GPGGA,190031.928,,,,,0,00,,,M,,M,,*7E']
        text = '\n'.join(g.header(ver, SN) + body) + '\n'
        if case.get('torn', [None])[0] == i:
            text = text[:-case['torn'][1]]
        if var == 'crlf':
            text = text.replace('\n', '\r\n')
        texts.append(text)
        recs.append(rec)
        t += 13
    return texts, recs, tref - (5000 if var == 'abs' else 0), K


def run(case, work):
    ver, var = case['ver'], case.get('var')
    texts, recs, tref, K = build(case)
    os.mkdir('raw')
    ext = 'TXT' if ver == '0.8' else SN
    nums = [i * 3 + 4 if var == 'nums' else i for i in range(len(texts))]
    for n, text in zip(nums, texts):
        open('raw/FILE%04d.%s' % (n, ext), 'wb').write(text.encode())
    if var == 'other':
        for i in range(3):
            open('raw/FILE%04d.%s' % (i, '123'), 'wb').write(texts[0].replace(SN, '123').encode())
        open('raw/notes.' + ext, 'w').write('hello\n')
        os.mkdir('raw/sub.' + ext)
    if var == 'old':
        os.makedirs('out')
        open('out/FILE%s.%s' % ('9999' if case.get('all') else '0000', SN), 'w').write('stale\n')
    before = {f: open('raw/' + f, 'rb').read() for f in os.listdir('raw') if os.path.isfile('raw/' + f)}
    if var == 'main':
        sys.modules['gemlog.gem_cat'].main(['-i', 'raw', '-o', 'new/out', '-e', ext])
        os.rename('new/out', 'out')
    else:
        gemlog.gem_cat('raw', 'out', ext, **({'cat_all': True} if case.get('all') else {}))
    after = {f: open('raw/' + f, 'rb').read() for f in os.listdir('raw') if os.path.isfile('raw/' + f)}
    require(before == after, 'input files were changed')
    k0 = 0 if case.get('all') else case['gps'].index(1)
    want = [decode(x, ver) for x in texts[k0:]]
    names = sorted(os.listdir('out'))
    require(names == (['FILE9999.%s' % SN] if case.get('all') else ['FILE%04d.%s' % (i, SN) for i in range(len(names))]), lambda: 'output files %s' % names)
    a, groups = 0, []
    for f in names:
        text = open('out/' + f, 'rb').read().decode()
        D, G, M = decode(text, ver)
        require(G or case.get('all'), lambda: '%s has no GPS fix' % f)
        b = a
        n = 0
        while b < len(want) and n + len(want[b][0]) <= len(D):
            n += len(want[b][0])
            b += 1
        require(n == len(D) and b > a, lambda: '%s has %d samples; inputs from the %dth on have %s' % (
            f, len(D), a + k0, [len(w[0]) for w in want[a:]]))
        for j, what in enumerate(('samples', 'GPS lines', 'metadata lines')):
            w = [x for y in want[a:b] for x in y[j]]
            got = (D, G, M)[j]
            require(got == w, lambda: '%s: %s differ from those of inputs %d-%d: %s' % (
                f, what, a + k0, b + k0 - 1, [(p, q) for p, q in itertools.zip_longest(got, w) if p != q][:2]))
        groups.append([a + k0, b + k0 - 1])
        a = b
    require(a == len(want), lambda: 'inputs %d-%d are missing from the output' % (a + k0, len(texts) - 1))
    # the merged files as the converter reads them
    L = gemlog.read_gem('out', SN=SN, require_gps=False)
    # fixes at both ends, so that the merged files can be timed precisely
    adequate = all(case['gps'][x] and case['gps'][y] for x, y in groups)
    if adequate and not case.get('torn'):
        bad = oracle.check_stream(list(L['data']), oracle.intervals(recs[k0:]), K, tref, start_slack=.02, end_slack=.02,
                                  tol=.005 + (1.5 / abs(K) if abs(K) < 1000 else 0))
        require(bad is None, bad)
    return Result(key=[case['gps'], ver, groups, sorted(set(case) - {'gps', 'ver'})],
                  states=[[list(case['gps'][:i]), j] for j, (x, y) in enumerate(groups) for i in range(x, y + 1)],
                  transitions=len(texts))
