import contextlib
import io
import itertools
import os

import gemlog
import numpy as np

from mc import oracle
from mc import gemgen as g
from mc.harness import Result, require

PROPERTY = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of good/bad file sequences, compared with the folder without the bad files'
LEVEL_NOTE = ('every sequence of file kinds up to the stated length (by number and by conversion block) is converted and '
              'read by the real code, and compared with the same call on a folder without the bad files and with the truth')
RULE = ('a case is a sequence of file kinds with their numbers, a format and a block size; non-trivial = distinct output runs '
        'with distinct multiset of problems')
ASSUMPTIONS = ['a file that contains some readable data with enough GPS counts as good',
               'a file whose serial number cannot be read, or is another Gem\'s, need not be reported']
BOUNDS = {'quick': 'all sequences of length 1-2, length 3 with at most 2 bad files, length 4 with one bad file',
          'thorough': 'all sequences of length 1-3, length 4-5 with at most 2 bad files'}
B = g.utc(2021, 3, 4, 12)
K = 1000.0
SILENT = ['empty', 'tiny', 'garbage', 'noserial', 'othersn', 'otherext', 'cutheader', 'directory']   # not required in problems
BAD = ['empty', 'tiny', 'header', 'garbage', 'nogps', 'fewgps', 'shortgps', 'step', 'stepback', 'discont', 'noserial',
       'othersn', 'otherext', 'cutheader', 'badversion', 'badgps', 'onlygps', 'nometa', 'binarytail0', 'backwards',
       'discont0', 'discontN']
BAD2 = [b for b in BAD if b not in ('tiny', 'cutheader', 'shortgps', 'stepback', 'badgps', 'onlygps', 'binarytail0', 'discont0', 'discontN')]
SN = '061'


def cases(tier):
    for ver in ('0.91', '1.10'):
        for n in (1, 2):
            for seq in itertools.product(['good'] + BAD, repeat=n):
                if ver == '1.10' and tier == 'quick' and n == 2 and 'good' not in seq:
                    continue
                yield dict(ver=ver, seq=list(seq), step=1, block=1)
    ns = [3] if tier == 'quick' else [3, 4]
    for n in ns:
        for pos in itertools.combinations(range(n), n - 2):
            for bad in itertools.product(BAD2 if tier == 'quick' else BAD, repeat=2):
                it = iter(bad)
                seq = ['good' if i in pos else next(it) for i in range(n)]
                yield dict(ver='0.91', seq=seq, step=1, block=1)
    if tier != 'quick':
        for seq in itertools.product(BAD, repeat=3):
            yield dict(ver='0.91', seq=list(seq), step=1, block=1)
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for pos in range(n):
            for b in BAD:
                seq = ['good'] * n
                seq[pos] = b
                for ver in ('0.91', '0.8', '0.85') if n == 3 else ('0.91',):
                    for step, block in ((1, 1), (1, 1 / 12), (5, 1 / 4), (13, 1)):
                        if n == 3 and step == 1 and block == 1 and ver == '0.91':
                            continue
                        yield dict(ver=ver, seq=seq, step=step, block=block)


def make(kind, dirname, num, ver, rec):
    """write the file; -> True if it is this Gem's good file"""
    ext = 'TXT' if ver == '0.8' else SN
    fn = os.path.join(dirname, 'FILE%04d.%s' % (num, ext))
    hd = g.header(ver, SN)
    if kind == 'good':
        g.write(fn, hd + g.body(rec, ver))
        return
    if kind == 'empty':
        open(fn, 'w').close()
    elif kind == 'tiny':
        open(fn, 'w').write('#GemC')
    elif kind == 'header':
        g.write(fn, hd)
    elif kind == 'cutheader':
        open(fn, 'w').write('\n'.join(hd)[:30])
    elif kind == 'garbage':
        rng = np.arange(40000, dtype=np.uint64) * 2654435761 % 251
        open(fn, 'wb').write(bytes(rng.astype(np.uint8)))
    elif kind == 'nogps':
        g.write(fn, hd + [x for x in g.body(rec, ver) if x[0] != 'G'])
    elif kind == 'fewgps':
        rec.fixes = rec.fixes[::4]
        g.write(fn, hd + g.body(rec, ver))
    elif kind == 'shortgps':
        rec.fixes = rec.fixes[:4]
        g.write(fn, hd + g.body(rec, ver))
    elif kind == 'badgps':
        for f in rec.fixes:
            f[8] = 0.0
        g.write(fn, hd + g.body(rec, ver))
    elif kind in ('step', 'stepback'):
        for f in rec.fixes[6:]:
            f[7] += 3 if kind == 'step' else -3
            if f[7] >= 60 or f[7] < 0:
                f[6] += int(f[7] // 60)
                f[7] %= 60
        g.write(fn, hd + g.body(rec, ver))
    elif kind in ('discont', 'backwards', 'discont0', 'discontN'):
        a, b = {'discont0': (rec.ta + 0.008, rec.ta + 2.2),       # right after the first sample
                'discontN': (rec.tb - 2.2, rec.tb - 0.012)}.get(kind, (rec.ta + 5, rec.ta + 7.2))
        r = g.Recording(rec.clock, rec.ta, rec.tb, K=K, tref=rec.tref, gaps=[(a, b)])
        assert len(r.samples) > 100 and max(y[0] - x[0] for x, y in zip(r.samples, r.samples[1:])) > 2000
        if kind == 'backwards':
            r = rec
            r.samples = [(m - (600 if i >= 600 else 0), a) for i, (m, a) in enumerate(r.samples)]
            ev = g.body(r, ver)
            r.samples.sort(key=lambda s: 0)
            lines = []
            # keep recording order although the clock steps back
            prev = 0
            it = iter([x for x in ev if x[0] in 'GM'])
            for i, (m, a) in enumerate(r.samples):
                roll = 2 ** 16 if g.is_old(ver) else 2 ** 13
                lines.append(('D,%d,%d' % (m % roll, a)) if g.is_old(ver) else 'D%d,%d' % (m % roll, a - prev))
                prev = a
                if i % 50 == 49:
                    lines.extend([x for x in [next(it, None)] if x])
            g.write(fn, hd + lines)
        else:
            g.write(fn, hd + g.body(r, ver))
    elif kind == 'noserial':
        g.write(fn, [x for x in hd if x[0] != 'S'] + g.body(rec, ver))
    elif kind == 'othersn':
        g.write(fn, g.header(ver, '062') + g.body(rec, ver))
    elif kind == 'otherext':
        fn = os.path.join(dirname, 'FILE%04d.%s' % (num, 'TXT' if ver == '0.8' else '062'))
        g.write(fn, g.header(ver, '062') + g.body(rec, ver))
    elif kind == 'badversion':
        g.write(fn, ['#GemCSV7.77'] + hd[1:] + g.body(rec, ver))
    elif kind == 'onlygps':
        g.write(fn, hd + [x for x in g.body(rec, ver) if x[0] in 'GPR'])
    elif kind == 'nometa':
        g.write(fn, hd + [x for x in g.body(rec, ver) if x[0] != 'M'])
    elif kind == 'binarytail0':
        open(fn, 'w').write('\n'.join(hd) + '\n')
        rng = np.arange(20000, dtype=np.uint64) * 2654435761 % 251
        open(fn, 'ab').write(bytes(rng.astype(np.uint8)))
    else:
        raise AssertionError(kind)


def convert(raw, out, case):
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            problems = gemlog.convert(raw, SN=SN, convertedpath=out, metadatapath=out + 'm', gpspath=out + 'g',
                                      blockdays=case['block'])
        # reported: in the return value, or printed
        return problems + [x for x in buf.getvalue().split('\n') if not x.startswith('File ')], None
    except (gemlog.exceptions.MissingRawFiles, gemlog.exceptions.CorruptRawFile) as e:
        return [], e


def outputs(out):
    res = []
    if os.path.isdir(out):
        for fn, st in oracle.read_outputs(out):
            for tr in st:
                res.append((fn, tr))
    return res


def logs(d):
    return {fn: open(os.path.join(d, fn)).read() for fn in sorted(os.listdir(d))} if os.path.isdir(d) else {}


def run(case, work):
    for d in ('raw', 'ref'):
        os.makedirs(d)
    clock = g.Clock(B - 50)
    good, names, maybe = [], [], []
    t = B + .004
    for i, kind in enumerate(case['seq']):
        rec = g.Recording(clock, t, t + 13, K=K, tref=B)
        num = i * case['step']
        if kind == 'good':
            make(kind, 'ref', num, case['ver'], rec)
            good.append((num, rec))
        if kind == 'badversion':
            maybe.append((num, rec))
        make(kind, 'raw', num, case['ver'], rec)
        names.append((kind, num))
        t += 13
    pa, ea = convert('raw', 'outa', case)
    # truth
    if not good and maybe:
        return Result(key=[case['seq'], type(ea).__name__], states=[case['seq']], transitions=len(names))
    if not good:
        require(ea is not None, lambda: 'no readable file, but conversion did not fail: wrote %s' %
                [str(tr) for _, tr in outputs('outa')])
        require(not outputs('outa'), 'converted files written from unreadable files')
        if not {'othersn', 'noserial'} & set(case['seq']):         # read_gem goes by file name for these
            require(read('raw', case)[1] is not None, 'read_gem returned data from unreadable files')
        return Result(key=[case['seq'], type(ea).__name__], states=[case['seq']], transitions=len(names))
    require(ea is None, lambda: 'conversion failed although %d files are good: %r' % (len(good), ea))
    if 'badversion' in case['seq']:
        # its first line is damaged but its data are not: reading or skipping it are both right
        tr = [x for _, x in outputs('outa')]
        most = oracle.intervals([r for _, r in good + maybe])
        bad = oracle.check_stream(tr, most, K, B, require_all=False)
        require(bad is None, lambda: bad)
        for lo, hi in oracle.intervals([r for _, r in good]):
            n = sum(int(((oracle.sample_times(x) >= lo - .006) & (oracle.sample_times(x) <= hi + .006)).sum()) for x in tr)
            require(n >= (hi - lo) * 100 - 103, lambda: 'good data lost next to a file with a damaged first line: %s' % tr)
        return Result(key=[[[str(x.stats.starttime), x.stats.npts] for x in tr], case['seq']], states=[case['seq']],
                      transitions=len(names))
    pb, eb = convert('ref', 'outb', case)
    require(eb is None, lambda: 'conversion of the good files alone failed: %r' % eb)
    a, b = outputs('outa'), outputs('outb')
    bad = oracle.check_stream([tr for _, tr in a], oracle.intervals([r for _, r in good]), K, B,
                              end_slack=.012, inner_slack=.012)
    require(bad is None, lambda: bad)
    require([fn for fn, _ in a] == [fn for fn, _ in b],
            lambda: 'output files %s, without the bad files %s' % ([x for x, _ in a], [x for x, _ in b]))
    for (fn, x), (_, y) in zip(a, b):
        require(x.stats.starttime == y.stats.starttime and x.stats.npts == y.stats.npts and
                np.abs(x.data - y.data).max() <= 1, lambda: '%s differs from conversion without the bad files' % fn)
    for k in 'gm':
        x, y = logs('outa' + k), logs('outb' + k)
        require(x == y, lambda: 'logs differ from conversion without the bad files')
    for kind, num in names:
        f = 'FILE%04d.' % num
        rep = any(f in str(p) for p in pa)
        if kind == 'good':
            require(not rep, lambda: 'good file %s reported as a problem: %s' % (f, pa))
        elif kind not in SILENT:
            require(rep, lambda: 'unreadable file %s (%s) was not reported: %s' % (f, kind, pa))
    L, err = read('raw', case)
    foreign = {'othersn', 'noserial'} & set(case['seq'])       # read_gem goes by file name for these
    if not foreign:
        require(err is None, lambda: 'read_gem failed although %d files are good: %r' % (len(good), err))
        bad = oracle.check_stream(list(L['data']), oracle.intervals([r for _, r in good]), K, B, start_slack=.012,
                                  end_slack=.012, inner_slack=.012)
        require(bad is None, lambda: 'read_gem: ' + bad)
    return Result(key=[[[str(x.stats.starttime), x.stats.npts] for _, x in a], sorted(k for k, _ in names)],
                  states=[case['seq']], transitions=len(names), executions=3)


def read(raw, case):
    try:
        return gemlog.read_gem(raw, SN=SN), None
    except (gemlog.exceptions.MissingRawFiles, gemlog.exceptions.CorruptRawFile) as e:
        return None, e
