import os

import gemlog
import obspy

from mc import deploy, oracle, space
from mc.harness import Result, require

PROPERTY = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state enumeration of file/gap histories against an interval model, replayed on convert'
LEVEL_NOTE = ('every history within the stated deviation bound is converted by the real code and every output '
              'sample compared with an interval model; recordings are 13 s files, gaps between 25 and 45 ms and '
              'in-file gaps over 1 s are outside the alphabet')
RULE = ('a case is a history of raw files (default: 3 consecutive continuous files) departing from the default in '
        'at most k of: in-file gap kind per file, transition kind per file boundary, block size, start phase, '
        'clock error, format, calendar position; non-trivial = distinct pattern of output runs')
ASSUMPTIONS = ['file numbers increase with time', 'raw files are 13 s long with one GPS fix per second']
BOUNDS = {'quick': 'up to 3 files with 2 deviations; 13-26 files with 0 or 1 gap',
          'thorough': '3 files with 3 deviations, 4 files with 2; 13-26 files with each boundary as gap'}

INFILE = ['mid005', 'mid006', 'mid09', 'mid098', 'first', 'last', 'two', 'mid03', 'island']
TRANS = [dict(gap=0.06), dict(gap=0.3), dict(gap=30), dict(gap=5000.003), dict(gap=130000.5), dict(gap=13, skip=1),
         dict(gap=13 * 14, skip=14), dict(gap=9e5, reboot=True), dict(gap=20.004, reboot=True),
         dict(gap=9.5, reboot=True, uptime=8.39), dict(gap=0, skip=12)]


def menu(n, tier):
    m = {}
    for i in range(n):
        m['infile%d' % i] = INFILE[:6] if tier == 'quick' and n > 2 else INFILE
    for i in range(1, n):
        m['trans%d' % i] = [0, 2, 3, 5, 6, 7, 9] if tier == 'quick' and n > 2 else list(range(len(TRANS)))
    m['block'] = [1 / 12, 1 / 6, 1 / 4, 2]
    m['phase'] = [0.003, 0.005, 0.0072, 0.5, 0.995]
    m['ppm'] = [-30.0, 30.0]
    m['version'] = ['1.10', '0.85C', '0.85', '0.8']
    m['start'] = ['leapday', 'newyear']
    return m


def cases(tier):
    # raw files of the usual length
    yield dict(n=2, dur=7200, dev={'ppm': 30.0, 'version': '1.10'})
    yield dict(n=2, dur=7200, dev={'trans1': 1, 'block': 1 / 12, 'start': 'newyear'})
    ks = [(1, 2), (2, 2), (3, 2)] if tier == 'quick' else [(1, 3), (2, 3), (3, 3), (4, 2)]
    for n, k in ks:
        for d in space.deviations(menu(n, tier), k):
            yield dict(n=n, dev=d)
    # recording that stops on, just before or just after the boundary of an output file
    for end in (-.02, -.01, 0, .01, .02, .03):
        for ph in (0, .003, .005, .0072, .995):
            for b in (1, 1 / 12):
                for first in (None, dict(gap=30)):
                    yield dict(n=1 if first is None else 2, end=end, dev=dict({'phase': ph, 'block': b, 'start': 'early'}, **({} if first is None else {'trans1': 2})))
    for n in (13, 14, 25, 26):
        yield dict(n=n, dev={})
        for b in ((12, n - 1) if tier == 'quick' else range(1, n)):
            for t in (1, 2, 7):
                yield dict(n=n, dev={'trans%d' % b: t})


def files_of(n, dev):
    fs = []
    for i in range(n):
        f = dict(infile=dev.get('infile%d' % i))
        if i and ('trans%d' % i) in dev:
            f.update(TRANS[dev['trans%d' % i]])
        fs.append(f)
    return fs


def samples(trs):
    k = [int(round(tr.stats.starttime.ns / 1e7)) + j for tr in trs for j in range(tr.stats.npts)]
    return sorted(k)


def stretch(n, fs, dev, end):
    """make the last file end (with its last sample) at `end` seconds from an hour, phase left aside"""
    if n == 1:
        fs[-1]['dur'] = 20.01 + end
    else:
        fs[-1].update(gap=3600 + 7 - 17, dur=17.01 + end)

def run(case, work):
    dev = case['dev']
    fs = files_of(case['n'], dev)
    if 'end' in case:
        stretch(case['n'], fs, dev, case['end'])
    # a single sample cut off by a gap cannot be interpolated and may be lost
    isl = 0.01 if any(f['infile'] in ('first', 'last') for f in fs) else 0.0
    recs, tref = deploy.build(fs, dev.get('start', 'plain'), dev.get('phase', 0.0), dev.get('ppm', 0.0),
                              dur=case.get('dur', deploy.DUR))
    deploy.write('raw', recs, version=dev.get('version', '0.91'))
    ivals = oracle.intervals([r for _, r in recs])
    problems = gemlog.convert('raw', SN='077', convertedpath='out', file_length_hour=1,
                              blockdays=dev.get('block', 1))
    require(not problems, lambda: 'good files reported as problems: %s' % problems)
    traces = [tr for _, st in oracle.read_outputs('out') for tr in st]
    bad = oracle.check_stream(traces, ivals, 1000.0, tref, start_slack=1.0, end_slack=0.012 + isl, inner_slack=0.008 + isl)
    require(bad is None, lambda: bad)
    # the same through the reading interface
    if len(dev) <= 1 or 'end' in case:
        L = gemlog.read_gem('raw', SN='077')
        bad = oracle.check_stream(list(L['data']), ivals, 1000.0, tref, start_slack=0.008 + isl,
                                  end_slack=0.012 + isl, inner_slack=0.008 + isl, split_ok=0.0301)
        require(bad is None, lambda: 'read_gem: ' + str(bad))
        a, b = samples(traces), samples(gemlog.core._merge_gaps(L['data']))
        b = [k for k in b if k >= -(-b[0] // 100) * 100]
        require(a == b, lambda: 'conversion gives %d samples from %.2f to %.2f, reading gives %d from %.2f to %.2f' % (
            len(a), a[0] / 100 - tref, a[-1] / 100 - tref, len(b), b[0] / 100 - tref, b[-1] / 100 - tref))
    runs = sorted((round(tr.stats.starttime.timestamp - tref, 2), tr.stats.npts) for tr in traces)
    states = [[dev.get('block', 1), [[round(a - tref, 1), round(b - tref, 1)] for a, b in ivals[:j + 1]]]
              for j in range(len(ivals))]
    return Result(key=[runs, dev.get('version'), dev.get('block')], states=states + [[f, i, dev.get('block')] for i, f in enumerate(fs)],
                  transitions=len(fs), executions=1 + (len(dev) <= 1 or 'end' in case))
