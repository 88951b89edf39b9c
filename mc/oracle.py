"""Reference model of a deployment: which samples exist, when, with which value."""
import glob
import os

import numpy as np

GAP = 0.047          # cases only use gaps of at least 0.05 s or no gap at all
DT = 0.01
TOL = 0.004          # s: agreement of output sample times with true acquisition times (see DESIGN)


def intervals(recs):
    """maximal continuous intervals [first, last] of true sample times of the readable recordings,
    in time order, with (K, tref) of the ramp."""
    out = []
    for r in sorted(recs, key=lambda r: r.ta):
        ts = np.array([r.clock.time(m + 8.93) for m, _ in r.samples])
        cuts = np.where(np.diff(ts) > GAP)[0]
        lo = 0
        for c in list(cuts) + [len(ts) - 1]:
            seg = (float(ts[lo]), float(ts[c]))
            lo = c + 1
            if out and seg[0] - out[-1][1] < GAP:
                out[-1] = (out[-1][0], seg[1])
            else:
                out.append(seg)
    return out


def value(t, K, tref):
    return K * (t - tref)


def sample_times(tr):
    return float(tr.stats.starttime) + np.arange(tr.stats.npts) * tr.stats.delta


def trace_error(tr, K, tref):
    t0 = tr.stats.starttime.ns / 1e9
    # avoid losing precision: work relative to tref
    off = (tr.stats.starttime.ns - int(round(tref * 1e9))) / 1e9
    t = off + np.arange(tr.stats.npts) * tr.stats.delta
    return t0, t, np.asarray(tr.data, dtype=float) - K * t


def check_stream(traces, ivals, K, tref, tol=TOL, t_lo=None, t_hi=None, start_slack=1.0, end_slack=0.03,
                 require_all=True, inner_slack=0.03, split_ok=0.015):
    """Every output sample lies inside a recorded interval and carries the value recorded at its time;
    every interval is covered exactly once.  Returns None or a description of the discrepancy.
    start_slack: how much of the very first interval may be missing (convert starts at a whole second)."""
    segs = []
    for tr in traces:
        if tr.stats.npts == 0:
            return 'empty trace %s' % tr
        if np.ma.isMaskedArray(tr.data):
            return 'masked data in %s' % tr
        if abs(tr.stats.delta - DT) > 1e-9:
            return 'sample interval %r in %s' % (tr.stats.delta, tr)
        t0, t, err = trace_error(tr, K, tref)
        bad = np.where(np.abs(err) > abs(K) * tol + 1.01)[0]
        if len(bad):
            b = bad[0]
            return ('%s: %d of %d samples are wrong; sample at %s has value %d, recorded there: %.1f '
                    '(off by %.4f s)' % (tr, len(bad), tr.stats.npts, tr.stats.starttime + b * DT,
                                         tr.data[b], K * t[b], err[b] / K))
        segs.append((t0, t0 + (tr.stats.npts - 1) * DT, tr))
    segs.sort(key=lambda s: s[0])
    for a, b in zip(segs, segs[1:]):
        if b[0] - a[1] < DT / 2:
            return 'overlapping samples: %s and %s' % (a[2], b[2])
    # merge adjacent
    runs = []
    for s in segs:
        if runs and s[0] - runs[-1][1] < split_ok:
            runs[-1][1] = s[1]
        else:
            runs.append([s[0], s[1]])
    want = []
    for a, b in ivals:
        if t_lo is not None:
            a = max(a, t_lo)
        if t_hi is not None:
            b = min(b, t_hi)
        if b - a > 0:
            want.append((a, b))
    desc = 'output covers %s, recorded %s' % (
        [(round(a - tref, 3), round(b - tref, 3)) for a, b in runs],
        [(round(a - tref, 3), round(b - tref, 3)) for a, b in want])
    for a, b in runs:       # nothing invented
        if not any(a >= x - 0.0075 and b <= y + 0.0075 for x, y in want):
            return 'output where nothing was recorded (or through a gap): ' + desc
    if require_all:
        first = True
        for x, y in want:
            inside = [(a, b) for a, b in runs if a >= x - 0.0075 and b <= y + 0.0075]
            ss = start_slack if first else inner_slack
            if y - x <= ss + end_slack + 0.05 and not inside:
                first = False
                continue
            if not inside:
                return 'recorded interval missing from the output: ' + desc
            if len(inside) > 1:
                return 'continuous recording split or holed in the output: ' + desc
            a, b = inside[0]
            if a - x > ss + 0.0075 or y - b > end_slack + 0.0075:
                return 'recorded samples missing from the output: ' + desc
            first = False
    return None


def read_outputs(dirname, fmt='MSEED'):
    import obspy
    out = []
    for fn in sorted(glob.glob(os.path.join(dirname, '*'))):
        st = obspy.read(fn)
        out.append((os.path.basename(fn), st))
    return out
